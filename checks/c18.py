"""C18: intertwiners and Frobenius-Schur indicators."""
from checks.common import *
from checks import c23

FUNCTIONS = ["representation.get_intertwiner", "representation.frobenius_schur_indicator"]
UNKNOWNS = ("the whole random matrix that is drawn (any complex d x d matrix with non-zero average: modulus and phase of the average and all d^2-1 components of the kernel), "
            "one phase per basis vector of either representation, one phase per operation (up to three)")
BOUNDS = "every irrep of all point groups, ordinary and spinor, and of zone-boundary little co-groups; second representation in the same, a permuted or a pseudo-random unitary basis"


def irrep(p):
    R, om = base_cocycle(p)
    D = oracle.irreps(R, om)
    D = D[p["irrep"]]
    return R, om, D


def second(D, basis):
    d = D.shape[1]
    if basis == "perm":
        U = np.roll(np.eye(d), 1, axis=0).astype(complex)
    elif basis:
        U = oracle.random_unitary(d, 100 + basis)
    else:
        U = np.eye(d, dtype=complex)
    return U, np.einsum("ai,kab,bj->kij", U.conj(), D, U)


def kernel(D1, D2, U):
    """Numeric basis of the d x d matrices whose average is zero; U spans the complement."""
    d = len(U)
    q = np.linalg.qr(np.concatenate([U.reshape(-1, 1), oracle.random_unitary(d * d, 3)[:, : d * d - 1]], axis=1))[0]
    return [q[:, a].reshape(d, d) for a in range(1, d * d)]


def dress(rep, b, x, y, kind):
    out = np.zeros(rep.shape, dtype=kind)
    for k, i, j in np.ndindex(*rep.shape):
        if abs(rep[k, i, j]) > 1e-12:
            v = complex(rep[k, i, j]) * b[k] * np.conj(x[i]) * y[j]
            out[k, i, j] = V.norm(v).simp() if isinstance(v, V.Sym) else v
    return out


class Inter(Case):
    opts = {"eager_den": 1}

    def inputs(self, ctx):
        R, om, D = irrep(self.params)
        d = D.shape[1]
        out = {f"x{i}": ctx.real(f"x{i}", 0, 1) for i in range(d)}
        out.update({f"y{i}": ctx.real(f"y{i}", 0, 1) for i in range(d)})
        out.update({f"b{i}": ctx.real(f"b{i}", 0, 1) for i in self.params["free"]})
        out["rho"] = ctx.positive("rho")
        out["phi"] = ctx.real("phi", 0, 1)
        for a in range(d * d - 1):
            out[f"r{a}"] = ctx.real(f"r{a}", -1, 1)
            out[f"i{a}"] = ctx.real(f"i{a}", -1, 1)
        return out

    def build(self, ph, val, kind):
        p = self.params
        R, om, D = irrep(p)
        n, d = D.shape[:2]
        U, D2 = second(D, p["basis"])
        b = [ph(f"b{i}") if i in p["free"] else 1.0 for i in range(n)]
        x, y = [ph(f"x{i}") for i in range(d)], [ph(f"y{i}") for i in range(d)]
        K = kernel(D, D2, U)
        X = np.zeros((d, d), dtype=kind)
        for i, j in np.ndindex(d, d):
            s = val("rho") * ph("phi") * complex(U[i, j])
            for a, k in enumerate(K):
                s = s + (val(f"r{a}") + val(f"i{a}") * 1j) * complex(k[i, j])
            s = s * np.conj(x[i]) * y[j]
            X[i, j] = V.norm(V.Sym.lift(s)).simp() if kind == object else s
        return dress(D, b, x, x, kind), dress(D2, b, y, y, kind), X

    def symbolic(self, ctx, L, inp, obl):
        r1, r2, X = self.build(lambda q: laws.phase(inp[q]), lambda q: inp[q], object)
        n, d = r1.shape[:2]
        state = {"n": 0}

        def hook(name, a, k):
            if name != "random" or tuple(np.ravel(a[0] if a else ())) != (d, d):
                return None
            state["n"] += 1
            return SA(X.copy(), "c") if state["n"] % 2 else SA(np.zeros((d, d), dtype=complex))

        ctx.rng_hook = hook
        ctx.assumptions_made.add("two successive draws are the real and imaginary part of an arbitrary complex matrix with non-zero average")
        M = laws.raw(L.mods["spgrep.representation"].get_intertwiner(SA(r1.copy(), "c"), SA(r2.copy(), "c")))
        obl.true("shape", M.shape == (d, d))
        M = M.astype(object)
        for k in range(n):
            eq_entries(obl, "intertwines", np.matmul(r1[k], M), np.matmul(M, r2[k]))
        obl.equal("determinant is one", laws.raw(L.mods["spgrep.representation"].np.linalg.det(SA(M))), 1.0)
        eq_entries(obl, "unitary", np.matmul(M, laws.dag(M)), np.eye(d))

    def concrete(self, vals):
        r1, r2, X = self.build(lambda q: np.exp(2j * np.pi * vals[q]), lambda q: vals[q], complex)
        d = len(X)

        class Rng:
            n = 0

            def random(self, shape=None, *a, **k):
                assert tuple(shape) == (d, d)
                Rng.n += 1
                return X.real.copy() if Rng.n % 2 else X.imag.copy()

        orig = np.random.default_rng
        fn = real("representation").get_intertwiner
        try:
            np.random.default_rng = lambda *a, **k: Rng()
            try:
                M = call(fn, r1.copy(), r2.copy())
            except CodeRaised as e:
                if "AssertionError" in str(e):
                    M = None
                else:
                    raise
        finally:
            np.random.default_rng = orig
        if M is None:
            M = call(fn, r1.copy(), r2.copy())
        e = max(np.abs(a @ M - M @ b).max() for a, b in zip(r1, r2))
        if not e < 1e-6:
            return f"matrix does not intertwine ({e:.3g})"
        if not abs(np.linalg.det(M) - 1) < 1e-6:
            return f"determinant {np.linalg.det(M)}"
        if not np.abs(M @ M.conj().T - np.eye(d)).max() < 1e-6:
            return "intertwiner of unitary representations is not unitary"
        return None


class Ind(Case):
    opts = {"eager_den": 1}

    def inputs(self, ctx):
        _, _, D = irrep(self.params)
        return {f"x{i}": ctx.real(f"x{i}", 0, 1) for i in range(D.shape[1])}

    def build(self, ph, kind):
        R, om, D = irrep(self.params)
        U, D2 = second(D, self.params["basis"])
        T = oracle.table(R)
        ind = sum(om[i, i] * np.trace(D[T[i, i]]) for i in range(len(R))).real / len(R)
        x = [ph(f"x{i}") for i in range(D.shape[1])]
        return dress(D2, [1.0] * len(R), x, x, kind), int(round(ind))

    def symbolic(self, ctx, L, inp, obl):
        rep, want = self.build(lambda q: laws.phase(inp[q]), object)
        got = L.mods["spgrep.representation"].frobenius_schur_indicator(SA(rep.copy(), "c"))
        obl.true("indicator", not isinstance(got, V.Sym) and got == want)

    def concrete(self, vals):
        rep, want = self.build(lambda q: np.exp(2j * np.pi * vals[q]), complex)
        got = call(real("representation").frobenius_schur_indicator, rep.copy())
        return None if got == want else f"indicator {got}, expected {want}"


def make(**p):
    return Ind(**p) if p["what"] == "ind" else Inter(**p)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    cases = []
    for q, pg in enumerate(G.pointgroups()):
        for spin in (0, 1):
            cases.append(dict(pg=pg, spin=spin, order=["db", "rev", "shuf1", "shuf2"][(q + spin) % 4]))
    for h, k in nontrivial_cocycles(QUICK_HALLS if not th else G.default_halls()):
        cases.append(dict(hall=h, k=k, order="db"))
    for q, c in enumerate(cases):
        R, om = base_cocycle(c)
        n = len(R)
        rng = np.random.default_rng(seed * 1000 + q + 11)
        e = c23.identity(R)
        rest = [i for i in range(n) if i != e]
        for a, D in enumerate(oracle.irreps(R, om)):
            for basis in (0, "perm", q + 1) if D.shape[1] > 1 else (0,):
                free = sorted(int(x) for x in rng.choice(rest, min(3, n - 1), replace=False)) if n > 1 else []
                if D.shape[1] <= (3 if not th else 6) and (th or basis != "perm" or a % 2):
                    out.append(dict(c, what="inter", irrep=a, basis=basis, free=free))
                if "pg" in c:
                    out.append(dict(c, what="ind", irrep=a, basis=basis))
    out.sort(key=lambda j: -len(base_cocycle(j)[0]))
    return out
