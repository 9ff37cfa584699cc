"""C11: projection onto an irrep."""
from checks.common import *
from checks import c23
from symx import arrays as A

FUNCTIONS = ["representation.project_to_irrep", "representation.get_character", "utils.grassmann_distance"]
UNKNOWNS = "one phase per basis vector of the representation, one per basis vector of the irrep, and one per operation (up to three of them)"
BOUNDS = "all point groups, ordinary and spinor, and zone-boundary little co-groups; sums of up to three irreps with multiplicity up to 3 (thorough: 4), dimension up to 10 (thorough: 16)"


class C(Case):
    opts = {"eager_den": 1}

    def inputs(self, ctx):
        R, om, sel, rep = c23.parts(self.params)
        D = self.target(R, om)
        out = {f"x{i}": ctx.real(f"x{i}", 0, 1) for i in range(1, rep.shape[1])}
        out.update({f"y{i}": ctx.real(f"y{i}", 0, 1) for i in range(D.shape[1])})
        out.update({f"b{i}": ctx.real(f"b{i}", 0, 1) for i in self.params["free"]})
        return out

    def target(self, R, om):
        D = oracle.irreps(R, om)
        D = D[self.params["irrep"] % len(D)]
        if self.params["basis"]:
            U = oracle.random_unitary(D.shape[1], 77 + self.params["basis"])
            D = np.einsum("ai,kab,bj->kij", U.conj(), D, U)
        return D

    def build(self, get, kind):
        R, om, sel, rep = c23.parts(self.params)
        D = self.target(R, om)
        n, d = rep.shape[:2]
        e = c23.identity(R)
        b = [1.0 if i == e or i not in self.params["free"] else get(f"b{i}") for i in range(n)]

        def dress(rep, x):
            out = np.zeros(rep.shape, dtype=kind)
            for k, i, j in np.ndindex(*rep.shape):
                if abs(rep[k, i, j]) > 1e-12:
                    v = complex(rep[k, i, j]) * b[k] * np.conj(x[i]) * x[j]
                    out[k, i, j] = V.norm(v).simp() if isinstance(v, V.Sym) else v
            return out

        m = int(round((np.einsum("kii->k", D).conj() @ np.einsum("kii->k", rep)).real / n))
        return dress(rep, [1.0] + [get(f"x{i}") for i in range(1, d)]), dress(D, [get(f"y{i}") for i in range(D.shape[1])]), m

    def symbolic(self, ctx, L, inp, obl):
        rep, D, m = self.build(lambda q: laws.phase(inp[q]), object)
        n, d = rep.shape[:2]
        f = D.shape[1]
        fn = L.mods["spgrep.representation"].project_to_irrep
        basis = fn(SA(rep.copy(), "c"), SA(D.copy(), "c"))
        obl.true("one basis per occurrence", len(basis) == m)
        basis = [laws.raw(b) for b in basis]
        for q, b in enumerate(basis):
            if b.shape != (f, d):
                obl.true("shape of a basis", False)
                return
            eq_entries(obl, f"basis {q} is orthonormal", np.matmul(b.astype(object), laws.dag(b.astype(object))), np.eye(f))
            eq = 0
            for k in range(n):
                lhs = np.matmul(rep[k], b.T.astype(object))
                rhs = np.matmul(b.T.astype(object), D[k])
                eq_entries(obl, f"basis {q} transforms like the irrep", lhs, rhs)
        if m > 1 and len(basis) == m:
            W = np.concatenate(basis).astype(object)
            g = A.factor_phases(A.demote(np.matmul(W, laws.dag(W))).astype(object))
            if g is None:
                raise V.Unsupported("Gram matrix is not a dressed number matrix")
            obl.true("bases are independent", bool(np.linalg.svd(g[1], compute_uv=False)[-1] > 1e-4))
        for bad in ((SA(rep[: max(1, n - 1)].copy(), "c"), SA(D.copy(), "c")), (SA(rep[:, :, : d - 1].copy(), "c"), SA(D.copy(), "c"))):
            if bad[0].shape == rep.shape or d == 1 and bad[0].shape[0] == n:
                continue
            try:
                fn(*bad)
                obl.true("inconsistent dimensions are rejected", False)
            except ValueError:
                obl.true("inconsistent dimensions are rejected", True)

    def concrete(self, vals):
        rep, D, m = self.build(lambda q: np.exp(2j * np.pi * vals[q]), complex)
        n, d = rep.shape[:2]
        fn = real("representation").project_to_irrep
        basis = call(fn, rep.copy(), D.copy())
        if len(basis) != m:
            return f"{len(basis)} bases for an irrep that occurs {m} times"
        for b in basis:
            if b.shape != (D.shape[1], d):
                return "wrong shape"
            e = np.abs(b @ b.conj().T - np.eye(len(b))).max()
            if not e < 1e-6:
                return f"basis not orthonormal ({e:.3g})"
            e = np.abs(np.einsum("kab,jb->kaj", rep, b) - np.einsum("ia,kij->kaj", b, D)).max()
            if not e < 1e-6:
                return f"basis does not transform by the irrep ({e:.3g})"
        if m > 1 and np.linalg.svd(np.concatenate(basis), compute_uv=False)[-1] < 1e-2:
            return "bases are dependent"
        for bad in ((rep[:-1], D), (rep[:, :, :-1], D)):
            if 0 in bad[0].shape:
                continue
            try:
                fn(bad[0].copy(), D.copy())
                return "inconsistent dimensions accepted"
            except ValueError:
                pass
        return None


def make(**p):
    return C(**p)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    cases = []
    for q, pg in enumerate(G.pointgroups()):
        for spin in (0, 1):
            cases.append(dict(pg=pg, spin=spin, order=["db", "rev", "shuf1", "shuf2"][(q + spin) % 4]))
    for h, k in nontrivial_cocycles(QUICK_HALLS if not th else G.default_halls()):
        cases.append(dict(hall=h, k=k, order="db"))
    for q, c in enumerate(cases):
        R, om = base_cocycle(c)
        n = len(R)
        dims = [D.shape[1] for D in oracle.irreps(R, om)]
        rng = np.random.default_rng(seed * 1000 + q + 5)
        e = c23.identity(R)
        rest = [i for i in range(n) if i != e]
        limit = 10 if not th else 16
        for rep in range(4 if not th else 12):
            for _ in range(20):
                w = int(rng.integers(1, 4))
                idx = sorted(int(x) for x in rng.permutation(len(dims))[:w])
                mult = [int(rng.integers(1, 4 if not th else 5)) for _ in idx]
                if rep == 0:
                    mult[-1] = 3
                if sum(m * dims[i] for i, m in zip(idx, mult)) <= limit:
                    free = sorted(int(x) for x in rng.choice(rest, min(3, n - 1), replace=False)) if n > 1 and rep % 2 == 0 else []
                    irrep = idx[-1] if rep < 3 else int(rng.integers(len(dims)))
                    out.append(dict(c, sum=[[i, m] for i, m in zip(idx, mult)], basis=int(rep != 1) * (q + 1), free=free, irrep=irrep))
                    break
    out.sort(key=lambda j: -len(base_cocycle(j)[0]))
    return out
