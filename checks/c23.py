"""C23: decomposing a representation."""
from checks.common import *

FUNCTIONS = ["irreps.decompose_representation", "irreps._get_irreps_from_matrix", "irreps.is_equivalent_irrep", "representation.get_character"]
UNKNOWNS = "one phase per basis vector of the representation space (a torus of bases around a pseudo-random one) and one phase per operation (up to three of them)"
BOUNDS = "all point groups, ordinary and spinor, and zone-boundary little co-groups; sums of up to three (thorough: four) irreps with multiplicity up to 2 (thorough: 3), dimension up to 10 (thorough: 16); and real representations of every point group (vectors, tensors, site permutations, regular) under sign changes of the basis"


def parts(p):
    R, om = base_cocycle(p)
    irr = oracle.irreps(R, om)
    if p.get("real"):
        rep = real_rep(R, p)
        chi = np.einsum("kii->k", rep)
        sel = [D for D in irr if abs(np.vdot(np.einsum("kii->k", D), chi)) > 0.5]
        return R, om, sel, rep.astype(complex)
    sel = [irr[q % len(irr)] for q, _ in p["sum"]]
    D = []
    for (q, m) in p["sum"]:
        D += [irr[q % len(irr)]] * m
    d = sum(x.shape[1] for x in D)
    rep = np.zeros((len(R), d, d), dtype=complex)
    a = 0
    for x in D:
        rep[:, a : a + x.shape[1], a : a + x.shape[1]] = x
        a += x.shape[1]
    if p["basis"]:
        U = oracle.random_unitary(d, p["basis"])
        rep = np.einsum("ai,kab,bj->kij", U.conj(), rep, U)
    return R, om, sel, rep


def real_rep(R, p):
    """A real orthogonal representation: vectors, rank-2 tensors, the regular representation or permutations of an orbit."""
    n = len(R)
    L = G.lattice_for(R)
    cart = np.array([L.T @ r @ np.linalg.inv(L.T) for r in R])
    T = oracle.table(R)
    if p["real"] == "vector":
        rep = cart
    elif p["real"] == "tensor":
        rep = np.einsum("kij,kab->kiajb", cart, cart).reshape(n, 9, 9)
    elif p["real"] == "vectors":
        rep = np.zeros((n, 6, 6))
        rep[:, :3, :3] = rep[:, 3:, 3:] = cart
    elif p["real"] == "regular":
        rep = np.zeros((n, n, n))
        for i, j in np.ndindex(n, n):
            rep[i, T[i, j], j] = 1
    else:
        pts = sorted({tuple(r @ np.array(p["point"])) for r in R})
        rep = np.zeros((n, len(pts), len(pts)))
        for i, r in enumerate(R):
            for j, q in enumerate(pts):
                rep[i, pts.index(tuple(r @ np.array(q))), j] = 1
    if p["basis"]:
        d = rep.shape[1]
        Q = np.linalg.qr(np.random.default_rng(p["basis"]).normal(size=(d, d)))[0]
        rep = np.einsum("ai,kab,bj->kij", Q, rep, Q)
    return rep


def identity(R):
    return next(i for i in range(len(R)) if (R[i] == np.eye(3)).all())


class C(Case):
    opts = {"eager_den": 1, "complex_order": "any"}

    def inputs(self, ctx):
        _, _, _, rep = parts(self.params)
        if self.params.get("real"):
            return {f"x{i}": ctx.integer(f"x{i}", 0, 1) for i in range(1, rep.shape[1])}
        out = {f"x{i}": ctx.real(f"x{i}", 0, 1) for i in range(1, rep.shape[1])}
        out.update({f"b{i}": ctx.real(f"b{i}", 0, 1) for i in self.params["free"]})
        return out

    def build(self, get, kind):
        R, om, sel, rep = parts(self.params)
        n, d = rep.shape[:2]
        e = identity(R)
        b = [1.0 if i == e or i not in self.params["free"] else get(f"b{i}") for i in range(n)]
        x = [1.0] + [get(f"x{i}") for i in range(1, d)]
        out = np.zeros((n, d, d), dtype=kind)
        for k, i, j in np.ndindex(n, d, d):
            if abs(rep[k, i, j]) > 1e-12:
                v = complex(rep[k, i, j]) * b[k] * np.conj(x[i]) * x[j]
                out[k, i, j] = V.norm(v).simp() if isinstance(v, V.Sym) else v
        z = gauge(om, oracle.table(R), b)
        return R, z, sel, out, b, x

    def symbolic(self, ctx, L, inp, obl):
        w = 0.5 if self.params.get("real") else 1.0
        R, z, sel, rep, b, x = self.build(lambda q: laws.phase(inp[q] * w), object)
        n = len(R)
        irreps = gauge_draws(ctx, x, lambda: L.mods["spgrep.irreps"].decompose_representation(SA(rep.copy(), "c")))
        obl.true("one irrep per distinct constituent", len(irreps) == len(sel))
        laws.rep_obligations(ctx, obl, irreps, R, np.zeros((n, 3)), [0.0] * 3, om=z, complete=False)
        want = [np.array([b[k] * complex(np.trace(D[k])) for k in range(n)], dtype=object) for D in sel]
        got = [laws.characters(r) for r in irreps]
        hit = []
        for g in got:
            row = []
            for w in want:
                s = 0.0
                for k in range(n):
                    s = s + V.Sym.lift(w[k]).conjugate() * g[k]
                v = V.norm(V.Sym.lift(s) * (1.0 / n))
                if not v.is_const():
                    v = V.norm(V.Sym.lift(ctx.refine_const(v)))
                row.append(v.value() if v.is_const() else v)
            if any(isinstance(v, V.Sym) for v in row):
                raise V.Unsupported("characters not comparable")
            row = np.array(row)
            obl.true("constituent recognised", bool(np.abs(np.sort(np.abs(row)) - np.eye(len(want))[-1]).max() < 1e-5 and np.abs(row.max() - 1) < 1e-5))
            hit.append(int(np.argmax(np.abs(row))))
        obl.true("every constituent once", sorted(hit) == list(range(len(sel))))

    def concrete(self, vals):
        w = 0.5 if self.params.get("real") else 1.0
        R, z, sel, rep, _, _ = self.build(lambda q: np.exp(2j * np.pi * float(vals[q]) * w), complex)
        n = len(R)
        irreps = call(real("irreps").decompose_representation, rep.copy())
        if len(irreps) != len(sel):
            return f"{len(irreps)} irreps returned, the representation contains {len(sel)}"
        m = oracle.rep_list(irreps, R, np.zeros((n, 3)), np.zeros(3), om=z)
        if m:
            return m
        b = {i: np.exp(2j * np.pi * vals[f"b{i}"]) for i in self.params["free"]}
        w = np.array([[b.get(k, 1.0) * np.trace(D[k]) for k in range(n)] for D in sel])
        g = np.array([np.einsum("kii->k", r) for r in irreps])
        G = w.conj() @ g.T / n
        ok = np.abs(np.sort(np.abs(G), axis=1)[:, -1] - 1).max() < 1e-5 and np.abs(np.abs(G).sum(0) - 1).max() < 1e-5 and np.abs(np.abs(G).sum(1) - 1).max() < 1e-5 and np.abs(G.sum() - len(sel)) < 1e-5
        return None if ok else "returned irreps are not the constituents"


def make(**p):
    return C(**p)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    cases = []
    for q, pg in enumerate(G.pointgroups()):
        for spin in (0, 1):
            cases.append(dict(pg=pg, spin=spin, order=["db", "rev", "shuf1", "shuf2"][(q + spin) % 4]))
    for h, k in nontrivial_cocycles(QUICK_HALLS if not th else G.default_halls()):
        cases.append(dict(hall=h, k=k, order="db"))
    for q, c in enumerate(cases):
        R, om = base_cocycle(c)
        n = len(R)
        dims = [D.shape[1] for D in oracle.irreps(R, om)]
        rng = np.random.default_rng(seed * 1000 + q)
        e = identity(R)
        rest = [i for i in range(n) if i != e]
        limit = 10 if not th else 16
        seen = set()
        for rep in range(3 if not th else 10):
            for _ in range(20):
                w = int(rng.integers(1, 4 if not th else 5))
                idx = sorted(int(x) for x in rng.permutation(len(dims))[:w])
                mult = [int(rng.integers(1, 3 if not th else 4)) for _ in idx]
                if rep == 0:
                    mult[-1] = 2
                key = (tuple(idx), tuple(mult))
                if sum(m * dims[i] for i, m in zip(idx, mult)) <= limit and key not in seen:
                    seen.add(key)
                    free = sorted(int(x) for x in rng.choice(rest, min(3, n - 1), replace=False)) if n > 1 and rep % 2 == 0 else []
                    out.append(dict(c, sum=[[i, m] for i, m in zip(idx, mult)], basis=int(rep != 1) * (q + 1), free=free))
                    break
    for q, (pg, R) in enumerate(G.pointgroups().items()):
        for w, kind in enumerate(["vector", "tensor", "vectors", "orbit", "regular"]):
            if kind == "regular" and len(R) > (8 if not th else 16):
                continue
            if kind == "orbit" and (q + seed) % 2 and not th:
                continue
            o = ["db", "shuf1", "rev", "shuf2"][(q + w) % 4]
            for b in (0, q + 1) if th else ((q + w) % 2 * (q + 1),):
                out.append(dict(pg=pg, spin=0, order=o, real=kind, point=[0, 0, 1] if q % 2 else [1, 0, 0], basis=b, free=[]))
    out.sort(key=lambda j: -len(base_cocycle(j)[0]))
    return out
