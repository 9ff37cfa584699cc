"""C12: symmetry-adapted tensors."""
from checks.common import *
from symx import arrays as A

FUNCTIONS = ["tensor.get_symmetry_adapted_tensors", "tensor.apply_intrinsic_symmetry", "representation.project_to_irrep", "representation.get_direct_product",
             "utils.grassmann_distance", "irreps.is_equivalent_irrep"]
UNKNOWNS = "one phase per basis vector of the representation space; for index symmetrisation also a positive scale and a phase per tensor; for real tensors the sign of each basis vector"
BOUNDS = "all point groups; representations: Cartesian vectors and sums of two irreps, dimension up to 4 (quick: 3 beyond order 12); ranks 1 to 3; any positive scale. Index symmetrisation also for arbitrary lists of up to five tensors (nearly dependent, nearly antisymmetric, repeated), dimension up to 3 (thorough: 4), rank up to 4, any positive scales and phases"


def base(p):
    R = G.pointgroups()[p["pg"]]
    R = R[G.order_ops(len(R), p["order"])]
    n = len(R)
    if p["sum"] == "vector":
        lat = G.lattice_for(R)
        rep = np.array([lat.T @ r @ np.linalg.inv(lat.T) for r in R])
        rep = np.where(np.abs(rep - np.round(rep * 2) / 2) < 1e-9, np.round(rep * 2) / 2, rep).astype(complex)
    else:
        irr = oracle.irreps(R, np.ones((n, n)))
        D = [irr[q % len(irr)] for q in p["sum"]]
        d = sum(x.shape[1] for x in D)
        rep = np.zeros((n, d, d), dtype=complex)
        a = 0
        for x in D:
            rep[:, a : a + x.shape[1], a : a + x.shape[1]] = x
            a += x.shape[1]
    if p["basis"]:
        U = oracle.random_unitary(rep.shape[1], p["basis"])
        if p.get("real"):
            U = np.linalg.qr(np.real(U))[0]
        rep = np.einsum("ai,kab,bj->kij", U.conj(), rep, U)
    return R, rep


def counts(rep, T, rank):
    ch = np.einsum("kii->k", rep)
    sq = np.diag(T)
    cu = np.array([T[T[i, i], i] for i in range(len(T))])
    full = (ch**rank).mean().real
    sym = {1: ch, 2: (ch**2 + ch[sq]) / 2, 3: (ch**3 + 3 * ch * ch[sq] + 2 * ch[cu]) / 6}[rank].mean().real
    return int(round(full)), int(round(sym))


def act(mat, t):
    """matrix acting on every index."""
    for ax in range(t.ndim):
        t = np.moveaxis(np.tensordot(mat, t, axes=(1, ax)), 0, ax)
    return t


class C(Case):
    opts = {"eager_den": 1, "max_enum": 100}

    def inputs(self, ctx):
        R, rep = base(self.params)
        d = rep.shape[1]
        if self.params.get("real"):
            self.sg = {f"x{i}": ctx.integer(f"x{i}", 0, 1) for i in range(1, d)}
            return self.sg
        out = {f"x{i}": ctx.real(f"x{i}", 0, 1) for i in range(1, d)}
        for q in range(counts(rep, oracle.table(R), self.params["rank"])[0]):
            out[f"s{q}"] = ctx.positive(f"s{q}")
            out[f"f{q}"] = ctx.real(f"f{q}", 0, 1)
        return out

    def dressed(self, x, kind):
        R, rep = base(self.params)
        out = np.zeros(rep.shape, dtype=kind)
        for k, i, j in np.ndindex(*rep.shape):
            if abs(rep[k, i, j]) > 1e-12:
                v = complex(rep[k, i, j]) * np.conj(x[i]) * x[j]
                out[k, i, j] = V.norm(v).simp() if isinstance(v, V.Sym) else v
        return R, out

    def independent(self, obl, name, ts):
        if len(ts) < 1:
            return
        W = np.array([t.ravel() for t in ts])
        if W.dtype != object:
            obl.true(name, np.linalg.svd(W, compute_uv=False)[-1] > 1e-3)
            return
        g = A.demote(np.matmul(W, laws.dag(W)))
        f = A.factor_phases(g.astype(object))
        if f is None:
            raise V.Unsupported("Gram matrix is not a dressed number matrix")
        obl.true(name, bool(np.linalg.svd(f[1], compute_uv=False)[-1] > 1e-5))

    def symbolic(self, ctx, L, inp, obl):
        p = self.params
        rank = p["rank"]
        R, rep0 = base(p)
        d = rep0.shape[1]
        if p.get("real"):
            x = [1.0] + [1.0 - 2.0 * ctx.concretize_int(inp[f"x{i}"]) for i in range(1, d)]
            R, rep = self.dressed(x, complex)
            arg = np.real(rep).copy()
        else:
            x = [1.0] + [laws.phase(inp[f"x{i}"]) for i in range(1, d)]
            R, rep = self.dressed(x, object)
            arg = SA(rep.copy(), "c")
        full, sym = counts(rep0, oracle.table(R), rank)
        mod = L.mods["spgrep.tensor"]
        ts = mod.get_symmetry_adapted_tensors(arg, R.copy(), rank, real=bool(p.get("real")))
        raw = [laws.raw(t) for t in ts]
        obl.true("as many tensors as invariants", len(ts) == full)
        obl.true("shape of the tensors", all(t.shape == (d,) * rank for t in raw))
        if p.get("real"):
            obl.true("tensors are real", all(t.dtype != object and np.abs(np.imag(t)).max() < 1e-9 for t in raw))
        gens = range(len(R))
        for q, t in enumerate(raw):
            t = t.astype(object)
            for k in gens:
                eq_entries(obl, f"tensor {q} is invariant", act(rep[k].astype(object), t), t)
        self.independent(obl, "tensors are independent", raw)
        if p.get("real"):
            scaled = [t.copy() for t in ts]
        else:
            scaled = []
            for q, t in enumerate(raw):
                s = laws.phase(inp[f"f{q}"]) * inp[f"s{q}"] if f"f{q}" in inp else 1.0
                o = np.empty(t.shape, dtype=object)
                for idx, v in np.ndenumerate(t):
                    w = s * v if isinstance(v, V.Sym) or v != 0 else 0.0
                    o[idx] = V.norm(w).simp() if isinstance(w, V.Sym) else w
                scaled.append(SA(o, "c"))
        if not ts:
            return
        ss = [laws.raw(t) for t in mod.apply_intrinsic_symmetry(scaled)]
        obl.true("as many symmetric tensors as symmetric invariants", len(ss) == sym)
        from itertools import permutations

        for q, t in enumerate(ss):
            t = t.astype(object)
            for perm in permutations(range(rank)):
                eq_entries(obl, f"symmetric tensor {q} is symmetric", np.transpose(t, perm), t)
            for k in gens:
                eq_entries(obl, f"symmetric tensor {q} is invariant", act(rep[k].astype(object), t), t)
        self.independent(obl, "symmetric tensors are independent", ss)

    def concrete(self, vals):
        from itertools import permutations

        p = self.params
        rank = p["rank"]
        R, rep0 = base(p)
        d = rep0.shape[1]
        if p.get("real"):
            x = [1.0] + [1.0 - 2.0 * round(vals[f"x{i}"]) for i in range(1, d)]
        else:
            x = [1.0] + [np.exp(2j * np.pi * vals[f"x{i}"]) for i in range(1, d)]
        R, rep = self.dressed(x, complex)
        full, sym = counts(rep0, oracle.table(R), rank)
        t = real("tensor")
        ts = call(t.get_symmetry_adapted_tensors, rep.real.copy() if p.get("real") else rep.copy(), R.copy(), rank, real=bool(p.get("real")))
        if len(ts) != full:
            return f"{len(ts)} tensors, {full} invariants"
        if p.get("real") and any(np.abs(np.imag(x)).max() > 1e-9 for x in ts):
            return "complex tensor with real=True"
        inv = lambda t: max(np.abs(act(m, t) - t).max() for m in rep)  # noqa: E731
        if any(not inv(t) < 1e-6 for t in ts):
            return "tensor not invariant"
        if ts and np.linalg.svd(np.array([t.ravel() for t in ts]), compute_uv=False)[-1] < 1e-3:
            return "tensors dependent"
        if not ts:
            return None
        sc = [1.0 if p.get("real") else vals[f"s{q}"] * np.exp(2j * np.pi * vals[f"f{q}"]) for q in range(len(ts))]
        ss = call(t.apply_intrinsic_symmetry, [s * x for s, x in zip(sc, ts)])
        if len(ss) != sym:
            return f"{len(ss)} symmetric tensors, {sym} symmetric invariants"
        for x in ss:
            if any(np.abs(np.transpose(x, q) - x).max() > 1e-6 for q in permutations(range(rank))):
                return "symmetrised tensor not symmetric"
            if not inv(x) < 1e-6:
                return "symmetrised tensor not invariant"
        if ss and np.linalg.svd(np.array([t.ravel() for t in ss]), compute_uv=False)[-1] < 1e-3:
            return "symmetrised tensors dependent"
        return None


class Sym(Case):
    """Index symmetrisation of arbitrary lists: near dependencies, small symmetric parts, repetitions."""

    opts = {"eager_den": 1, "max_enum": 100}

    def lists(self):
        from itertools import permutations

        p = self.params
        rng = np.random.default_rng(p["seed"])
        shape = (p["dim"],) * p["rank"]
        perms = list(permutations(range(p["rank"])))
        draw = lambda: rng.normal(size=shape) + (0 if p["kind"] == "real" else 1j * rng.normal(size=shape))  # noqa: E731
        symm = lambda t: sum(np.transpose(t, q) for q in perms) / len(perms)  # noqa: E731
        a, b, c = draw(), draw(), draw()
        anti = c - symm(c)
        out = {
            "near": [a, a + 0.03 * b, c],
            "small": [anti + 1e-3 * symm(a), symm(b), anti],
            "again": [a, 2 * np.transpose(a, perms[-1]), b, a + b, c],
            "anti": [anti, a],
        }[p["list"]]
        out = [o / np.linalg.norm(o) for o in out]
        S = np.array([symm(o).ravel() for o in out])
        S = S[np.linalg.norm(S, axis=1) > 1e-9]
        S /= np.linalg.norm(S, axis=1)[:, None]
        want = int((np.linalg.svd(S, compute_uv=False) > 1e-6).sum())
        return out, want, S

    def inputs(self, ctx):
        out = {}
        for q in range(len(self.lists()[0])):
            out[f"s{q}"] = ctx.positive(f"s{q}")
            if self.params["kind"] != "real":
                out[f"f{q}"] = ctx.real(f"f{q}", 0, 1)
        return out

    independent = C.independent

    def symbolic(self, ctx, L, inp, obl):
        from itertools import permutations

        ts, want, S = self.lists()
        arg = []
        for q, t in enumerate(ts):
            s = inp[f"s{q}"] * (laws.phase(inp[f"f{q}"]) if f"f{q}" in inp else 1.0)
            o = np.empty(t.shape, dtype=object)
            for idx, v in np.ndenumerate(t):
                o[idx] = V.norm(s * v).simp() if v != 0 else 0.0
            arg.append(SA(o, "c" if f"f{q}" in inp else "f"))
        ss = [laws.raw(t).astype(object) for t in L.mods["spgrep.tensor"].apply_intrinsic_symmetry(arg)]
        obl.true("dimension of the symmetrised span", len(ss) == want)
        for q, t in enumerate(ss):
            obl.true("shape of the tensors", t.shape == ts[0].shape)
            for perm in permutations(range(t.ndim)):
                eq_entries(obl, f"symmetric tensor {q} is symmetric", np.transpose(t, perm), t)
        self.independent(obl, "symmetric tensors are independent", ss)
        # inside the span: the component orthogonal to it vanishes
        u, w, vh = np.linalg.svd(S, full_matrices=True)
        rest = vh[want:]
        for q, t in enumerate(ss):
            v = np.matmul(rest.conj(), t.ravel())
            eq_entries(obl, f"symmetric tensor {q} lies in the span", v, np.zeros(len(v)))

    def concrete(self, vals):
        from itertools import permutations

        ts, want, S = self.lists()
        arg = [vals[f"s{q}"] * (np.exp(2j * np.pi * vals[f"f{q}"]) if f"f{q}" in vals else 1.0) * t for q, t in enumerate(ts)]
        ss = call(real("tensor").apply_intrinsic_symmetry, [x.copy() for x in arg])
        if len(ss) != want:
            return f"{len(ss)} symmetric tensors, the span has dimension {want}"
        for x in ss:
            if x.shape != ts[0].shape or any(np.abs(np.transpose(x, q) - x).max() > 1e-6 * np.abs(x).max() for q in permutations(range(x.ndim))):
                return "symmetrised tensor not symmetric"
        W = np.array([x.ravel() / np.linalg.norm(x) for x in ss])
        if np.linalg.svd(W, compute_uv=False)[-1] < 1e-5:
            return "symmetrised tensors dependent"
        vh = np.linalg.svd(S, full_matrices=True)[2]
        if np.abs(vh[want:].conj() @ W.T).max(initial=0) > 1e-6:
            return "symmetrised tensors leave the span"
        return None


def make(**p):
    return Sym(**p) if "list" in p else C(**p)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    for q, (pg, R) in enumerate(G.pointgroups().items()):
        n = len(R)
        order = ["db", "rev", "shuf1", "shuf2"][q % 4]
        rng = np.random.default_rng(seed * 1000 + q + 9)
        irr = [D.shape[1] for D in oracle.irreps(R, np.ones((n, n)))]
        for rank in (1, 2, 3):
            for basis in (0, q + 1):
                if rank == 3 and n > 12 and basis and not th:
                    continue
                out.append(dict(pg=pg, order=order, sum="vector", basis=basis, rank=rank))
            out.append(dict(pg=pg, order=order, sum="vector", basis=(q + 1 if rank < 3 else 0), rank=rank, real=1))
        pairs = [(a, b) for a in range(len(irr)) for b in range(a, len(irr)) if irr[a] + irr[b] <= (4 if n <= 12 or th else 3)]
        sel = [pairs[i] for i in rng.permutation(len(pairs))[: 3 if not th else 12]]
        for i, (a, b) in enumerate(sel):
            for rank in (1, 2, 3):
                if rank == 3 and (n > 12 or irr[a] + irr[b] > 3) and not th:
                    continue
                out.append(dict(pg=pg, order=order, sum=[a, b], basis=(i + 1) % 2 * (q + 1), rank=rank))
    # with the literal tolerances of the code (no idealisation): how the scale of the input enters
    for pg in ("1", "m", "3", "222", "4mm", "23"):
        if pg in G.pointgroups():
            out.append(dict(pg=pg, order="db", sum="vector", basis=0, rank=2, opts="exact"))
    extra = []
    for dim, rank in ((2, 2), (3, 2), (2, 3), (3, 3), (2, 4)) + (((4, 2), (4, 3), (3, 4)) if th else ()):
        for lst in ("near", "small", "again", "anti"):
            for kind in ("complex", "real"):
                extra += [dict(dim=dim, rank=rank, list=lst, kind=kind, seed=seed * 100 + dim * 10 + rank + s) for s in range(3 if th else 1)]
    out.sort(key=lambda j: -len(G.pointgroups()[j["pg"]]) * 10 ** j["rank"])
    return out + extra
