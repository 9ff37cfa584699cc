"""C10: regular representations."""
from checks.common import *

FUNCTIONS = ["representation.get_regular_representation", "representation.get_projective_regular_representation", "group.get_cayley_table"]
UNKNOWNS = "one phase per operation (arbitrary coboundary on top of the base factor system); start and direction of the listing for the plain regular representation"
BOUNDS = "all point groups ; base factor systems: trivial, spinor, and little co-groups of non-symmorphic space groups at zone-boundary points"


class C(Case):
    def inputs(self, ctx):
        R, _ = base_cocycle(self.params)
        return {f"b{i}": ctx.real(f"b{i}", 0, 1) for i in range(len(R))}

    def symbolic(self, ctx, L, inp, obl):
        R, om = base_cocycle(self.params)
        T = oracle.table(R)
        n = len(R)
        z = gauge(om, T, [laws.phase(inp[f"b{i}"]) for i in range(n)])
        reg = laws.raw(L.mods["spgrep.representation"].get_projective_regular_representation(R.copy(), SA(z.copy(), "c")))
        obl.true("shape", reg.shape == (n, n, n))
        # column j of the matrix of i: one entry, in row table[i, j]
        rows = []
        for i in range(n):
            cols = [[a for a in range(n) if isinstance(reg[i, a, j], V.Sym) or abs(reg[i, a, j]) > 1e-12] for j in range(n)]
            rows.append(cols)
        obl.true("one entry per column", all(len(c) == 1 for cols in rows for c in cols))
        if not all(len(c) == 1 for cols in rows for c in cols):
            return
        for i, j in np.ndindex(n, n):
            for c in range(n):
                a = rows[j][c][0]
                b = rows[i][a][0]
                l = T[i, j]
                if rows[l][c][0] != b:
                    obl.true("product of permutations", False)
                    return
                obl.zero("product law", V.Sym.lift(reg[i, b, a]) * reg[j, a, c] - V.Sym.lift(z[i, j]) * reg[l, b, c])
        for i in range(n):
            tr = [reg[i, a, a] for a in range(n)]
            obl.true("trace", all(not isinstance(x, V.Sym) and abs(x) < 1e-12 for x in tr) or (R[i] == np.eye(3)).all())

    def concrete(self, vals):
        R, om = base_cocycle(self.params)
        n = len(R)
        z = gauge(om, oracle.table(R), np.exp(2j * np.pi * np.array([vals[f"b{i}"] for i in range(n)])))
        reg = call(real("representation").get_projective_regular_representation, R.copy(), z)
        e = oracle.law(R, np.zeros((n, 3)), np.zeros(3), reg, om=z)
        if not e < 1e-6:
            return f"projective regular representation breaks the product law ({e:.3g})"
        tr = np.abs(np.einsum("kii->k", reg))
        want = np.array([n if (r == np.eye(3)).all() else 0 for r in R])
        return None if np.abs(tr - want).max() < 1e-6 else "wrong traces"


class P(Case):
    opts = {"max_enum": 100}

    def inputs(self, ctx):
        R = G.pointgroups()[self.params["pg"]]
        self.s, self.d = ctx.integer("start", 0, len(R) - 1), ctx.integer("reverse", 0, 1)
        return {"start": self.s, "reverse": self.d}

    def rots(self, s, d):
        R = G.pointgroups()[self.params["pg"]]
        o = [(s + i) % len(R) for i in range(len(R))]
        return R[o[::-1] if d else o].copy()

    def judge(self, R, reg):
        n = len(R)
        if reg.shape != (n, n, n) or not np.isin(reg, (0, 1)).all():
            return "not permutation matrices"
        if (reg.sum(axis=1) != 1).any() or (reg.sum(axis=2) != 1).any():
            return "not permutation matrices"
        if oracle.law(R, np.zeros((n, 3)), np.zeros(3), reg.astype(float)) > 1e-9:
            return "not a representation"
        tr = np.einsum("kii->k", reg)
        return None if all(tr[i] == (n if (R[i] == np.eye(3)).all() else 0) for i in range(n)) else "wrong traces"

    def symbolic(self, ctx, L, inp, obl):
        R = self.rots(ctx.concretize_int(self.s), ctx.concretize_int(self.d))
        reg = np.asarray(laws.raw(L.mods["spgrep.representation"].get_regular_representation(R.copy())))
        msg = self.judge(R, reg.astype(int))
        obl.true(msg or "faithful permutation representation with the right traces", msg is None)

    def concrete(self, vals):
        R = self.rots(int(vals["start"]), int(vals["reverse"]))
        return self.judge(R, np.asarray(call(real("representation").get_regular_representation, R)))


def make(**p):
    return P(**p) if p.get("plain") else C(**p)


def jobs(tier, seed):
    out = []
    lim = 48
    for i, pg in enumerate(G.pointgroups()):
        n = len(G.pointgroups()[pg])
        if n <= 24 or tier == "thorough":
            out.append({"plain": 1, "pg": pg})
        if n <= lim:
            for spin in (0, 1):
                out.append({"pg": pg, "spin": spin, "order": ["db", "rev", "shuf1", "shuf2"][(i + spin) % 4]})
    for h, k in nontrivial_cocycles(QUICK_HALLS if tier == "quick" else G.default_halls()):
        if len(base_cocycle({"hall": h, "k": k})[0]) <= (16 if tier == "quick" else 48):
            out.append({"hall": h, "k": k, "order": "shuf1"})
    out.sort(key=lambda j: -len(base_cocycle(j)[0]))
    return out
