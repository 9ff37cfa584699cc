"""C21: k and k + G give the same little group and equivalent small representations."""
from checks import c01
from checks.common import *
from checks.c01 import FUNCTIONS  # noqa: F401

UNKNOWNS = "k in R^3 and the reciprocal lattice vector G in Z^3 (unbounded)"
BOUNDS = c01.BOUNDS


class C(c01.C):
    def inputs(self, ctx):
        inp, self.k = laws.kvec(ctx)
        self.G = []
        for i in range(3):
            g = ctx.integer(f"G{i}")
            inp[f"G{i}"] = g
            self.G.append(g)
        return inp

    def symbolic(self, ctx, L, inp, obl):
        r, t = self.ops()
        f = L.mods["spgrep.core"].get_spacegroup_irreps_from_primitive_symmetry
        m = self.params["method"]
        ir1, mp1 = f(r.copy(), SA(t.copy()), SA(np.array(self.k, dtype=object)), method=m)
        ir2, mp2 = f(r.copy(), SA(t.copy()), SA(np.array([a + b for a, b in zip(self.k, self.G)], dtype=object)), method=m)
        mp1, mp2 = [int(x) for x in laws.raw(mp1)], [int(x) for x in laws.raw(mp2)]
        obl.true("same little group", mp1 == mp2)
        if mp1 == mp2:
            laws.same_up_to_equivalence(ctx, obl, ir1, ir2, len(mp1))

    def concrete(self, vals):
        r, t = self.ops()
        k = laws.kval(vals)
        g = np.array([vals[f"G{i}"] for i in range(3)])
        if np.abs(g).max() > 1e4 or oracle.ambiguous(r, k):
            return None
        f = real("core").get_spacegroup_irreps_from_primitive_symmetry
        m = self.params["method"]
        ir1, mp1 = call(f, r.copy(), t.copy(), k.copy(), method=m)
        ir2, mp2 = call(f, r.copy(), t.copy(), k + g, method=m)
        if list(mp1) != list(mp2):
            return f"little groups differ: {list(mp1)} {list(mp2)}"
        return oracle.match_chars(ir1, ir2, len(mp1))


def make(**p):
    return C(**p)


def jobs(tier, seed):
    js = c01.jobs(tier, seed)
    if tier == "quick":
        js = [j for i, j in enumerate(js) if len(G.primitive(j["hall"])[1]) <= 24 and (j["method"] == "Neto" or len(G.primitive(j["hall"])[1]) <= 8)]
    return js
