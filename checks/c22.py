"""C22: chain construction and random diagonalisation agree; unknown method names are rejected."""
from checks import c01
from checks.common import *
from checks.c01 import FUNCTIONS  # noqa: F401

UNKNOWNS = "k in R^3"
BOUNDS = c01.BOUNDS


class C(c01.C):
    def symbolic(self, ctx, L, inp, obl):
        r, t = self.ops()
        f = L.mods["spgrep.core"].get_spacegroup_irreps_from_primitive_symmetry
        k = np.array(self.k, dtype=object)
        ir1, mp1 = f(r.copy(), SA(t.copy()), SA(k.copy()), method="Neto")
        ir2, mp2 = f(r.copy(), SA(t.copy()), SA(k.copy()), method="random")
        mp1, mp2 = [int(x) for x in laws.raw(mp1)], [int(x) for x in laws.raw(mp2)]
        obl.true("same little group", mp1 == mp2)
        if mp1 == mp2:
            laws.same_up_to_equivalence(ctx, obl, ir1, ir2, len(mp1))
        for name in ("neto", "", "Random"):
            try:
                f(r.copy(), SA(t.copy()), SA(k.copy()), method=name)
                obl.true("unknown method rejected", False)
            except ValueError:
                obl.true("unknown method rejected", True)

    def concrete(self, vals):
        r, t = self.ops()
        k = laws.kval(vals)
        if oracle.ambiguous(r, k):
            return None
        f = real("core").get_spacegroup_irreps_from_primitive_symmetry
        for name in ("neto", "", "Random"):
            try:
                f(r.copy(), t.copy(), k.copy(), method=name)
                return f"method {name!r} accepted"
            except ValueError:
                pass
        ir1, mp1 = call(f, r.copy(), t.copy(), k.copy(), method="Neto")
        ir2, mp2 = call(f, r.copy(), t.copy(), k.copy(), method="random")
        if list(mp1) != list(mp2):
            return f"little groups differ: {list(mp1)} {list(mp2)}"
        return oracle.match_chars(ir1, ir2, len(mp1))


def make(**p):
    return C(**p)


def jobs(tier, seed):
    return [{**j, "method": "both"} for j in c01.jobs(tier, seed) if j["method"] == "Neto"]
