"""C01: small representations multiply like the little group at every k (and are unitary)."""
from checks.common import *

FUNCTIONS = ["core.get_spacegroup_irreps_from_primitive_symmetry", "group.get_little_group", "group.get_factor_system_from_little_group",
             "group.get_cayley_table", "irreps.enumerate_small_representations", "irreps.enumerate_unitary_irreps",
             "irreps.enumerate_unitary_irreps_from_solvable_group_chain", "irreps.enumerate_unitary_irreps_from_regular_representation",
             "irreps.purify_irrep_value", "pointgroup.get_pointgroup_chain_generators", "representation.*", "utils.nroot"]
UNKNOWNS = "k in R^3 (three reals plus three unbounded integers)"
BOUNDS = "space groups and settings listed in the jobs (quick: 63 settings; thorough: all 230 groups and further settings), given operation order db/reversed/shuffled"
COMPLETE = False


class C(Case):
    opts = {}

    def inputs(self, ctx):
        inp, self.k = laws.kvec(ctx)
        return inp

    def ops(self):
        return prim_ops(self.params["hall"], self.params.get("order", "db"))

    def symbolic(self, ctx, L, inp, obl):
        r, t = self.ops()
        core = L.mods["spgrep.core"]
        irreps, mp = core.get_spacegroup_irreps_from_primitive_symmetry(r.copy(), SA(t.copy()), SA(np.array(self.k, dtype=object)), method=self.params["method"])
        mp = [int(x) for x in laws.raw(mp)]
        laws.rep_obligations(ctx, obl, irreps, r[mp], t[mp], self.k, complete=COMPLETE)
        obl.true("at least one representation", len(irreps) > 0)

    def concrete(self, vals):
        r, t = self.ops()
        k = laws.kval(vals)
        if oracle.ambiguous(r, k):
            return None
        irreps, mp = call(real("core").get_spacegroup_irreps_from_primitive_symmetry, r.copy(), t.copy(), k.copy(), method=self.params["method"])
        if len(irreps) == 0:
            return "no representation returned"
        return oracle.rep_list(irreps, r[mp], t[mp], k)


def make(**p):
    return C(**p)


def jobs(tier, seed):
    out = []
    orders = ["db", "rev", "shuf1", "shuf2"]
    halls = QUICK_HALLS if tier == "quick" else sorted(set(G.default_halls()) | set(QUICK_HALLS) | set(range(1, 531, 7)))
    for i, h in enumerate(halls):
        for m in ("Neto", "random"):
            out.append({"hall": h, "method": m, "order": orders[(i + (m == "random")) % 4]})
    out.sort(key=lambda j: -len(G.primitive(j["hall"])[1]))
    return out
