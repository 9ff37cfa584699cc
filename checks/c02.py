"""C02: completeness, irreducibility, no duplicates."""
from checks import c01
from checks.common import *
from checks.c01 import FUNCTIONS  # noqa: F401

UNKNOWNS = "k in R^3 (space groups); for point groups the position from which the operations are listed and the direction (all listings of the family)"
BOUNDS = c01.BOUNDS + "; point groups: all 32, in the standard bases, axis permutations and reduced centred bases, listings = rotations and reversals of the list"


class C(c01.C):
    def symbolic(self, ctx, L, inp, obl):
        r, t = self.ops()
        core = L.mods["spgrep.core"]
        irreps, mp = core.get_spacegroup_irreps_from_primitive_symmetry(r.copy(), SA(t.copy()), SA(np.array(self.k, dtype=object)), method=self.params["method"])
        sp = [laws.split(x) for x in irreps]
        n = len(laws.raw(mp))
        for a in irreps:
            obl.true("one matrix per operation", laws.raw(a).shape[0] == n)
        laws.complete_obligations(ctx, obl, irreps, sp, n, "")

    def concrete(self, vals):
        r, t = self.ops()
        k = laws.kval(vals)
        if oracle.ambiguous(r, k):
            return None
        irreps, mp = call(real("core").get_spacegroup_irreps_from_primitive_symmetry, r.copy(), t.copy(), k.copy(), method=self.params["method"])
        n = len(mp)
        if any(x.shape[0] != n for x in irreps):
            return "number of matrices differs from the order of the little group"
        return oracle.complete(irreps, n)


_PERMS = [np.array(p) for p in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
                                [[0, 1, 0], [1, 0, 0], [0, 0, -1]], [[1, 0, 0], [0, 0, 1], [0, -1, 0]], [[-1, 0, 0], [0, 0, 1], [0, 1, 0]])]
_CENT = ["P", "A", "C", "I", "F", "R", "H"]


def pg_setting(name, basis):
    """Point group in another basis; None if the matrices are not integral with entries in {-1, 0, 1}."""
    R = G.pointgroups()[name]
    kind, i = basis.split(":")
    B = _PERMS[int(i)] if kind == "perm" else G._CENTRED[i]
    Q = np.linalg.inv(B) @ R @ B
    q = np.rint(Q).astype(int)
    if np.abs(Q - q).max() > 1e-8 or np.abs(q).max() > 1:
        return None
    return q


class P(Case):
    """Point group, listing started from an arbitrary position and in either direction."""

    def inputs(self, ctx):
        R = self.rots()
        self.step = max(1, len(R) // 6)
        self.s = ctx.integer("start", 0, (len(R) - 1) // self.step)
        self.d = ctx.integer("reverse", 0, 1)
        return {"start": self.s, "reverse": self.d}

    def rots(self):
        return pg_setting(self.params["pg"], self.params["basis"])

    @staticmethod
    def listing(R, s, d):
        n = len(R)
        o = [(s + i) % n for i in range(n)]
        return R[o[::-1] if d else o].copy()

    def symbolic(self, ctx, L, inp, obl):
        s, d = ctx.concretize_int(self.s), ctx.concretize_int(self.d)
        R = self.listing(self.rots(), s * self.step, d)
        irreps = L.mods["spgrep.core"].get_crystallographic_pointgroup_irreps_from_symmetry(R.copy(), method=self.params["method"])
        laws.rep_obligations(ctx, obl, irreps, R, np.zeros((len(R), 3)), [0.0, 0.0, 0.0])

    def concrete(self, vals):
        R = self.rots()
        R = self.listing(R, int(vals["start"]) * max(1, len(R) // 6), int(vals["reverse"]))
        irreps = call(real("core").get_crystallographic_pointgroup_irreps_from_symmetry, R.copy(), method=self.params["method"])
        msg = oracle.rep_list(irreps, R, np.zeros((len(R), 3)), np.zeros(3))
        return msg or oracle.complete(irreps, len(R))


def make(**p):
    return P(**p) if "pg" in p else C(**p)


def jobs(tier, seed):
    out = []
    for j in c01.jobs(tier, seed):
        if tier == "quick" and len(G.primitive(j["hall"])[1]) > 16 and j["method"] == "random" and j["hall"] % 2:
            continue
        out.append(j)
    seen = set()
    for name in G.pointgroups():
        for b in [f"perm:{i}" for i in range(len(_PERMS))] + [f"cent:{c}" for c in _CENT]:
            q = pg_setting(name, b)
            if q is None:
                continue
            key = tuple(sorted(x.tobytes() for x in q))
            if key in seen:
                continue
            seen.add(key)
            out.append({"pg": name, "basis": b, "method": "Neto"})
            if b == "perm:0":
                out.append({"pg": name, "basis": b, "method": "random"})
    return out
