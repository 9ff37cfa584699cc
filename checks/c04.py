"""C04: irreps from a crystal structure in the user's own cell."""
from checks import cells
from checks.common import *

FUNCTIONS = ["core.get_spacegroup_irreps", "core._adjust_phase_for_centering_translations", "core.get_spacegroup_irreps_from_primitive_symmetry",
             "transform.transform_symmetry_and_kpoint", "transform.unique_primitive_symmetry", "transform.get_primitive_transformation_matrix",
             "group.get_little_group", "irreps.enumerate_small_representations", "irreps.enumerate_unitary_irreps"]
UNKNOWNS = "k in R^3 (three reals plus three unbounded integers), in the given reciprocal basis"
BOUNDS = ("structures of the space-group settings listed in the jobs, two generic orbits each, in the database cell, with shifted origin, in a primitive cell, with permuted, sheared and inverted axes and in a doubled cell; "
          "k given in the dual basis, a sheared and a fractional reciprocal basis; the symmetry search itself (spglib, compiled) runs on numbers")


class C(Case):
    def inputs(self, ctx):
        # the unknowns are the coordinates of k in the primitive reciprocal basis; the user's coordinates are a fixed linear map of them
        inp, self.kp = laws.kvec(ctx)
        _, _, _, P, M, _ = self.data()
        self.k, self.ku = cells.from_primitive(P, M, self.kp)
        return inp

    def data(self):
        p = self.params
        lat, pos, num, _, P = cells.structure(p["hall"], p["mode"])
        M = cells.RECIP[p.get("rec", "")]
        rec = None if not p.get("rec") else M @ np.linalg.inv(lat).T
        return lat, pos, num, P, M, rec

    def symbolic(self, ctx, L, inp, obl):
        lat, pos, num, P, M, rec = self.data()
        kw = {} if rec is None else dict(reciprocal_lattice=SA(rec.copy()))
        reps, rots, trans, mp = L.mods["spgrep.core"].get_spacegroup_irreps(
            lat.copy(), pos.copy(), num.copy(), SA(np.array(self.ku, dtype=object)), method=self.params["method"], **kw)
        cells.obligations(ctx, obl, P, rots, trans, self.k, mp, reps, expected=cells.dataset(self.params["hall"], self.params["mode"]))

    def concrete(self, vals):
        lat, pos, num, P, M, rec = self.data()
        k = np.linalg.inv(P.T) @ laws.kval(vals)
        kk = np.linalg.inv(M.T) @ k
        rot0, tr0, _ = cells.dataset(self.params["hall"], self.params["mode"])
        if isinstance(oracle.little(cells.in_primitive(rot0, P)[0], P.T @ k), str):
            return None
        kw = {} if rec is None else dict(reciprocal_lattice=rec.copy())
        reps, rots, trans, mp = call(real("core").get_spacegroup_irreps, lat.copy(), pos.copy(), num.copy(), kk.copy(), method=self.params["method"], **kw)
        return cells.judge(P, rots, trans, k, mp, reps, expected=(rot0, tr0, None))


def make(**p):
    return C(**p)


MODES = ["conv", "shift", "prim", "perm", "shear", "flip", "double"]


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    halls = QUICK_HALLS if not th else sorted(set(G.default_halls()) | set(QUICK_HALLS))
    for i, h in enumerate(halls):
        centred = len(G.conventional(h)[0]) > len(G.primitive(h)[1])
        modes = MODES if th else [MODES[i % 7], MODES[(i + 3) % 7]] if centred else [MODES[i % 7]]
        if centred and "conv" not in modes and "shift" not in modes:
            modes = ["conv"] + modes
        for j, m in enumerate(modes):
            if m == "prim" and not centred:
                m = "shear"
            if not th and m == "shift" and len(G.primitive(h)[1]) > 4:
                m = "perm"
            out.append(dict(hall=h, mode=m, rec=["", "shear", "half"][(i + j) % 3], method="random" if (i + j) % 5 == 0 else "Neto"))
    out.sort(key=lambda j: -len(G.conventional(j["hall"])[0]))
    return out
