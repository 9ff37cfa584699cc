"""C07: double-valued representations at every k."""
from checks import c06, cells
from checks.common import *

FUNCTIONS = ["core.get_spacegroup_spinor_irreps_from_primitive_symmetry", "core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry",
             "spinor.enumerate_spinor_small_representations", "spinor.get_spinor_factor_system", "spinor.get_spinor_unitary_rotation",
             "group.get_little_group", "group.get_factor_system_from_little_group", "irreps.enumerate_unitary_irreps", "pointgroup.get_pointgroup_chain_generators",
             "core.get_spacegroup_spinor_irreps"]
UNKNOWNS = "k in R^3 (three reals plus three unbounded integers); cell lengths and monoclinic angle in the point-group jobs"
BOUNDS = "space groups and settings listed in the jobs (quick: 63 settings), lattice in standard and in generic orientation; 37 point-group settings; structures (two generic orbits) in conventional, primitive and re-axised cells for every fourth of the settings"


def turn(seed):
    rng = np.random.default_rng(seed)
    q = rng.normal(size=4)
    return c06.quat(q / np.linalg.norm(q)).astype(float)


def spin_checks(lat, rots, om, U):
    """Message when the returned sign table does not belong to the returned spin matrices (all numbers)."""
    om, U = np.asarray(om, dtype=complex), np.asarray(U, dtype=complex)
    n = len(rots)
    if om.shape != (n, n) or U.shape != (n, 2, 2):
        return "shape of the sign table or spin matrices"
    e = oracle.cover(lat, rots, U)
    if not e < 1e-5:
        return f"spin matrices do not cover the rotations ({e:.3g})"
    if np.abs(np.abs(om.real) - 1).max() > 1e-9 or np.abs(om.imag).max() > 1e-9:
        return "sign table has entries other than +1, -1"
    T = oracle.table(rots)
    e = np.abs(np.einsum("iab,jbc->ijac", U, U) - om[:, :, None, None] * U[T]).max()
    return None if e < 1e-5 else f"sign table does not fit the spin matrices ({e:.3g})"


class Space(Case):
    def inputs(self, ctx):
        inp, self.k = laws.kvec(ctx)
        return inp

    def data(self):
        p = self.params
        r, t = prim_ops(p["hall"], p.get("order", "db"))
        lat = c06.lattice0(dict(hall=p["hall"]))
        if p.get("turn"):
            lat = lat @ turn(p["turn"]).T
        return lat, r, t

    def symbolic(self, ctx, L, inp, obl):
        lat, r, t = self.data()
        core = L.mods["spgrep.core"]
        irreps, om, U, mp = core.get_spacegroup_spinor_irreps_from_primitive_symmetry(
            SA(lat.copy()), r.copy(), SA(t.copy()), kpoint=SA(np.array(self.k, dtype=object)), method=self.params["method"])
        laws.little_obligations(ctx, obl, r, self.k, mp)
        mp = [int(x) for x in laws.raw(mp)]
        om, U = laws.raw(om), laws.raw(U)
        msg = spin_checks(lat, r[mp], om, U)
        obl.true(f"sign table and spin matrices: {msg}", msg is None)
        if msg is None:
            laws.rep_obligations(ctx, obl, irreps, r[mp], t[mp], self.k, om=om, complete=True)

    def concrete(self, vals):
        lat, r, t = self.data()
        k = laws.kval(vals)
        if oracle.ambiguous(r, k):
            return None
        irreps, om, U, mp = call(real("core").get_spacegroup_spinor_irreps_from_primitive_symmetry, lat.copy(), r.copy(), t.copy(), kpoint=k.copy(), method=self.params["method"])
        if list(mp) != list(oracle.little(r, k)):
            return f"operations {list(mp)} reported, {list(oracle.little(r, k))} fix k"
        return spin_checks(lat, r[mp], om, U) or oracle.rep_list(irreps, r[mp], t[mp], k, om=om) or oracle.complete(irreps, len(mp))


class Point(c06.Cell):
    """Point group with unknown cell lengths."""

    def symbolic(self, ctx, L, inp, obl):
        lat, _ = self.lattice(ctx, inp)
        R = self.rotations()
        irreps, om, U = L.mods["spgrep.core"].get_crystallographic_pointgroup_spinor_irreps_from_symmetry(SA(lat, "f"), R.copy(), method=self.params["method"])
        num = np.array(self.rows({"a": 1.0, "b": 1.3, "c": 1.7, "x": 0.37}), dtype=float)
        msg = spin_checks(num, R, laws.raw(om), laws.raw(U))
        obl.true(f"sign table and spin matrices: {msg}", msg is None)
        if msg is None:
            laws.rep_obligations(ctx, obl, irreps, R, np.zeros((len(R), 3)), [0.0] * 3, om=laws.raw(om), complete=True)

    def rotations(self):
        R = c06.ops(self.params)
        return R[G.order_ops(len(R), self.params.get("order", "db"))]

    def concrete(self, vals):
        lat, R = self.number_lattice(vals), self.rotations()
        irreps, om, U = call(real("core").get_crystallographic_pointgroup_spinor_irreps_from_symmetry, lat.copy(), R.copy(), method=self.params["method"])
        return spin_checks(lat, R, om, U) or oracle.rep_list(irreps, R, np.zeros((len(R), 3)), np.zeros(3), om=om) or oracle.complete(irreps, len(R))


class Structure(Case):
    """Crystal structure in the user's own cell."""

    def data(self):
        p = self.params
        lat, pos, num, _, P = cells.structure(p["hall"], p["mode"])
        M = cells.RECIP[p.get("rec", "")]
        return lat, pos, num, P, M, {} if not p.get("rec") else dict(reciprocal_lattice=M @ np.linalg.inv(lat).T)

    def inputs(self, ctx):
        inp, self.kp = laws.kvec(ctx)
        _, _, _, P, M, _ = self.data()
        self.k, self.ku = cells.from_primitive(P, M, self.kp)
        return inp

    def symbolic(self, ctx, L, inp, obl):
        lat, pos, num, P, M, kw = self.data()
        reps, om, U, rots, trans, mp = L.mods["spgrep.core"].get_spacegroup_spinor_irreps(
            lat.copy(), pos.copy(), num.copy(), kpoint=SA(np.array(self.ku, dtype=object)), method=self.params["method"], **kw)
        om, U = laws.raw(om), laws.raw(U)
        msg = spin_checks(lat, laws.raw(rots)[[int(x) for x in laws.raw(mp)]], om, U)
        obl.true(f"sign table and spin matrices: {msg}", msg is None)
        if msg is None:
            cells.obligations(ctx, obl, P, rots, trans, self.k, mp, reps, om=om, expected=cells.dataset(self.params["hall"], self.params["mode"]))

    def concrete(self, vals):
        lat, pos, num, P, M, kw = self.data()
        k = np.linalg.inv(P.T) @ laws.kval(vals)
        rot0, tr0, _ = cells.dataset(self.params["hall"], self.params["mode"])
        if isinstance(oracle.little(cells.in_primitive(rot0, P)[0], P.T @ k), str):
            return None
        reps, om, U, rots, trans, mp = call(real("core").get_spacegroup_spinor_irreps, lat.copy(), pos.copy(), num.copy(), kpoint=np.linalg.inv(M.T) @ k, method=self.params["method"], **kw)
        return spin_checks(lat, rots[mp], om, U) or cells.judge(P, rots, trans, k, mp, reps, om=om, expected=(rot0, tr0, None))


def make(**p):
    return {"point": Point, "cell": Structure, "space": Space}[p["what"]](**p)


def jobs(tier, seed):
    out = []
    orders = ["db", "rev", "shuf1", "shuf2"]
    th = tier == "thorough"
    for i, h in enumerate(QUICK_HALLS if not th else sorted(set(G.default_halls()) | set(QUICK_HALLS))):
        for m in ("Neto", "random"):
            if not th and (i + (m == "random")) % 2 and len(G.primitive(h)[1]) > 12:
                continue
            out.append(dict(what="space", hall=h, method=m, order=orders[(i + (m == "random")) % 4], turn=i if (i + (m == "random")) % 3 else 0))
    for i, pg in enumerate(G.pointgroups()):
        if c06.family({"pg": pg}):
            for m in ("Neto", "random"):
                out.append(dict(what="point", pg=pg, method=m, order=orders[(i + (m == "random")) % 4]))
    for i, h in enumerate([h for h in QUICK_HALLS[::4] if h != 509] if not th else QUICK_HALLS):
        centred = len(G.conventional(h)[0]) > len(G.primitive(h)[1])
        modes = ["conv", "prim", "shear"] if centred else ["perm", "shear", "flip"]
        for j in range(1 if not th else 3):
            out.append(dict(what="cell", hall=h, mode=modes[(i + j) % 3], rec=["", "shear", "half"][(i + j) % 3], method="random" if (i + j) % 4 == 0 else "Neto"))
    out.sort(key=lambda j: -len(G.primitive(j["hall"])[1]) if "hall" in j else -len(G.pointgroups()[j["pg"]]) / 4)
    return out
