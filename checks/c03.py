"""C03: little group membership."""
from checks.common import *

FUNCTIONS = ["group.get_little_group", "utils.is_integer_array"]
UNKNOWNS = "k in R^3; in tolerance jobs additionally the tolerance enters as in the code (|residual| <= atol with residual an arbitrary real)"
BOUNDS = "operations of the listed (magnetic) space groups, any k; second arguments checked against the operations passed in"


class C(Case):
    def inputs(self, ctx):
        inp, self.k = laws.kvec(ctx)
        return inp

    def ops(self):
        p = self.params
        if "uni" in p:
            _, r, t, s = G.magnetic(p["uni"])
        else:
            _, r, t = G.primitive(p["hall"])
            s = None
        o = G.order_ops(len(r), p.get("order", "db"))
        sh = G.lattice_shifts(r[o], None if s is None else s[o], p.get("order", "db"))
        return r[o].copy(), t[o] + sh, None if s is None else s[o].copy()

    def symbolic(self, ctx, L, inp, obl):
        r, t, s = self.ops()
        f = L.mods["spgrep.group"].get_little_group
        k = SA(np.array(self.k, dtype=object))
        if s is None:
            lr, lt, mp = f(r.copy(), SA(t.copy()), k)
        else:
            lr, lt, mp = f(r.copy(), SA(t.copy()), k, time_reversals=s.copy())
        laws.little_obligations(ctx, obl, r, self.k, mp, s)
        m = [int(x) for x in laws.raw(mp)]
        eq_entries(obl, "rotations of the little group are those passed in", lr, r[m])
        eq_entries(obl, "translations of the little group are those passed in", lt, t[m])

    def concrete(self, vals):
        r, t, s = self.ops()
        k = laws.kval(vals)
        want = oracle.little(r, k, s)
        if isinstance(want, str):
            return None
        kw = {} if s is None else {"time_reversals": s.copy()}
        lr, lt, mp = call(real("group").get_little_group, r.copy(), t.copy(), k.copy(), **kw)
        if [int(x) for x in mp] != want:
            return f"little group {list(map(int, mp))} instead of {want}"
        if not (np.array_equal(lr, r[want]) and np.array_equal(lt, t[want])):
            return "operations of the little group differ from those passed in"
        return None


class T(C):
    """Tolerance as an unknown: an operation is reported iff every residual component is within atol of an integer."""

    opts = {"tol_mode": "exact"}

    def inputs(self, ctx):
        from fractions import Fraction

        inp, self.k = laws.kvec(ctx)
        self.atol = inp["atol"] = ctx.real("atol", Fraction(1, 1000), Fraction(1, 20))
        return inp

    def symbolic(self, ctx, L, inp, obl):
        import z3

        r, t, s = self.ops()
        kw = {} if s is None else {"time_reversals": s.copy()}
        _, _, mp = L.mods["spgrep.group"].get_little_group(r.copy(), SA(t.copy()), SA(np.array(self.k, dtype=object)), atol=self.atol, **kw)
        mp = [int(x) for x in laws.raw(mp)]
        eps = z3.RealVal("1/1000000000")
        at = ctx.zreal(self.atol)
        for i, R in enumerate(r):
            es = laws.little_formula(ctx, R, self.k, -1 if s is not None and s[i] else 1)
            zs = []
            for e in es:
                e = V.Sym.lift(laws.integer_part_removed(ctx, e))
                if e.t:
                    ctx.fresh = getattr(ctx, "fresh", 0) + 1
                    zs.append((ctx.zreal(e), z3.ToReal(z3.Int(f"tv_{ctx.fresh}"))))
            if i in mp:
                obl.never(f"operation {i} reported although outside the tolerance",
                          z3.Or(*[z3.And(2 * (z - m) <= 1, 2 * (z - m) >= -1, z3.Or(z - m > at + eps, m - z > at + eps)) for z, m in zs]))
            else:
                obl.never(f"operation {i} within the tolerance but missing",
                          z3.And(*[z3.And(z - m <= at - eps, m - z <= at - eps) for z, m in zs]))

    def concrete(self, vals):
        r, t, s = self.ops()
        k = laws.kval(vals)
        want = []
        for i, R in enumerate(r):
            d = (-1 if s is not None and s[i] else 1) * (R.T @ k) - k
            e = np.abs(d - np.rint(d)).max()
            if abs(e - vals["atol"]) < 1e-9:
                return None
            if e < vals["atol"]:
                want.append(i)
        kw = {} if s is None else {"time_reversals": s.copy()}
        _, _, mp = call(real("group").get_little_group, r.copy(), t.copy(), k.copy(), atol=vals["atol"], **kw)
        if [int(x) for x in mp] != want:
            return f"little group {list(map(int, mp))} instead of {want} at atol {vals['atol']}"
        return None


def make(**p):
    p = dict(p)
    return T(**p) if p.get("tol") else C(**p)


def jobs(tier, seed):
    halls = QUICK_HALLS if tier == "quick" else list(range(1, 531))
    orders = ["db", "rev", "shuf1"]
    out = [{"hall": h, "order": orders[i % 3]} for i, h in enumerate(halls)]
    unis = QUICK_UNIS if tier == "quick" else list(range(1, 1652, 3))
    out += [{"uni": u, "order": orders[i % 3]} for i, u in enumerate(unis)]
    tol = [4, 6, 81, 349, 18, 108, 352, 430, 435] if tier == "quick" else list(QUICK_HALLS)
    out += [{"hall": h, "order": "db", "tol": 1} for h in tol] + [{"uni": u, "order": "db", "tol": 1} for u in ((10, 58, 81, 679, 691) if tier == "quick" else QUICK_UNIS)]
    out.sort(key=lambda j: (not (j.get("tol") and tier == "quick"), -len(G.primitive(j["hall"])[1] if "hall" in j else G.magnetic(j["uni"])[1])))
    return out
