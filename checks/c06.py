"""C06: spin rotations."""
import functools
import itertools
from fractions import Fraction

from checks.common import *

FUNCTIONS = ["spinor.get_spinor_unitary_rotation", "spinor.get_rotation_angle_and_axis", "spinor.get_spinor_factor_system", "group.get_cayley_table"]
UNKNOWNS = "orientation of the crystal (unit quaternion, i.e. all of SO(3)) and its scale; cell lengths and the monoclinic angle in the axis-aligned jobs"
BOUNDS = ("every operation of all 37 point-group settings in every orientation; sign tables of groups with at most one half-turn axis (thorough: also 222, mm2) in every orientation, of all settings for all cell lengths; "
          "primitive cells of centred lattices")


SHEAR = np.array([[1, 1, 0], [0, 1, -1], [1, 1, 1]])  # unimodular: another choice of axes of the same lattice


def basis_change(p):
    """Columns: primitive (or re-chosen) basis vectors of a "cell" job in the conventional basis."""
    return np.asarray(SHEAR if p["cen"] == "S" else G._CENTRED[p["cen"]], dtype=float)


def ops(p):
    if p.get("cen"):
        P = basis_change(p)
        R = np.array([np.linalg.inv(P) @ r @ P for r in G.pointgroups()[p["pg"]]])
        Ri = np.rint(R).astype(int)
        assert np.abs(R - Ri).max() < 1e-9
        return Ri
    if "pg" in p:
        return G.pointgroups()[p["pg"]]
    return G.primitive(p["hall"])[1]


def lattice0(p):
    """Numeric row-wise lattice in standard orientation."""
    R = ops(p)
    if "pg" in p:
        return G.lattice_for(R)
    P, r, t = G.primitive(p["hall"])
    rc = G.conventional(p["hall"])[0]
    return np.asarray(P, dtype=float).T @ G.lattice_for(rc)


def axis_of(C):
    """Unit axis of a half-turn (numeric)."""
    w, v = np.linalg.eigh((C + C.T) / 2)
    return v[:, 2]


@functools.lru_cache(maxsize=None)
def orientations():
    """Exact rational unit quaternions: special ones and generic ones (stereographic), with a scale."""
    out = []
    vs = [v for v in itertools.product((0, 1, -1, 2, -3), repeat=3)]
    rng = np.random.default_rng(0)
    vs += [tuple(Fraction(int(x), 7) for x in rng.integers(-20, 20, size=3)) for _ in range(300)]
    for v in vs:
        n = sum(Fraction(x) ** 2 for x in v)
        w = [(1 - n) / (1 + n)] + [2 * Fraction(x) / (1 + n) for x in v]
        out.append(tuple(w) + (Fraction(int(rng.integers(1, 40)), 10),))
    # quaternions a + bi + cj + dk with a^2 + b^2 + c^2 + d^2 = 4 or 9 (rational after scaling): axis permutations and the like
    for v in itertools.product((0, 1, -1, 2, -2), repeat=4):
        n = sum(x * x for x in v)
        if n in (1, 4, 9):
            r = {1: 1, 4: 2, 9: 3}[n]
            out.append(tuple(Fraction(x, r) for x in v) + (Fraction(3, 2),))
    # turns about one axis by an angle with rational half-angle cosine and sine, combined with the ones above
    def mul(p, q):
        a, b, c, d = p
        e, f, g, h = q
        return (a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e)

    cell = [(1, 0, 0, 0)] + [tuple(Fraction(x, 2) for x in v) for v in itertools.product((1, -1), repeat=4) if v[0] > 0]
    turns = [tuple(Fraction(c, 5) if i == 0 else Fraction(s, 5) if i == ax else 0 for i in range(4)) for c, s in ((3, 4), (4, -3), (-3, 4), (4, 3)) for ax in (1, 2, 3)]
    for t in turns:
        for x in cell:
            for u in [(1, 0, 0, 0)] + turns:
                out.append(mul(mul(t, x), u) + (Fraction(6, 5),))
    return out


def quat(q):
    a, b, c, d = q
    return np.array(
        [
            [1 - 2 * (c * c + d * d), 2 * (b * c - a * d), 2 * (b * d + a * c)],
            [2 * (b * c + a * d), 1 - 2 * (b * b + d * d), 2 * (c * d - a * b)],
            [2 * (b * d - a * c), 2 * (c * d + a * b), 1 - 2 * (b * b + c * c)],
        ],
        dtype=object,
    )


def simp(M):
    M = laws.raw(M)
    out = np.empty(M.shape, dtype=object)
    for i, x in np.ndenumerate(M):
        out[i] = V.norm(x).simp() if isinstance(x, V.Sym) else x
    return out


def same(obl, name, got, want):
    got, want = laws.raw(got), laws.raw(want)
    for idx, v in np.ndenumerate(got):
        d = V.norm(V.Sym.lift(v) - want[idx]).simp()
        obl.zero(name, d)


class Base(Case):
    def selected(self):
        R = ops(self.params)
        return R if self.params.get("op") is None else R[[self.params["op"]]]

    def symbolic(self, ctx, L, inp, obl):
        lat, cart = self.lattice(ctx, inp)
        R = self.selected()
        sp = L.mods["spgrep.spinor"]
        Cs = []
        for r in R:
            C = cart(r)
            Cs.append(C)
            self.hint(ctx, C, r)
        if self.params.get("op") is None:
            om, U = sp.get_spinor_factor_system(SA(lat, "f"), R.copy())
            U = laws.raw(U)
        else:
            U = [laws.raw(sp.get_spinor_unitary_rotation(SA(lat, "f"), R[0].copy()))]
        for r, C, u in zip(R, Cs, U):
            if u.shape != (2, 2):
                obl.true("shape", False)
                return
            u = np.asarray(u).astype(object)
            ud = laws.dag(u)
            same(obl, "unitary", np.matmul(u, ud), np.eye(2))
            obl.zero("determinant one", V.norm(V.Sym.lift(u[0, 0] * u[1, 1]) - u[0, 1] * u[1, 0] - 1.0).simp())
            for a in range(3):
                lhs = np.matmul(np.matmul(u, oracle.PAULI[a].astype(object)), ud)
                rhs = sum(oracle.PAULI[b].astype(object) * C[b, a] for b in range(3))
                same(obl, "covers the rotation", lhs, rhs)
            if (r * round(np.linalg.det(r)) == np.eye(3)).all():
                same(obl, "identity and inversion are mapped to one", u, np.eye(2))
        if self.params.get("op") is None:
            T = oracle.table(R)
            om = laws.raw(om)
            obl.true("one sign per pair", om.shape == T.shape)
            if om.shape != T.shape:
                return
            for i, j in np.ndindex(*T.shape):
                s = om[i, j]
                obl.true("sign", not isinstance(s, V.Sym) and min(abs(s - 1), abs(s + 1)) < 1e-9)
                same(obl, "sign table", np.matmul(U[i].astype(object), U[j].astype(object)), U[T[i, j]].astype(object) * s)

    def concrete(self, vals):
        lat = self.number_lattice(vals)
        R = self.selected()
        sp = real("spinor")
        if self.params.get("op") is None:
            om, U = call(sp.get_spinor_factor_system, lat.copy(), R.copy())
        else:
            U = [call(sp.get_spinor_unitary_rotation, lat.copy(), R[0].copy())]
        e = oracle.cover(lat, R, U)
        if not e < 1e-5:
            return f"spin matrices do not cover the rotations ({e:.3g})"
        for r, u in zip(R, U):
            if (r * round(np.linalg.det(r)) == np.eye(3)).all() and np.abs(u - np.eye(2)).max() > 1e-6:
                return "identity is not mapped to the identity"
        if self.params.get("op") is None:
            T = oracle.table(R)
            if np.abs(np.abs(om.real) - 1).max() > 1e-9 or np.abs(om.imag).max() > 1e-9:
                return "sign table has entries other than +1, -1"
            e = max(np.abs(U[i] @ U[j] - om[i, j] * U[T[i, j]]).max() for i, j in np.ndindex(*T.shape))
            if not e < 1e-5:
                return f"sign table does not fit the spin matrices ({e:.3g})"
        return None


class Turned(Base):
    opts = {"timeout_ms": 4000}

    def inputs(self, ctx):
        q = {f"q{i}": ctx.real(f"q{i}", -1, 1) for i in range(4)}
        a, b, c, d = q.values()
        ctx.rules[ctx.atoms[list(a.t)[0][0][0][0]].id] = V.Sym.lift(1.0) - b * b - c * c - d * d
        z = [ctx.zreal(x) for x in q.values()]
        ctx.solver.add(z[0] * z[0] + z[1] * z[1] + z[2] * z[2] + z[3] * z[3] == 1)
        q["s"] = ctx.positive("s")
        ctx.set_candidates([list(x.t)[0][0][0][0] for x in q.values()], orientations())  # every atom, s included
        return q

    def start(self):
        """Lattice before turning: standard orientation, or with the half-turn axis of a single operation along z (Q covers all of SO(3) either way)."""
        B = lattice0(self.params)
        if self.params.get("op") is None:
            return B
        r = self.selected()[0]
        C = B.T @ (r * round(np.linalg.det(r))) @ np.linalg.inv(B.T)
        if abs(np.trace(C) + 1) > 1e-6:
            return B
        n = axis_of(C)
        e1 = np.cross(n, [1, 0, 0] if abs(n[0]) < 0.9 else [0, 1, 0])
        e1 /= np.linalg.norm(e1)
        F = np.stack([e1, np.cross(n, e1), n])
        if np.linalg.det(F) < 0:
            F[0] *= -1
        B = B @ F.T
        return np.where(np.abs(B) < 1e-14, 0.0, B)

    def lattice(self, ctx, inp):
        Q = simp(quat([inp[f"q{i}"] for i in range(4)]))
        B = self.start()
        lat = simp(np.matmul(B.astype(object), Q.T) * inp["s"])
        self.Q = Q
        self.C0 = {}

        def cart(r):
            C0 = B.T @ (r * round(np.linalg.det(r))) @ np.linalg.inv(B.T)
            C0 = np.where(np.abs(C0 - np.round(C0 * 2) / 2) < 1e-9, np.round(C0 * 2) / 2, C0)
            self.C0[r.tobytes()] = C0
            return simp(np.matmul(np.matmul(Q, C0.astype(object)), Q.T))

        return lat, cart

    def hint(self, ctx, C, r):
        C0 = self.C0[r.tobytes()]
        if abs(np.trace(C0) + 1) > 1e-6:
            return
        n = axis_of(C0)
        e1 = np.cross(n, [1, 0, 0] if abs(n[0]) < 0.9 else [0, 1, 0])
        e1 /= np.linalg.norm(e1)
        e2 = np.cross(n, e1)
        vecs = [simp(np.matmul(self.Q, v.astype(object))) for v in (n, e1, e2)]
        ctx.eig_hints.append(([1.0, -1.0, -1.0], vecs))

    def number_lattice(self, vals):
        q = np.array([vals[f"q{i}"] for i in range(4)])
        q = q / np.linalg.norm(q)
        return self.start() @ quat(q).astype(float).T * vals["s"]


def family(p):
    """Name of the cell family whose metric the group leaves invariant, or None."""
    R = G.pointgroups()[p["pg"]]
    for name, lat in (("cubic", np.eye(3)), ("tetragonal", np.diag([1, 1, 1.3])), ("hexagonal", G.HEX), ("orthorhombic", np.diag([1, 1.2, 1.5]))):
        if G.metric_err(lat, R) < 1e-8:
            best = name
            break
    else:
        for ax in (1, 2, 0):
            o = [i for i in range(3) if i != ax]
            lat = np.diag([1, 1.2, 1.5])
            lat[o[0], o[1]] = 0.3
            if G.metric_err(lat, R) < 1e-8:
                return "mono%d" % ax
        return None
    # the most general family that still fits
    if best == "cubic":
        if G.metric_err(np.diag([1, 1, 1.3]), R) < 1e-8:
            best = "tetragonal"
        if G.metric_err(np.diag([1, 1.2, 1.5]), R) < 1e-8:
            best = "orthorhombic"
        for ax in (1, 2, 0):
            o = [i for i in range(3) if i != ax]
            lat = np.diag([1, 1.2, 1.5])
            lat[o[0], o[1]] = 0.3
            if G.metric_err(lat, R) < 1e-8:
                best = "mono%d" % ax
                break
    return best


def centrings(pg):
    """Bases in which the group stays integral: primitive cells of the centred lattices it admits, and another choice of axes."""
    R = G.pointgroups()[pg]
    out = []
    for cen in ("A", "C", "I", "F", "R", "S"):
        P = basis_change({"cen": cen})
        X = np.array([np.linalg.inv(P) @ r @ P for r in R])
        if np.abs(X - np.rint(X)).max() < 1e-9:
            out.append(cen)
    return out


class Cell(Base):
    """Axis-aligned cell with unknown lengths (and angle)."""

    def inputs(self, ctx):
        f = family(self.params)
        out = {"a": ctx.positive("a"), "c": ctx.positive("c"), "b": ctx.positive("b")}
        if f.startswith("mono"):
            out["x"] = ctx.real("x", -2, 2)
        return out

    def rows(self, v):
        f = family(self.params)
        a, b, c = v["a"], v["b"], v["c"]
        if f == "cubic":
            return [[a, 0.0, 0.0], [0.0, a, 0.0], [0.0, 0.0, a]]
        if f == "tetragonal":
            return [[a, 0.0, 0.0], [0.0, a, 0.0], [0.0, 0.0, c]]
        if f == "hexagonal":
            return [[a, 0.0, 0.0], [a * -0.5, a * (3**0.5 / 2), 0.0], [0.0, 0.0, c]]
        rows = [[a, 0.0, 0.0], [0.0, b, 0.0], [0.0, 0.0, c]]
        if f.startswith("mono"):
            ax = int(f[4])
            o = [i for i in range(3) if i != ax]
            rows[o[0]][o[1]] = v["x"]
        return rows

    def lattice(self, ctx, inp):
        lat = np.array(self.rows(inp), dtype=object)
        num = np.array(self.rows({"a": 1.0, "b": 1.3, "c": 1.7, "x": 0.37}), dtype=float)
        if self.params.get("cen"):
            P = basis_change(self.params)
            num = P.T @ num
            lat = simp(np.matmul(P.T.astype(object), lat))

        def cart(r):
            C = num.T @ (r * round(np.linalg.det(r))) @ np.linalg.inv(num.T)
            return np.where(np.abs(C - np.round(C * 2) / 2) < 1e-9, np.round(C * 2) / 2, C).astype(object)

        return lat, cart

    def hint(self, ctx, C, r):
        return

    def number_lattice(self, vals):
        lat = np.array(self.rows(vals), dtype=float)
        return basis_change(self.params).T @ lat if self.params.get("cen") else lat


def make(**p):
    return Cell(**p) if p["what"] == "cell" else Turned(**p)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    seen = set()
    for pg, R in G.pointgroups().items():
        lat = np.round(lattice0(dict(pg=pg)), 6).tobytes()
        for i, r in enumerate(R):
            key = (lat, (r * round(np.linalg.det(r))).tobytes())
            if key in seen and not th:
                continue
            seen.add(key)
            out.append(dict(what="op", pg=pg, op=i))
        turns = {(r * round(np.linalg.det(r))).tobytes() for r in R if round(np.trace(r) * np.linalg.det(r)) == -1}
        if len(turns) <= 1 and len(R) <= 8 or th and len(R) <= 4:
            out.append(dict(what="table", pg=pg))
        if family({"pg": pg}):
            out.append(dict(what="cell", pg=pg))
            for cen in centrings(pg):
                out.append(dict(what="cell", pg=pg, cen=cen))
    for h in QUICK_HALLS if not th else G.default_halls():
        r = G.primitive(h)[1]
        if len(G.conventional(h)[0]) == len(r):
            continue
        idx = range(1, len(r)) if th else [1 + (h * 7 + j) % (len(r) - 1) for j in range(2)] if len(r) > 1 else []
        for i in sorted(set(idx)):
            out.append(dict(what="op", hall=h, op=i))
    out.sort(key=lambda j: -len(ops(j)) if j.get("op") is None else 0)
    return out
