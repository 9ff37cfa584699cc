"""C15: group-table utilities."""
import itertools
from fractions import Fraction

from checks.common import *

FUNCTIONS = ["group.get_identity_index", "group.get_inverse_index", "group.get_order", "group.get_cayley_table", "group.is_matrix_group",
             "group.check_cocycle_condition", "group.decompose_by_maximal_space_subgroup", "utils.ndarray2d_to_integer_tuple"]
UNKNOWNS = ("every entry of the multiplication table (constrained by the group axioms only); the diagonal entries of sign matrices and the time-reversal bits; "
            "one phase per pair of the factor system; the origin and integer translations added to operations of magnetic groups")
BOUNDS = ("tables of order 1..4 (thorough 5, and all relabellings of the two groups of order 6); up to 3 sign matrices with 3 free signs (thorough 4); factor systems of groups of order "
          "2..4 (one or two corrupted entries up to order 8); magnetic groups listed in the jobs")


def group_axioms(n, T):
    """Numeric table a group?"""
    if any(sorted(T[i]) != list(range(n)) for i in range(n)):
        return False
    return all(T[T[i, j], k] == T[i, T[j, k]] for i in range(n) for j in range(n) for k in range(n))


def check_answers(T, e, inv, order):
    """None | message, from the group-theoretic definitions."""
    n = len(T)
    ids = [i for i in range(n) if all(T[i, j] == j and T[j, i] == j for j in range(n))]
    if [int(e)] != ids:
        return f"identity {e} instead of {ids}"
    for g in range(n):
        if T[g, int(inv[g])] != e or T[int(inv[g]), g] != e:
            return f"inverse of {g} answered {inv[g]}"
        q, x = 1, g
        while x != e:
            x, q = T[x, g], q + 1
        if int(order[g]) != q:
            return f"order of {g} answered {order[g]}, is {q}"
    return None


class Table(Case):
    """Any table of order n obeying the axioms."""

    def inputs(self, ctx):
        import z3

        n = self.params["n"]
        self.T = np.empty((n, n), dtype=object)
        inp = {}
        z = np.empty((n, n), dtype=object)
        for i, j in np.ndindex(n, n):
            self.T[i, j] = inp[f"t{i}_{j}"] = ctx.integer(f"t{i}_{j}", 0, n - 1)
            z[i, j] = ctx.zreal(self.T[i, j])
        s = ctx.solver
        for i in range(n):
            s.add(z3.Distinct(*z[i]), z3.Distinct(*z[:, i]))

        def at(a, b):  # T[a, b] with a, b terms
            r = z[n - 1, n - 1]
            for p, q in np.ndindex(n, n):
                r = z3.If(z3.And(a == p, b == q), z[p, q], r)
            return r

        for i, j, k in np.ndindex(n, n, n):
            s.add(at(z[i, j], z3.RealVal(k)) == at(z3.RealVal(i), z[j, k]))
        return inp

    def symbolic(self, ctx, L, inp, obl):
        n = self.params["n"]
        g = L.mods["spgrep.group"]
        tab = SA(self.T.copy(), "i")
        e = g.get_identity_index(tab)
        inv = [g.get_inverse_index(tab, i) for i in range(n)]
        order = [g.get_order(tab, i) for i in range(n)]
        e = ctx.concretize_int(V.Sym.lift(e))
        inv = [ctx.concretize_int(V.Sym.lift(x)) for x in inv]
        order = [ctx.concretize_int(V.Sym.lift(x)) for x in order]
        T = np.array([[ctx.concretize_int(V.Sym.lift(self.T[i, j])) for j in range(n)] for i in range(n)])
        obl.true("identity, inverses and orders", check_answers(T, e, inv, order) is None)

    def concrete(self, vals):
        n = self.params["n"]
        T = np.array([[int(vals[f"t{i}_{j}"]) for j in range(n)] for i in range(n)])
        assert group_axioms(n, T)
        return table_answers(T)


def table_answers(T):
    g = real("group")
    n = len(T)
    return check_answers(T, call(g.get_identity_index, T), [call(g.get_inverse_index, T, i) for i in range(n)], [call(g.get_order, T, i) for i in range(n)])


class Relabel(Case):
    """Table of a point group (or of a product of cyclic groups) under a symbolic relabelling: product of unknown transpositions, or an unknown permutation."""

    opts = {"max_enum": 1000}

    def base(self):
        if "cyc" in self.params:  # direct product of cyclic groups
            el = list(itertools.product(*map(range, self.params["cyc"])))
            return np.array([[el.index(tuple((x + y) % m for x, y, m in zip(a, b, self.params["cyc"]))) for b in el] for a in el])
        return oracle.table(G.pointgroups()[self.params["pg"]])

    def inputs(self, ctx):
        n = len(self.base())
        self.s = [ctx.integer(f"s{q}", 0, n - 1) for q in range(self.params["swaps"] * 2)]
        return {f"s{q}": x for q, x in enumerate(self.s)}

    @staticmethod
    def perm(n, s):
        p = list(range(n))
        for a, b in zip(s[::2], s[1::2]):
            p[a], p[b] = p[b], p[a]
        return p

    def relabelled(self, s):
        B = self.base()
        n = len(B)
        p = self.perm(n, s)
        T = np.zeros_like(B)
        for i, j in np.ndindex(n, n):
            T[p[i], p[j]] = p[B[i, j]]
        return T

    def symbolic(self, ctx, L, inp, obl):
        import z3

        for a, b in zip(self.s[::2], self.s[1::2]):
            ctx.solver.add(ctx.zreal(a) < ctx.zreal(b))
        T = self.relabelled([ctx.concretize_int(x) for x in self.s])
        g = L.mods["spgrep.group"]
        n = len(T)
        ans = g.get_identity_index(T), [g.get_inverse_index(T, i) for i in range(n)], [g.get_order(T, i) for i in range(n)]
        obl.true("identity, inverses and orders", check_answers(T, *ans) is None)

    def concrete(self, vals):
        return table_answers(self.relabelled([int(vals[f"s{q}"]) for q in range(len(self.s if hasattr(self, "s") else [0] * self.params["swaps"] * 2))]))


class Signs(Case):
    """Diagonal sign matrices with free signs, optionally with free time-reversal bits."""

    opts = {"max_enum": 100, "max_decisions": 3000}

    def inputs(self, ctx):
        p = self.params
        inp = {}
        self.R = np.zeros((p["n"], 3, 3), dtype=object)
        for i in range(p["n"]):
            for a in range(3):
                if a < p["signs"]:
                    inp[f"b{i}{a}"] = ctx.integer(f"b{i}{a}", 0, 1)
                    self.R[i, a, a] = 1 - 2 * inp[f"b{i}{a}"]
                else:
                    self.R[i, a, a] = 1
        self.tr = None
        if p["tr"]:
            self.tr = []
            for i in range(p["n"]):
                inp[f"tr{i}"] = ctx.integer(f"tr{i}", 0, 1)
                self.tr.append(inp[f"tr{i}"])
        return inp

    @staticmethod
    def expect(R, tr):
        """(closed with distinct elements, defining table or None)."""
        n = len(R)
        keys = [(r.tobytes(), int(t)) for r, t in zip(R, tr)]
        T = np.full((n, n), -1)
        ok = True
        for i, j in np.ndindex(n, n):
            k = ((R[i] @ R[j]).tobytes(), int(tr[i] ^ tr[j]))
            if k in keys:
                T[i, j] = keys.index(k)
            else:
                ok = False
        return ok, len(set(keys)) == n, T

    def judge(self, R, tr, table, isgroup):
        closed, distinct, T = self.expect(R, tr)
        n = len(R)
        if isgroup is not None and bool(isgroup) != (closed and distinct):
            return f"is_matrix_group answered {isgroup} for a {'' if closed else 'not '}closed set with {'' if distinct else 'not '}distinct elements"
        if closed and distinct:
            if table is None:
                return "get_cayley_table rejects a group"
            if not np.array_equal(np.asarray(table).astype(int), T):
                return "get_cayley_table breaks its defining relation"
        elif not closed and table is not None:
            return "get_cayley_table accepts a set which is not closed"
        return None

    def symbolic(self, ctx, L, inp, obl):
        g = L.mods["spgrep.group"]
        args = [SA(self.R.copy(), "i")] + ([] if self.tr is None else [SA(np.array(self.tr, dtype=object), "i")])
        try:
            table = laws.raw(g.get_cayley_table(*args))
        except ValueError:
            table = None
        isg = bool(g.is_matrix_group(args[0])) if self.tr is None else None
        if table is not None:
            table = np.array([[ctx.concretize_int(V.Sym.lift(x)) for x in row] for row in table])
        R = np.array([[[ctx.concretize_int(V.Sym.lift(x)) for x in row] for row in r] for r in self.R])
        tr = [0] * len(R) if self.tr is None else [ctx.concretize_int(x) for x in self.tr]
        msg = self.judge(R, tr, table, isg)
        obl.true(msg or "table and verdict", msg is None)

    def concrete(self, vals):
        p = self.params
        R = np.array([np.diag([1 - 2 * int(vals[f"b{i}{a}"]) if a < p["signs"] else 1 for a in range(3)]) for i in range(p["n"])])
        tr = [int(vals.get(f"tr{i}", 0)) for i in range(p["n"])]
        g = real("group")
        try:
            table = g.get_cayley_table(R, *([np.array(tr)] if p["tr"] else []))
        except ValueError:
            table = None
        return self.judge(R, tr, table, None if p["tr"] else call(g.is_matrix_group, R))


class Groups(Case):
    """Tables of the point groups (magnetic or not), operations listed from an unknown start; one element optionally replaced or dropped."""

    opts = {"max_enum": 100}

    def base(self):
        p = self.params
        if "uni" in p:
            _, r, _, s = G.magnetic(p["uni"])
            return np.array(r), np.array(s)
        R = G.pointgroups()[p["pg"]]
        return R, np.zeros(len(R), dtype=int)

    def inputs(self, ctx):
        R, _ = self.base()
        self.start = ctx.integer("start", 0, len(R) - 1)
        self.drop = ctx.integer("drop", -1, len(R) - 1)
        self.dup = ctx.integer("dup", 0, 1)
        return {"start": self.start, "drop": self.drop, "dup": self.dup}

    def listing(self, start, drop, dup):
        R, s = self.base()
        n = len(R)
        o = [(start + i) % n for i in range(n)]
        if drop >= 0:
            if dup:
                o[drop] = o[(drop + 1) % n]
            else:
                del o[drop]
        return R[o].copy(), s[o].copy()

    def answers(self, g, R, tr):
        mag = "uni" in self.params
        try:
            table = np.asarray(laws.raw(g.get_cayley_table(R, tr) if mag else g.get_cayley_table(R)))
        except ValueError:
            table = None
        return table, None if mag else bool(g.is_matrix_group(R))

    def symbolic(self, ctx, L, inp, obl):
        ctx.solver.add(V.z3.Or(ctx.zreal(self.drop) >= 0, ctx.zreal(self.dup) == 0))
        R, tr = self.listing(*(ctx.concretize_int(x) for x in (self.start, self.drop, self.dup)))
        if len(R) == 0:
            return
        msg = Signs.judge(Signs(), R, tr, *self.answers(L.mods["spgrep.group"], R, tr))
        obl.true(msg or "table and verdict", msg is None)

    def concrete(self, vals):
        R, tr = self.listing(*(int(vals[x]) for x in ("start", "drop", "dup")))
        if len(R) == 0:
            return None
        try:
            ans = self.answers(real("group"), R, tr)
        except Exception as e:
            raise CodeRaised(str(e)) from e
        return Signs.judge(Signs(), R, tr, *ans)


class Cocycle(Case):
    """mu_ij exp(2 pi i psi_ij) with a base cocycle; True iff every cocycle identity holds."""

    opts = {"max_decisions": 6000, "eager_den": 12}

    def inputs(self, ctx):
        p = self.params
        n = len(G.pointgroups()[p["pg"]])
        inp = {}
        pairs = [(i, j) for i in range(n) for j in range(n)] if p["at"] == "all" else [tuple(x) for x in p["at"]]
        self.psi = {q: inp.setdefault("s%d_%d" % q, ctx.real("s%d_%d" % q, 0, 1)) for q in pairs}
        self.rho = {q: inp.setdefault("r%d_%d" % q, ctx.positive("r%d_%d" % q)) for q in map(tuple, p.get("rho", []))}
        return inp

    def base(self):
        from checks.c14 import spin_rep

        p = self.params
        n = len(G.pointgroups()[p["pg"]])
        return spin_rep(p["pg"])[1] if p.get("spin") else np.ones((n, n), dtype=complex)

    def symbolic(self, ctx, L, inp, obl):
        R = G.pointgroups()[self.params["pg"]]
        n = len(R)
        om = self.base().astype(object)
        for (i, j), x in self.psi.items():
            om[i, j] = om[i, j] * laws.phase(x)
        for (i, j), x in self.rho.items():
            om[i, j] = om[i, j] * x
        v = bool(L.mods["spgrep.group"].check_cocycle_condition(R.copy(), SA(om.copy(), "c")))
        T = oracle.table(R)
        holds = True
        for i, j, k in itertools.product(range(n), repeat=3):
            e = V.Sym.lift(om[i, T[j, k]]) * om[j, k] - V.Sym.lift(om[T[i, j], k]) * om[i, j]
            if not bool(V.SymBool.eq([e])):
                holds = False
                break
        obl.true(f"answered {v} although the cocycle condition {'holds' if holds else 'fails'}", v == holds)

    def concrete(self, vals):
        p = self.params
        R = G.pointgroups()[p["pg"]]
        n = len(R)
        om = self.base()
        for i, j in np.ndindex(n, n):
            om[i, j] *= np.exp(2j * np.pi * vals.get(f"s{i}_{j}", 0.0)) * vals.get(f"r{i}_{j}", 1.0)
        T = oracle.table(R)
        err = max(abs(om[i, T[j, k]] * om[j, k] - om[T[i, j], k] * om[i, j]) for i, j, k in itertools.product(range(n), repeat=3))
        v = call(real("group").check_cocycle_condition, R.copy(), om)
        if v and err > 1e-3 * (1 + np.abs(om).max() ** 2):
            return f"answered True, violation {err:.3g}"
        if not v and err < 1e-9:
            return f"answered False, violation {err:.3g}"
        return None


def supercell(r, t, s):
    """Group in the cell with a' = a - b, b' = a + 2b, c' = c (index 3), all coset translations listed."""
    P = np.array([[1, 1, 0], [-1, 2, 0], [0, 0, 1]])
    Q = np.linalg.inv(P)
    R, T, S = [], [], []
    for i in range(len(r)):
        rr = Q @ r[i] @ P
        assert np.abs(rr - np.rint(rr)).max() < 1e-9
        for c in range(3):
            R.append(np.rint(rr).astype(int))
            T.append(np.array([float(Fraction(x).limit_denominator(24) % 1) for x in Q @ (t[i] + np.array([c, 0, 0]))]))
            S.append(s[i])
    return np.array(R), np.array(T), np.array(S)


class Coset(Case):
    """Coset decomposition of a magnetic group with unknown origin and unknown lattice translations added to operations."""

    def ops(self):
        p = self.params
        if p["cell"] == "prim":
            _, r, t, s = G.magnetic(p["uni"])
        elif p["cell"] == "super":  # triple hexagonal cell: centred at thirds, translations along a and b may add up to a lattice vector
            _, r, t, s = G.magnetic(p["uni"])
            r, t, s = supercell(np.array(r), np.array(t), np.array(s))
        else:
            from spglib import get_magnetic_symmetry_from_database

            d = get_magnetic_symmetry_from_database(p["uni"])
            r, t, s = np.array(d["rotations"]), G.frac(d["translations"]), np.array(d["time_reversals"]).astype(int)
        o = G.order_ops(len(r), p["order"])
        return r[o].copy(), np.array(t)[o].copy(), np.array(s)[o].copy()

    def inputs(self, ctx):
        r, t, s = self.ops()
        inp = {}
        self.o = [inp.setdefault(f"o{a}", ctx.real(f"o{a}", -3, 3)) for a in range(3)]
        self.n = {}
        for i in sorted({0, len(r) - 1, len(r) // 2, min(1, len(r) - 1)}):
            for a in range(3):
                self.n[i, a] = inp.setdefault(f"n{i}_{a}", ctx.integer(f"n{i}_{a}", -5, 5))
        return inp

    def trans(self, o, n, kind):
        r, t, _ = self.ops()
        out = np.empty(t.shape, dtype=kind)
        for i in range(len(r)):
            for a in range(3):
                # origin moved by o: t - (R - 1) o
                out[i, a] = t[i, a] + n.get((i, a), 0) - sum(int(r[i][a, b]) * o[b] for b in range(3)) + o[a]
        return out

    def judge(self, out, tol_int):
        r, t, s = self.ops()
        if (s == 0).all():
            return None if out is None else "type-I group is decomposed"
        if out is None:
            return "None for a group with time reversal"
        xsg, tri, a0 = out
        xsg, tri, a0 = [int(x) for x in xsg], [int(x) for x in tri], int(a0)
        if xsg != [i for i in range(len(r)) if s[i] == 0]:
            return "unitary operations are not those listed"
        if not s[a0]:
            return "coset representative is unitary"
        if sorted(tri) != [i for i in range(len(r)) if s[i] == 1]:
            return "not every anti-unitary operation is paired exactly once"
        for i, j in zip(xsg, tri):
            if not (r[i] @ r[a0] == r[j]).all():
                return f"operation {j} is not {i} * a0"
            d = t[i] + r[i] @ t[a0] - t[j]
            if np.abs(d - np.rint(d)).max() > tol_int:
                return f"translation of operation {j} is not that of {i} * a0"
        return None

    def symbolic(self, ctx, L, inp, obl):
        r, t, s = self.ops()
        tt = self.trans(self.o, self.n, object)
        out = L.mods["spgrep.group"].decompose_by_maximal_space_subgroup(r.copy(), SA(tt, "f"), s.copy())
        msg = self.judge(out, 1e-5)  # the relation does not depend on origin and lattice translations
        obl.true(msg or "coset decomposition", msg is None)

    def concrete(self, vals):
        r, t, s = self.ops()
        n = {tuple(int(q) for q in k[1:].split("_")): vals[k] for k in vals if k.startswith("n")}
        tt = self.trans([vals[f"o{a}"] for a in range(3)], n, float)
        return self.judge(call(real("group").decompose_by_maximal_space_subgroup, r.copy(), tt, s.copy()), 1e-5)


KINDS = {"table": Table, "relabel": Relabel, "signs": Signs, "groups": Groups, "cocycle": Cocycle, "coset": Coset}


def make(**p):
    return KINDS[p["f"]](**p)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    for n in range(1, 6 if th else 5):
        out.append({"f": "table", "n": n})
    for pg, w in (("321", 1), ("6", 1), ("222", 1), ("4mm", 1), ("23", 1)) + ((("321", 2), ("6", 2), ("422", 2)) if th else ()):
        out.append({"f": "relabel", "pg": pg, "swaps": w})
    for cyc in ([7], [8], [9], [10], [3, 5], [12], [2, 8]) + (([13], [16], [4, 6], [30]) if th else ()):
        out.append({"f": "relabel", "cyc": list(cyc), "swaps": 1})
    for n, sg, tr in ((1, 3, False), (2, 3, False), (3, 2, False), (2, 2, True), (1, 2, True), (3, 1, True)) + (((4, 1, True), (3, 3, False), (4, 2, False), (3, 2, True)) if th else ()):
        out.append({"f": "signs", "n": n, "signs": sg, "tr": tr})
    names = list(G.pointgroups())
    for q, pg in enumerate(names):
        if len(G.pointgroups()[pg]) <= (12 if not th else 48):
            out.append({"f": "groups", "pg": pg})
    for uni in QUICK_UNIS[::4] if not th else QUICK_UNIS:
        if len(G.magnetic(uni)[1]) <= (8 if not th else 24):
            out.append({"f": "groups", "uni": uni})
    for pg in ("-1", "3"):
        out.append({"f": "cocycle", "pg": pg, "at": "all"})
    for pg in ("222", "4"):
        out.append({"f": "cocycle", "pg": pg, "at": [[i, j] for i in (0, 1, 2) for j in (1, 2, 3)] if not th else "all"})
    out.append({"f": "cocycle", "pg": "-1", "at": "all", "rho": [[0, 0], [0, 1], [1, 0], [1, 1]]})
    for pg in ("222", "321", "422"):
        n = len(G.pointgroups()[pg])
        for i, j in [(0, 0), (n - 1, n - 1), (0, n - 1), (n - 1, 0), (1, n // 2)] if not th or n > 6 else np.ndindex(n, n):
            for spin in (False, True):
                out.append({"f": "cocycle", "pg": pg, "at": [[int(i), int(j)]], "spin": spin, "rho": [[int(i), int(j)]] if spin else []})
    orders = ["db", "rev", "shuf1", "shuf2"]
    for q, uni in enumerate(QUICK_UNIS if not th else range(1, 1652)):
        out.append({"f": "coset", "uni": uni, "cell": "prim", "order": orders[q % 4]})
        if q % 3 == 0 or th:
            out.append({"f": "coset", "uni": uni, "cell": "conv", "order": orders[(q + 1) % 4]})
    for q, uni in enumerate((1232, 1238, 1244, 1260, 1284, 1305, 1322, 1352, 1361, 1368, 1380, 1406, 1428) if not th else [u for u in range(1230, 1503) if hexagonal(u)]):
        out.append({"f": "coset", "uni": uni, "cell": "super", "order": orders[q % 4]})
    return out


def hexagonal(uni):
    """Anti-unitary operations present, axes those of a hexagonal lattice."""
    r, s = G.magnetic(uni)[1], G.magnetic(uni)[3]
    return any(s) and any((np.array(x) == np.array([[0, -1, 0], [1, -1, 0], [0, 0, 1]])).all() for x in r)
