"""C13: change of cell, removal of duplicates, tabulated primitive cells."""
from fractions import Fraction

import z3

from checks.common import *

FUNCTIONS = ["transform.transform_symmetry_and_kpoint", "transform.unique_primitive_symmetry", "transform.get_primitive_transformation_matrix",
             "transform.get_crystal_system", "transform.get_centering", "utils.ndarray2d_to_integer_tuple"]
UNKNOWNS = ("wave vector and every translation (any reals), shears of the cell (any integers), rotation entries and time reversals of lists with repetitions, "
            "integer coordinates of the lattice vectors spanned by a primitive cell")
BOUNDS = ("transformations: every centring matrix times a product of up to three elementary shears with unbounded integers, and supercell-free unimodular matrices; operations of the listed settings; "
          "lists of up to 4 (thorough 5) operations with 1..2 unknown entries in -1..1 each; all 530 settings")

UNI = {
    "id": np.eye(3), "cyc": np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]), "flip": -np.eye(3), "swap": np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]]),
    "mix": np.array([[1, 1, 0], [0, 1, 1], [1, 1, 1]]), "neg": np.array([[-1, 0, 0], [1, 1, 0], [2, -1, 1]]),
}


def shear(kind, n):
    """Unimodular matrix with the integers n."""
    a, b, c = n
    if kind == "upper":
        return [[1, a, b], [0, 1, c], [0, 0, 1]]
    if kind == "lower":
        return [[1, 0, 0], [a, 1, 0], [b, c, 1]]
    if kind == "row":
        return [[1, 0, 0], [a, 1, b], [0, 0, 1]]
    return [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def matmul(A, B):
    A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
    return A.dot(B)


class Trans(Case):
    """Operations (R_i, t_i), their products and k in the cell P S(n)."""

    def setup(self):
        p = self.params
        P, _, _ = G.primitive(p["hall"])
        r, _ = G.conventional(p["hall"])
        keep = []
        for i in range(len(r)):
            if not any((r[i] == r[j]).all() for j in keep):
                keep.append(i)
        r = r[keep]
        # generators, inverses are reached by products; a few more elements as listed
        gens = laws.generators(oracle.table(r)) if len(r) > 1 else [0]
        sel = sorted(set(list(gens) + list(range(0, len(r), max(1, len(r) // p.get("n", 2)))) + [0]))[: p.get("n", 2) + 2]
        return P @ UNI[p["uni"]], r[sel]

    def names(self, m):
        return [f"t{i}{a}" for i in range(m) for a in range(3)]

    def inputs(self, ctx):
        P, r = self.setup()
        inp = {f"k{a}": ctx.real(f"k{a}") for a in range(3)}
        inp.update({x: ctx.real(x) for x in self.names(len(r))})
        if self.params["shear"] != "none":
            inp.update({f"n{a}": ctx.integer(f"n{a}") for a in range(3)})
        return inp

    def build(self, val, kind):
        P, r = self.setup()
        n = [val(f"n{a}") if self.params["shear"] != "none" else 0 for a in range(3)]
        Q = matmul(P, shear(self.params["shear"], n))
        t = [[val(f"t{i}{a}") for a in range(3)] for i in range(len(r))]
        k = [val(f"k{a}") for a in range(3)]
        R, T, prod = list(r), list(t), []
        for i, j in np.ndindex(len(r), len(r)):
            prod.append((i, j, len(R)))
            R.append(r[i] @ r[j])
            T.append([sum((int(r[i][a, b]) * t[j][b] for b in range(3)), t[i][a]) for a in range(3)])
        return Q.astype(kind) if kind == float else Q, np.array(R), np.array(T, dtype=kind), np.array(k, dtype=kind), prod

    def symbolic(self, ctx, L, inp, obl):
        Q, R, T, k, prod = self.build(lambda q: inp[q], object)
        sym = self.params["shear"] != "none"
        Qa = SA(Q.copy()) if sym else np.array(Q, dtype=float)
        r2, t2, k2 = map(laws.raw, L.mods["spgrep.transform"].transform_symmetry_and_kpoint(Qa, R.copy(), SA(T.copy()), SA(k.copy())))
        ok = r2.shape == R.shape and t2.shape == T.shape and k2.shape == (3,)
        obl.true("shapes", ok)
        if not ok:
            return
        for i in range(len(R)):
            eq_entries(obl, "P R' = R P", matmul(Q, r2[i]), matmul(R[i], Q))
            eq_entries(obl, "P t' = t", matmul(Q, t2[i]), T[i])
            obl.equal("phase k.t", sum((k2[a] * t2[i][a] for a in range(3)), 0), sum((k[a] * T[i][a] for a in range(3)), 0))
        for i, j, l in prod:
            eq_entries(obl, "products", matmul(r2[i], r2[j]), r2[l])
            eq_entries(obl, "products", matmul(r2[i], t2[j]) + t2[i], t2[l])

    def concrete(self, vals):
        Q, R, T, k, prod = self.build(lambda q: vals[q], float)
        r2, t2, k2 = call(real("transform").transform_symmetry_and_kpoint, Q.copy(), R.copy(), T.copy(), k.copy())
        if r2.shape != R.shape or t2.shape != T.shape or k2.shape != (3,):
            return "shapes"
        sc = 1 + np.abs(Q).max() * (1 + np.abs(T).max()) * (1 + np.abs(k).max())
        if not np.issubdtype(r2.dtype, np.integer):
            return "rotations are not integers"
        for i in range(len(R)):
            if np.abs(Q @ r2[i] - R[i] @ Q).max() > 1e-6 * sc:
                return "rotation in the new cell does not act as the original one"
            if np.abs(Q @ t2[i] - T[i]).max() > 1e-6 * sc:
                return "translation in the new cell is another vector"
            if abs(k2 @ t2[i] - k @ T[i]) > 1e-6 * sc**2:
                return "phase k.t changed"
        for i, j, l in prod:
            if (r2[i] @ r2[j] != r2[l]).any() or np.abs(r2[i] @ t2[j] + t2[i] - t2[l]).max() > 1e-6 * sc:
                return "product of transformed operations is not the transformed product"
        return None


POS = [(0, 0), (0, 2), (1, 1), (2, 0), (2, 2), (1, 2), (0, 1), (2, 1), (1, 0)]


class Unique(Case):
    opts = {"max_enum": 8}

    def inputs(self, ctx):
        p = self.params
        inp = {}
        for i in range(p["m"]):
            for q in range(p["e"]):
                inp[f"r{i}{q}"] = ctx.integer(f"r{i}{q}", -1, 1)
            if p["tr"]:
                inp[f"s{i}"] = ctx.integer(f"s{i}", 0, 1)
            for a in range(3):
                inp[f"t{i}{a}"] = ctx.real(f"t{i}{a}", *((-3, 3) if a == p["pos"] % 3 else (Fraction(-1, 2), Fraction(1, 2))))
        return inp

    def build(self, val, kind):
        p = self.params
        m = p["m"]
        base = [np.eye(3, dtype=int), np.diag([-1, -1, 1]), np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]])][p.get("base", 0)]
        R = np.zeros((m, 3, 3), dtype=object if kind == object else int)
        for i in range(m):
            R[i] = base
            for q in range(p["e"]):
                R[(i,) + POS[(p["pos"] + q) % 9]] = val(f"r{i}{q}")
        T = np.array([[val(f"t{i}{a}") for a in range(3)] for i in range(m)], dtype=kind)
        S = np.array([val(f"s{i}") for i in range(m)], dtype=object if kind == object else int) if p["tr"] else None
        return R, T, S

    def symbolic(self, ctx, L, inp, obl):
        R, T, S = self.build(lambda q: inp[q], object)
        m = len(R)
        f = L.mods["spgrep.transform"].unique_primitive_symmetry
        a = (SA(R.copy()), SA(T.copy())) + ((SA(S.copy()),) if S is not None else ())
        ur, ut, mp = f(*a)
        ur, ut, mp = laws.raw(ur), laws.raw(ut), [int(x) for x in mp]
        ok = len(mp) == m and ur.shape[1:] == (3, 3) and ut.shape == (len(ur), 3) and all(0 <= x < len(ur) for x in mp) and set(mp) == set(range(len(ur)))
        obl.true("every operation is mapped to a listed one and every listed one is used", ok)
        if not ok:
            return

        def same(i, j, tr=True):
            d = [(R[i][x], R[j][x]) for x in POS] + ([(S[i], S[j])] if S is not None and tr else [])
            return z3.And(*[ctx.zreal(V.norm(V.Sym.lift(x) - y)) == 0 for x, y in d if not (x is y)] or [z3.BoolVal(True)])

        for i in range(m):
            eq_entries(obl, "same rotation", ur[mp[i]], R[i])
            for j in range(i):
                if mp[i] == mp[j]:
                    obl.never("merged operations agree in rotation and time reversal", z3.Not(same(i, j)))
                else:
                    obl.never("each operation listed once", same(i, j))
        for j in range(len(ur)):
            alts = []
            for a in range(3):
                x = ctx.zreal(V.norm(V.Sym.lift(ut[j][a])))
                obl.never("translation in [0,1)", z3.Or(x < 0, x >= 1))
            for i in range(m):
                if mp[i] == j:
                    alts.append(z3.And(*[z3.IsInt(ctx.zreal(V.norm(V.Sym.lift(ut[j][a]) - T[i][a]))) for a in range(3)]))
            obl.never("translation is that of one of the duplicates modulo the lattice", z3.Not(z3.Or(*alts)))

    def concrete(self, vals):
        g = lambda q: int(round(vals[q])) if q[0] in "rs" else vals[q]
        R, T, S = self.build(g, float)
        R = R.astype(int)
        m = len(R)
        a = (R.copy(), T.copy()) + ((S.astype(int),) if S is not None else ())
        ur, ut, mp = call(real("transform").unique_primitive_symmetry, *a)
        key = [(R[i].tobytes(), 0 if S is None else int(S[i])) for i in range(m)]
        if len(mp) != m or len(ur) != len(set(key)) or len(ut) != len(ur) or set(mp) != set(range(len(ur))):
            return f"{len(ur)} operations listed for {len(set(key))} distinct ones, map {list(mp)}"
        for i in range(m):
            if (ur[mp[i]] != R[i]).any():
                return "index of an operation with another rotation"
            for j in range(m):
                if (key[i] == key[j]) != (mp[i] == mp[j]):
                    return "operations merged or separated wrongly"
        for j in range(len(ur)):
            if (ut[j] < 0).any() or (ut[j] >= 1).any():
                return f"translation {ut[j]} outside [0,1)"
            d = [ut[j] - T[i] for i in range(m) if mp[i] == j]
            if min(np.abs(x - np.rint(x)).max() for x in d) > 1e-8:
                return "translation of none of the duplicates"
        return None


class Listed(Unique):
    """All operations of a conventional cell, listed from an unknown start; the translations of a few of them unknown."""

    opts = {"max_enum": 16}

    def ops(self):
        p = self.params
        if "uni" in p:
            from spglib import get_magnetic_symmetry_from_database

            d = get_magnetic_symmetry_from_database(p["uni"])
            return np.array(d["rotations"]), G.frac(d["translations"]), np.array(d["time_reversals"]).astype(int)
        r, t = G.conventional(p["hall"])
        return np.array(r), np.array(t), None

    def inputs(self, ctx):
        n = len(self.ops()[0])
        inp = {"start": ctx.integer("start", 0, 7)}
        for i in (0, n // 3, n - 1):
            for a in range(3):
                inp[f"t{i}{a}"] = ctx.real(f"t{i}{a}", Fraction(-1, 2), Fraction(1, 2))
        self.inp = inp
        return inp

    def build(self, val, kind):
        r, t, s = self.ops()
        n = len(r)
        st = val("start")
        st = int(st) if kind is float else V.CTX.concretize_int(st)
        T = t.astype(kind)
        for i in (0, n // 3, n - 1):
            for a in range(3):
                T[i, a] = val(f"t{i}{a}")
        o = [(st * (n // 8 + 1) + i) % n for i in range(n)]
        return r[o].copy(), T[o].copy(), None if s is None else s[o].copy()

    def symbolic(self, ctx, L, inp, obl):
        R, T, S = self.build(lambda q: inp[q], object)
        n = len(R)
        a = (R.copy(), SA(T.copy())) + (() if S is None else (S.copy(),))
        ur, ut, mp = L.mods["spgrep.transform"].unique_primitive_symmetry(*a)
        ur, ut, mp = laws.raw(ur), laws.raw(ut), [int(x) for x in mp]
        key = [(R[i].tobytes(), 0 if S is None else int(S[i])) for i in range(n)]
        ok = len(mp) == n and len(ur) == len(ut) == len(set(key)) and set(mp) == set(range(len(ur)))
        obl.true("every operation is mapped to a listed one and every listed one is used", ok)
        if not ok:
            return
        obl.true("same rotation", all((np.asarray(ur[mp[i]]).astype(int) == R[i]).all() for i in range(n)))
        obl.true("merged exactly when rotation and time reversal agree", len(set(zip(key, mp))) == len(set(key)))
        for j in range(len(ur)):
            alts = []
            for a in range(3):
                x = ctx.zreal(V.norm(V.Sym.lift(ut[j][a])))
                obl.never("translation in [0,1)", z3.Or(x < 0, x >= 1))
            for i in range(n):
                if mp[i] == j:
                    d = [V.norm(V.Sym.lift(ut[j][a]) - T[i][a]) for a in range(3)]
                    if all(x.is_const() and abs(x.value() - round(x.value().real)) < 1e-9 for x in d):
                        alts = None
                        break
                    alts.append(z3.And(*[z3.IsInt(ctx.zreal(x)) for x in d]))
            if alts is not None:
                obl.never("translation is that of one of the duplicates modulo the lattice", z3.Not(z3.Or(*alts)))


class Lattice(Case):
    """Settings lo..hi: the columns of the matrix span the lattice with its centring translations."""

    def inputs(self, ctx):
        return {f"n{a}": ctx.integer(f"n{a}") for a in range(3)}

    @staticmethod
    def centring(hall):
        r, t = G.conventional(hall)
        c = [t[i] % 1 for i in range(len(r)) if (r[i] == np.eye(3)).all()]
        return np.array(c)

    @staticmethod
    def fractions(M):
        out = [[Fraction(float(x)).limit_denominator(24) for x in row] for row in np.asarray(M, dtype=float)]
        assert np.abs(np.array(out, dtype=float) - M).max() < 1e-9
        return out

    def symbolic(self, ctx, L, inp, obl):
        n = [ctx.atoms[list(inp[f"n{a}"].atoms())[0]].zv for a in range(3)]

        def integral(coefs, const):
            """sum coefs n + const is an integer."""
            D = int(np.lcm.reduce([c.denominator for c in list(coefs) + [const]]))
            if D == 1:
                return z3.BoolVal(True)
            return sum((int(c * D) * x for c, x in zip(coefs, n)), z3.IntVal(int(const * D))) % D == 0

        f = L.mods["spgrep.transform"].get_primitive_transformation_matrix
        done = set()  # settings with the same matrix and centring share their obligations
        for hall in range(*self.params["halls"]):
            P = np.array(f(hall), dtype=float)
            cent = self.centring(hall)
            try:
                A, B = self.fractions(P), self.fractions(np.linalg.inv(P))
            except (AssertionError, np.linalg.LinAlgError):
                obl.true(f"rational matrix {hall}", False)
                continue
            obl.true(f"orientation {hall}", np.linalg.det(P) > 0)
            cf = [[Fraction(float(x)).limit_denominator(24) for x in c] for c in cent]
            key = (str(A), str(sorted(cf)))
            if key in done:
                continue
            done.add(key)
            inside = [z3.And(*[integral(A[a], -c[a]) for a in range(3)]) for c in cf]
            obl.never(f"every spanned vector is a lattice translation {hall}", z3.Not(z3.Or(*inside)))
            for c in cf:
                ok = z3.And(*[integral(B[a], sum((B[a][q] * c[q] for q in range(3)), Fraction(0))) for a in range(3)])
                obl.never(f"every lattice translation is spanned {hall}", z3.Not(ok))

    def concrete(self, vals):
        n = np.array([vals[f"n{a}"] for a in range(3)])
        cubes = np.array(list(np.ndindex(3, 3, 3))) - 1
        for hall in range(*self.params["halls"]):
            P = np.array(call(real("transform").get_primitive_transformation_matrix, hall), dtype=float)
            cent = self.centring(hall)
            if P.shape != (3, 3) or not np.linalg.det(P) > 1e-3:
                return f"{hall}: determinant"
            for m in np.concatenate([[n], cubes]):
                x = P @ m
                if min(np.abs(x - c - np.rint(x - c)).max() for c in cent) > 1e-6:
                    return f"hall {hall}: {x.tolist()} is not a lattice translation"
                for c in cent:
                    y = np.linalg.solve(P, m + c)
                    if np.abs(y - np.rint(y)).max() > 1e-6:
                        return f"hall {hall}: lattice translation {(m + c).tolist()} is not spanned"
        return None


def make(**p):
    return {"trans": Trans, "unique": Unique, "listed": Listed, "lattice": Lattice}[p["kind"]](**p)


def jobs(tier, seed):
    out = []
    for lo in range(1, 531, 53):
        out.append({"kind": "lattice", "halls": [lo, min(lo + 53, 531)]})
    halls = [1, 6, 21, 57, 116, 122, 278, 334, 355, 406, 433, 434, 446, 460, 462, 488, 497, 503, 512, 517] if tier == "quick" else list(G.default_halls())
    sh = ["upper", "lower", "row", "none"]
    un = list(UNI)
    for q, h in enumerate(halls):
        for s in ([sh[q % 4], sh[(q + 1) % 4]] if tier == "quick" else sh):
            out.append({"kind": "trans", "hall": h, "shear": s, "uni": un[q % len(un)], "n": 2 if tier == "quick" else 4})
    for g in ({"uni": 1631}, {"uni": 1620}, {"uni": 1599}, {"uni": 490}, {"hall": 523}, {"hall": 529}, {"hall": 485}):
        out.append({"kind": "listed", **g})
    for tr in (0, 1):
        for m, e in ([(1, 1), (2, 2), (3, 1), (3, 2), (4, 1)] if tier == "quick" else [(1, 1), (2, 2), (3, 1), (3, 2), (4, 1), (4, 2), (5, 1)]):
            for pos in ((0, 4) if tier == "quick" else (0, 1, 3, 4, 8)):
                if (m == 4 and tr and pos) and tier == "quick":
                    continue
                out.append({"kind": "unique", "m": m, "e": e, "tr": tr, "pos": pos, "base": pos % 3})
    return out
