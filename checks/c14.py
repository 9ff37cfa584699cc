"""C14: verdicts of is_unitary, is_representation, check_spacegroup_representation, is_equivalent_irrep."""
from checks.common import *

FUNCTIONS = ["representation.is_unitary", "representation.is_representation", "representation.check_spacegroup_representation",
             "irreps.is_equivalent_irrep", "representation.get_character"]
UNKNOWNS = ("free matrix entries (dimension 1..2), or a displacement of any one or two entries of a correct representation; the factor-system entries; "
            "for space groups k, the translations and a phase and modulus per operation; one phase per operation and per irrep for characters")
BOUNDS = ("groups of order 1..12, dimension 1..3; corruption at every operation and every entry of the listed representations; tolerances idealised, "
          "and with the real tolerances for the corrupted real entry: answer pinned below 1e-9 and above 1e-3")

S3 = np.sqrt(3) / 2
W = np.exp(2j * np.pi / 3)


def closure(gens):
    els = [np.eye(len(gens[0]), dtype=complex)]
    q = list(els)
    while q:
        x = q.pop()
        for g in gens:
            y = g @ x
            if not any(np.abs(y - e).max() < 1e-9 for e in els):
                els.append(y)
                q.append(y)
    return els


def group_of(name):
    """(rotations, table, irreducible matrices of dimension 1..3 with their factor system or None)."""
    R = G.pointgroups()[name]
    return R, oracle.table(R)


def cart(name):
    R = G.pointgroups()[name]
    lat = G.lattice_for(R)
    return np.array([lat.T @ r @ np.linalg.inv(lat.T) for r in R])


def spin_rep(name):
    """Projective two-dimensional representation of a proper group by quaternions, with its sign table."""
    C = cart(name)
    U = []
    for c in C:
        w, v = np.linalg.eig(c)
        ax = np.real(v[:, np.argmin(np.abs(w - 1))])
        ax = ax / np.linalg.norm(ax)
        cs = (np.trace(c) - 1) / 2
        sn = 0.5 * np.dot(ax, [c[2, 1] - c[1, 2], c[0, 2] - c[2, 0], c[1, 0] - c[0, 1]])
        th = np.arctan2(sn, cs)
        U.append(np.cos(th / 2) * np.eye(2) - 1j * np.sin(th / 2) * np.einsum("i,iab->ab", ax, oracle.PAULI))
    U = np.array(U)
    idx = oracle.table(G.pointgroups()[name])
    om = np.array([[np.trace(U[i] @ U[j] @ U[idx[i, j]].conj().T) / 2 for j in range(len(U))] for i in range(len(U))])
    return U, np.rint(om.real).astype(complex)


REPS = {
    "2d": lambda n: cart(n)[:, :2, :2],
    "3d": cart,
    "1d": lambda n: np.linalg.det(cart(n))[:, None, None],
    "chi": lambda n: np.exp(2j * np.pi * np.arange(len(G.pointgroups()[n])) / len(G.pointgroups()[n]))[:, None, None],
}


def base_rep(kind, name):
    if kind == "spin":
        return spin_rep(name)
    r = np.asarray(REPS[kind](name), dtype=complex)
    if kind == "chi":
        # powers of the generator of a cyclic group
        R = G.pointgroups()[name]
        gen = next(g for g in R if len({tuple(np.linalg.matrix_power(g, q).ravel()) for q in range(len(R))}) == len(R))
        power = {tuple(np.linalg.matrix_power(gen, q).ravel()): q for q in range(len(R))}
        r = np.array([np.exp(2j * np.pi * power[tuple(x.ravel())] / len(R)) for x in R])[:, None, None]
    return r, None


class T(Case):
    """Common: decide() compares the verdict with the defining equations."""

    opts = {"max_decisions": 6000}

    def agree(self, obl, verdict, residuals, name):
        holds = True
        for e in residuals:
            if not bool(V.SymBool.eq([V.Sym.lift(e)])):
                holds = False
                break
        obl.true(f"{name}: answered {bool(verdict)} although the equations {'hold' if holds else 'fail'}", bool(verdict) == holds)

    @staticmethod
    def agree_num(verdict, err, name, lo=1e-9, hi=1e-3):
        if verdict and err > hi:
            return f"{name} answered True, largest violation {err:.3g}"
        if not verdict and err < lo:
            return f"{name} answered False, largest violation {err:.3g}"
        return None


def freemat(ctx, inp, tag, shape, real=False):
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        t = tag + "_".join(map(str, idx))
        x = inp[t + "r"] = ctx.real(t + "r")
        if not real:
            y = inp[t + "i"] = ctx.real(t + "i")
            x = x + y * 1j
        a[idx] = x
    return a


def freenum(vals, tag, shape, real=False):
    a = np.zeros(shape, dtype=float if real else complex)
    for idx in np.ndindex(*shape):
        t = tag + "_".join(map(str, idx))
        a[idx] = vals[t + "r"] + (0 if real else 1j * vals[t + "i"])
    return a


def put(a, spots, ds):
    a = np.array(a, dtype=object if any(isinstance(x, V.Sym) for x in ds) else complex)
    for s, d in zip(spots, ds):
        a[tuple(s)] = a[tuple(s)] + d
    return a


class Unit(T):
    def inputs(self, ctx):
        p = self.params
        inp = {}
        if p["form"] == "free":
            self.a = freemat(ctx, inp, "m", (p["n"], p["d"], p["d"]), p.get("real", False))
        else:
            self.d = [freemat(ctx, inp, f"d{q}", ())[()] for q in range(len(p["at"]))]
        return inp

    def symbolic(self, ctx, L, inp, obl):
        p = self.params
        a = self.a if p["form"] == "free" else put(base_rep(p["rep"], p["pg"])[0], p["at"], self.d)
        v = L.mods["spgrep.representation"].is_unitary(SA(np.array(a, dtype=object), "c"))
        res = []
        for m in np.asarray(a, dtype=object):
            x = laws.matmul(laws.dag(m), m)  # the other order than in the code: same condition for square matrices
            y = laws.matmul(m, laws.dag(m))
            e = np.eye(len(m))
            res += [y[q] - e[q] for q in np.ndindex(*x.shape)]
        self.agree(obl, v, res, "is_unitary")

    def concrete(self, vals):
        p = self.params
        if p["form"] == "free":
            a = freenum(vals, "m", (p["n"], p["d"], p["d"]), p.get("real", False))
        else:
            a = put(base_rep(p["rep"], p["pg"])[0], p["at"], [complex(freenum(vals, f"d{q}", ())[()]) for q in range(len(p["at"]))])
        a = np.asarray(a)
        return self.agree_num(call(real("representation").is_unitary, a), oracle.unitary(a), "is_unitary")


class Rep(T):
    """is_representation with a given table."""

    def tab(self):
        return group_of(self.params["pg"])[1]

    def inputs(self, ctx):
        p = self.params
        inp = {}
        n = len(self.tab())
        if p["form"] == "free":
            self.a = freemat(ctx, inp, "m", (n, p["d"], p["d"]), p.get("real", False))
            self.om = freemat(ctx, inp, "o", (n, n), p.get("real", False)) if p["om"] else None
        else:
            self.d = [freemat(ctx, inp, f"d{q}", (), p.get("real", False))[()] for q in range(len(p["at"]))]
            self.e = [freemat(ctx, inp, f"e{q}", (), p.get("real", False))[()] for q in range(len(p.get("om_at", [])))]
            self.g = {i: inp.setdefault(f"g{i}", ctx.real(f"g{i}", 0, 1)) for i in p.get("gauge", [])}
        return inp

    def turned(self, a, om, g):
        """Phases carried by elements, with the factor system which goes with them."""
        idx = self.tab()
        a, om = np.array(a, dtype=object), np.array(om if om is not None else np.ones(idx.shape), dtype=object)
        for i in g:
            for q in np.ndindex(*a.shape[1:]):
                a[(i,) + q] = a[(i,) + q] * g[i]
        for i, j in np.ndindex(*idx.shape):
            om[i, j] = g.get(i, 1) * g.get(j, 1) * (g[idx[i, j]].conjugate() if idx[i, j] in g else 1) * om[i, j]
        return a, om

    def build(self, a, om, d, e):
        p = self.params
        if p["form"] == "free":
            return a, om
        r, z = base_rep(p["rep"], p["pg"])
        if z is None and (p.get("om_at") or p.get("om")):
            z = np.ones((len(r), len(r)), dtype=complex)
        return put(r, p["at"], d), (None if z is None else put(z, p.get("om_at", []), e))

    def symbolic(self, ctx, L, inp, obl):
        p = self.params
        idx = self.tab()
        a, om = self.build(getattr(self, "a", None), getattr(self, "om", None), getattr(self, "d", None), getattr(self, "e", None))
        if p.get("gauge"):
            a, om = self.turned(a, om, {i: V.Sym.lift(laws.phase(x)) for i, x in self.g.items()})
        f = L.mods["spgrep.representation"].is_representation
        v = f(SA(np.array(a, dtype=object), "c"), idx.copy(), *([] if om is None else [SA(np.array(om, dtype=object), "c")]))
        a = np.asarray(a, dtype=object)
        res = []
        for i, j in np.ndindex(*idx.shape):
            x = laws.matmul(a[i], a[j])
            for q in np.ndindex(*x.shape):
                z = 1 if om is None else om[i, j]
                e = x[q] - z * a[idx[i, j]][q]
                if not isinstance(e, V.Sym) and abs(e) < 1e-9:
                    continue
                res.append(e)
        if p.get("exact"):
            import z3

            for e in res:
                re, im = ctx.zreim(V.norm(V.Sym.lift(e)))
                if v:
                    obl.never("is_representation: True with a violation above 1e-3", z3.Or(re > 1e-3, re < -1e-3, im > 1e-3, im < -1e-3))
            if not v:
                fs = [x for e in res for x in ctx.zreim(V.norm(V.Sym.lift(e)))]
                obl.never("is_representation: False with all violations below 1e-9", z3.And(*[z3.And(x < 1e-9, x > -1e-9) for x in fs]))
            return
        self.agree(obl, v, res, "is_representation")

    def concrete(self, vals):
        p = self.params
        idx = self.tab()
        n = len(idx)
        if p["form"] == "free":
            a = freenum(vals, "m", (n, p["d"], p["d"]), p.get("real", False))
            om = freenum(vals, "o", (n, n), p.get("real", False)) if p["om"] else None
        else:
            d = [complex(freenum(vals, f"d{q}", (), p.get("real", False))[()]) for q in range(len(p["at"]))]
            e = [complex(freenum(vals, f"e{q}", (), p.get("real", False))[()]) for q in range(len(p.get("om_at", [])))]
            a, om = self.build(None, None, d, e)
            if p.get("gauge"):
                a, om = (x.astype(complex) for x in self.turned(a, om, {i: complex(np.exp(2j * np.pi * vals[f"g{i}"])) for i in p["gauge"]}))
        z = np.ones((n, n)) if om is None else om
        err = max(np.abs(a[i] @ a[j] - z[i, j] * a[idx[i, j]]).max() for i, j in np.ndindex(n, n))
        sc = 1 + np.abs(a).max() ** 2
        v = call(real("representation").is_representation, a, idx, *([] if om is None else [om]))
        return self.agree_num(v, err, "is_representation", hi=1e-3 * sc)


class Space(T):
    """check_spacegroup_representation; D_i = rho_i exp(2 pi i phi_i) M_i, unknown k or unknown translations."""

    opts = {"eager_den": 12, "max_decisions": 6000}

    def ops(self):
        p = self.params
        if p["cell"] == "conv":
            r, t = G.conventional(p["hall"])
            r, t = np.array(r), np.array(t)
        else:
            r, t = prim_ops(p["hall"])
        return r, t

    def mats(self):
        p = self.params
        r, _ = self.ops()
        if p["mat"] == "one":
            return np.ones((len(r), 1, 1), dtype=complex)
        lat = G.lattice_for(r)
        C = np.array([lat.T @ x @ np.linalg.inv(lat.T) for x in r])
        return (C if p["mat"] == "3d" else C[:, :2, :2]).astype(complex)

    def inputs(self, ctx):
        p = self.params
        r, t = self.ops()
        inp = {}
        if p["sym"] == "k":
            i2, self.k = laws.kvec(ctx)
            inp.update(i2)
            self.t = t.astype(object)
        elif p["sym"] == "fixed":
            self.k = [float(x) for x in p["k"]]
            self.t = t.astype(object)
        else:
            self.k = [float(x) for x in p["k"]]
            self.t = np.empty(t.shape, dtype=object)
            for i in range(len(t)):
                for a in range(3):
                    self.t[i, a] = inp[f"t{i}{a}"] = ctx.real(f"t{i}{a}", -2, 2)
        self.ph = []
        for i in range(len(r)):
            self.ph.append(inp.setdefault(f"p{i}", ctx.real(f"p{i}", 0, 1)) if p["ph"] != "none" else 0)
        self.rho = [inp.setdefault(f"rho{i}", ctx.positive(f"rho{i}")) if i in p.get("rho", []) else 1 for i in range(len(r))]
        self.psi = {}
        for i, j in p.get("psi", []):
            self.psi[i, j] = inp[f"s{i}{j}"] = ctx.real(f"s{i}{j}", 0, 1)
        # phases carried by operations and undone by the factor system
        self.g = {i: inp.setdefault(f"g{i}", ctx.real(f"g{i}", 0, 1)) for i in p.get("gauge", [])}
        self.d = [freemat(ctx, inp, f"d{q}", ())[()] for q in range(len(p.get("at", [])))]
        return inp

    def products(self):
        r, _ = self.ops()
        key = {}
        for i in range(len(r)):
            key.setdefault(r[i].tobytes(), i)
        return [[key[(a @ b).tobytes()] for b in r] for a in r]

    def symbolic(self, ctx, L, inp, obl):
        p = self.params
        r, _ = self.ops()
        M = self.mats()
        n = len(r)
        D = np.empty(M.shape, dtype=object)
        own = p["ph"] == "own"
        for i in range(n):
            kt = laws.k_dot(self.k, [-x for x in self.t[i]])
            f = laws.phase(kt) if own else 1
            if not own or i in p.get("free", []):
                f = f * laws.phase(self.ph[i])
            if i in self.g:
                f = f * laws.phase(self.g[i])
            for q in np.ndindex(*M.shape[1:]):
                D[(i,) + q] = self.rho[i] * f * complex(M[(i,) + q]) if abs(M[(i,) + q]) > 1e-12 else 0.0
        for at, d in zip(p.get("at", []), self.d):
            D[tuple(at)] = D[tuple(at)] + d
        om = None
        if self.psi or self.g:
            om = np.ones((n, n), dtype=object)
            for (i, j), x in self.psi.items():
                om[i, j] = laws.phase(x)
            tab = self.products()
            for i, j in np.ndindex(n, n) if self.g else ():
                om[i, j] = V.Sym.lift(laws.phase(self.g.get(i, 0) + self.g.get(j, 0) - self.g.get(tab[i][j], 0))) * om[i, j]
        f = L.mods["spgrep.representation"].check_spacegroup_representation
        kw = {} if om is None else {"spinor_factor_system": SA(om.copy(), "c")}
        v = f(r.copy(), SA(self.t.copy(), "f"), SA(np.array(self.k, dtype=object), "f"), SA(D.copy(), "c"), **kw)
        # defining equations, by position of the first operation with the product rotation
        key = {}
        for i in range(n):
            key.setdefault(r[i].tobytes(), i)
        res = []
        for i, j in np.ndindex(n, n):
            l = key[(r[i] @ r[j]).tobytes()]
            T = [self.t[i][a] + sum(int(r[i][a, b]) * self.t[j][b] for b in range(3)) - self.t[l][a] for a in range(3)]
            u = laws.phase(laws.k_dot(self.k, [-x for x in T]))
            if om is not None:
                u = u * om[i, j]
            x = laws.matmul(D[i], D[j])
            if self.d:
                res += [e for q in np.ndindex(*M.shape[1:]) for e in [x[q] - u * D[l][q]] if isinstance(e, V.Sym) or abs(e) > 1e-9]
                continue
            # one representative non-zero entry decides phase and modulus, all entries are proportional to it
            q = max(np.ndindex(*M.shape[1:]), key=lambda q: abs(M[l][q]))
            res.append(x[q] - u * D[l][q])
        self.agree(obl, v, res, "check_spacegroup_representation")

    def concrete(self, vals):
        p = self.params
        r, t = self.ops()
        n = len(r)
        if p["sym"] == "k":
            k = laws.kval(vals)
        else:
            k = np.array(p["k"], dtype=float)
            t = t if p["sym"] == "fixed" else np.array([[vals[f"t{i}{a}"] for a in range(3)] for i in range(n)])
        M = self.mats()
        D = np.zeros(M.shape, dtype=complex)
        for i in range(n):
            f = 1.0 + 0j
            if p["ph"] == "own":
                f *= np.exp(-2j * np.pi * (k @ t[i]))
            if p["ph"] != "own" or i in p.get("free", []):
                f *= np.exp(2j * np.pi * vals.get(f"p{i}", 0.0))
            if i in p.get("gauge", []):
                f *= np.exp(2j * np.pi * vals[f"g{i}"])
            D[i] = vals.get(f"rho{i}", 1.0) * f * M[i]
        for q, at in enumerate(p.get("at", [])):
            D[tuple(at)] += complex(freenum(vals, f"d{q}", ())[()])
        om = np.ones((n, n), dtype=complex)
        for i, j in p.get("psi", []):
            om[i, j] = np.exp(2j * np.pi * vals[f"s{i}{j}"])
        if p.get("gauge"):
            tab = self.products()
            g = [vals.get(f"g{i}", 0.0) for i in range(n)]
            for i, j in np.ndindex(n, n):
                om[i, j] *= np.exp(2j * np.pi * (g[i] + g[j] - g[tab[i][j]]))
        key = {}
        for i in range(n):
            key.setdefault(r[i].tobytes(), i)
        err = 0
        for i, j in np.ndindex(n, n):
            l = key[(r[i] @ r[j]).tobytes()]
            u = om[i, j] * np.exp(-2j * np.pi * (k @ (t[i] + r[i] @ t[j] - t[l])))
            err = max(err, np.abs(D[i] @ D[j] - u * D[l]).max())
        kw = {"spinor_factor_system": om} if p.get("psi") or p.get("gauge") else {}
        v = call(real("representation").check_spacegroup_representation, r.copy(), t, k, D, **kw)
        return self.agree_num(v, err, "check_spacegroup_representation", hi=1e-3 * (1 + np.abs(D).max() ** 2))


class Equiv(T):
    """is_equivalent_irrep on projective characters: chi_a(g) exp(2 pi i phi_g) of irreps a, b of one group, any phases."""

    opts = {"max_decisions": 6000}

    def chars(self):
        p = self.params
        R = G.pointgroups()[p["pg"]]
        from checks.c14 import class_characters

        return class_characters(p["pg"]), len(R)

    def inputs(self, ctx):
        _, n = self.chars()
        return {f"p{i}": ctx.real(f"p{i}", 0, 1) for i in range(n)}

    def symbolic(self, ctx, L, inp, obl):
        (X, n) = self.chars()
        ph = [laws.phase(inp[f"p{i}"]) for i in range(n)]
        f = L.mods["spgrep.irreps"].is_equivalent_irrep
        rows = [np.array([V.norm(V.Sym.lift(ph[i] * complex(x[i]))) if abs(x[i]) > 1e-12 else 0.0 for i in range(n)], dtype=object) for x in X]
        for a in range(len(X)):
            for b in range(len(X)):
                v = f(SA(rows[a].copy(), "c"), SA(rows[b].copy(), "c"))
                obl.true(f"is_equivalent_irrep({a},{b}) answered {bool(v)}", bool(v) == (a == b))

    def concrete(self, vals):
        X, n = self.chars()
        ph = np.exp(2j * np.pi * np.array([vals[f"p{i}"] for i in range(n)]))
        f = real("irreps").is_equivalent_irrep
        for a in range(len(X)):
            for b in range(len(X)):
                v = call(f, X[a] * ph, X[b] * ph)
                if bool(v) != (a == b):
                    return f"is_equivalent_irrep of irreps {a} and {b} answered {v}"
        return None


def class_characters(name):
    """Character table of a point group by simultaneous diagonalisation of the class sums (Burnside), one row per irrep, on elements."""
    R = G.pointgroups()[name]
    n = len(R)
    idx = oracle.table(R)
    e = next(i for i in range(n) if (R[i] == np.eye(3)).all())
    inv = [int(np.where(idx[i] == e)[0][0]) for i in range(n)]
    cls, of = [], [None] * n
    for i in range(n):
        if of[i] is None:
            c = sorted({int(idx[idx[g, i], inv[g]]) for g in range(n)})
            for x in c:
                of[x] = len(cls)
            cls.append(c)
    m = len(cls)
    rng = np.random.default_rng(3)
    M = np.zeros((m, m))
    for a in range(m):
        w = rng.random()
        for b in range(m):
            for x in cls[a]:
                for y in cls[b]:
                    M[b, of[idx[x, y]]] += w / 1.0 / 1.0
    # M[b, c] counts products weighted by class; eigenvectors of the class algebra
    A = np.array([[M[b, c] / len(cls[c]) for c in range(m)] for b in range(m)])
    _, v = np.linalg.eig(A)
    rows = []
    c0 = of[e]
    for q in range(m):
        w = v[:, q]  # w_c = |C| chi_c / d up to scale
        w = w / w[c0]
        d = np.sqrt(n / sum(abs(w[c]) ** 2 / len(cls[c]) for c in range(m)))
        rows.append([w[of[i]] * d / len(cls[of[i]]) for i in range(n)])
    rows = np.array(rows)
    Gm = rows.conj() @ rows.T / n
    assert np.abs(Gm - np.eye(m)).max() < 1e-6, name
    return np.array([[G.frac([z.real])[0] + 1j * G.frac([z.imag])[0] for z in r] for r in rows])


KINDS = {"unitary": Unit, "rep": Rep, "space": Space, "equiv": Equiv}


def make(**p):
    return KINDS[p["f"]](**p)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    # unitarity
    for n, d in ((1, 1), (2, 1), (3, 1)):
        out.append({"f": "unitary", "form": "free", "n": n, "d": d})
    out.append({"f": "unitary", "form": "free", "n": 1, "d": 2, "real": True})
    for kind, pg in (("2d", "321"), ("3d", "23"), ("spin", "222"), ("1d", "mm2"), ("2d", "4mm")):
        r, _ = base_rep(kind, pg)
        n, d = r.shape[:2]
        for i in (range(n) if th else sorted({0, 1, n // 2, n - 1})):
            for a, b in np.ndindex(d, d):
                out.append({"f": "unitary", "form": "corrupt", "rep": kind, "pg": pg, "at": [[i, a, b]]})
    # representations
    for pg, d, om in (("1", 1, 0), ("-1", 1, 0), ("-1", 1, 1), ("1", 1, 1)):
        out.append({"f": "rep", "form": "free", "pg": pg, "d": d, "om": om, "real": pg != "1"})
    for kind, pg in (("2d", "321"), ("3d", "23"), ("spin", "222"), ("chi", "6"), ("1d", "mm2"), ("chi", "4"), ("2d", "4mm")):
        r, z = base_rep(kind, pg)
        n, d = r.shape[:2]
        for i in (range(n) if th else sorted({0, 1, n // 2, n - 1})):
            for q, (a, b) in enumerate(np.ndindex(d, d)):
                if th or q in (0, d * d - 1, 1):
                    out.append({"f": "rep", "form": "corrupt", "rep": kind, "pg": pg, "at": [[i, a, b]]})
            out.append({"f": "rep", "form": "corrupt", "rep": kind, "pg": pg, "at": [[i, 0, d - 1]], "real": True, "exact": True})
        for i, j in ((0, 0), (1, 0), (0, n - 1), (n - 1, n - 1), (n - 1, n // 2)) if not th else np.ndindex(n, n):
            out.append({"f": "rep", "form": "corrupt", "rep": kind, "pg": pg, "at": [], "om_at": [[int(i), int(j)]]})
        for g in ([1], [n - 1, n // 2]):
            out.append({"f": "rep", "form": "corrupt", "rep": kind, "pg": pg, "at": [], "gauge": sorted(set(g))})
            out.append({"f": "rep", "form": "corrupt", "rep": kind, "pg": pg, "at": [[n - 1, 0, 0]], "gauge": sorted(set(g))})
    for j in out:
        if j.get("exact"):
            j["opts"] = "exact"
    # space groups
    for hall, mat in ((4, "one"), (6, "one"), (18, "one"), (81, "one"), (112, "one"), (116, "one"), (349, "2d"), (431, "2d"), (2, "3d"), (90, "one")):
        r, t = prim_ops(hall)
        n = len(r)
        if n <= 4:
            out.append({"f": "space", "hall": hall, "cell": "prim", "mat": mat, "sym": "k", "ph": "all"})
        out.append({"f": "space", "hall": hall, "cell": "prim", "mat": mat, "sym": "k", "ph": "own"})
        for i in (range(n) if th else sorted({0, 1, n - 1})):
            out.append({"f": "space", "hall": hall, "cell": "prim", "mat": mat, "sym": "k", "ph": "own", "free": [i]})
            out.append({"f": "space", "hall": hall, "cell": "prim", "mat": mat, "sym": "k", "ph": "own", "free": [i], "rho": [i]})
        for i, j in ((0, 0), (n - 1, 0), (n - 1, n - 1), (0, 1), (1, n - 1)):
            out.append({"f": "space", "hall": hall, "cell": "prim", "mat": mat, "sym": "k", "ph": "own", "psi": [[i, j]]})
        for i, a, b in ([(n - 1, 0, 1), (1, 1, 0), (n // 2, 1, 1), (0, 0, 0)] if mat != "one" else []):
            for k in ([0.0, 0.0, 0.5], [0.5, 0.5, 0.25]):
                out.append({"f": "space", "hall": hall, "cell": "prim", "mat": mat, "sym": "fixed", "k": k, "ph": "own", "at": [[i, a, b]]})
        for g in ([1], [n - 1, n // 2]):
            out.append({"f": "space", "hall": hall, "cell": "prim", "mat": mat, "sym": "k", "ph": "own", "gauge": sorted(set(g))})
            out.append({"f": "space", "hall": hall, "cell": "prim", "mat": mat, "sym": "k", "ph": "own", "free": [n - 1], "gauge": sorted(set(g))})
        if n <= 4:
            for k in ([0.5, 0.5, 0.5], [1 / 3, 0.25, 0.2]):
                out.append({"f": "space", "hall": hall, "cell": "prim", "mat": mat, "sym": "t", "ph": "all", "k": k})
    for hall in (9, 30, 122, 212):
        r, t = G.conventional(hall)
        n = len(r)
        if n > 16:
            continue
        out.append({"f": "space", "hall": hall, "cell": "conv", "mat": "one", "sym": "k", "ph": "own"})
        for i in sorted({0, n // 2, n - 1}):
            out.append({"f": "space", "hall": hall, "cell": "conv", "mat": "one", "sym": "k", "ph": "own", "free": [i]})
    for pg in ("1", "-1", "222", "mm2", "3", "321", "4", "6", "4mm", "23", "432", "mmm") + (("6/mmm", "m-3m", "m-3", "-43m") if th else ()):
        out.append({"f": "equiv", "pg": pg})
    return out
