"""C16: numerical utilities."""
from fractions import Fraction

from checks.common import *
from checks.c17 import num_rep, sym_rep

FUNCTIONS = ["utils.nroot", "utils.is_prime", "utils.is_integer_array", "utils.ndarray2d_to_integer_tuple", "utils.mode_dot", "utils.grassmann_distance"]
UNKNOWNS = "modulus (any positive real) and argument of z; integers to be tested; every array entry; tensor and matrix entries; phases and scales of basis vectors"
BOUNDS = "n <= 8 (thorough 16) for roots; integers -6..90 (thorough 250); arrays up to 4 entries; tensors up to rank 3, mode sizes 1..3; subspaces of dimension <= 3 (thorough 5) in C^4..C^6 (C^10) from fixed numeric frames with unknown phases"


class Root(Case):
    """z = rho exp(2 pi i theta), theta in [-4, 4]."""

    def inputs(self, ctx):
        self.rho = ctx.positive("rho")
        self.th = ctx.real("theta", -4, 4)
        return {"rho": self.rho, "theta": self.th}

    def symbolic(self, ctx, L, inp, obl):
        import z3

        n = self.params["n"]
        z = self.rho * laws.phase(self.th)
        w = V.Sym.lift(L.mods["spgrep.utils"].nroot(z, n))
        p = 1
        for _ in range(n):
            p = norm_(p * w)
        obl.zero("n-th power of the root", norm_(p - z))
        _, u = ctx.polar(w)
        u = V.Sym.lift(u)
        if u.is_const():
            v = u.value().real
            obl.true("angle at most pi/n", abs(v - round(v)) <= 0.5 / n + 1e-9)
        else:
            m = z3.ToReal(z3.Int("turn"))
            zu = ctx.zreal(u)
            lim = z3.RealVal(str(Fraction(1, 2 * n) + Fraction(1, 10**9)))
            obl.never("angle at most pi/n", z3.And(2 * (zu - m) <= 1, 2 * (zu - m) >= -1, z3.Or(zu - m > lim, m - zu > lim)))

    def concrete(self, vals):
        n = self.params["n"]
        z = vals["rho"] * np.exp(2j * np.pi * vals["theta"])
        w = call(real("utils").nroot, np.complex128(z), n)
        if abs(w**n - z) > 1e-6 * max(1, abs(z)):
            return f"nroot({z}, {n}) = {w} has power {w**n}"
        if abs(np.angle(w)) > np.pi / n + 1e-6:
            return f"angle {np.angle(w)} exceeds pi/{n}"
        return None


def norm_(x):
    return V.norm(V.Sym.lift(x))


class Prime(Case):
    opts = {"max_enum": 400}

    def inputs(self, ctx):
        lo, hi = self.params["range"]
        self.n = ctx.integer("n", lo, hi)
        return {"n": self.n}

    def symbolic(self, ctx, L, inp, obl):
        got = bool(L.mods["spgrep.utils"].is_prime(self.n))
        n = ctx.atoms[list(self.n.atoms())[0]].zv
        import z3

        hi = self.params["range"][1]
        composite = z3.Or(n < 2, *[z3.And(n > d, n % d == 0) for d in range(2, int(hi**0.5) + 1)])
        obl.never("primality", composite if got else z3.Not(composite))

    def concrete(self, vals):
        n = int(vals["n"])
        want = n >= 2 and all(n % d for d in range(2, n))
        got = call(real("utils").is_prime, n)
        return None if bool(got) == want else f"is_prime({n}) = {got}"


class IntArray(Case):
    opts = {"tol_mode": "exact"}

    def inputs(self, ctx):
        sh = self.params["shape"]
        inp = {}
        self.x = np.empty(sh, dtype=object)
        for idx in np.ndindex(*sh):
            n = "x" + "".join(map(str, idx))
            inp[n] = self.x[idx] = ctx.real(n, -9, 9)
        self.atol = inp["atol"] = ctx.real("atol", 0, Fraction(1, 10))
        return inp

    def symbolic(self, ctx, L, inp, obl):
        import z3

        got = bool(L.mods["spgrep.utils"].is_integer_array(SA(self.x.copy()), rtol=0.0, atol=self.atol))
        at = ctx.zreal(self.atol)
        eps = z3.RealVal("1/1000000000")
        far, near = [], []
        for q, v in enumerate(self.x.ravel()):
            z, m = ctx.zreal(norm_(v)), z3.ToReal(z3.Int(f"near_{q}"))
            near.append(z3.And(z - m <= at - eps, m - z <= at - eps))
            far.append(z3.And(2 * (z - m) <= 1, 2 * (z - m) >= -1, z3.Or(z - m > at + eps, m - z > at + eps)))
        obl.never("near-integer test", z3.Or(*far) if got else z3.And(*near))

    def concrete(self, vals):
        sh = self.params["shape"]
        x = np.array([vals["x" + "".join(map(str, i))] for i in np.ndindex(*sh)]).reshape(sh)
        e = np.abs(x - np.rint(x)).max()
        if abs(e - vals["atol"]) < 1e-8:
            return None
        got = call(real("utils").is_integer_array, x, rtol=0.0, atol=vals["atol"])
        return None if bool(got) == (e < vals["atol"]) else f"is_integer_array({x.tolist()}, atol={vals['atol']}) = {got}"


class IntTuple(Case):
    def inputs(self, ctx):
        sh = self.params["shape"]
        inp = {}
        self.x = np.empty(sh, dtype=object)
        self.m = np.empty(sh, dtype=object)
        for idx in np.ndindex(*sh):
            t = "".join(map(str, idx))
            self.m[idx] = inp["m" + t] = ctx.integer("m" + t, -50, 50)
            d = inp["d" + t] = ctx.real("d" + t, Fraction(-49, 100), Fraction(49, 100))
            self.x[idx] = self.m[idx] + d
        return inp

    def symbolic(self, ctx, L, inp, obl):
        got = L.mods["spgrep.utils"].ndarray2d_to_integer_tuple(SA(self.x.copy()))
        obl.true("tuple of tuples", isinstance(got, tuple) and all(isinstance(r, tuple) for r in got) and [len(r) for r in got] == [self.x.shape[1]] * self.x.shape[0])
        for i, j in np.ndindex(*self.x.shape):
            obl.equal("nearest integer", got[i][j], self.m[i, j])

    def concrete(self, vals):
        sh = self.params["shape"]
        m = np.array([vals["m" + "".join(map(str, i))] for i in np.ndindex(*sh)]).reshape(sh)
        d = np.array([vals["d" + "".join(map(str, i))] for i in np.ndindex(*sh)]).reshape(sh)
        got = call(real("utils").ndarray2d_to_integer_tuple, m + d)
        want = tuple(tuple(int(x) for x in r) for r in m)
        if got != want:
            return f"{(m + d).tolist()} -> {got}"
        return None if all(isinstance(x, int) for r in got for x in r) else "entries are not integers"


class ModeDot(Case):
    def inputs(self, ctx):
        p = self.params
        inp = {}
        self.t = np.empty(tuple(p["m"]), dtype=object)
        for idx in np.ndindex(*p["m"]):
            n = "t" + "".join(map(str, idx))
            inp[n] = self.t[idx] = ctx.real(n)
        self.mats = [sym_rep(ctx, inp, f"m{q}_", 1, a, p["real"], b)[0] for q, (a, b) in enumerate(zip(p["m"], p["n"]))]
        return inp

    def symbolic(self, ctx, L, inp, obl):
        p = self.params
        k = "f" if p["real"] else "c"
        got = L.mods["spgrep.utils"].mode_dot(SA(self.t.copy(), "f"), [SA(m.copy(), k) for m in self.mats])
        want = np.empty(tuple(p["n"]), dtype=object)
        for o in np.ndindex(*p["n"]):
            s = V.Sym({})
            for i in np.ndindex(*p["m"]):
                term = self.t[i]
                for q in range(len(i)):
                    term = term * self.mats[q][i[q], o[q]]
                s = s + term
            want[o] = s
        eq_entries(obl, "contraction", got, want)

    def concrete(self, vals):
        p = self.params
        t = np.array([vals["t" + "".join(map(str, i))] for i in np.ndindex(*p["m"])]).reshape(p["m"])
        mats = [num_rep(vals, f"m{q}_", 1, a, p["real"], b)[0] for q, (a, b) in enumerate(zip(p["m"], p["n"]))]
        got = call(real("utils").mode_dot, t, mats)
        want = t
        for q, m in enumerate(mats):
            want = np.moveaxis(np.tensordot(want, m, axes=(q, 0)), -1, q)
        if got.shape != want.shape or np.abs(got - want).max() > 1e-8 * (1 + np.abs(want).max()):
            return "mode product differs from the contraction"
        return None


def frame(k, n, seed):
    rng = np.random.default_rng(seed)
    return rng.normal(size=(k, n)) + 1j * rng.normal(size=(k, n))


class Dist(Case):
    """Bases with unknown phases and scales: equal subspaces 0, orthogonal lines 1, value independent of the phases."""

    def inputs(self, ctx):
        p = self.params
        inp = {}
        self.ph, self.sc = [], []
        for q in range(p["k"] + p["l"]):
            inp[f"p{q}"] = ctx.real(f"p{q}", 0, 1)
            self.ph.append(inp[f"p{q}"])
        return inp

    def bases(self):
        p = self.params
        k, l, n = p["k"], p["l"], p["n"]
        a = frame(k, n, p["seed"])
        rng = np.random.default_rng(p["seed"] + 100)
        if p["kind"] == "equal":
            b = (rng.normal(size=(l, k)) + 1j * rng.normal(size=(l, k))) @ a
        elif p["kind"] == "orth":
            q = np.linalg.qr(np.concatenate([a, frame(n - k, n, p["seed"] + 7)]).T)[0].T
            b = q[k : k + l] * 2.5
        else:
            b = frame(l, n, p["seed"] + 31)
        if p["ortho"]:
            a, b = np.linalg.qr(a.T)[0].T, np.linalg.qr(b.T)[0].T
        return a, b

    def symbolic(self, ctx, L, inp, obl):
        p = self.params
        a, b = self.bases()
        A = np.array([[self.pexp(i) * complex(x) for x in r] for i, r in enumerate(a)], dtype=object)
        B = np.array([[self.pexp(p["k"] + i) * complex(x) for x in r] for i, r in enumerate(b)], dtype=object)
        f = L.mods["spgrep.utils"].grassmann_distance
        for o in ("min", "projection"):
            d = f(SA(A.copy(), "c"), SA(B.copy(), "c"), ord=o, skip_orthonormalization=bool(p["ortho"]))
            obl.zero(f"distance ({o})", V.Sym.lift(d) - self.want(a, b, o), tol=2e-6)
        try:
            f(SA(A.copy(), "c"), SA(B.copy(), "c"), ord="max")
            obl.true("unknown kind rejected", False)
        except ValueError:
            obl.true("unknown kind rejected", True)

    def pexp(self, i):
        return V.Sym.lift(laws.phase(self.ph[i]))

    def want(self, a, b, o):
        qa, qb = np.linalg.qr(a.T)[0], np.linalg.qr(b.T)[0]
        ang = np.arccos(np.clip(np.linalg.svd(qa.conj().T @ qb, compute_uv=False), -1, 1))  # ascending
        if o == "min":
            return float(np.sin(ang[-1]))
        return float(np.sqrt(np.mean(ang**2)))

    def concrete(self, vals):
        p = self.params
        a, b = self.bases()
        A = np.array([np.exp(2j * np.pi * vals[f"p{i}"]) * r for i, r in enumerate(a)])
        B = np.array([np.exp(2j * np.pi * vals[f"p{p['k'] + i}"]) * r for i, r in enumerate(b)])
        f = real("utils").grassmann_distance
        for o in ("min", "projection"):
            d = call(f, A, B, ord=o, skip_orthonormalization=bool(p["ortho"]))
            if not abs(d - self.want(a, b, o)) < 1e-6:
                return f"distance ({o}) {d} instead of {self.want(a, b, o)}"
        try:
            f(A, B, ord="max")
            return "unknown kind accepted"
        except ValueError:
            pass
        return None


def make(kind_, **p):
    return {"root": Root, "prime": Prime, "intarray": IntArray, "inttuple": IntTuple, "mode": ModeDot, "dist": Dist}[kind_](kind_=kind_, **p)


def jobs(tier, seed):
    th = tier == "thorough"
    out = [{"kind_": "root", "n": n} for n in range(1, 17 if th else 9)]
    hi = 250 if th else 90
    out += [{"kind_": "prime", "range": [a, min(a + 29, hi)]} for a in range(-6, hi, 30)]
    out += [{"kind_": "intarray", "shape": s} for s in ([1], [2], [3], [2, 2])]
    out += [{"kind_": "inttuple", "shape": s} for s in ([1, 1], [2, 2], [1, 3], [3, 3], [2, 3])]
    for m, n in (([2], [3]), ([3], [1]), ([2, 2], [2, 2]), ([2, 3], [3, 1]), ([3, 2], [2, 2]), ([2, 2, 2], [1, 2, 3]), ([1, 2, 3], [2, 1, 2])) + (
        (([3, 3, 3], [2, 3, 1]), ([2, 2, 2, 2], [1, 2, 1, 2])) if th else ()
    ):
        for r in (1, 0):
            out.append({"kind_": "mode", "m": m, "n": n, "real": r})
    for kind in ("equal", "orth", "generic"):
        for k, l in ((1, 1), (2, 2), (1, 2), (2, 1)):
            if kind == "equal" and k != l:
                continue
            for ortho in (0, 1):
                out.append({"kind_": "dist", "kind": kind, "k": k, "l": l, "n": 4, "seed": k + 2 * l, "ortho": ortho})
        for k, l in ((3, 3), (3, 2), (1, 3)) + (((4, 4), (4, 3), (3, 5)) if th else ()):
            if kind == "equal" and k != l:
                continue
            for ortho in (0, 1):
                out.append({"kind_": "dist", "kind": kind, "k": k, "l": l, "n": 2 * max(k, l), "seed": k + 2 * l, "ortho": ortho})
    return out
