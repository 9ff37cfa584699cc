"""C09: representations over the real numbers."""
from checks.common import *

FUNCTIONS = ["core.get_spacegroup_irreps_from_primitive_symmetry(real=True)", "core.get_crystallographic_pointgroup_irreps_from_symmetry(real=True)", "irreps.enumerate_small_representations",
             "irreps.enumerate_unitary_irreps", "irreps.get_physically_irrep", "irreps.purify_real_irrep_value", "representation.frobenius_schur_indicator", "representation.get_intertwiner"]
UNKNOWNS = "k in R^3 (three reals plus three unbounded integers); nothing in the point-group jobs (they cover the operation orders listed)"
BOUNDS = "space groups and settings listed in the jobs (quick: 59 settings), 37 point-group settings, given operation order db/reversed/shuffled"


def symmetric_commutant(M):
    """Dimension of the space of real symmetric X commuting with all M."""
    d = M.shape[-1]
    basis = []
    for i in range(d):
        for j in range(i, d):
            X = np.zeros((d, d))
            X[i, j] = X[j, i] = 1.0
            basis.append(X)
    A = np.array([np.concatenate([(X @ m - m @ X).ravel() for m in M]) for X in basis]).T
    return len(basis) - int((np.linalg.svd(A.T @ A, compute_uv=False) > 1e-7).sum())


def real_list(rec, reps, n, indicators=None):
    """Types, irreducibility and completeness of numeric real representations of a group of order n (rec: true(name, cond))."""
    total = 0.0
    ch = []
    for q, D in enumerate(reps):
        c = np.einsum("kii->k", D)
        w = (c @ c) / n
        rec.true(f"representation {q}: one complex irrep, twice one, or a conjugate pair", min(abs(w - x) for x in (1, 2, 4)) < 1e-4)
        w = min((1, 2, 4), key=lambda x: abs(x - w))
        rec.true(f"representation {q} is irreducible over the reals", symmetric_commutant(D) == 1)
        total += D.shape[1] ** 2 / w
        ch.append(c)
        if indicators is not None:
            rec.true(f"representation {q}: reported indicator is its type", int(indicators[q]) == {1: 1, 4: -1, 2: 0}[w])
    for i in range(len(ch)):
        for j in range(i + 1, len(ch)):
            rec.true("no irrep occurs in two representations", abs(ch[i] @ ch[j]) < 1e-4 * n)
    rec.true("every complex irrep occurs", abs(total - n) < 1e-6)


class Collect:
    def __init__(self):
        self.msg = None

    def true(self, name, cond):
        if not cond and self.msg is None:
            self.msg = name


def is_self_conjugate(k):
    return np.abs(2 * k - np.rint(2 * k)).max() < 1e-6


class Space(Case):
    opts = {"timeout_ms": 2500}

    def inputs(self, ctx):
        inp, self.k = laws.kvec(ctx)
        return inp

    def ops(self):
        return prim_ops(self.params["hall"], self.params.get("order", "db"))

    def run(self, mod, r, t, k, ctx=None):
        p = self.params
        if p["call"] == "core":
            reps, mp = mod("core").get_spacegroup_irreps_from_primitive_symmetry(r.copy(), t.copy(), k, real=True, method=p["method"])
            return reps, None, mp
        lr, lt, mp = mod("group").get_little_group(r.copy(), t.copy(), k)
        reps, ind = mod("irreps").enumerate_small_representations(lr, lt, k, real=True, method=p["method"])
        return reps, ind, mp

    def symbolic(self, ctx, L, inp, obl):
        r, t = self.ops()
        reps, ind, mp = self.run(lambda m: L.mods["spgrep." + m], r, SA(t), SA(np.array(self.k, dtype=object)))
        mp = [int(x) for x in laws.raw(mp)]
        n = len(mp)
        R, T = r[mp], t[mp]
        obl.true("at least one representation", len(reps) > 0)
        two = [ctx.refine_const(V.norm(V.Sym.lift(x * 2.0))) for x in self.k]
        self_conj = self.decide_selfconj(ctx)
        halves = []
        full = []
        for q, D in enumerate(reps):
            D = laws.raw(D)
            d = D.shape[-1]
            for idx, v in np.ndenumerate(D):
                if isinstance(v, V.Sym):
                    obl.zero(f"representation {q} is real", v - v.conjugate())
                else:
                    obl.true(f"representation {q} is real", abs(complex(v).imag) < 1e-12)
            full.append(D)
            if self_conj:
                continue
            obl.true(f"representation {q} has even dimension", d % 2 == 0)
            if d % 2:
                return
            h = d // 2
            A, B = D[:, :h, :h], D[:, :h, h:]
            X = np.empty(A.shape, dtype=object)
            for idx in np.ndindex(*A.shape):
                i, a, b = idx
                obl.zero(f"representation {q}: diagonal blocks agree", V.Sym.lift(D[i, a, b]) - D[i, a + h, b + h])
                obl.zero(f"representation {q}: off-diagonal blocks are opposite", V.Sym.lift(D[i, a, b + h]) + D[i, a + h, b])
                X[idx] = V.norm(V.Sym.lift(A[idx]) + V.Sym.lift(B[idx]) * 1j).simp()
            halves.append(X)
        if self_conj:
            laws.rep_obligations(ctx, obl, full, R, T, self.k, complete=False)
            num = []
            signs = None
            for D in full:
                s = laws.split(D)
                if s is None:
                    raise V.Unsupported("real representation with unknown entries at a self-conjugate wave vector")
                # an operation may carry an unknown sign such as (-1)^n: common to all representations, it drops out of everything below
                sg = [x[0] for x in s]
                if any(x and V.phase_neg(x) != x for x in sg) or signs is not None and sg != signs:
                    raise V.Unsupported("real representation with unknown phases at a self-conjugate wave vector")
                signs = sg
                num.append(np.array([x[1] for x in s]).real)
            real_list(obl, num, n, ind)
        else:
            laws.rep_obligations(ctx, obl, halves, R, T, self.k, complete=False)
            chars = []
            for X in halves:
                s = laws.split(X)
                chars.append(laws.characters(X) if s is None else laws._chs(tuple(x[0] for x in s), np.array([np.trace(x[1]) for x in s])))
            for i in range(len(chars)):
                for j in range(i, len(chars)):
                    obl.zero("representations are irreducible and different", laws.inner(chars[i], chars[j]) - (n if i == j else 0), tol=1e-5 * n)
            if ind is not None:
                obl.true("indicators are zero where k and -k differ", all(int(x) == 0 for x in ind))

    def decide_selfconj(self, ctx):
        es = [V.norm(V.Sym.lift(x * 2.0)) for x in self.k]
        f = laws.is_integer_vector(ctx, es)
        import z3

        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        # on every path the code has decided this; ask which way
        if ctx.check(f) == "unsat":
            return False
        if ctx.check(laws.not_integer_vector(ctx, f)) == "unsat":
            return True
        raise V.Unsupported("path does not decide whether 2k is a reciprocal vector")

    def concrete(self, vals):
        r, t = self.ops()
        k = laws.kval(vals)
        if oracle.ambiguous(r, k) or 1e-9 < np.abs(2 * k - np.rint(2 * k)).max() < 1e-4:
            return None
        reps, ind, mp = call(self.run, real, r, t, k.copy())
        return judge(r[mp], t[mp], k, reps, ind)


def judge(R, T, k, reps, ind):
    n = len(R)
    if len(reps) == 0:
        return "no representation returned"
    X = []
    for q, D in enumerate(reps):
        D = np.asarray(D)
        if np.iscomplexobj(D) or not np.all(np.isfinite(D)):
            return f"representation {q} is not real"
        if D.shape[0] != n:
            return f"representation {q}: {D.shape[0]} matrices for {n} operations"
        e = oracle.unitary(D)
        if not e < 1e-4:
            return f"representation {q} not orthogonal ({e:.3g})"
    if is_self_conjugate(k):
        msg = oracle.rep_list([np.asarray(D) for D in reps], R, T, np.rint(2 * k) / 2)
        if msg:
            return msg
        c = Collect()
        real_list(c, [np.asarray(D) for D in reps], n, ind)
        return c.msg
    for q, D in enumerate(reps):
        h, odd = divmod(D.shape[1], 2)
        if odd:
            return f"representation {q} has odd dimension"
        if max(np.abs(D[:, :h, :h] - D[:, h:, h:]).max(), np.abs(D[:, :h, h:] + D[:, h:, :h]).max()) > 1e-5:
            return f"representation {q} is not a pair of conjugate blocks"
        X.append(D[:, :h, :h] + 1j * D[:, :h, h:])
    msg = oracle.rep_list(X, R, T, k)
    if msg:
        return msg
    ch = np.array([np.einsum("kii->k", x) for x in X])
    e = np.abs(ch.conj() @ ch.T / n - np.eye(len(ch))).max()
    if not e < 1e-4:
        return f"representations reducible or repeated ({e:.3g})"
    if ind is not None and any(int(x) for x in ind):
        return "indicator not zero although k and -k differ"
    return None


class Point(Case):
    """Point group: no unknown; covers methods and operation orders."""

    def inputs(self, ctx):
        return {}

    def data(self):
        R = G.pointgroups()[self.params["pg"]]
        return R[G.order_ops(len(R), self.params["order"])].copy()

    def symbolic(self, ctx, L, inp, obl):
        R = self.data()
        reps = L.mods["spgrep.core"].get_crystallographic_pointgroup_irreps_from_symmetry(R.copy(), real=True, method=self.params["method"])
        full = [laws.raw(D) for D in reps]
        laws.rep_obligations(ctx, obl, full, R, np.zeros((len(R), 3)), [0.0] * 3, complete=False)
        num = [np.array([x[1] for x in laws.split(D)]) for D in full]
        obl.true("representations are real", all(np.abs(D.imag).max() < 1e-12 for D in num))
        real_list(obl, [D.real for D in num], len(R))

    def concrete(self, vals):
        R = self.data()
        reps = call(real("core").get_crystallographic_pointgroup_irreps_from_symmetry, R.copy(), real=True, method=self.params["method"])
        return judge(R, np.zeros((len(R), 3)), np.zeros(3), reps, None)


def known_finding(k):
    """Message while the recorded finding still fails on the real code."""
    j = k["job"]
    _, r, t = G.primitive(j["hall"])
    kp = np.array(j["k"], dtype=float)
    lr, lt, _ = real("group").get_little_group(r, t, kp)
    reps, _ = real("irreps").enumerate_small_representations(lr, lt, kp, real=True)
    full, _ = real("irreps").enumerate_small_representations(lr, lt, kp)
    return f"{len(full)} irreps, but the {len(reps)} representations do not contain all of them" if len(reps) < len(full) else None


def make(**p):
    return Point(**p) if p["what"] == "point" else Space(**p)


def jobs(tier, seed):
    out = []
    orders = ["db", "rev", "shuf1", "shuf2"]
    th = tier == "thorough"
    for i, h in enumerate(QUICK_HALLS if not th else sorted(set(G.default_halls()) | set(QUICK_HALLS))):
        for m in ("Neto", "random"):
            if not th and ((m == "random") != (i % 3 == 2) or h in (440, 463, 474, 509)):
                continue
            out.append(dict(what="space", hall=h, method=m, order=orders[i % 4], call="core" if i % 2 else "small"))
    for i, pg in enumerate(G.pointgroups()):
        for j, m in enumerate(("Neto", "random")):
            for o in orders if th else [orders[(i + j) % 4]]:
                out.append(dict(what="point", pg=pg, method=m, order=o))
    out.sort(key=lambda j: -len(G.primitive(j["hall"])[1]) if "hall" in j else -len(G.pointgroups()[j["pg"]]) / 4)
    return out
