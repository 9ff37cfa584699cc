"""C17: direct products."""
from checks.common import *

FUNCTIONS = ["representation.get_direct_product", "representation.get_character"]
UNKNOWNS = "every matrix entry (independent real and imaginary parts, or real only)"
BOUNDS = "order 1..2, dimensions 1..3 (thorough: 4) for either factor, products of two and of three lists; unequal orders and non-square matrices rejected"


def sym_rep(ctx, inp, name, n, d, real=False, d2=None):
    d2 = d2 or d
    a = np.empty((n, d, d2), dtype=object)
    for idx in np.ndindex(n, d, d2):
        tag = f"{name}{''.join(map(str, idx))}"
        x = inp[tag + "r"] = ctx.real(tag + "r")
        if not real:
            y = inp[tag + "i"] = ctx.real(tag + "i")
            x = x + y * 1j
        a[idx] = x
    return a


def num_rep(vals, name, n, d, real=False, d2=None):
    d2 = d2 or d
    a = np.zeros((n, d, d2), dtype=float if real else complex)
    for idx in np.ndindex(n, d, d2):
        tag = f"{name}{''.join(map(str, idx))}"
        a[idx] = vals[tag + "r"] + (0 if real else 1j * vals[tag + "i"])
    return a


class C(Case):
    def inputs(self, ctx):
        p = self.params
        inp = {}
        n = p["n"]
        self.reps = [sym_rep(ctx, inp, "abc"[q], n, d, p["real"] == q + 1 or p["real"] == 9) for q, d in enumerate(p["dims"])]
        return inp

    def symbolic(self, ctx, L, inp, obl):
        p = self.params
        f = L.mods["spgrep.representation"].get_direct_product
        ch = L.mods["spgrep.representation"].get_character
        a, b = self.reps[:2]
        mk = lambda x, q: SA(x.copy(), "f" if p["real"] in (q + 1, 9) else "c")
        ab = f(mk(a, 0), mk(b, 1))
        n, d1, d2 = p["n"], p["dims"][0], p["dims"][1]
        got = laws.raw(ab)
        obl.true("shape", got.shape == (n, d1 * d2, d1 * d2))
        want = np.empty((n, d1 * d2, d1 * d2), dtype=object)
        for k, i, j, s, t in np.ndindex(n, d1, d1, d2, d2):
            want[k, i * d2 + s, j * d2 + t] = a[k, i, j] * b[k, s, t]
        eq_entries(obl, "Kronecker product with the first index slowest", got, want)
        ca, cb, cab = (laws.raw(ch(x)) for x in (mk(a, 0), mk(b, 1), ab))
        for k in range(n):
            obl.equal("characters multiply", cab[k], V.Sym.lift(ca[k]) * cb[k])
        if len(self.reps) == 3:
            c = self.reps[2]
            left = laws.raw(f(ab, mk(c, 2)))
            right = laws.raw(f(mk(a, 0), f(mk(b, 1), mk(c, 2))))
            eq_entries(obl, "associative", left, right)
        # rejected shapes
        for bad in (np.ones((n + 1, d2, d2)), np.ones((n, d2, d2 + 1)), np.ones((n + 2, d1, d1))):
            for args in ((mk(a, 0), bad), (bad, mk(a, 0))):
                try:
                    f(*args)
                    obl.true("inconsistent shapes rejected", False)
                except ValueError:
                    obl.true("inconsistent shapes rejected", True)

    def concrete(self, vals):
        p = self.params
        n = p["n"]
        reps = [num_rep(vals, "abc"[q], n, d, p["real"] in (q + 1, 9)) for q, d in enumerate(p["dims"])]
        m = real("representation")
        ab = call(m.get_direct_product, reps[0], reps[1])
        want = np.array([np.kron(x, y) for x, y in zip(reps[0], reps[1])])
        sc = 1 + np.abs(want).max()
        if ab.shape != want.shape or np.abs(ab - want).max() > 1e-8 * sc:
            return "not the Kronecker product"
        for bad in (np.ones((n + 1, p["dims"][1], p["dims"][1])), np.ones((n, p["dims"][1], p["dims"][1] + 1)), np.ones((n + 2, p["dims"][0], p["dims"][0]))):
            for args in ((reps[0], bad), (bad, reps[0])):
                try:
                    m.get_direct_product(*args)
                    return "inconsistent shapes accepted"
                except ValueError:
                    pass
        c = call(m.get_character, ab)
        cc = call(m.get_character, reps[0]) * call(m.get_character, reps[1])
        if np.abs(c - cc).max() > 1e-8 * (1 + np.abs(cc).max()):
            return "characters do not multiply"
        if len(reps) == 3:
            x = call(m.get_direct_product, ab, reps[2])
            y = call(m.get_direct_product, reps[0], call(m.get_direct_product, reps[1], reps[2]))
            if np.abs(x - y).max() > 1e-8 * (1 + np.abs(x).max()):
                return "product is not associative"
        return None


def make(**p):
    return C(**p)


def jobs(tier, seed):
    out = []
    D = 3 if tier == "quick" else 4
    for d1 in range(1, D + 1):
        for d2 in range(1, D + 1):
            for n in (1, 2):
                for r in (0, 1, 2, 9):
                    if n == 2 and r in (1, 2) and tier == "quick":
                        continue
                    out.append({"n": n, "dims": [d1, d2], "real": r})
    for d in ([1, 2, 3], [2, 2, 2], [3, 1, 2], [2, 3, 1]):
        out.append({"n": 1, "dims": d, "real": 0})
        out.append({"n": 2, "dims": d, "real": 9})
    return out
