"""C19: purification never moves an entry by more than the tolerance."""
from fractions import Fraction

from checks.common import *

FUNCTIONS = ["irreps.purify_irrep_value", "irreps.purify_real_irrep_value"]
UNKNOWNS = "the tolerance and two matrix entries (any real or complex values), the other entries concrete"
BOUNDS = "atol in [1e-9, 0.05]; arrays of one to two operations of dimension 1..2 with at most two unknown entries at a time"


S3 = 0.8660254037844386
TARGETS = {
    "complex": [(0, 0), (1, 0), (0.5, S3), (0, 1), (-0.5, S3), (-1, 0), (-0.5, -S3), (0, -1), (0.5, -S3)],
    "real": [(0, 0), (1, 0), (0.5, 0), (S3, 0), (-0.5, 0), (-S3, 0), (-1, 0)],
}


class C(Case):
    opts = {"tol_mode": "exact"}

    def inputs(self, ctx):
        p = self.params
        inp = {"atol": ctx.real("atol", Fraction(1, 10**9), Fraction(1, 20))}
        self.atol = inp["atol"]
        self.syms = {}
        for q, _ in enumerate(p["at"]):
            # every entry lies within 2 atol of a target value or is far away from it: a displacement (dx, dy) around it
            box = p["near"][q]
            R = Fraction(1, 10)
            lim = [(-2, 2)] * 2 if box is None else [(Fraction(c).limit_denominator(1000) - R, Fraction(c).limit_denominator(1000) + R) for c in box]
            x = inp[f"x{q}"] = ctx.real(f"x{q}", *lim[0])
            v = x
            if p["kind"] == "complex":
                y = inp[f"y{q}"] = ctx.real(f"y{q}", *lim[1])
                v = x + y * 1j
            if box is None and p["kind"] == "complex":
                import z3

                zx, zy = ctx.zreal(V.Sym.lift(x)), ctx.zreal(V.Sym.lift(y))
                for a, c in TARGETS["complex"]:
                    ctx.solver.add(z3.Or(zx < a - 0.06, zx > a + 0.06, zy < c - 0.06, zy > c + 0.06))
            self.syms[q] = v
        return inp

    def base(self):
        p = self.params
        rng = np.random.default_rng(5)
        b = rng.choice([0.0, 1.0, -1.0, 0.3, 0.5000001, -0.8660254], size=tuple(p["shape"]))
        return b if p["kind"] == "real" else b + 1j * rng.choice([0.0, 0.2, 1e-10], size=tuple(p["shape"]))

    def symbolic(self, ctx, L, inp, obl):
        import z3

        p = self.params
        b = self.base().astype(object)
        for q, at in enumerate(p["at"]):
            b[tuple(at)] = self.syms[q]
        kind = "c" if p["kind"] == "complex" else "f"
        f = getattr(L.mods["spgrep.irreps"], "purify_irrep_value" if p["kind"] == "complex" else "purify_real_irrep_value")
        out = laws.raw(f(SA(b.copy(), kind), atol=self.atol))
        obl.true("shape", out.shape == b.shape)
        at = ctx.zreal(self.atol)
        eps = z3.RealVal("1/1000000000000")
        for idx, v in np.ndenumerate(b):
            d = V.norm(V.Sym.lift(out[idx]) - V.Sym.lift(v))
            if not d.t:
                obl.true("entry untouched", True)
                continue
            re, im = ctx.zreim(d)
            obl.never(f"entry {idx} moved by more than the tolerance", re * re + im * im > at * at + eps)
            obl.true("a changed entry becomes a number", V.Sym.lift(out[idx]).is_const())
        again = laws.raw(f(SA(np.array(out, dtype=object), kind), atol=self.atol))
        for idx in np.ndindex(*b.shape):
            obl.zero("idempotent", V.Sym.lift(again[idx]) - V.Sym.lift(out[idx]), tol=1e-12)

    def concrete(self, vals):
        p = self.params
        b = self.base()
        for q, at in enumerate(p["at"]):
            b[tuple(at)] = vals[f"x{q}"] + (1j * vals[f"y{q}"] if p["kind"] == "complex" else 0)
        f = getattr(real("irreps"), "purify_irrep_value" if p["kind"] == "complex" else "purify_real_irrep_value")
        out = np.array(call(f, b.copy(), atol=vals["atol"]))
        if out.shape != b.shape:
            return "shape changed"
        e = np.abs(out - b).max()
        if e > vals["atol"] * (1 + 1e-9) + 1e-12:
            return f"entry moved by {e} with atol {vals['atol']}"
        again = np.array(call(f, out.copy(), atol=vals["atol"]))
        return None if np.array_equal(again, out) else "not idempotent"


def make(**p):
    return C(**p)


def jobs(tier, seed):
    out = []
    # one unknown entry anywhere on the real line
    for shape, at in (([1, 1, 1], [0, 0, 0]), ([2, 2, 2], [0, 0, 1]), ([2, 2, 2], [1, 1, 0]), ([2, 2, 2], [1, 0, 0])):
        out.append({"kind": "real", "shape": shape, "at": [at], "near": [None]})
    # complex plane: a box around each target value, and everything outside the boxes
    for i, t in enumerate(TARGETS["complex"] + [None]):
        for shape, at in (([1, 1, 1], [0, 0, 0]), ([2, 2, 2], [[0, 0, 1], [1, 1, 0], [1, 0, 0]][i % 3])):
            out.append({"kind": "complex", "shape": shape, "at": [at], "near": [t]})
    # two unknown entries: every pair of targets (quick: every target with itself and its successor)
    for kind in ("complex", "real"):
        T = TARGETS[kind]
        for i in range(len(T)):
            for j in range(len(T)) if tier == "thorough" else sorted({i, (i + 1) % len(T)}):
                out.append({"kind": kind, "shape": [1, 2, 2], "at": [[0, 1, 1], [0, 0, 1]], "near": [T[i], T[j]]})
    return out
