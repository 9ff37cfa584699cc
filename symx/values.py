"""Symbolic scalars and the path explorer.

A Sym is a finite sum  sum_j c_j * m_j * exp(2 pi i L_j)  with complex coefficients c_j, monomials m_j in atoms
(real / positive / integer unknowns, all real valued) and phases L_j that are rational linear forms over monomials.
"""

from __future__ import annotations

import cmath
import math
import os
import time
from fractions import Fraction

import numpy as np
import z3

EPS = 1e-11
TWO_PI = 2 * math.pi


class Unsupported(Exception):
    """The engine cannot continue this path symbolically."""


class Infeasible(Exception):
    """The current path turned out to have no inputs."""


class PathLimit(Exception):
    """A bound of the exploration was reached."""


def snap(x, tol=1e-10) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if not math.isfinite(x):
        raise Unsupported("non-finite number in exact position")
    f = Fraction(x).limit_denominator(5040)
    if abs(float(f) - x) <= tol * max(1.0, abs(x)):
        return f
    return Fraction(x)


################################################################################
# atoms of the current path
################################################################################

CTX = None  # current Path (module global: one path at a time per process)


def ctx():
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX


class Atom:
    __slots__ = ("id", "name", "kind", "zv", "defn")

    def __init__(self, id, name, kind, zv, defn=None):
        self.id, self.name, self.kind, self.zv, self.defn = id, name, kind, zv, defn


_mono_cache: dict = {}
_phase_cache: dict = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b)
    r = _mono_cache.get(key)
    if r is None:
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
        r = tuple(sorted((k, e) for k, e in d.items() if e != 0))
        _mono_cache[key] = r
    return r


def mono_is_int(m):
    atoms = ctx().atoms
    return all(atoms[k].kind == "int" and e > 0 for k, e in m)


def mono_nonzero(m):
    atoms = ctx().atoms
    return all(atoms[k].kind == "pos" or e < 0 for k, e in m)


def mono_pos(m):
    atoms = ctx().atoms
    return all(atoms[k].kind == "pos" for k, _ in m)


def phase_canon(d):
    """dict mono -> Fraction into (constant part, canonical tuple)."""
    const = Fraction(0)
    out = []
    for m, c in d.items():
        if c == 0:
            continue
        if not m:
            const += c
            continue
        if mono_is_int(m):
            c = c - math.floor(c)
            if c == 0:
                continue
        out.append((m, c))
    out.sort()
    return const, tuple(out)


def phase_add(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b)
    r = _phase_cache.get(key)
    if r is None:
        d = dict(a)
        for m, c in b:
            d[m] = d.get(m, 0) + c
        _, r = phase_canon(d)
        _phase_cache[key] = r
    return r


def phase_neg(a):
    if not a:
        return a
    key = (a, None)
    r = _phase_cache.get(key)
    if r is None:
        _, r = phase_canon({m: -c for m, c in a})
        _phase_cache[key] = r
    return r


ONE = ((), ())


def _isnum(x):
    return isinstance(x, (int, float, complex, np.number, Fraction, np.bool_))


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000.0

    def __init__(self, t):
        self.t = t

    # -- construction ----------------------------------------------------
    @staticmethod
    def const(c):
        c = complex(c) if not isinstance(c, complex) else c
        return Sym({ONE: c}) if abs(c) > 0 else Sym({})

    @staticmethod
    def atom(a: Atom):
        return Sym({(((a.id, 1),), ()): 1.0 + 0j})

    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return Sym.const(1 if bool(x) else 0)
        if _isnum(x):
            return Sym.const(complex(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return Sym.lift(x[()])
        raise Unsupported(f"cannot lift {type(x)}")

    @staticmethod
    def liftable(x):
        return isinstance(x, (Sym, SymBool)) or _isnum(x)

    # -- structure ---------------------------------------------------------
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and ONE in t)

    def value(self):
        if not self.t:
            return 0j
        return self.t[ONE]

    def simp(self):
        """Constant -> python number, else normalised Sym."""
        s = norm(self)
        if s.is_const():
            return num(s.value())
        return s

    def has_phase(self):
        return any(p for (_, p) in self.t)

    def atoms(self):
        out = set()
        for m, p in self.t:
            for k, _ in m:
                out.add(k)
            for mm, _ in p:
                for k, _ in mm:
                    out.add(k)
        return out

    # -- arithmetic --------------------------------------------------------
    def _add(self, o, sign):
        t = dict(self.t)
        for k, c in o.t.items():
            v = t.get(k)
            c = c if sign > 0 else -c
            if v is None:
                t[k] = c
            else:
                v2 = v + c
                if abs(v2) <= EPS * max(1.0, abs(v)):
                    del t[k]
                else:
                    t[k] = v2
        return Sym(t)

    def __add__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        return self._add(Sym.lift(o), 1)

    __radd__ = __add__

    def __sub__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        return self._add(Sym.lift(o), -1)

    def __rsub__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        return Sym.lift(o)._add(self, -1)

    def __neg__(self):
        return Sym({k: -c for k, c in self.t.items()})

    def __pos__(self):
        return self

    def __mul__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        if not isinstance(o, Sym):
            if isinstance(o, SymBool):
                o = complex(bool(o))
            else:
                o = complex(o)
            if o == 0:
                return Sym({})
            return Sym({k: c * o for k, c in self.t.items() if abs(c * o) > 0})
        t = {}
        for (m1, p1), c1 in self.t.items():
            for (m2, p2), c2 in o.t.items():
                c = c1 * c2
                k = (mono_mul(m1, m2), phase_add(p1, p2))
                v = t.get(k)
                if v is None:
                    t[k] = c
                else:
                    v2 = v + c
                    if abs(v2) <= EPS * max(1.0, abs(v)):
                        del t[k]
                    else:
                        t[k] = v2
        r = Sym(t)
        if CTX is not None and CTX.rules:
            r = apply_rules(r)
        return r

    __rmul__ = __mul__

    def inverse(self):
        s = norm(self)
        if s.is_const():
            v = s.value()
            if v == 0:
                raise ZeroDivisionError("symbolic division by zero")
            return Sym.const(1 / v)
        if len(s.t) == 1:
            ((m, p), c), = s.t.items()
            c_ = ctx()
            for k, e in m:
                if c_.atoms[k].kind != "pos" and e > 0:
                    if bool(SymBool.eq([Sym({(((k, 1),), ()): 1 + 0j})])):
                        raise ZeroDivisionError("symbolic division by zero")
            s = norm(self)
            if len(s.t) != 1 or s.is_const():
                return s.inverse()
            ((m, p), c), = s.t.items()
            return Sym({(tuple((k, -e) for k, e in m), phase_neg(p)): 1 / c})
        return ctx().recip(s)

    def __truediv__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        if not isinstance(o, (Sym, SymBool)):
            return self * (1 / complex(o))
        return self * Sym.lift(o).inverse()

    def __rtruediv__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        return Sym.lift(o) * self.inverse()

    def __pow__(self, e):
        if isinstance(e, Sym):
            e = e.simp()
            if isinstance(e, Sym):
                raise Unsupported("symbolic exponent")
        e = complex(e)
        if e.imag:
            raise Unsupported("complex exponent")
        e = e.real
        if abs(e - round(e)) < 1e-12:
            n = int(round(e))
            if n == 0:
                return 1.0
            base = self if n > 0 else self.inverse()
            r = base
            for _ in range(abs(n) - 1):
                r = r * base
            return r
        f = snap(e)
        if f.denominator > 12:
            raise Unsupported("fractional exponent")
        return ctx().power(self, f)

    def __rpow__(self, b):
        raise Unsupported("symbolic exponent")

    def conjugate(self):
        return Sym({(m, phase_neg(p)): c.conjugate() for (m, p), c in self.t.items()})

    conj = conjugate

    @property
    def real(self):
        r = (self + self.conjugate()) * 0.5
        return r

    @property
    def imag(self):
        r = (self - self.conjugate()) * (-0.5j)
        return r

    def is_real(self):
        d = self - self.conjugate()
        return not d.t or not norm(d).t

    # -- conversions ---------------------------------------------------------
    def __complex__(self):
        s = self.simp()
        if isinstance(s, Sym):
            raise Unsupported("complex() of symbolic value")
        return complex(s)

    def __float__(self):
        s = self.simp()
        if isinstance(s, Sym):
            s = ctx().refine_const(s)
            if isinstance(s, Sym):
                raise Unsupported("float() of symbolic value")
        if isinstance(s, complex):
            raise TypeError("complex to float")
        return float(s)

    def __int__(self):
        return ctx().concretize_int(ctx().trunc(self))

    def __index__(self):
        return ctx().concretize_int(self)

    def __round__(self, n=None):
        if n is None:
            return int(ctx().rint(self)) if not isinstance(ctx().rint(self), Sym) else ctx().rint(self)
        return ctx().around(self, n)

    def __floor__(self):
        return ctx().floor(self)

    def __ceil__(self):
        return -ctx().floor(-self)

    def __trunc__(self):
        return ctx().trunc(self)

    def __hash__(self):
        s = self.simp()
        if isinstance(s, Sym):
            try:
                return hash(ctx().concretize_int(s))
            except Unsupported:
                raise
        return hash(s)

    def __abs__(self):
        return ctx().absolute(self)

    def __mod__(self, o):
        o = Sym.lift(o)
        q = ctx().floor(self / o)
        return self - o * q

    def __rmod__(self, o):
        return Sym.lift(o) % self

    def __floordiv__(self, o):
        return ctx().floor(self / Sym.lift(o))

    def __rfloordiv__(self, o):
        return ctx().floor(Sym.lift(o) / self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __bool__(self):
        return bool(~SymBool.eq([self]))

    # comparisons ------------------------------------------------------------
    def __eq__(self, o):
        if not Sym.liftable(o):
            return False
        return SymBool.eq([self - o])

    def __ne__(self, o):
        if not Sym.liftable(o):
            return True
        return ~SymBool.eq([self - o])

    def __lt__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        return SymBool.lt(self - o)

    def __gt__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        return SymBool.lt(Sym.lift(o) - self)

    def __le__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        return ~SymBool.lt(Sym.lift(o) - self)

    def __ge__(self, o):
        if not Sym.liftable(o):
            return NotImplemented
        return ~SymBool.lt(self - o)

    # numpy-ish scalar API -----------------------------------------------------
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return np.dtype(np.float64 if self.is_real() else np.complex128)

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, t, **kw):
        return cast_scalar(self, t)

    def exp(self):
        return ctx().exp(self)

    def sqrt(self):
        return ctx().power(self, Fraction(1, 2))

    def cos(self):
        return ctx().cos(self)

    def sin(self):
        return ctx().sin(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arrays

        return arrays.dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arrays

        return arrays.call(func, args, kwargs)

    def __repr__(self):
        def mm(m):
            return "*".join(f"a{k}" + (f"^{e}" if e != 1 else "") for k, e in m)

        out = []
        for (m, p), c in self.t.items():
            s = f"{c:.4g}"
            if m:
                s += "*" + mm(m)
            if p:
                s += "*E(" + "+".join(f"{c2}*{mm(m2)}" for m2, c2 in p) + ")"
            out.append(s)
        return "Sym[" + " + ".join(out) + "]"


def num(v: complex):
    return v.real if abs(v.imag) <= 1e-14 * max(1.0, abs(v.real)) else v


def cast_scalar(x, t):
    dt = np.dtype(t)
    if isinstance(x, SymBool):
        x = 1 if bool(x) else 0
    if not isinstance(x, Sym):
        if isinstance(x, complex) and dt.kind in "fiub":
            x = x.real
        return dt.type(x)
    if dt.kind == "i" or dt.kind == "u":
        return ctx().trunc(x.real if not x.is_real() else x)
    if dt.kind == "f":
        return x if x.is_real() else x.real
    if dt.kind == "b":
        return bool(x)
    return x


def cast_store(x, kind):
    """Value stored into an array of given kind ('f','c','i','b')."""
    if isinstance(x, Sym):
        if kind == "f":
            return x if x.is_real() else x.real
        if kind == "i":
            return ctx().trunc(x if x.is_real() else x.real)
        if kind == "b":
            return bool(x)
        return x
    if isinstance(x, SymBool):
        return x if kind == "b" else (1.0 if bool(x) else 0.0)
    if kind == "f":
        return float(x.real) if isinstance(x, complex) else x
    if kind == "i":
        return int(x.real) if isinstance(x, complex) else int(x)
    return x


def apply_rules(s: Sym):
    rules = CTX.rules
    again = True
    while again:
        again = False
        for m, p in s.t:
            for k, e in m:
                if k in rules and e >= 2:
                    again = True
                    break
            if again:
                break
        if not again:
            break
        out = Sym({})
        for (m, p), c in s.t.items():
            hit = None
            for k, e in m:
                if k in rules and e >= 2:
                    hit = (k, e)
                    break
            if hit is None:
                out = out._add(Sym({(m, p): c}), 1)
                continue
            k, e = hit
            rest = tuple((kk, ee if kk != k else ee - 2) for kk, ee in m)
            rest = tuple((kk, ee) for kk, ee in rest if ee != 0)
            base = Sym({(rest, p): c})
            prod = {}
            for (m2, p2), c2 in rules[k].t.items():
                kk = (mono_mul(rest, m2), phase_add(p, p2))
                prod[kk] = prod.get(kk, 0) + c * c2
            out = out._add(Sym({a: b for a, b in prod.items() if abs(b) > EPS}), 1)
            del base
        s = out
    return s


def norm(s: Sym) -> Sym:
    """Apply the substitutions of the current path and drop noise."""
    c = CTX
    if c is None or not s.t:
        return s
    if c.subst:
        for _ in range(60):
            hit = None
            for k in s.atoms():
                if k in c.subst:
                    hit = k
                    break
            if hit is None:
                break
            s = substitute(s, c.subst)
        else:
            raise Unsupported("substitution loop")
    if c.rules:
        s = apply_rules(s)
    # canonicalise phases (kinds are fixed, so already canonical) and drop noise
    big = max((abs(v) for v in s.t.values()), default=0.0)
    cut = 1e-11 * max(1.0, big)
    if any(abs(v) < cut for v in s.t.values()):
        s = Sym({k: v for k, v in s.t.items() if abs(v) >= cut})
    return s


def mono_subst(m, sub):
    """Monomial -> Sym under substitution."""
    keep = []
    factors = []
    for k, e in m:
        if k in sub:
            factors.append((sub[k], e))
        else:
            keep.append((k, e))
    r = Sym({(tuple(keep), ()): 1 + 0j})
    for f, e in factors:
        if e < 0:
            if len(f.t) != 1:
                if f.is_const():
                    if not f.t:
                        raise ZeroDivisionError("symbolic division by zero")
                else:
                    f = norm(f)
                    if len(f.t) != 1:
                        raise Unsupported("negative power of substituted atom")
            ((m1, p1), c1), = f.t.items()
            f = Sym({(tuple((k, -x) for k, x in m1), phase_neg(p1)): 1 / c1})
            e = -e
        for _ in range(e):
            r = r * f
    return r


def substitute(s: Sym, sub) -> Sym:
    out = {}
    cache = {}
    for (m, p), c in s.t.items():
        key = (m, p)
        if any(k in sub for k, _ in m):
            base = mono_subst(m, sub)
        else:
            base = Sym({(m, ()): 1 + 0j})
        if any(k in sub for mm, _ in p for k, _ in mm):
            r = cache.get(p)
            if r is None:
                d = {}
                for mm, cc in p:
                    if any(k in sub for k, _ in mm):
                        for (m2, p2), c2 in mono_subst(mm, sub).t.items():
                            if p2 or abs(c2.imag) > 1e-12:
                                raise Unsupported("phase inside phase")
                            d[m2] = d.get(m2, 0) + cc * snap(c2.real)
                    else:
                        d[mm] = d.get(mm, 0) + cc
                r = phase_canon(d)
                cache[p] = r
            const, np_ = r
            ph = cexp(const)
        else:
            np_ = p
            ph = 1
        for (m2, p2), c2 in base.t.items():
            kk = (m2, phase_add(np_, p2))
            v = out.get(kk, 0) + c * c2 * ph
            out[kk] = v
    return Sym({k: v for k, v in out.items() if abs(v) > EPS})


_EXACT = {
    Fraction(0): 1 + 0j,
    Fraction(1, 4): 1j,
    Fraction(1, 2): -1 + 0j,
    Fraction(3, 4): -1j,
}


def sample(e):
    """Value of a Sym at a fixed point of its atoms."""
    def at(mono):
        r = 1.0
        for k, x in mono:
            r *= (0.31 + 0.6180339887 * (k + 1) % 1.0) ** float(x)
        return r

    return sum(c * at(m) * cmath.exp(2j * math.pi * sum(float(x) * at(q) for q, x in p)) for (m, p), c in e.t.items()) + 0j


def cexp(f: Fraction):
    f = f - math.floor(f)
    v = _EXACT.get(f)
    if v is None:
        v = cmath.exp(2j * math.pi * float(f))
    return v


################################################################################
# booleans
################################################################################


class SymBool:
    """Symbolic truth value: ('c', bool) ('eq', [Sym], tol) ('lt', Sym) ('not', b) ('and', [b]) ('or', [b])."""

    __slots__ = ("k", "a", "x")

    def __init__(self, k, a, x=None):
        self.k, self.a, self.x = k, a, x

    @staticmethod
    def eq(es, tol=0.0):
        return SymBool("eq", list(es), tol)

    @staticmethod
    def lt(e):
        return SymBool("lt", e)

    @staticmethod
    def lift(b):
        if isinstance(b, SymBool):
            return b
        if isinstance(b, Sym):
            return ~SymBool.eq([b])
        return SymBool("c", bool(b))

    def __invert__(self):
        if self.k == "not":
            return self.a
        if self.k == "c":
            return SymBool("c", not self.a)
        return SymBool("not", self)

    def __and__(self, o):
        return SymBool.conj([self, SymBool.lift(o)])

    __rand__ = __and__

    def __or__(self, o):
        return SymBool.disj([self, SymBool.lift(o)])

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool.disj([self & ~SymBool.lift(o), ~self & SymBool.lift(o)])

    __rxor__ = __xor__

    @staticmethod
    def conj(bs):
        out = []
        eqs = []
        for b in bs:
            b = SymBool.lift(b)
            if b.k == "c":
                if not b.a:
                    return b
                continue
            if b.k == "and":
                out.extend(b.a)
            else:
                out.append(b)
        if not out:
            return SymBool("c", True)
        if len(out) == 1:
            return out[0]
        return SymBool("and", out)

    @staticmethod
    def disj(bs):
        return ~SymBool.conj([~SymBool.lift(b) for b in bs])

    def __bool__(self):
        return ctx().decide(self)

    def __eq__(self, o):
        return ~(self ^ o) if isinstance(o, (SymBool, bool, np.bool_, int, np.integer)) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __complex__(self):
        return complex(bool(self))

    # arithmetic on booleans
    def _n(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    shape = ()
    ndim = 0
    dtype = np.dtype(bool)

    def all(self, **k):
        return self

    any = all
    item = all

    def astype(self, t, **k):
        return np.dtype(t).type(bool(self))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arrays

        return arrays.dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arrays

        return arrays.call(func, args, kwargs)

    def __repr__(self):
        return f"SymBool<{self.k}>"


################################################################################
# one path
################################################################################


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decisions = 0
        self.forks = 0
        self.nl_queries = 0


class Path:
    def __init__(self, prefix, stats, opts=None):
        self.opts = opts = opts or {}
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []  # decisions taken: (label)
        self.alternatives = []  # prefixes to explore later
        self.atoms = []
        self.subst = {}
        self.rules = {}
        self.cand = None
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("timeout_ms", 10000))
        self.stats = stats
        self.monovars = {}  # nonlinear mono -> z3 var
        self.nl_defs = []
        self.cs = {}  # canonical phase -> (C, S)
        self.rint_cache = {}
        self.floor_cache = {}
        self.pow_cache = {}
        self.recip_cache = {}
        self.notes = []
        self.mutations = []
        self.tol_mode = opts.get("tol_mode", "ideal")
        self.gap = opts.get("gap", 1e-6)
        self.ineq = []  # real-valued Syms assumed non-zero (for robust witnesses)
        self.max_decisions = opts.get("max_decisions", 4000)
        self.deadline = opts.get("deadline")
        self.eig_hints = []
        self.assumptions_made = set()
        self.max_enum = opts.get("max_enum", 64)
        self.inputs = {}
        self.eager_den = opts.get("eager_den", 6)
        self.relaxed = 0
        _mono_cache.clear()
        _phase_cache.clear()

    # -- atoms -------------------------------------------------------------
    def new_atom(self, name, kind, defn=None):
        i = len(self.atoms)
        zv = z3.Int(f"{name}_{i}") if kind == "int" else z3.Real(f"{name}_{i}")
        a = Atom(i, name, kind, zv, defn)
        self.atoms.append(a)
        if kind == "pos":
            self.solver.add(zv > 0)
        return a

    def real(self, name, lo=None, hi=None):
        a = self.new_atom(name, "real")
        if lo is not None:
            self.solver.add(a.zv >= z3.RealVal(str(Fraction(lo))))
        if hi is not None:
            self.solver.add(a.zv <= z3.RealVal(str(Fraction(hi))))
        s = Sym.atom(a)
        return s

    def integer(self, name, lo=None, hi=None):
        a = self.new_atom(name, "int")
        if lo is not None:
            self.solver.add(a.zv >= lo)
        if hi is not None:
            self.solver.add(a.zv <= hi)
        return Sym.atom(a)

    def positive(self, name, lo=1e-3, hi=1e3):
        """Positive unknown, bounded away from the tolerances of the code."""
        a = self.new_atom(name, "pos")
        if lo:
            self.solver.add(a.zv >= z3.RealVal(str(Fraction(lo))), a.zv <= z3.RealVal(str(Fraction(hi))))
        return Sym.atom(a)

    # -- z3 translation ------------------------------------------------------
    def zmono(self, m):
        if not m:
            return z3.RealVal(1)
        if len(m) == 1 and m[0][1] == 1:
            a = self.atoms[m[0][0]]
            return z3.ToReal(a.zv) if a.kind == "int" else a.zv
        v = self.monovars.get(m)
        if v is None:
            v = z3.Real("m_" + "_".join(f"{k}p{e}".replace("-", "n") for k, e in m))
            self.monovars[m] = v
            lhs = v
            rhs = z3.RealVal(1)
            for k, e in m:
                zv = self.atoms[k].zv
                zv = z3.ToReal(zv) if self.atoms[k].kind == "int" else zv
                for _ in range(abs(e)):
                    if e > 0:
                        rhs = rhs * zv
                    else:
                        lhs = lhs * zv
            self.nl_defs.append(lhs == rhs)
            if all(e % 2 == 0 for _, e in m):
                self.solver.add(v >= 0)
            if mono_nonzero(m) and all(self.atoms[k].kind == "pos" for k, _ in m):
                self.solver.add(v > 0)
        return v

    def zphase(self, p):
        """(cos, sin) z3 expressions for exp(2 pi i p); p canonical nonempty."""
        n = phase_neg(p)
        key, sg = (p, 1) if p <= n else (n, -1)
        if p == n:
            sg = 1
        v = self.cs.get(key)
        if v is None:
            i = len(self.cs)
            C, S = z3.Real(f"C_{i}"), z3.Real(f"S_{i}")
            self.solver.add(C >= -1, C <= 1, S >= -1, S <= 1)
            self.nl_defs.append(C * C + S * S == 1)
            self.relaxed += 1
            v = (C, S)
            self.cs[key] = v
        return v[0], (v[1] if sg > 0 else -v[1])

    @staticmethod
    def zfrac(f: Fraction):
        return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)

    def zreim(self, s: Sym):
        """z3 expressions for real and imaginary part."""
        re, im = [], []
        for (m, p), c in s.t.items():
            a, b = snap(c.real), snap(c.imag)
            zm = self.zmono(m)
            if p:
                C, S = self.zphase(p)
                if m:
                    # product of a monomial and a phase: introduce free variables (relaxation)
                    key = ("mp", m, p)
                    v = self.monovars.get(key)
                    if v is None:
                        i = len(self.monovars)
                        v = (z3.Real(f"mc_{i}"), z3.Real(f"ms_{i}"))
                        self.monovars[key] = v
                        self.nl_defs.append(v[0] == zm * C)
                        self.nl_defs.append(v[1] == zm * S)
                    C, S = v
                    zm = None
                if a:
                    re.append(self.zfrac(a) * C)
                    im.append(self.zfrac(a) * S)
                if b:
                    re.append(-self.zfrac(b) * S)
                    im.append(self.zfrac(b) * C)
            else:
                if a:
                    re.append(self.zfrac(a) * zm)
                if b:
                    im.append(self.zfrac(b) * zm)
        zr = z3.Sum(re) if re else z3.RealVal(0)
        zi = z3.Sum(im) if im else z3.RealVal(0)
        return zr, zi

    def zreal(self, s: Sym):
        return self.zreim(s)[0]

    # -- solver --------------------------------------------------------------
    def set_candidates(self, names, points):
        """Concrete points (exact fractions, one column per atom name) tried as models before the solver is asked.

        Only ever answers "sat", with the point as model; everything else is left to z3."""
        col = {str(self.atoms[k].zv): i for i, k in enumerate(names)}
        col.update({f"#{k}": i for i, k in enumerate(names)})
        self.cand = (col, points, np.array([[float(x) for x in p] for p in points]))
        self.cand_alive = np.ones(len(points), dtype=bool)
        self.cand_pos = 0

    def _cand_sat(self, extra):
        """Index of a candidate that satisfies path condition and extra, or None."""
        col, points, num = self.cand
        asr = self.solver.assertions()
        for i in range(self.cand_pos, len(asr)):
            v = _zeval(asr[i], col, num)
            if v is None:
                if os.environ.get("SYMX_DEBUG"):
                    print("candidates off:", asr[i])
                self.cand = None
                return None
            self.cand_alive &= v
        self.cand_pos = len(asr)
        ok = self.cand_alive.copy()
        for e in list(extra) + list(self.nl_defs):
            v = _zeval(e, col, num)
            if v is None:
                return None
            ok &= v
        if not ok.any():
            return None
        return int(np.argmax(ok))

    def link_phases(self):
        """Tell the solver about cosine/sine variables whose phase has become a number or another phase by substitution."""
        mark = (len(self.subst), len(self.cs))
        if mark == getattr(self, "_linked", (0, 0)) or not self.cs or not self.subst:
            return
        done = self.__dict__.setdefault("_link_done", {})
        for key, (C, S) in list(self.cs.items()):
            s = norm(Sym({((), key): 1 + 0j}))
            if len(s.t) != 1:
                continue
            (((m, p), c),) = s.t.items()
            if m or p == key or done.get(key) == (p, c):
                continue
            done[key] = (p, c)
            if not p:
                d = z3.RealVal("1/1000000000")
                for z, v in ((C, c.real), (S, c.imag)):
                    v = self.zfrac(snap(v))
                    self.solver.add(z - v <= d, v - z <= d)
            elif abs(c.imag) < 1e-12 or abs(c.real) < 1e-12:
                C2, S2 = self.zphase(p)
                a, b = self.zfrac(snap(c.real)), self.zfrac(snap(c.imag))
                self.solver.add(C == a * C2 - b * S2, S == a * S2 + b * C2)
        self._linked = (len(self.subst), len(self.cs))

    def check(self, *extra, want_model=False):
        """'sat' | 'unsat' | 'unknown' (feasibility of path and extra)."""
        if self.deadline is not None and time.time() > self.deadline:
            raise PathLimit("time budget")
        st = self.stats
        t0 = time.time()
        st.queries += 1
        self.link_phases()
        if self.cand is not None:
            i = self._cand_sat(extra)
            if i is not None:
                if want_model:
                    self.model = CandModel(self.cand[0], self.cand[1][i])
                st.solver_s += time.time() - t0
                return "sat"
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        if r == z3.sat and self.nl_defs:
            st.nl_queries += 1
            self.solver.push()
            for d in self.nl_defs:
                self.solver.add(d)
            r2 = self.solver.check()
            if r2 == z3.sat and want_model:
                self.model = self.solver.model()
            elif r2 == z3.unknown:
                st.unknown += 1
            self.solver.pop()
            r = r2
        elif r == z3.sat and want_model:
            self.model = self.solver.model()
        elif r == z3.unknown:
            st.unknown += 1
        self.solver.pop()
        st.solver_s += time.time() - t0
        return str(r)

    def feasible(self, *extra):
        return self.check(*extra) != "unsat"

    def choose(self, options):
        """options: list of (label, z3 constraints). Returns the label taken; adds its constraints."""
        self.stats.decisions += 1
        if len(self.trace) >= self.max_decisions:
            raise PathLimit("decision bound")
        if self.pos < len(self.prefix):
            lab = self.prefix[self.pos]
            self.pos += 1
            cons = dict(options)[lab] if lab in dict(options) else None
            if cons is None:
                raise Unsupported("non-deterministic replay")
            for c in cons:
                self.solver.add(c)
            self.trace.append(lab)
            return lab
        feas = []
        for idx, (lab, cons) in enumerate(options):
            if idx == len(options) - 1 and not feas:
                feas.append((lab, cons))  # exhaustive options: the last must be possible
                break
            if self.feasible(*cons):
                feas.append((lab, cons))
        if len(feas) > 1:
            self.stats.forks += 1
        for lab, _ in feas[1:]:
            self.alternatives.append(self.trace + [lab])
        lab, cons = feas[0]
        for c in cons:
            self.solver.add(c)
        self.trace.append(lab)
        self.pos += 1
        self.prefix.append(lab)
        return lab

    # -- equalities ------------------------------------------------------------
    def eq_forms(self, e: Sym):
        """Reduce complex equation e == 0: returns True/False, or list of real Syms which all must vanish,
        or ('relax', e)."""
        e = norm(e)
        if not e.t:
            return True
        if e.is_const():
            return abs(e.value()) < 1e-9
        groups = {}
        for (m, p), c in e.t.items():
            groups.setdefault(p, {})[(m, ())] = c
        if len(groups) == 1:
            (g,) = groups.values()
            return self._real_forms(Sym(g))
        if len(groups) == 2:
            (p1, g1), (p2, g2) = groups.items()
            if len(g1) == 1 and len(g2) == 1:
                ((k1, c1),) = g1.items()
                ((k2, c2),) = g2.items()
                differ = k1 != k2 and mono_pos(k1[0]) and mono_pos(k2[0])
                if differ or (k1 == k2 and mono_nonzero(k1[0])):
                    if not differ and abs(abs(c1) - abs(c2)) > 1e-9 * max(abs(c1), abs(c2)):
                        return False
                    th = cmath.phase(-c1 / c2) / TWO_PI
                    d = {}
                    for m, c in p1:
                        d[m] = d.get(m, 0) + c
                    for m, c in p2:
                        d[m] = d.get(m, 0) - c
                    d[()] = d.get((), 0) + snap(th, 1e-9)
                    r = Sym({(m, ()): complex(float(c)) for m, c in d.items() if c})
                    w = self.rint(r)
                    fs = self._real_forms(norm(r - w))
                    if differ and fs is not False:
                        # moduli and phases agree separately
                        gs = self._real_forms(norm(Sym({k1: complex(abs(c1))}) - Sym({k2: complex(abs(c2))})))
                        if gs is False:
                            return False
                        fs = ([] if fs is True else fs) + ([] if gs is True else gs)
                    return fs if fs != [] else True
        # c + a e^{L} + b e^{-L}...: triangle inequality
        mags = []
        ok = True
        for g in groups.values():
            if len(g) != 1 or list(g)[0][0]:
                ok = False
                break
            mags.append(abs(list(g.values())[0]))
        if ok:
            big = max(mags)
            if big > sum(mags) - big + 1e-9:
                return False
        # a phase made of integers only can be split into classes
        e2 = self.refine_const(e, partial=True)
        if e2 is not e and norm(e2).t != e.t:
            return self.eq_forms(e2)
        return ("relax", e)

    def _real_forms(self, s: Sym):
        out = []
        re = Sym({k: complex(c.real) for k, c in s.t.items() if abs(c.real) > EPS})
        im = Sym({k: complex(c.imag) for k, c in s.t.items() if abs(c.imag) > EPS})
        for f in (re, im):
            if not f.t:
                continue
            if f.is_const():
                if abs(f.value()) > 1e-9:
                    return False
                continue
            if len(f.t) == 1:
                ((m, _), c), = f.t.items()
                if mono_nonzero(m):
                    return False
                if len(m) == 1:
                    f = Sym({(((m[0][0], 1),), ()): 1 + 0j})
            out.append(f)
        if not out:
            return True
        return out

    def decide(self, b: SymBool) -> bool:
        k = b.k
        if k == "c":
            return b.a
        if k == "not":
            return not self.decide(b.a)
        if k == "lt":
            return self._decide_lt(b)
        if k == "eq":
            return self._decide_conj([b])
        if k == "and":
            parts = self.flat_and(b)
            if parts is False:
                return False
            if not parts:
                return True
            eqs = [x for x in parts if x.k == "eq"]
            if eqs:
                # equalities first: they become substitutions
                if not self._decide_conj(eqs):
                    return False
                parts = [x for x in parts if x.k != "eq"]
                if not parts:
                    return True
                if len(parts) > 1:
                    return self.decide(SymBool("and", parts))
            if len(parts) == 1:
                return self.decide(parts[0])
            b = SymBool("and", parts)
            # general conjunction: one decision when purely arithmetic
            f = self.formula(b)
            if f is None:
                return all(self.decide(x) for x in b.a)
            if f is True or f is False:
                return f
            lab = self.choose([("T", [f]), ("F", [z3.Not(f)])])
            return lab == "T"
        raise Unsupported("bool kind " + k)

    def flat_and(self, b):
        """Conjuncts of b with |x| < tolerance read as equalities; False if one is constantly false."""
        out = []
        todo = list(b.a)
        while todo:
            x = todo.pop(0)
            neg = False
            while True:
                if x.k == "not":
                    x, neg = x.a, not neg
                elif x.k == "lt" and not norm(x.a).is_const() and self.abs_pattern(norm(x.a)) is not None:
                    x = self.abs_pattern(norm(x.a))
                else:
                    break
            if x.k == "lt" and norm(x.a).is_const():
                x = SymBool("c", norm(x.a).value().real < 0)
            if x.k == "c":
                if bool(x.a) == neg:
                    return False
                continue
            if x.k == "and" and not neg:
                todo = list(x.a) + todo
                continue
            out.append(~x if neg else x)
        return out

    def formula(self, b):
        """z3 formula of b, or None/True/False."""
        if b.k == "c":
            return b.a
        if b.k == "not":
            f = self.formula(b.a)
            if f is None or f is True or f is False:
                return None if f is None else (not f)
            return z3.Not(f)
        if b.k == "lt":
            e = norm(b.a)
            if e.is_const():
                return e.value().real < 0
            if self.abs_pattern(e) is not None:
                return self.formula(self.abs_pattern(e))
            self.force_defs(e)
            return self.zreal(e) < 0
        if b.k == "eq":
            fs = []
            for e in b.a:
                r = self.eq_forms(e)
                if r is True:
                    continue
                if r is False:
                    return False
                if isinstance(r, tuple):
                    re, im = self.zreim(norm(r[1]))
                    fs += [re == 0, im == 0]
                else:
                    fs += [self.zreal(x) == 0 for x in r]
            if not fs:
                return True
            return z3.And(*fs)
        if b.k == "and":
            fs = []
            for x in b.a:
                f = self.formula(x)
                if f is None:
                    return None
                if f is False:
                    return False
                if f is True:
                    continue
                fs.append(f)
            if not fs:
                return True
            return z3.And(*fs)
        return None

    def _decide_conj(self, eqs):
        forms = []
        relaxed = []
        for b in eqs:
            for e in b.a:
                ne = norm(e)
                if ne.is_const():
                    if abs(ne.value()) > max(b.x or 0.0, 1e-9):
                        return False
                    continue
                r = self.eq_forms(ne)
                if r is True:
                    continue
                if r is False:
                    return False
                if isinstance(r, tuple):
                    relaxed.append(r[1])
                else:
                    forms += r
        if not forms and not relaxed:
            return True
        # dedupe up to scale
        uniq = []
        seen = set()
        for f in forms:
            items = sorted(f.t.items(), key=lambda kv: kv[0])
            c0 = items[0][1]
            key = tuple((k, round((c / c0).real, 9)) for k, c in items)
            if key not in seen:
                seen.add(key)
                uniq.append(f)
        zeq = [self.zreal(f) == 0 for f in uniq]
        for e in relaxed:
            re, im = self.zreim(e)
            zeq += [re == 0, im == 0]
        lemma = []
        nl = any(any(len(m) > 1 or (m and m[0][1] != 1) for (m, _) in f.t) for f in uniq)
        if nl or relaxed:
            ss = Sym({})
            for e in list(uniq) + relaxed:
                ss = ss + e * e.conjugate()
            ss = norm(ss)
            if not ss.has_phase():
                lemma.append(self.zreal(ss) == 0)
        lab = self.choose(
            [("T", zeq + lemma), ("F", [z3.Not(z3.And(*zeq)) if len(zeq) > 1 else z3.Not(zeq[0])])]
        )
        if lab == "T":
            for f in uniq:
                self.add_equality(f)
            return True
        if len(uniq) + len(relaxed) == 1 and uniq:
            self.ineq.append([uniq[0]])
        elif not relaxed:
            self.ineq.append(list(uniq))
        return False

    def abs_pattern(self, e: Sym):
        """e = y - tol with y an |x| atom and small tol: treat as x == 0 (idealised tolerance)."""
        if self.tol_mode != "ideal":
            return None
        y = None
        tol = 0.0
        for (m, p), c in e.t.items():
            if p:
                return None
            if not m:
                tol = -c.real
                continue
            if len(m) != 1 or m[0][1] != 1 or y is not None or abs(c.imag) > 0:
                return None
            y = (m[0][0], c.real)
        if y is None:
            return None
        a = self.atoms[y[0]]
        if a.defn is None or a.defn[0] != "abs":
            return None
        if y[1] > 0 and 0 < tol / y[1] <= 1.01e-4:
            return SymBool.eq([a.defn[1]], tol / y[1])
        if y[1] < 0 and -1.01e-4 <= tol / -y[1] * 1.0 and tol <= 0 and -tol / -y[1] <= 1.01e-4:
            # -y + t < 0  <=>  y > t
            return ~SymBool.eq([a.defn[1]], -tol / -y[1])
        return None

    def _decide_lt(self, b):
        e = norm(b.a)
        if e.is_const():
            return e.value().real < 0
        ap = self.abs_pattern(e)
        if ap is not None:
            return self.decide(ap)
        if len(e.t) == 1:
            ((m, p), c), = e.t.items()
            if not p and mono_nonzero(m) and all(self.atoms[k].kind == "pos" for k, _ in m):
                return c.real < 0
        if e.has_phase():
            e2 = self.refine_const(e, partial=True)
            e2 = norm(e2)
            if e2.is_const():
                return e2.value().real < 0
            if not e2.is_real():
                if self.opts.get("complex_order") == "any":
                    # only the order of a result list depends on it: some fixed total order
                    self.assumptions_made.add("the order in which results are listed is immaterial (complex sort keys compared at a sample point)")
                    return sample(e2).real < 0
                raise Unsupported("ordering of symbolic complex numbers")
            e = e2
        self.force_defs(e)
        z = self.zreal(e)
        lab = self.choose([("T", [z < 0]), ("F", [z >= 0])])
        return lab == "T"

    def force_defs(self, e: Sym):
        """Assert definitions of |x| atoms occurring in e."""
        for k in e.atoms():
            a = self.atoms[k]
            if a.defn and a.defn[0] == "abs" and len(a.defn) == 2:
                x = norm(a.defn[1])
                sq = norm(x * x.conjugate())
                self.solver.add(a.zv >= 0)
                if x.is_real() and not x.has_phase():
                    # the squared relation is not added: with irrational constants rounded to rationals the two disagree
                    zx = self.zreal(x)
                    self.solver.add(z3.Or(a.zv == zx, a.zv == -zx))
                else:
                    self.solver.add(self.zmono(((k, 2),)) == self.zreal(sq))
                a.defn = ("abs", a.defn[1], "forced")

    def add_equality(self, f: Sym):
        """Turn f == 0 (real, phase free) into a substitution where possible."""
        f = norm(f)
        if not f.t or f.is_const():
            return
        lin = {}
        c0 = Fraction(0)
        nonlin_atoms = set()
        for (m, p), c in f.t.items():
            if p:
                return
            if not m:
                c0 = snap(c.real)
            elif len(m) == 1 and m[0][1] == 1:
                lin[m[0][0]] = snap(c.real)
            else:
                nonlin_atoms |= {k for k, _ in m}
        cand = [k for k in lin if k not in nonlin_atoms]
        reals = [k for k in cand if self.atoms[k].kind == "real" and self.atoms[k].defn is None]
        if not reals:
            reals = [k for k in cand if self.atoms[k].kind == "real"]
        if reals:
            k = max(reals, key=lambda q: (abs(lin[q]) == 1, q))
            inv = -1.0 / float(lin[k])
            rhs = {kk: c * inv for kk, c in f.t.items() if kk != (((k, 1),), ())}
            self.subst[k] = _exactify(Sym(rhs))
            return
        if nonlin_atoms or any(self.atoms[k].kind != "int" for k in lin):
            pos = [k for k in cand if self.atoms[k].kind == "pos"]
            if pos and len(f.t) == 2 and not nonlin_atoms:
                k = pos[0]
                inv = -1.0 / float(lin[k])
                rhs = Sym({kk: c * inv for kk, c in f.t.items() if kk != (((k, 1),), ())})
                self.subst[k] = _exactify(rhs)
            return
        # integer equation
        den = 1
        for c in list(lin.values()) + [c0]:
            den = den * c.denominator // math.gcd(den, c.denominator)
        a = {k: int(c * den) for k, c in lin.items()}
        b = int(c0 * den)
        for _ in range(60):
            a = {k: v for k, v in a.items() if v}
            if not a:
                return
            g = 0
            for v in a.values():
                g = math.gcd(g, v)
            if b % g:
                raise Infeasible()
            a = {k: v // g for k, v in a.items()}
            b //= g
            k = min(a, key=lambda q: (abs(a[q]), -q))
            ak = a[k]
            if abs(ak) == 1:
                rhs = {}
                for kk, v in a.items():
                    if kk != k:
                        rhs[(((kk, 1),), ())] = complex(-v * ak)
                if b:
                    rhs[ONE] = complex(-b * ak)
                self.subst[k] = Sym(rhs)
                return
            # k = m - sum floor(v/ak) * kk - floor(b/ak)
            m = self.new_atom("e", "int")
            rhs = {(((m.id, 1),), ()): 1 + 0j}
            newa = {m.id: ak}
            for kk, v in a.items():
                if kk == k:
                    continue
                q = v // ak
                if q:
                    rhs[(((kk, 1),), ())] = complex(-q)
                newa[kk] = v - q * ak
            qb = b // ak
            if qb:
                rhs[ONE] = complex(-qb)
            self.subst[k] = Sym(rhs)
            self.solver.add(self.zmono(((k, 1),)) == self.zreal(Sym(rhs)))
            b = b - qb * ak
            a = newa
        raise Unsupported("integer elimination")

    # -- integer splitting ---------------------------------------------------
    def int_linear(self, s: Sym):
        """(dict atom->Fraction, const) if s is linear over integer atoms, else None."""
        lin = {}
        c0 = Fraction(0)
        for (m, p), c in s.t.items():
            if p or abs(c.imag) > 1e-12:
                return None
            if not m:
                c0 = snap(c.real)
            elif len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "int":
                lin[m[0][0]] = snap(c.real)
            else:
                return None
        return lin, c0

    def refine_frac(self, s: Sym, maxden=48):
        """Fork so that the fractional part of the integer-linear form s becomes constant; returns normalised s."""
        for _ in range(40):
            s = norm(s)
            il = self.int_linear(s)
            if il is None:
                # products of integers: split atoms one by one
                return self.refine_poly(s, maxden)
            lin, c0 = il
            den = 1
            for c in lin.values():
                den = den * c.denominator // math.gcd(den, c.denominator)
            if den == 1:
                return s
            if den > maxden:
                raise Unsupported(f"denominator {den} in integer phase")
            ints = {k: int(c * den) for k, c in lin.items()}
            form = Sym({(((k, 1),), ()): complex(v) for k, v in ints.items() if v})
            g = den
            for v in ints.values():
                g = math.gcd(g, v)
            # form = g * f', classes of f' mod den/g
            d = den // g
            fp = Sym({k: c / g for k, c in form.t.items()})
            zf = z3.Sum([int(v // g) * self.atoms[k].zv for k, v in ints.items() if v])
            lab = self.choose([(f"r{d}:{r}", [zf % d == r]) for r in range(d)])
            r = int(lab.split(":")[1])
            q = self.new_atom("q", "int")
            self.solver.add(zf == d * q.zv + r)
            self.add_equality(fp - Sym.atom(q) * d - r)
        raise Unsupported("refine")

    def refine_poly(self, s, maxden):
        for _ in range(40):
            s = norm(s)
            todo = None
            for (m, p), c in s.t.items():
                if p or not m:
                    continue
                if not mono_is_int(m):
                    return s
                f = snap(c.real)
                if f.denominator != 1:
                    todo = (m, f.denominator)
                    break
            if todo is None:
                return s
            m, d = todo
            if d > maxden:
                raise Unsupported("denominator in integer polynomial")
            # split the atom of the monomial with fewest occurrences
            k = m[0][0]
            zf = self.atoms[k].zv
            lab = self.choose([(f"r{d}:{r}", [zf % d == r]) for r in range(d)])
            r = int(lab.split(":")[1])
            q = self.new_atom("q", "int")
            self.solver.add(zf == d * q.zv + r)
            self.add_equality(Sym({(((k, 1),), ()): 1 + 0j}) - Sym.atom(q) * d - r)
        raise Unsupported("refine_poly")

    def refine_const(self, s: Sym, partial=False, maxden=48):
        """Split integer-only phases of s into classes (making them constant)."""
        for _ in range(40):
            s = norm(s)
            hit = None
            for m, p in s.t:
                if p and all(mono_is_int(mm) for mm, _ in p):
                    hit = p
                    break
            if hit is None:
                break
            form = Sym({(mm, ()): complex(float(c)) for mm, c in hit})
            self.refine_frac(form, maxden)
        s = norm(s)
        if s.is_const():
            return num(s.value()) if not partial else s
        return s

    # -- rounding --------------------------------------------------------------
    def _frac_linear(self, s: Sym):
        return all(not p for (_, p) in s.t)

    def _round_generic(self, s: Sym, mode):
        if isinstance(s, Sym) and not s.is_real():
            raise Unsupported("rounding of complex symbol")
        s = norm(s)
        if s.is_const():
            v = s.value().real
            return float(np.rint(v)) if mode == "rint" else float(math.floor(v + 1e-12))
        if self._frac_linear(s):
            pure = all(mono_is_int(m) for (m, _) in s.t if m)
            if pure:
                dens = [snap(c.real).denominator for (m, _), c in s.t.items() if m]
                if max(dens) > 1 and max(dens) <= 48:
                    s = self.refine_frac(s)
                    if s.is_const():
                        return self._round_generic(s, mode)
                if all(snap(c.real).denominator == 1 for (m, _), c in s.t.items() if m):
                    c0 = snap(s.t.get(ONE, 0j).real)
                    ipart = Sym({k: c for k, c in s.t.items() if k != ONE})
                    if mode == "floor":
                        return norm(ipart + math.floor(c0))
                    fl = math.floor(c0 + Fraction(1, 2))
                    return norm(ipart + fl)
            # drop integer part common: round(x + n) = n + round(x)
            ip = {}
            rest = {}
            for (m, p), c in s.t.items():
                f = snap(c.real)
                if m and mono_is_int(m) and f.denominator == 1:
                    ip[(m, p)] = c
                elif not m:
                    fl = math.floor(f)
                    if fl:
                        ip[(m, p)] = complex(fl)
                    if f - fl:
                        rest[(m, p)] = complex(float(f - fl))
                else:
                    rest[(m, p)] = c
            if ip:
                r = self._round_generic(Sym(rest), mode)
                return norm(Sym.lift(r) + Sym(ip))
        # symbolic
        items = tuple(sorted((k, snap(c.real), snap(c.imag)) for k, c in s.t.items()))
        cache = self.rint_cache if mode == "rint" else self.floor_cache
        if mode == "rint":
            lead = (items[0][1] or items[0][2]) if items else 0
            if lead < 0:
                r = self._round_generic(-s, mode)
                return -Sym.lift(r)
        if items in cache:
            return norm(cache[items])
        w = self.new_atom("w", "int", ("round", s))
        z = self.zreal(s)
        if mode == "rint":
            self.solver.add(2 * z - 2 * z3.ToReal(w.zv) <= 1, 2 * z - 2 * z3.ToReal(w.zv) >= -1)
        else:
            self.solver.add(z - z3.ToReal(w.zv) >= 0, z - z3.ToReal(w.zv) < 1)
        out = Sym.atom(w)
        cache[items] = out
        return out

    def rint(self, s):
        if not isinstance(s, Sym):
            return np.rint(s)
        return self._round_generic(s, "rint")

    def floor(self, s):
        if not isinstance(s, Sym):
            return math.floor(s)
        return self._round_generic(s, "floor")

    def around(self, s, decimals=0):
        if not isinstance(s, Sym):
            return np.around(s, decimals)
        s = norm(s)
        if s.is_const():
            return np.around(num(s.value()), decimals)
        if decimals >= 6 and self.tol_mode == "ideal":
            return s  # rounding below the resolution of the idealised numbers
        if decimals:
            sc = 10.0**decimals
            return self.around(s * sc, 0) / sc
        if s.is_real():
            if s.has_phase():
                e = self.refine_const(s, partial=True)
                if e.is_const():
                    return np.around(num(e.value()), decimals)
                s = e
            return self.rint(s)
        e = self.refine_const(s, partial=True)
        if e.is_const():
            return np.around(num(e.value()), decimals)
        re, im = norm(e.real), norm(e.imag)
        return Sym.lift(self.rint(re)) + 1j * Sym.lift(self.rint(im))

    def trunc(self, s):
        if not isinstance(s, Sym):
            return int(s.real) if isinstance(s, complex) else int(s)
        s = norm(s)
        if s.is_const():
            return int(s.value().real)
        if all(mono_is_int(m) and snap(c.real).denominator == 1 for (m, p), c in s.t.items() if m) and not s.has_phase():
            if snap(s.t.get(ONE, 0j).real).denominator == 1:
                return s
        # int() truncates towards zero
        if bool(SymBool.lt(s)):
            return -Sym.lift(self.floor(-s))
        return self.floor(s)

    def concretize_int(self, s):
        if not isinstance(s, Sym):
            return int(s)
        s = norm(s)
        if s.is_const():
            v = s.value().real
            if abs(v - round(v)) > 1e-9:
                raise TypeError("non-integer index")
            return int(round(v))
        if s.has_phase():
            s2 = self.refine_const(s, partial=True)
            if s2.is_const():
                return self.concretize_int(s2)
        z = self.zreal(s)
        for _ in range(self.max_enum):
            if self.pos < len(self.prefix):
                lab = self.prefix[self.pos]
                if not (isinstance(lab, str) and lab.startswith(("v=", "v!"))):
                    raise Unsupported("non-deterministic replay")
                v = int(lab[2:])
            else:
                r = self.check(want_model=True)
                if r == "unsat":
                    raise Infeasible()
                if r == "unknown":
                    raise Unsupported("solver unknown in concretisation")
                zv = self.model.eval(z, model_completion=True)
                if not z3.is_rational_value(zv) or zv.denominator_as_long() != 1:
                    raise Unsupported("non-integer index")
                v = zv.numerator_as_long()
            lab = self.choose([(f"v={v}", [z == v]), (f"v!{v}", [z != v])])
            if lab.startswith("v="):
                self.add_equality(s - v)
                return v
        raise PathLimit("integer enumeration bound")

    # -- functions ---------------------------------------------------------------
    def exp(self, s):
        s = norm(Sym.lift(s))
        if s.is_const():
            return num(cmath.exp(s.value()))
        d = {}
        re0 = 0.0
        for (m, p), c in s.t.items():
            if p:
                raise Unsupported("exp of phase")
            if not m:
                re0 = c.real
                d[()] = snap(c.imag / TWO_PI)
                continue
            if abs(c.real) > 1e-12:
                raise Unsupported("exp of real symbol")
            d[m] = snap(c.imag / TWO_PI)
        const, p = phase_canon(d)
        amp = math.exp(re0) * cexp(const) if const or re0 else 1 + 0j
        if not p:
            return num(amp * 1.0)
        if all(mono_is_int(m) for m, _ in p):
            den = 1
            for _, c in p:
                den = den * c.denominator // math.gcd(den, c.denominator)
            if den <= self.eager_den:
                form = Sym({(m, ()): complex(float(c)) for m, c in p})
                f = self.refine_frac(form)
                v = Sym({((), p): amp})
                v = norm(v)
                return num(v.value()) if v.is_const() else v
        return Sym({((), p): amp})

    def cos(self, s):
        if not isinstance(s, Sym):
            return np.cos(s)
        e = Sym.lift(self.exp(Sym.lift(s) * 1j))
        return (e + e.conjugate()) * 0.5

    def sin(self, s):
        if not isinstance(s, Sym):
            return np.sin(s)
        e = Sym.lift(self.exp(Sym.lift(s) * 1j))
        return (e - e.conjugate()) * (-0.5j)

    def absolute(self, s):
        if not isinstance(s, Sym):
            return abs(s)
        s = norm(s)
        if s.is_const():
            return abs(s.value())
        if len(s.t) == 1:
            ((m, p), c), = s.t.items()
            if all(self.atoms[k].kind == "pos" for k, _ in m):
                return Sym({(m, ()): complex(abs(c))}) if m else abs(c)
            if all(self.atoms[k].kind == "pos" or e % 2 == 0 for k, e in m):
                return Sym({(m, ()): complex(abs(c))})
        # common unimodular factor of all terms does not matter
        sq = norm(s * s.conjugate())
        if sq.is_const():
            return math.sqrt(max(sq.value().real, 0.0))
        key = ("abs", tuple(sorted((k, complex(round(c.real, 11), round(c.imag, 11)).__repr__()) for k, c in s.t.items())))
        a = self.pow_cache.get(key)
        if a is None:
            a = Sym.atom(self.new_atom("y", "real", ("abs", s)))
            self.solver.add(self.atoms[list(a.atoms())[0]].zv >= 0)
            self.pow_cache[key] = a
        return a

    def polar(self, s: Sym):
        """s = rho * exp(2 pi i u): returns (rho Sym positive or number, u real Sym or number). Forks on s == 0."""
        s = norm(s)
        if s.is_const():
            v = s.value()
            return abs(v), cmath.phase(v) / TWO_PI
        if len(s.t) == 1:
            ((m, p), c), = s.t.items()
            if all(self.atoms[k].kind == "pos" for k, _ in m):
                u = Sym({(mm, ()): complex(float(cc)) for mm, cc in p}) + float(snap(cmath.phase(c) / TWO_PI, 1e-9))
                return (Sym({(m, ()): complex(abs(c))}) if m else abs(c)), u
        raise Unsupported("polar form of a sum")

    def wrap_angle(self, u):
        """u - w in (-1/2, 1/2]"""
        if not isinstance(u, Sym):
            return u - math.ceil(u - 0.5)
        u = norm(u)
        if u.is_const():
            return self.wrap_angle(u.value().real)
        if all(mono_is_int(m) for (m, _) in u.t if m):
            dens = [snap(c.real).denominator for (m, _), c in u.t.items() if m]
            if max(dens) <= 48:
                u = norm(self.refine_frac(u))
                c0 = snap(u.t.get(ONE, 0j).real)
                return float(c0 - math.ceil(c0 - Fraction(1, 2)))
        # split off integer-valued part
        rest = {}
        for (m, p), c in u.t.items():
            f = snap(c.real)
            if m and mono_is_int(m):
                f = f - math.floor(f)
                if f == 0:
                    continue
            if not m:
                f = f - math.floor(f)
            if f:
                rest[(m, p)] = complex(float(f))
        rs = Sym(rest)
        items = ("wrap", tuple(sorted((k, snap(c.real), snap(c.imag)) for k, c in rest.items())))
        w = self.pow_cache.get(items)
        if w is None:
            wa = self.new_atom("w", "int", ("wrap", rs))
            z = self.zreal(rs)
            zw = z3.ToReal(wa.zv)
            self.solver.add(2 * (z - zw) > -1, 2 * (z - zw) <= 1)
            w = Sym.atom(wa)
            self.pow_cache[items] = w
        return rs - w

    def angle(self, s):
        if not isinstance(s, Sym):
            return np.angle(s)
        _, u = self.polar(s)
        return self.wrap_angle(u) * TWO_PI

    def power(self, s, f: Fraction):
        """Principal power s**f for fractional f."""
        s = norm(Sym.lift(s))
        if s.is_const():
            v = num(s.value())
            if isinstance(v, float) and v < 0:
                if f == Fraction(1, 2) and v > -1e-12:
                    return 0.0
                v = complex(v)
            return v ** float(f)
        if s.is_real() and not s.has_phase() and not (
            len(s.t) == 1 and all(self.atoms[k].kind == "pos" for k, _ in list(s.t)[0][0])
        ):
            return self.real_power(s, f)
        rho, u = self.polar(s)
        u = self.wrap_angle(u)
        ph = self.exp(Sym.lift(u) * (2j * math.pi * float(f)))
        if not isinstance(rho, Sym):
            return Sym.lift(ph) * (rho ** float(f))
        ((m, _), c), = rho.t.items()
        out = Sym.const(c.real ** float(f))
        for k, e in m:
            ee = e * f
            if ee.denominator == 1:
                out = out * Sym({(((k, int(ee)),), ()): 1 + 0j})
            else:
                r = self.root_atom(k, f.denominator)
                out = out * Sym({(((r, int(e * f.numerator)),), ()): 1 + 0j})
        return out * Sym.lift(ph)

    def root_atom(self, k, n):
        """Positive atom r with r**n == atom k; atom k is substituted by r**n."""
        key = ("root", k, n)
        r = self.pow_cache.get(key)
        if r is None:
            a = self.new_atom("rt", "pos", ("root", k, n))
            self.subst[k] = Sym({(((a.id, n),), ()): 1 + 0j})
            self.solver.add(self.zmono(((k, 1),)) == self.zmono(((a.id, n),)))
            r = a.id
            self.pow_cache[key] = r
        return r

    def real_power(self, s, f):
        if f == Fraction(1, 2) or f == Fraction(-1, 2):
            key = ("sqrt", tuple(sorted((k, round(c.real, 11)) for k, c in s.t.items())))
            y = self.pow_cache.get(key)
            if y is None:
                # perfect square of a positive monomial?
                z = self.zreal(s)
                a = self.new_atom("sq", "real", ("sqrt", s))
                self.solver.add(a.zv >= 0)
                self.solver.add(self.zmono(((a.id, 2),)) == z)
                self.rules[a.id] = s
                y = Sym.atom(a)
                self.pow_cache[key] = y
            return y if f > 0 else y.inverse()
        raise Unsupported("root of a real sum")

    def recip(self, s):
        key = tuple(sorted((k, complex(round(c.real, 11), round(c.imag, 11)).__repr__()) for k, c in s.t.items()))
        y = self.recip_cache.get(key)
        if y is not None:
            return y
        if s.is_real() and not s.has_phase():
            if bool(SymBool.eq([s])):
                raise ZeroDivisionError("symbolic division by zero")
            a = self.new_atom("inv", "real", ("inv", s))
            y = Sym.atom(a)
            self.nl_defs.append(a.zv * self.zreal(s) == 1)
            self.recip_cache[key] = y
            return y
        raise Unsupported("reciprocal of a sum")

    # -- results ------------------------------------------------------------------
    def prove_zero(self, es, tol=1e-6):
        """Is every e (complex Sym) zero for all inputs of the path?  Returns (verdict, model or None).
        verdict: 'holds' | 'violated' | 'unknown'."""
        bad = []
        seen = set()
        for e in es:
            if not isinstance(e, Sym):
                if abs(complex(e)) > tol:
                    bad.append(z3.BoolVal(True))
                continue
            e = norm(e)
            if not e.t or max(abs(c) for c in e.t.values()) * len(e.t) < tol * 1e-2:
                continue
            if e.is_const():
                if abs(e.value()) > tol:
                    bad.append(z3.BoolVal(True))
                continue
            key = tuple(sorted((k, complex(round(c.real, 9), round(c.imag, 9)).__repr__()) for k, c in e.t.items()))
            if key in seen:
                continue
            seen.add(key)
            r = self.eq_forms_nofork(e)
            if r is True:
                continue
            if r is False:
                bad.append(z3.BoolVal(True))
                continue
            bad.append(r)
        return self.prove_not(z3.Or(*bad) if bad else z3.BoolVal(False))

    def eq_forms_nofork(self, e):
        """z3 formula for e != 0 (no forking)."""
        groups = {}
        for (m, p), c in e.t.items():
            groups.setdefault(p, {})[(m, ())] = c
        if len(groups) == 1:
            (g,) = groups.values()
            r = self._real_forms(Sym(g))
            if r is True or r is False:
                return r
            return z3.Or(*[self.zreal(f) != 0 for f in r])
        if len(groups) == 2:
            (p1, g1), (p2, g2) = groups.items()
            if len(g1) == 1 and len(g2) == 1:
                ((k1, c1),) = g1.items()
                ((k2, c2),) = g2.items()
                differ = k1 != k2 and mono_pos(k1[0]) and mono_pos(k2[0])
                if differ or (k1 == k2 and mono_nonzero(k1[0])):
                    if not differ and abs(abs(c1) - abs(c2)) > 1e-9 * max(abs(c1), abs(c2)):
                        return False
                    d = {}
                    for m, c in p1:
                        d[m] = d.get(m, 0) + c
                    for m, c in p2:
                        d[m] = d.get(m, 0) - c
                    r = self.not_integer(d, cmath.phase(-c1 / c2) / TWO_PI)
                    if differ and r is not False:
                        ne = self.zreal(Sym({k1: complex(abs(c1))})) != self.zreal(Sym({k2: complex(abs(c2))}))
                        return ne if r is True else z3.Or(ne, r)
                    return r
        re, im = self.zreim(e)
        return z3.Or(re != 0, im != 0)

    def not_integer(self, d, theta):
        """z3 formula: sum d[m]*m + theta is not an integer."""
        r = Sym({(m, ()): complex(float(c)) for m, c in d.items() if c})
        r = r + float(snap(theta, 1e-9))
        r = norm(r)
        if r.is_const():
            v = r.value().real
            return True if abs(v - round(v)) < 1e-8 else False
        m = z3.Int(f"ni_{len(self.monovars)}_{self.stats.queries}_{id(r)}")
        z = self.zreal(r)
        zm = z3.ToReal(m)
        return z3.And(z != zm, 2 * (z - zm) <= 1, 2 * (z - zm) >= -1)

    def prove_not(self, bad):
        """Assert that formula ``bad`` is impossible on this path."""
        r = self.check(bad, want_model=True)
        if r == "unsat":
            return "holds", None
        if r == "sat":
            return "violated", self.model
        return "unknown", None

    def model_value(self, model, s):
        """Evaluate a Sym under a z3 model (numbers as float/complex)."""
        if not isinstance(s, Sym):
            return s
        vals = {}

        def av(k):
            if k not in vals:
                z = model.eval(self.atoms[k].zv, model_completion=True)
                vals[k] = _znum(z)
            return vals[k]

        tot = 0j
        for (m, p), c in s.t.items():
            v = complex(c)
            for k, e in m:
                v *= float(av(k)) ** e
            if p:
                ph = Fraction(0)
                fl = 0.0
                for mm, cc in p:
                    x = cc
                    for k, e in mm:
                        x = x * Fraction(av(k)) ** e
                    ph += x
                v *= cmath.exp(2j * math.pi * float(ph - math.floor(ph)))
            tot += v
        return num(tot)

    def witness(self, extra=()):
        """A robust model of the path: recorded non-equalities hold with a margin if possible."""
        base = list(extra)
        groups = []
        for grp in self.ineq:
            zs = [self.zreal(norm(f)) for f in grp]
            groups.append(zs)
        for mg in ("1/40", "1/1000"):
            m = z3.RealVal(mg)
            cons = [z3.Or(*[z3.Or(z >= m, z <= -m) for z in zs]) for zs in groups]
            bound = [z3.And(a.zv <= 6, a.zv >= -6) for a in self.atoms if a.kind == "real" and a.defn is None]
            ints = [z3.And(a.zv <= 5, a.zv >= -5) for a in self.atoms if a.kind == "int" and a.defn is None]
            for ex in ([cons + bound + ints, cons + bound, cons] if groups else [bound + ints, bound]):
                if self.check(*base, *ex, want_model=True) == "sat":
                    return self.model
        if self.check(*base, want_model=True) == "sat":
            return self.model
        return None


def _mono_name(s):
    for w in s[2:].split("_"):
        k, e = w.split("p")
        yield "#" + k, int(e.replace("n", "-"))


class CandModel:
    """A candidate point in the role of a z3 model."""

    def __init__(self, col, point):
        self.sub = {n: z3.RealVal(str(point[i])) for n, i in col.items() if n[0] != "#"}
        self.point = {n: Fraction(point[i]) for n, i in col.items() if n[0] == "#"}

    def eval(self, z, model_completion=True):
        vs = _zvars(z)
        sub = []
        for v in vs:
            x = self.sub.get(str(v), z3.RealVal(0))
            if str(v) not in self.sub and str(v).startswith("m_"):
                y = Fraction(1)
                for a, n in _mono_name(str(v)):
                    y *= self.point[a] ** n
                x = z3.RealVal(str(y))
            sub.append((v, z3.ToInt(x) if v.sort() == z3.IntSort() else x))
        return z3.simplify(z3.substitute(z, *sub)) if sub else z3.simplify(z)


def _zvars(z):
    out, seen, st = [], set(), [z]
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        st.extend(e.children())
    return out


def _zeval(f, col, num):
    """Truth of a z3 formula at all candidate points (floats, margins on the safe side), None when it has other variables."""
    cache = {}

    def val(e):
        i = e.get_id()
        if i in cache:
            return cache[i]
        k = e.decl().kind()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            r = float(e.as_fraction()) if z3.is_rational_value(e) else float(e.as_long())
        elif k == z3.Z3_OP_UNINTERPRETED:
            j = col.get(str(e))
            if j is not None:
                r = num[:, j]
            elif str(e).startswith("m_"):
                r = 1.0
                for a, x in _mono_name(str(e)):
                    r = r * num[:, col[a]] ** x
            else:
                raise KeyError
        else:
            c = [val(x) for x in e.children()]
            if k == z3.Z3_OP_ADD:
                r = sum(c[1:], c[0])
            elif k == z3.Z3_OP_MUL:
                r = c[0]
                for x in c[1:]:
                    r = r * x
            elif k == z3.Z3_OP_SUB:
                r = c[0]
                for x in c[1:]:
                    r = r - x
            elif k == z3.Z3_OP_UMINUS:
                r = -c[0]
            elif k == z3.Z3_OP_DIV:
                r = c[0] / c[1]
            elif k == z3.Z3_OP_TO_REAL:
                r = c[0]
            elif k == z3.Z3_OP_POWER:
                r = c[0] ** c[1]
            else:
                raise KeyError
        cache[i] = r
        return r

    def truth(e, pos):
        """Candidates at which e (or its negation) certainly holds."""
        k = e.decl().kind()
        c = e.children()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return np.full(len(num), (k == z3.Z3_OP_TRUE) == pos)
        if k == z3.Z3_OP_NOT:
            return truth(c[0], not pos)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            r = [truth(x, pos) for x in c]
            return np.logical_and.reduce(r) if (k == z3.Z3_OP_AND) == pos else np.logical_or.reduce(r)
        if k == z3.Z3_OP_IMPLIES:
            a, b = truth(c[0], not pos), truth(c[1], pos)
            return a | b if pos else truth(c[0], True) & truth(c[1], False)
        if k == z3.Z3_OP_DISTINCT and len(c) == 2:
            k, pos = z3.Z3_OP_EQ, not pos
        d = np.broadcast_to(np.asarray(val(c[0]) - val(c[1]), dtype=float), (len(num),))
        if k == z3.Z3_OP_EQ:
            return np.abs(d) < 1e-11 if pos else np.abs(d) > 1e-7
        if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            d = -d
            k = z3.Z3_OP_LT if k == z3.Z3_OP_GT else z3.Z3_OP_LE
        if k == z3.Z3_OP_LT:
            return d < -1e-9 if pos else d > -1e-12
        if k == z3.Z3_OP_LE:
            return d < 1e-12 if pos else d > 1e-9
        raise KeyError

    try:
        return truth(f, True)
    except KeyError:
        return None


def _znum(z):
    if z3.is_int_value(z):
        return Fraction(z.as_long())
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    if z3.is_algebraic_value(z):
        return Fraction(z.approx(20).numerator_as_long(), z.approx(20).denominator_as_long())
    raise Unsupported("model value")


def _exactify(s: Sym) -> Sym:
    out = {}
    for k, c in s.t.items():
        f = snap(c.real)
        if abs(c.imag) > 1e-12:
            raise Unsupported("complex substitution")
        if f:
            out[k] = complex(float(f))
    return Sym(out)
