"""Arrays that may hold symbolic scalars, and the numpy facade."""

from __future__ import annotations

import math
import operator
import types
from fractions import Fraction

import numpy as np

from . import values as V
from .values import Sym, SymBool, Unsupported, norm


class Root:
    __slots__ = ("data", "version", "frozen", "kind", "name")

    def __init__(self, data, kind=None, name=None):
        self.data = data
        self.version = 0
        self.frozen = False
        self.kind = kind or _kind_of(data)
        self.name = name


def _kind_of(data):
    k = data.dtype.kind
    if k == "O":
        return obj_kind(data)
    return "i" if k == "u" else k


def obj_kind(data):
    best = 0  # b i f c
    for x in data.ravel():
        if isinstance(x, Sym):
            r = 3 if (not _quick_real(x)) else 2
        elif isinstance(x, (SymBool, bool, np.bool_)):
            r = 0
        elif isinstance(x, (int, np.integer)):
            r = 1
        elif isinstance(x, (float, np.floating, Fraction)):
            r = 2
        else:
            r = 3
        if r > best:
            best = r
            if best == 3:
                break
    return "bifc"[best]


def _quick_real(x: Sym):
    for (m, p), c in x.t.items():
        if p:
            return x.is_real()
        if c.imag:
            return False
    return True


KIND_DTYPE = {"b": np.dtype(bool), "i": np.dtype(int), "f": np.dtype(float), "c": np.dtype(complex)}


class SA:
    """Array wrapper; storage is promoted to object when a symbolic value is stored."""

    __slots__ = ("root", "parent", "op", "_c", "_v")
    __array_priority__ = 2000.0

    def __init__(self, data=None, kind=None, parent=None, op=None, name=None):
        if parent is None:
            self.root = Root(data, kind, name)
            self.parent = None
            self.op = None
        else:
            self.root = parent.root
            self.parent = parent
            self.op = op
        self._c = None
        self._v = -1

    @property
    def a(self):
        if self.parent is None:
            return self.root.data
        if self._v != self.root.version:
            self._c = self.op(self.parent.a)
            self._v = self.root.version
        return self._c

    # -- basic attributes
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        raise Unsupported("assigning shape")

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        d = self.a.dtype
        return KIND_DTYPE[self.root.kind] if d == object else d

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def flags(self):
        return self.a.flags

    @property
    def sym(self):
        return self.root.data.dtype == object

    @property
    def T(self):
        return SA(parent=self, op=lambda a: a.T)

    @property
    def mT(self):
        return self.swapaxes(-1, -2)

    @property
    def real(self):
        if not self.sym:
            if self.root.kind == "c":
                return wrap(self.a.real)
            return self
        if self.root.kind in "fib":
            return self
        return wrap(_map1(lambda x: x.real if isinstance(x, (Sym, complex, np.number)) else x, self.a))

    @real.setter
    def real(self, v):
        self[...] = call(np.add, (v, call(np.multiply, (1j, self.imag), {})), {})

    @property
    def imag(self):
        if not self.sym:
            return wrap(self.a.imag.copy())
        if self.root.kind in "fib":
            return wrap(np.zeros(self.shape))
        return wrap(_map1(lambda x: x.imag if isinstance(x, (Sym, complex, np.number)) else 0.0, self.a))

    @imag.setter
    def imag(self, v):
        self[...] = call(np.add, (self.real, call(np.multiply, (1j, v), {})), {})

    @property
    def flat(self):
        return self.ravel()

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool((self == x).any())

    def _key(self, key):
        if isinstance(key, tuple):
            return tuple(self._key1(k) for k in key)
        return self._key1(key)

    def _key1(self, k):
        if isinstance(k, Sym):
            return V.ctx().concretize_int(k)
        if isinstance(k, SymBool):
            return bool(k)
        if isinstance(k, SA):
            if k.sym:
                return concretize_index_array(k)
            a = k.a
            return a
        if isinstance(k, list):
            return [self._key1(x) for x in k]
        return k

    def __getitem__(self, key):
        key = self._key(key)
        data = self.a
        res = data[key]
        if isinstance(res, np.ndarray) and not (data.dtype == object and res.ndim == 0 and not isinstance(key, tuple)):
            if res.ndim == 0 and data.dtype == object:
                return out_scalar(res[()])
            if res.base is not None and np.may_share_memory(res, data):
                return SA(parent=self, op=lambda a, key=key: a[key])
            return SA(res, self.root.kind if data.dtype == object else None)
        if isinstance(res, np.ndarray):
            res = res[()]
        if data.dtype == object:
            res = out_scalar(res)
            # an entry of a complex array stays complex, as -1.0 ** 0.5 is nan but (-1+0j) ** 0.5 is not
            if self.root.kind == "c" and isinstance(res, (float, int, np.floating, np.integer)) and not isinstance(res, bool):
                res = np.complex128(res)
        return res

    def __setitem__(self, key, val):
        root = self.root
        # masks with symbolic truth values
        if isinstance(key, SA) and key.sym and key.root.kind == "b":
            return self._masked_set(key, val)
        if isinstance(key, SymBool):
            key = bool(key)
        key = self._key(key)
        v = strip(val)
        if _has_sym(v):
            if root.data.dtype != object:
                self._promote()
            v = _map1(lambda x: V.cast_store(x, root.kind), v) if isinstance(v, np.ndarray) else V.cast_store(v, root.kind)
        else:
            if isinstance(v, (list, tuple)):
                v = np.array(v)
            if root.kind in "fi" and np.iscomplexobj(v):
                v = np.real(v)
            if root.data.dtype == object and isinstance(v, np.ndarray) and v.dtype != object:
                v = v.astype(object)
        if root.frozen:
            self._check_frozen(key, v)
        if self.a.dtype == object and isinstance(v, np.ndarray) and v.size == 1 and v.ndim and isinstance(key, tuple):
            if len(key) == self.a.ndim and all(isinstance(x, (int, np.integer)) for x in key):
                v = v.ravel()[0]  # an array of one element stored in a scalar slot
        self.a[key] = v

    def _check_frozen(self, key, v):
        old = self.a[key]
        try:
            o, n = np.broadcast_arrays(np.asarray(old, dtype=object), np.asarray(v, dtype=object))
            for x, y in zip(o.ravel(), n.ravel()):
                d = norm(Sym.lift(x) - Sym.lift(y))
                if d.t and max(abs(c) for c in d.t.values()) > 1e-12:
                    V.ctx().mutations.append(self.root.name or "input")
                    return
        except (TypeError, ValueError):
            V.ctx().mutations.append(self.root.name or "input")

    def _promote(self):
        root = self.root
        root.data = root.data.astype(object)
        root.version += 1

    def _masked_set(self, mask, val):
        m = mask.a
        tgt = self.a
        if m.shape != tgt.shape[: m.ndim]:
            raise Unsupported("mask shape")
        v = strip(val)
        if m.ndim != tgt.ndim or (isinstance(v, np.ndarray) and v.ndim > 0):
            conc = np.array([bool(x) for x in m.ravel()]).reshape(m.shape)
            self[conc] = val
            return
        if isinstance(v, np.ndarray):
            v = v[()]
        for idx in np.ndindex(*m.shape):
            b = m[idx]
            if isinstance(b, SymBool):
                cur = tgt[idx]
                if V.ctx().tol_mode == "ideal" and implies_equal(b, cur, v):
                    continue  # the condition says that the entry already has this value
                if not bool(b):
                    continue
            elif not b:
                continue
            self[idx] = v
            tgt = self.a

    # -- methods
    def copy(self, order="C"):
        return SA(self.a.copy(), self.root.kind if self.sym else None)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if a or k:
            raise Unsupported("view with dtype")
        return SA(parent=self, op=lambda x: x)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        data = self.a
        res = data.reshape(shape)
        if np.may_share_memory(res, data):
            return SA(parent=self, op=lambda a: a.reshape(shape))
        return SA(res, self.root.kind)

    def ravel(self, order="C"):
        return self.reshape(-1)

    def flatten(self, order="C"):
        return self.reshape(-1).copy()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)) or axes == (None,):
            axes = axes[0]
        axes = tuple(axes) if axes else None
        return SA(parent=self, op=lambda a: a.transpose(axes) if axes else a.T)

    def swapaxes(self, i, j):
        return SA(parent=self, op=lambda a: a.swapaxes(i, j))

    def squeeze(self, axis=None):
        return SA(parent=self, op=lambda a: a.squeeze(axis))

    def diagonal(self, *a, **k):
        return call(np.diagonal, (self,) + a, k)

    def astype(self, t, **kw):
        if not self.sym:
            dt = np.dtype(t)
            data = self.a
            if dt.kind in "fiub" and data.dtype.kind == "c":
                data = data.real
            return wrap(data.astype(t))
        dt = np.dtype(t)
        k = "i" if dt.kind == "u" else dt.kind
        if k == "O":
            return self.copy()
        return wrap(_map1(lambda x: V.cast_store(x, k), self.a), k)

    def tolist(self):
        if not self.sym:
            return self.a.tolist()
        return _simp_list(self.a.tolist(), self.root.kind)

    def item(self, *args):
        if args:
            return self[args if len(args) > 1 else np.unravel_index(args[0], self.shape)]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return out_scalar(self.a.ravel()[0]) if self.sym else self.a.item()

    def fill(self, v):
        self[...] = v

    def sort(self, axis=-1):
        self[...] = call(np.sort, (self,), {"axis": axis})

    def __array__(self, dtype=None, copy=None):
        if self.sym:
            d = demote(self.a)
            if d.dtype == object:
                raise Unsupported("numpy conversion of a symbolic array")
            return d if dtype is None else d.astype(dtype)
        return self.a if dtype is None else self.a.astype(dtype)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.a.ravel()[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted")
        return int(self.item())

    def __index__(self):
        return operator.index(self.item())

    def __float__(self):
        return float(self.item())

    def __complex__(self):
        return complex(self.item())

    def __round__(self, n=0):
        return call(np.around, (self, n or 0), {})

    def __repr__(self):
        return f"SA({self.a!r})"

    __hash__ = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return call(func, args, kwargs)

    # in place
    def _iop(self, ufunc, o):
        r = dispatch_ufunc(ufunc, "__call__", (self, o), {})
        self[...] = r
        return self

    def __abs__(self):
        return dispatch_ufunc(np.absolute, "__call__", (self,), {})

    def __neg__(self):
        return dispatch_ufunc(np.negative, "__call__", (self,), {})

    def __pos__(self):
        return self

    def __invert__(self):
        return dispatch_ufunc(np.logical_not if self.root.kind == "b" else np.invert, "__call__", (self,), {})


def _mk_bin(name, uf, rev=False, inpl=False):
    if inpl:

        def f(self, o):
            return self._iop(uf, o)

    elif rev:

        def f(self, o):
            return dispatch_ufunc(uf, "__call__", (o, self), {})

    else:

        def f(self, o):
            return dispatch_ufunc(uf, "__call__", (self, o), {})

    setattr(SA, name, f)


for _n, _u in [
    ("add", np.add),
    ("sub", np.subtract),
    ("mul", np.multiply),
    ("truediv", np.true_divide),
    ("floordiv", np.floor_divide),
    ("mod", np.remainder),
    ("pow", np.power),
    ("matmul", np.matmul),
    ("and", np.bitwise_and),
    ("or", np.bitwise_or),
    ("xor", np.bitwise_xor),
]:
    _mk_bin(f"__{_n}__", _u)
    _mk_bin(f"__r{_n}__", _u, rev=True)
    _mk_bin(f"__i{_n}__", _u, inpl=True)
for _n, _u in [
    ("eq", np.equal),
    ("ne", np.not_equal),
    ("lt", np.less),
    ("le", np.less_equal),
    ("gt", np.greater),
    ("ge", np.greater_equal),
]:
    _mk_bin(f"__{_n}__", _u)


def _mk_method(name, fn):
    def f(self, *a, **k):
        return call(fn, (self,) + a, k)

    setattr(SA, name, f)


for _n, _f in [
    ("sum", np.sum),
    ("prod", np.prod),
    ("mean", np.mean),
    ("any", np.any),
    ("all", np.all),
    ("max", np.max),
    ("min", np.min),
    ("argmax", np.argmax),
    ("argmin", np.argmin),
    ("argsort", np.argsort),
    ("trace", np.trace),
    ("dot", np.dot),
    ("conj", np.conjugate),
    ("conjugate", np.conjugate),
    ("round", np.around),
    ("cumsum", np.cumsum),
    ("cumprod", np.cumprod),
    ("nonzero", np.nonzero),
    ("take", np.take),
    ("repeat", np.repeat),
    ("clip", np.clip),
    ("std", np.std),
    ("var", np.var),
    ("ptp", np.ptp),
    ("compress", np.compress),
    ("searchsorted", np.searchsorted),
]:
    _mk_method(_n, _f)


################################################################################
# helpers
################################################################################


def out_scalar(x):
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return np.bool_(x)
    if isinstance(x, complex):
        return np.complex128(x)
    if isinstance(x, (float, Fraction)):
        return np.float64(x)
    if isinstance(x, int):
        return np.int64(x)
    return x


def _simp_list(x, kind="f"):
    if isinstance(x, list):
        return [_simp_list(y, kind) for y in x]
    if isinstance(x, Sym):
        s = x.simp()
        if not isinstance(s, Sym) and kind == "i":
            return int(round(s.real))
        return s
    return x


def strip(x):
    """SA -> ndarray; other containers are converted when they hold SA or symbols."""
    if isinstance(x, SA):
        return x.a
    if isinstance(x, (list, tuple)) and _deep_sym(x):
        return to_array(x)
    if isinstance(x, (list, tuple)) and any(isinstance(y, SA) for y in x):
        return to_array(x)
    return x


def _has_sym(v):
    if isinstance(v, (Sym, SymBool)):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype == object
    if isinstance(v, (list, tuple)):
        return any(_has_sym(x) for x in v)
    return False


def _deep_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, SA):
        return x.sym
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    if isinstance(x, dict):
        return any(_deep_sym(y) for y in x.values())
    return False


def to_array(x):
    """Nested lists/tuples/SA/ndarrays/scalars -> ndarray (object when symbolic)."""
    if isinstance(x, SA):
        return x.a
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (types.GeneratorType, map, zip)):
        raise Unsupported("array from iterator")
    if isinstance(x, (list, tuple)):
        if not _deep_sym(x):
            return np.array([to_array(y) if isinstance(y, (list, tuple, SA, np.ndarray)) else y for y in x])
        parts = [to_array(y) for y in x]
        shapes = {p.shape if isinstance(p, np.ndarray) else () for p in parts}
        if len(shapes) != 1:
            raise ValueError("inhomogeneous shape")
        (sh,) = shapes
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            if sh == ():
                out[i] = p[()] if isinstance(p, np.ndarray) else p
            else:
                out[i] = p
        return out
    if isinstance(x, (Sym, SymBool)):
        out = np.empty((), dtype=object)
        out[()] = x
        return out
    return np.asarray(x)


def demote(data, kind=None):
    """object ndarray whose entries are all constant -> numeric ndarray."""
    if data.dtype != object:
        return data
    flat = []
    best = 0
    for x in data.ravel():
        if isinstance(x, Sym):
            if not x.is_const():
                if V.CTX is not None and V.CTX.subst:
                    x = norm(x)
                if not x.is_const():
                    return data
            x = V.num(x.value())
            if isinstance(x, float) and kind == "i":
                x = int(round(x))
        elif isinstance(x, SymBool):
            if x.k != "c":
                return data
            x = x.a
        if isinstance(x, (bool, np.bool_)):
            r = 0
        elif isinstance(x, (int, np.integer)):
            r = 1
        elif isinstance(x, (float, np.floating, Fraction)):
            r = 2
        else:
            r = 3
        best = max(best, r)
        flat.append(x)
    k = "bifc"[best]
    if kind is not None and "bifc".index(kind) >= best:
        k = kind
    if data.size == 0:
        k = kind or "f"
    try:
        return np.array(flat, dtype=KIND_DTYPE[k]).reshape(data.shape)
    except (TypeError, ValueError):
        return data


def wrap(res, kind=None):
    """Results of numpy calls -> values handed to the code under test."""
    if isinstance(res, np.ndarray):
        if res.dtype == object:
            d = demote(res, kind)
            if d.dtype == object:
                if d.ndim == 0:
                    return out_scalar(d[()])
                return SA(d, kind)
            res = d
            if res.ndim == 0:
                return res[()]
        if res.dtype.kind in "fc":
            if res.ndim == 0:
                return res[()]
            return SA(res)
        return res
    if isinstance(res, tuple) and type(res) is tuple:
        return tuple(wrap(r) for r in res)
    if isinstance(res, list):
        return [wrap(r) for r in res]
    if isinstance(res, Sym):
        return out_scalar(res.simp()) if not isinstance(res.simp(), Sym) else res.simp()
    if isinstance(res, tuple) and hasattr(res, "_fields"):
        return type(res)(*[wrap(r) for r in res])
    return out_scalar(res) if isinstance(res, (float, complex)) else res


def unwrap_numeric(x):
    if isinstance(x, SA):
        return x.a
    if isinstance(x, list):
        return [unwrap_numeric(y) for y in x]
    if type(x) is tuple:
        return tuple(unwrap_numeric(y) for y in x)
    if isinstance(x, dict):
        return {k: unwrap_numeric(y) for k, y in x.items()}
    return x


def unwrap_object(x):
    """As unwrap_numeric, symbolic containers become object ndarrays."""
    if isinstance(x, SA):
        return x.a
    if isinstance(x, (list, tuple)) and _deep_sym(x):
        try:
            return to_array(x)
        except ValueError:
            return [unwrap_object(y) for y in x]
    if isinstance(x, list):
        return [unwrap_object(y) for y in x]
    if type(x) is tuple:
        return tuple(unwrap_object(y) for y in x)
    if isinstance(x, (Sym, SymBool)):
        return to_array(x)
    return x


def pyobj(a):
    """Object array whose numpy scalars are Python numbers."""
    if a.dtype != object:
        return a.astype(object)
    if any(isinstance(x, np.generic) for x in a.ravel()):
        b = np.empty(a.shape, dtype=object)
        bf = b.reshape(-1)
        for i, x in enumerate(a.ravel()):
            bf[i] = x.item() if isinstance(x, np.generic) else x
        return b
    return a


def _map1(f, a):
    a = pyobj(np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a)
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = f(a[()])
        return out
    of = out.reshape(-1)
    for i, x in enumerate(a.ravel()):
        of[i] = f(x)
    return out


def _map2(f, a, b):
    a = pyobj(to_array(a))
    b = pyobj(to_array(b))
    aa, bb = np.broadcast_arrays(a, b)
    out = np.empty(aa.shape, dtype=object)
    if out.ndim == 0:
        out[()] = f(aa[()], bb[()])
        return out
    of = out.reshape(-1)
    for i, (x, y) in enumerate(zip(aa.ravel(), bb.ravel())):
        of[i] = f(x, y)
    return out


def concretize_index_array(k: SA):
    if k.root.kind == "b":
        return np.array([bool(x) for x in k.a.ravel()], dtype=bool).reshape(k.shape)
    return np.array([V.ctx().concretize_int(x) if isinstance(x, Sym) else int(x) for x in k.a.ravel()], dtype=int).reshape(
        k.shape
    )


def implies_equal(b, cur, v):
    """Does condition b say that cur equals v (idealised tolerance)?"""
    if not isinstance(b, SymBool):
        return False
    if b.k == "and":
        return any(implies_equal(x, cur, v) for x in b.a)
    if b.k == "lt":
        ap = V.ctx().abs_pattern(norm(b.a))
        if ap is None or ap.k != "eq":
            return False
        b = ap
    if b.k == "not" and b.a.k == "lt":
        ap = V.ctx().abs_pattern(norm(b.a.a))
        if ap is None or ap.k != "not":
            return False
        b = ap.a
    if b.k != "eq" or len(b.a) != 1:
        return False
    e = norm(b.a[0])
    d = norm(Sym.lift(cur) - Sym.lift(v))
    for s in (1, -1):
        r = norm(e - d * s)
        if not r.t or max(abs(c) for c in r.t.values()) < 1e-9:
            return True
    return False


################################################################################
# ufuncs
################################################################################


def _np1(fn):
    def g(x):
        if isinstance(x, Sym):
            s = x.simp()
            if isinstance(s, Sym):
                return fn(V.ctx(), s)
            x = s
        return None

    return g


def _el_exp(x):
    return V.ctx().exp(x) if isinstance(x, Sym) else np.exp(x)


def _el_sqrt(x):
    if isinstance(x, Sym):
        return V.ctx().power(x, Fraction(1, 2))
    return np.sqrt(x)


def _el_sign(x):
    if not isinstance(x, Sym):
        return np.sign(x)
    if bool(SymBool.lt(x)):
        return -1.0
    if bool(SymBool.eq([x])):
        return 0.0
    return 1.0


def _el_arctan2(y, x):
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return np.arctan2(y, x)
    z = Sym.lift(x) + 1j * Sym.lift(y)
    z = z.simp()
    return V.ctx().angle(z) if isinstance(z, Sym) else np.angle(z)


def _el_unsupported(name):
    def f(x, *r):
        if isinstance(x, Sym):
            s = x.simp()
            if not isinstance(s, Sym):
                return getattr(np, name)(s, *r)
            raise Unsupported(name)
        return getattr(np, name)(x, *r)

    return f


def _el_tan(x):
    return V.ctx().sin(x) / V.ctx().cos(x) if isinstance(x, Sym) else np.tan(x)


def _el_hypot(x, y):
    return V.ctx().power(Sym.lift(x) * Sym.lift(x) + Sym.lift(y) * Sym.lift(y), Fraction(1, 2))


def _real(x):
    return x.real if isinstance(x, (Sym, complex, np.number)) else x


def _imag(x):
    return x.imag if isinstance(x, (Sym, complex, np.number)) else 0.0


def _conj(x):
    return x.conjugate() if isinstance(x, (Sym, complex, np.number)) else x


def _bool_not(x):
    return ~SymBool.lift(x) if isinstance(x, (Sym, SymBool)) else (not x)


def _max2(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return y if bool(Sym.lift(x) < y) else x
    return max(x, y)


def _min2(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return x if bool(Sym.lift(x) < y) else y
    return min(x, y)


def _isfinite(x):
    return True if isinstance(x, (Sym, SymBool)) else bool(np.isfinite(x))


UN = {
    "exp": _el_exp,
    "sqrt": _el_sqrt,
    "cos": lambda x: V.ctx().cos(x),
    "sin": lambda x: V.ctx().sin(x),
    "tan": _el_tan,
    "absolute": lambda x: abs(x),
    "fabs": lambda x: abs(x),
    "rint": lambda x: V.ctx().around(x),
    "floor": lambda x: V.ctx().floor(x) if isinstance(x, Sym) else np.floor(x),
    "ceil": lambda x: -V.ctx().floor(-x) if isinstance(x, Sym) else np.ceil(x),
    "trunc": lambda x: V.ctx().trunc(x) if isinstance(x, Sym) else np.trunc(x),
    "conjugate": _conj,
    "negative": lambda x: -x,
    "positive": lambda x: x,
    "square": lambda x: x * x,
    "reciprocal": lambda x: 1 / x,
    "sign": _el_sign,
    "logical_not": _bool_not,
    "invert": _bool_not,
    "isfinite": _isfinite,
    "isnan": lambda x: False if isinstance(x, Sym) else bool(np.isnan(x)),
    "isinf": lambda x: False if isinstance(x, Sym) else bool(np.isinf(x)),
    "deg2rad": lambda x: x * (math.pi / 180),
    "radians": lambda x: x * (math.pi / 180),
}
for _n in ("arccos", "arcsin", "arctan", "log", "expm1", "log2", "log10", "sinh", "cosh", "cbrt"):
    UN[_n] = _el_unsupported(_n)

BIN = {
    "add": operator.add,
    "subtract": operator.sub,
    "multiply": operator.mul,
    "divide": operator.truediv,
    "true_divide": operator.truediv,
    "floor_divide": operator.floordiv,
    "remainder": operator.mod,
    "power": operator.pow,
    "float_power": operator.pow,
    "equal": operator.eq,
    "not_equal": operator.ne,
    "less": operator.lt,
    "less_equal": operator.le,
    "greater": operator.gt,
    "greater_equal": operator.ge,
    "logical_and": lambda x, y: SymBool.lift(x) & SymBool.lift(y),
    "logical_or": lambda x, y: SymBool.lift(x) | SymBool.lift(y),
    "logical_xor": lambda x, y: SymBool.lift(x) ^ SymBool.lift(y),
    "bitwise_and": lambda x, y: SymBool.lift(x) & SymBool.lift(y),
    "bitwise_or": lambda x, y: SymBool.lift(x) | SymBool.lift(y),
    "bitwise_xor": lambda x, y: SymBool.lift(x) ^ SymBool.lift(y),
    "maximum": _max2,
    "minimum": _min2,
    "fmax": _max2,
    "fmin": _min2,
    "arctan2": _el_arctan2,
    "hypot": _el_hypot,
    "fmod": _el_unsupported("fmod"),
}


def _np_mod(x, y):
    return x % y


def _sb(x):
    """normalise SymBool constants"""
    if isinstance(x, SymBool) and x.k == "c":
        return x.a
    return x


def _matmul_obj(a, b):
    """Object matmul; skips structural zeros."""
    a = to_array(a)
    b = to_array(b)
    return np.matmul(pyobj(a), pyobj(b))


def dispatch_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    symbolic = any(_deep_sym(x) for x in inputs)
    name = ufunc.__name__
    if symbolic:
        # constants in disguise?
        ins = []
        still = False
        for x in inputs:
            if isinstance(x, SA) and x.sym:
                d = demote(x.a, x.root.kind)
                if d.dtype == object:
                    still = True
                ins.append(d)
            elif isinstance(x, Sym):
                s = x.simp()
                if isinstance(s, Sym):
                    still = True
                ins.append(s)
            elif isinstance(x, SymBool):
                if x.k != "c":
                    still = True
                    ins.append(x)
                else:
                    ins.append(x.a)
            elif _deep_sym(x):
                still = True
                ins.append(to_array(x))
            else:
                ins.append(unwrap_numeric(x))
        symbolic = still
        inputs = ins
    else:
        inputs = [to_array(x) if isinstance(x, list) else unwrap_numeric(x) for x in inputs]
    if not symbolic:
        with np.errstate(all="ignore"):
            res = getattr(ufunc, method)(*inputs, **kw)
        res = wrap(res)
    else:
        kw.pop("casting", None)
        dtype = kw.pop("dtype", None)
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("ufunc where")
        if method == "__call__":
            if name == "matmul":
                res = wrap(_matmul_obj(*inputs))
            elif name in UN and len(inputs) == 1:
                res = wrap(_map1(lambda x: _sb(UN[name](x)), to_array(inputs[0])))
            elif name in BIN and len(inputs) == 2:
                f = BIN[name]
                res = wrap(_map2(lambda x, y: _sb(f(x, y)), inputs[0], inputs[1]))
            elif name == "divmod":
                res = (
                    dispatch_ufunc(np.floor_divide, "__call__", inputs, {}),
                    dispatch_ufunc(np.remainder, "__call__", inputs, {}),
                )
            elif name == "modf":
                raise Unsupported("modf")
            else:
                raise Unsupported("ufunc " + name)
        elif method in ("reduce", "accumulate", "outer"):
            arrs = [to_array(x) for x in inputs]
            arrs = [pyobj(x) for x in arrs]
            if name in ("add", "multiply"):
                res = wrap(getattr(ufunc, method)(*arrs, **kw))
            elif method == "reduce" and name in ("logical_and", "logical_or", "maximum", "minimum"):
                fn = {"logical_and": np.all, "logical_or": np.any, "maximum": np.max, "minimum": np.min}[name]
                kw.pop("initial", None)
                res = call(fn, (SA(arrs[0]),), {k: v for k, v in kw.items() if k in ("axis", "keepdims")})
            elif method == "outer" and name in BIN:
                x, y = arrs
                res = wrap(
                    _map2(
                        lambda p, q: _sb(BIN[name](p, q)),
                        x.reshape(x.shape + (1,) * y.ndim),
                        y.reshape((1,) * x.ndim + y.shape),
                    )
                )
            else:
                raise Unsupported(f"{name}.{method}")
        else:
            raise Unsupported(f"{name}.{method}")
        if dtype is not None and isinstance(res, (SA, Sym)):
            res = res.astype(dtype)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SA):
            o[...] = res
            return o
        if _deep_sym(res):
            raise Unsupported("symbolic result into a numeric array")
        o[...] = unwrap_numeric(res)
        return o
    return res


################################################################################
# functions
################################################################################

IMPL = {}


def impl(*fns):
    def deco(f):
        for fn in fns:
            IMPL[fn] = f
        return f

    return deco


def _obj_input(x):
    a = to_array(x)
    if a.dtype == object:
        a = demote(a)
    return a


def _zero_d(res, args_nd):
    return res


def call(fn, args, kwargs):
    """Call numpy function fn with symbolic-aware arguments."""
    symbolic = any(_deep_sym(x) for x in args) or any(_deep_sym(x) for x in kwargs.values())
    if not symbolic:
        a = [unwrap_numeric(x) for x in args]
        k = {q: unwrap_numeric(x) for q, x in kwargs.items()}
        with np.errstate(all="ignore"):
            res = fn(*a, **k)
        return _keep_view(res, args)
    if isinstance(fn, np.ufunc):
        return dispatch_ufunc(fn, "__call__", args, kwargs)
    f = IMPL.get(fn)
    if f is not None:
        r = f(*args, **kwargs)
        if isinstance(r, (float, np.floating)) and fn in KEEP_COMPLEX and any(_complexish(x) for x in args):
            r = np.complex128(r)  # the type of the result does not depend on its value
        return r
    if fn in OBJ_OK:
        a = [unwrap_object(x) for x in args]
        k = {q: unwrap_object(x) for q, x in kwargs.items()}
        kind = None
        return wrap(fn(*a, **k), kind)
    raise Unsupported("numpy." + getattr(fn, "__name__", str(fn)))


def _keep_view(res, args):
    return wrap(res)


KEEP_COMPLEX = {np.sum, np.prod, np.mean, np.average, np.trace, np.dot, np.vdot, np.inner, np.einsum, np.tensordot}


def _complexish(x):
    if isinstance(x, SA):
        return x.root.kind == "c"
    if isinstance(x, np.ndarray):
        return x.dtype.kind == "c" or (x.dtype == object and any(_complexish(y) for y in x.ravel()))
    if isinstance(x, Sym):
        return any(p for (_, p) in x.t) or any(c.imag for c in x.t.values())
    if isinstance(x, (list, tuple)):
        return any(_complexish(y) for y in x)
    return isinstance(x, (complex, np.complexfloating))


OBJ_OK = {
    np.transpose,
    np.reshape,
    np.concatenate,
    np.stack,
    np.vstack,
    np.hstack,
    np.dstack,
    np.column_stack,
    np.swapaxes,
    np.moveaxis,
    np.rollaxis,
    np.expand_dims,
    np.squeeze,
    np.ravel,
    np.diag,
    np.diagonal,
    np.diagflat,
    np.tile,
    np.repeat,
    np.roll,
    np.flip,
    np.fliplr,
    np.flipud,
    np.rot90,
    np.take,
    np.take_along_axis,
    np.broadcast_to,
    np.broadcast_arrays,
    np.split,
    np.array_split,
    np.atleast_1d,
    np.atleast_2d,
    np.atleast_3d,
    np.append,
    np.insert,
    np.delete,
    np.block,
    np.triu,
    np.tril,
    np.shape,
    np.ndim,
    np.size,
    np.meshgrid,
    np.copy,
    np.resize,
}


def _axis_kw(axis, keepdims):
    k = {}
    if axis is not None:
        k["axis"] = axis
    if keepdims:
        k["keepdims"] = True
    return k


def _as_obj(x):
    a = _obj_input(x)
    return a


@impl(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    x = _as_obj(a)
    if x.dtype != object:
        return call(np.sum, (x,), {**_axis_kw(axis, keepdims), **({"dtype": dtype} if dtype else {})})
    if x.size and all(isinstance(y, (SymBool, bool, np.bool_)) for y in x.ravel()):
        x = np.array([1 if bool(y) else 0 for y in x.ravel()]).reshape(x.shape)
        return wrap(np.sum(x, axis=axis, keepdims=keepdims))
    r = wrap(np.sum(x, axis=axis, keepdims=keepdims))
    if dtype is not None:
        r = r.astype(dtype)
    return r


@impl(np.prod)
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    x = _as_obj(a)
    r = wrap(np.prod(x, axis=axis, keepdims=keepdims))
    if x.dtype == object and isinstance(r, (float, np.floating)):
        # the type of a product of complex numbers does not depend on its value
        if any(isinstance(y, complex) or (isinstance(y, Sym) and any(p for (_, p) in y.t)) for y in x.ravel()):
            return np.complex128(r)
    return r


@impl(np.mean)
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    x = _as_obj(a)
    n = x.size if axis is None else np.prod([x.shape[i] for i in np.atleast_1d(axis)])
    return wrap(np.sum(x, axis=axis, keepdims=keepdims) / n)


@impl(np.average)
def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis)
    x, w = _as_obj(a), _as_obj(weights)
    return wrap(np.sum(x * w, axis=axis) / np.sum(w))


@impl(np.cumsum)
def _cumsum(a, axis=None, **k):
    return wrap(np.cumsum(_as_obj(a), axis=axis))


@impl(np.cumprod)
def _cumprod(a, axis=None, **k):
    return wrap(np.cumprod(_as_obj(a), axis=axis))


@impl(np.diff)
def _diff(a, n=1, axis=-1, **k):
    return wrap(np.diff(_as_obj(a), n=n, axis=axis))


@impl(np.dot)
def _dot(a, b, out=None):
    x, y = _as_obj(a), _as_obj(b)
    return wrap(np.dot(x, y))


@impl(np.inner)
def _inner(a, b):
    x, y = _as_obj(a), _as_obj(b)
    return wrap(np.inner(x.astype(object), y.astype(object)))


@impl(np.vdot)
def _vdot(a, b):
    x, y = _as_obj(a), _as_obj(b)
    x = _map1(_conj, x).ravel()
    return wrap(np.dot(x, y.ravel().astype(object)))


@impl(np.outer)
def _outer(a, b, out=None):
    x, y = _as_obj(a).ravel(), _as_obj(b).ravel()
    return wrap(np.outer(x.astype(object), y.astype(object)))


@impl(np.kron)
def _kron(a, b):
    x, y = _as_obj(a), _as_obj(b)
    if x.ndim != 2 or y.ndim != 2:
        raise Unsupported("kron")
    r = x[:, None, :, None].astype(object) * y[None, :, None, :].astype(object)
    return wrap(r.reshape(x.shape[0] * y.shape[0], x.shape[1] * y.shape[1]))


@impl(np.cross)
def _cross(a, b, **k):
    x, y = _as_obj(a), _as_obj(b)
    if x.shape != (3,) or y.shape != (3,):
        raise Unsupported("cross")
    return wrap(
        to_array([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])
    )


@impl(np.tensordot)
def _tensordot(a, b, axes=2):
    return wrap(np.tensordot(_as_obj(a).astype(object), _as_obj(b).astype(object), axes=axes))


@impl(np.trace)
def _trace(a, offset=0, axis1=0, axis2=1, **k):
    x = _as_obj(a)
    return wrap(np.sum(np.diagonal(x, offset, axis1, axis2), axis=-1))


@impl(np.einsum)
def _einsum(*ops, optimize=False, out=None, dtype=None, **k):
    if not isinstance(ops[0], str):
        raise Unsupported("einsum sublist format")
    sub = ops[0].replace(" ", "")
    arrs = [_as_obj(x) for x in ops[1:]]
    if all(a.dtype != object for a in arrs):
        return wrap(np.einsum(sub, *arrs, optimize=optimize))
    if "..." in sub:
        sub = _expand_ellipsis(sub, arrs)
    return wrap(_einsum_obj(sub, arrs))


def _expand_ellipsis(sub, arrs):
    if "->" in sub:
        lhs, rhs = sub.split("->")
    else:
        raise Unsupported("implicit einsum with ellipsis")
    ins = lhs.split(",")
    pool = [c for c in "ZYXWVUTSRQPONM" if c not in sub]
    n = 0
    for s, a in zip(ins, arrs):
        if "..." in s:
            n = max(n, a.ndim - len(s.replace("...", "")))
    ell = "".join(pool[:n])
    out = []
    for s, a in zip(ins, arrs):
        if "..." in s:
            m = a.ndim - len(s.replace("...", ""))
            s = s.replace("...", ell[n - m :] if m else "")
        out.append(s)
    return ",".join(out) + "->" + rhs.replace("...", ell)


def _einsum_obj(sub, arrs):
    """einsum over object arrays by pairwise contraction (sparse-aware)."""
    if "->" in sub:
        lhs, rhs = sub.split("->")
    else:
        lhs = sub
        rhs = "".join(sorted(c for c in set(lhs.replace(",", "")) if lhs.replace(",", "").count(c) == 1))
    ins = lhs.split(",")
    terms = []
    for s, a in zip(ins, arrs):
        # repeated indices: diagonal
        while len(set(s)) != len(s):
            for c in s:
                if s.count(c) > 1:
                    i = s.index(c)
                    j = s.index(c, i + 1)
                    a = np.diagonal(a, axis1=i, axis2=j)
                    s = s[:i] + s[i + 1 : j] + s[j + 1 :] + c
                    break
        terms.append((s, a))
    # sum out indices private to a term
    def reduce_term(i):
        s, a = terms[i]
        others = set(rhs)
        for j, (s2, _) in enumerate(terms):
            if j != i:
                others |= set(s2)
        ax = tuple(k for k, c in enumerate(s) if c not in others)
        if ax:
            a = np.sum(a, axis=ax) if a.size else np.sum(a, axis=ax)
            if not isinstance(a, np.ndarray):
                a = to_array(a)
            s = "".join(c for k, c in enumerate(s) if k not in ax)
            terms[i] = (s, a)

    for i in range(len(terms)):
        reduce_term(i)
    while len(terms) > 1:
        # greedy: contract the pair with the smallest result
        best = None
        for i in range(len(terms)):
            for j in range(i + 1, len(terms)):
                (s1, a1), (s2, a2) = terms[i], terms[j]
                keep = set(rhs)
                for k, (s3, _) in enumerate(terms):
                    if k not in (i, j):
                        keep |= set(s3)
                allc = list(dict.fromkeys(s1 + s2))
                res = [c for c in allc if c in keep]
                dims = {}
                for s, a in ((s1, a1), (s2, a2)):
                    for c, n in zip(s, a.shape):
                        dims[c] = n
                cost = 1
                for c in allc:
                    cost *= dims[c]
                rs = 1
                for c in res:
                    rs *= dims[c]
                key = (rs - a1.size - a2.size, cost)
                if best is None or key < best[0]:
                    best = (key, i, j, res, allc)
        _, i, j, res, allc = best
        (s1, a1), (s2, a2) = terms[i], terms[j]
        summ = [c for c in allc if c not in res]
        order = res + summ
        x = _expand(a1, s1, order)
        y = _expand(a2, s2, order)
        prod = x.astype(object) * y.astype(object) if (a1.dtype == object or a2.dtype == object) else x * y
        if summ:
            prod = np.sum(prod, axis=tuple(range(len(res), len(order))))
            if not isinstance(prod, np.ndarray):
                prod = to_array(prod)
        new = ("".join(res), demote(prod) if prod.dtype == object else prod)
        terms = [t for k, t in enumerate(terms) if k not in (i, j)] + [new]
    s, a = terms[0]
    ax = tuple(k for k, c in enumerate(s) if c not in rhs)
    if ax:
        a = np.sum(a, axis=ax)
        if not isinstance(a, np.ndarray):
            a = to_array(a)
        s = "".join(c for k, c in enumerate(s) if k not in ax)
    if s != rhs:
        a = np.transpose(a, [s.index(c) for c in rhs])
    return a


def _expand(a, s, order):
    perm = [s.index(c) for c in order if c in s]
    a = np.transpose(a, perm)
    shape = []
    k = 0
    for c in order:
        if c in s:
            shape.append(a.shape[k])
            k += 1
        else:
            shape.append(1)
    return a.reshape(shape)


@impl(np.einsum_path)
def _einsum_path(*a, **k):
    raise Unsupported("einsum_path")


@impl(np.real)
def _np_real(x):
    if isinstance(x, (Sym,)):
        return wrap(x.real)
    return wrap(_map1(_real, to_array(x)))


@impl(np.imag)
def _np_imag(x):
    if isinstance(x, (Sym,)):
        return wrap(x.imag)
    return wrap(_map1(_imag, to_array(x)))


@impl(np.angle)
def _np_angle(x, deg=False):
    r = _map1(lambda z: V.ctx().angle(z) if isinstance(z, Sym) else np.angle(z), to_array(x))
    if deg:
        r = r * (180 / math.pi)
    return wrap(r)


@impl(np.around, np.round, getattr(np, "round_", np.round))
def _np_around(x, decimals=0, out=None):
    return wrap(_map1(lambda z: V.ctx().around(z, decimals), to_array(x)))


@impl(np.fix)
def _np_fix(x, out=None):
    return wrap(_map1(lambda z: V.ctx().trunc(z) if isinstance(z, Sym) else np.fix(z), to_array(x)))


def _close(x, y, rtol, atol):
    """SymBool/bool for |x-y| <= atol + rtol |y|."""
    c = V.CTX
    d = Sym.lift(x) - Sym.lift(y)
    d = norm(d)
    if not isinstance(atol, Sym) and not isinstance(rtol, Sym):
        ynum = None
        ys = Sym.lift(y)
        ys = norm(ys)
        if ys.is_const():
            ynum = abs(ys.value())
        if d.is_const():
            yy = ynum if ynum is not None else max([abs(v) for v in ys.t.values()] or [0.0])
            return abs(d.value()) <= float(atol) + float(rtol) * yy + 1e-15
        tol = float(atol) + float(rtol) * (ynum if ynum is not None else 1.0)
        if c.tol_mode == "ideal" and tol <= 1.01e-4:
            return SymBool.eq([d], tol)
        if c.tol_mode == "ideal" and ynum is None and float(atol) <= 1e-4 and float(rtol) <= 1e-3:
            return SymBool.eq([d], tol)
    # exact semantics
    ay = c.absolute(Sym.lift(y)) if isinstance(norm(Sym.lift(y)), Sym) else abs(y)
    bound = Sym.lift(atol) + Sym.lift(rtol) * Sym.lift(ay)
    bound = norm(bound)
    small = bound.t.get(((), ()), 0)
    if 0 < abs(small) < 1e-3:
        # scaled, since tiny coefficients are rounded away
        d = norm(d * (1.0 / abs(small)))
        bound = norm(bound * (1.0 / abs(small)))
    if d.is_real() and not d.has_phase():
        return ~SymBool.lt(bound - d) & ~SymBool.lt(bound + d)
    return ~SymBool.lt(bound - c.absolute(d))


@impl(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x = to_array(a)
    y = to_array(b)
    r = _map2(lambda p, q: _sb(_close(p, q, rtol, atol)), x, y)
    if r.ndim == 0:
        v = r[()]
        return v if isinstance(v, SymBool) else np.bool_(v)
    return wrap(r, "b")


@impl(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x = to_array(a)
    y = to_array(b)
    xx, yy = np.broadcast_arrays(x, y)
    bs = []
    for p, q in zip(xx.ravel(), yy.ravel()):
        t = _sb(_close(p, q, rtol, atol))
        if t is False or (isinstance(t, np.bool_) and not t):
            return False
        if isinstance(t, SymBool):
            bs.append(t)
    r = SymBool.conj(bs)
    return _sb(r)


@impl(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    x = to_array(a)
    y = to_array(b)
    if x.shape != y.shape:
        return False
    return _sb(SymBool.conj([p == q for p, q in zip(x.ravel(), y.ravel())]))


@impl(np.array_equiv)
def _array_equiv(a, b):
    x, y = np.broadcast_arrays(to_array(a), to_array(b))
    return _sb(SymBool.conj([p == q for p, q in zip(x.ravel(), y.ravel())]))


def _reduce_bool(a, axis, keepdims, conj):
    x = to_array(a)
    f = SymBool.conj if conj else SymBool.disj
    if axis is None:
        r = _sb(f([SymBool.lift(y) for y in x.ravel()]))
        return r if isinstance(r, SymBool) else np.bool_(r)
    ax = axis % x.ndim
    y = np.moveaxis(x, ax, -1)
    out = np.empty(y.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = _sb(f([SymBool.lift(z) for z in y[idx]]))
    if keepdims:
        out = np.expand_dims(out, ax)
    return wrap(out, "b")


@impl(np.all)
def _all(a, axis=None, out=None, keepdims=False, where=True):
    return _reduce_bool(a, axis, keepdims, True)


@impl(np.any)
def _any(a, axis=None, out=None, keepdims=False, where=True):
    return _reduce_bool(a, axis, keepdims, False)


@impl(np.nonzero)
def _nonzero(a):
    x = to_array(a)
    b = np.array([bool(SymBool.lift(y)) for y in x.ravel()], dtype=bool).reshape(x.shape)
    return np.nonzero(b)


@impl(np.flatnonzero)
def _flatnonzero(a):
    return _nonzero(SA(to_array(a)).ravel())[0]


@impl(np.count_nonzero)
def _count_nonzero(a, axis=None, keepdims=False):
    x = to_array(a)
    b = np.array([bool(SymBool.lift(y)) for y in x.ravel()], dtype=bool).reshape(x.shape)
    return np.count_nonzero(b, axis=axis)


@impl(np.argwhere)
def _argwhere(a):
    return np.transpose(_nonzero(a))


@impl(np.where)
def _where(c, x=None, y=None):
    if x is None:
        return _nonzero(c)
    cc = to_array(c)
    xx = to_array(x)
    yy = to_array(y)
    cc, xx, yy = np.broadcast_arrays(cc, xx, yy)
    out = np.empty(cc.shape, dtype=object)
    for idx in np.ndindex(*cc.shape):
        b = cc[idx]
        p, q = xx[idx], yy[idx]
        if isinstance(b, (SymBool, Sym)):
            b = SymBool.lift(b)
            if V.ctx().tol_mode == "ideal" and implies_equal(b, q, p):
                out[idx] = q
                continue
            b = bool(b)
        out[idx] = p if b else q
    return wrap(out)


@impl(np.select)
def _select(conds, choices, default=0):
    r = default
    for c, x in list(zip(conds, choices))[::-1]:
        r = _where(c, x, r)
    return r


@impl(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, **k):
    def f(x):
        if not isinstance(x, Sym):
            return np.clip(x, a_min, a_max)
        if a_min is not None and bool(x < a_min):
            return a_min
        if a_max is not None and bool(x > a_max):
            return a_max
        return x

    return wrap(_map1(f, to_array(a)))


def _red2(f):
    def g(a, axis=None, out=None, keepdims=False, initial=None, where=True):
        x = to_array(a)
        if x.dtype == object:
            x = demote(x)
        if axis is None:
            it = list(x.ravel())
            r = it[0]
            for y in it[1:]:
                r = f(r, y)
            return wrap(r) if isinstance(r, Sym) else r
        ax = axis % x.ndim
        y = np.moveaxis(x, ax, -1)
        out_ = np.empty(y.shape[:-1], dtype=object)
        for idx in np.ndindex(*out_.shape):
            r = y[idx][0]
            for z in y[idx][1:]:
                r = f(r, z)
            out_[idx] = r
        if keepdims:
            out_ = np.expand_dims(out_, ax)
        return wrap(out_)

    return g


IMPL[np.max] = IMPL[np.amax] = _red2(_max2)
IMPL[np.min] = IMPL[np.amin] = _red2(_min2)


def _arg2(better):
    def g(a, axis=None, out=None, keepdims=False):
        x = to_array(a)
        if axis is not None and x.ndim > 1:
            raise Unsupported("argmax axis")
        it = list(x.ravel())
        best = 0
        for i in range(1, len(it)):
            if better(it[i], it[best]):
                best = i
        return best

    return g


IMPL[np.argmax] = _arg2(lambda p, q: bool(p > q))
IMPL[np.argmin] = _arg2(lambda p, q: bool(p < q))


@impl(np.sort)
def _sort(a, axis=-1, **k):
    x = to_array(a)
    if x.ndim != 1:
        raise Unsupported("sort")
    return wrap(to_array(sorted(x.tolist())))


@impl(np.argsort)
def _argsort(a, axis=-1, **k):
    x = to_array(a)
    if x.ndim != 1:
        raise Unsupported("argsort")
    from .loader import _sorted

    return np.array(_sorted(range(len(x)), key=lambda i: x[i]))


@impl(np.lexsort)
def _lexsort(keys, axis=-1):
    from .loader import _sorted

    ks = [to_array(x) for x in keys]
    if any(x.ndim != 1 for x in ks):
        raise Unsupported("lexsort")
    return np.array(_sorted(range(len(ks[0])), key=lambda i: tuple(x[i] for x in reversed(ks))))


@impl(np.unique)
def _unique(*a, **k):
    raise Unsupported("unique")


@impl(np.isreal)
def _isreal(a):
    return wrap(_map1(lambda x: _sb(SymBool.eq([x.imag])) if isinstance(x, Sym) else np.isreal(x), to_array(a)), "b")


@impl(np.iscomplexobj)
def _iscomplexobj(a):
    return a.dtype.kind == "c"


@impl(np.isrealobj)
def _isrealobj(a):
    return a.dtype.kind != "c"


@impl(np.nan_to_num)
def _nan_to_num(a, **k):
    return a


@impl(np.real_if_close)
def _real_if_close(a, tol=100):
    x = to_array(a)
    if bool(SymBool.conj([_sb(SymBool.eq([y.imag])) if isinstance(y, Sym) else abs(y.imag) < 1e-12 for y in x.ravel()])):
        return wrap(_map1(_real, x))
    return wrap(x)


@impl(np.ndim)
def _ndim(a):
    return to_array(a).ndim


@impl(np.fill_diagonal)
def _fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


@impl(np.put)
def _put(*a, **k):
    raise Unsupported("put")


@impl(np.apply_along_axis)
def _aaa(*a, **k):
    raise Unsupported("apply_along_axis")


# -- linear algebra --------------------------------------------------------------


def sym_det(x):
    n = x.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return x[0, 0]
    if n == 2:
        return x[0, 0] * x[1, 1] - x[0, 1] * x[1, 0]
    r = 0.0
    for j in range(n):
        if _is_zero(x[0, j]):
            continue
        minor = np.delete(x[1:], j, axis=1)
        r = r + (-1) ** j * x[0, j] * sym_det(minor)
    return r


def _is_zero(v):
    if isinstance(v, Sym):
        return not v.t
    return v == 0


@impl(np.linalg.det)
def _det(a):
    x = _as_obj(a)
    if x.ndim > 2:
        out = np.empty(x.shape[:-2], dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = sym_det(x[idx])
        return wrap(out)
    if x.shape[0] > 6:
        raise Unsupported("det of large symbolic matrix")
    f = factor_phases(x)
    if f is not None:
        D, M, E = f
        if len(D) == M.shape[0] == M.shape[1]:
            r = complex(np.linalg.det(M))
            for d in list(D) + list(E):
                r = d * r
            return wrap(r) if isinstance(r, Sym) else r
    return wrap(sym_det(x))


@impl(np.linalg.inv)
def _inv(a):
    x = _as_obj(a)
    if x.ndim > 2:
        out = np.empty(x.shape, dtype=object)
        for idx in np.ndindex(*x.shape[:-2]):
            out[idx] = to_array(_inv(SA(x[idx])))
        return wrap(out)
    n = x.shape[0]
    f = factor_phases(x)
    if f is not None and x.shape[0] == x.shape[1] and all(V.mono_nonzero(k[0]) for d in f[0] + f[2] for k in d.t):
        D, M, E = f
        Mi = np.linalg.inv(M).astype(object)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = E[i].inverse() * D[j].inverse() * Mi[i, j]
        return wrap(out)
    if n > 4:
        raise Unsupported("inverse of large symbolic matrix")
    d = Sym.lift(sym_det(x))
    di = norm(d).inverse()
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(x, j, axis=0), i, axis=1)
            out[i, j] = (-1) ** (i + j) * sym_det(m) * di
    return wrap(out)


@impl(np.linalg.solve)
def _solve(a, b):
    ai = _inv(a)
    return call(np.matmul, (ai, b), {})


@impl(np.linalg.pinv)
def _pinv(a, **k):
    return _inv(a)


@impl(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    a = _as_obj(x)
    if ord not in (None, 2, "fro") or (ord == 2 and a.ndim > 1 and axis is None):
        raise Unsupported("norm ord")
    sq = _map1(lambda z: z * _conj(z) if isinstance(z, (Sym, complex, np.complexfloating)) else z * z, a)
    s = np.sum(sq, axis=axis, keepdims=keepdims)
    if not isinstance(s, np.ndarray):
        s = to_array(s)
    s = _map1(lambda z: z.real if isinstance(z, complex) else z, demote(s))

    def root(z):
        if isinstance(z, Sym):
            z = norm(z)
            if z.is_const():
                return math.sqrt(max(z.value().real, 0.0))
            return V.ctx().power(z, Fraction(1, 2))
        return math.sqrt(max(z.real, 0.0))

    return wrap(_map1(root, s))


@impl(np.linalg.matrix_power)
def _matrix_power(a, n):
    if n < 0:
        a = _inv(a)
        n = -n
    x = to_array(a)
    r = np.eye(x.shape[0]).astype(object)
    for _ in range(n):
        r = np.matmul(r, x.astype(object))
    return wrap(r)


@impl(np.linalg.multi_dot)
def _multi_dot(arrs, **k):
    r = arrs[0]
    for x in arrs[1:]:
        r = call(np.dot, (r, x), {})
    return r


@impl(np.linalg.matrix_rank)
def _matrix_rank(a, **k):
    f = factor_phases(_as_obj(a))
    if f is None:
        raise Unsupported("matrix_rank")
    return np.linalg.matrix_rank(f[1], **k)


def factor_phases(x):
    """x[i,j] = D[i] * M[i,j] * E[j] with monomial D, E and numeric M; None if impossible."""
    if x.ndim != 2:
        return None
    n, m = x.shape
    ent = {}
    for i in range(n):
        for j in range(m):
            v = x[i, j]
            if isinstance(v, Sym):
                v = norm(v)
                if not v.t:
                    continue
                if len(v.t) != 1:
                    # one common (monomial, phase) only
                    return None
                ((k, c),) = v.t.items()
                ent[i, j] = (k, c)
            elif v != 0:
                if abs(v) < 1e-13:
                    continue
                ent[i, j] = (V.ONE, complex(v))
    D = [None] * n
    E = [None] * m
    M = np.zeros((n, m), dtype=complex)
    adj_r = {i: [j for j in range(m) if (i, j) in ent] for i in range(n)}
    adj_c = {j: [i for i in range(n) if (i, j) in ent] for j in range(m)}

    def mk(k):
        return Sym({k: 1 + 0j})

    def inv(k):
        return (tuple((a, -e) for a, e in k[0]), V.phase_neg(k[1]))

    def mul(k1, k2):
        return (V.mono_mul(k1[0], k2[0]), V.phase_add(k1[1], k2[1]))

    for i0 in range(n):
        if D[i0] is not None:
            continue
        D[i0] = V.ONE
        stack = [("r", i0)]
        while stack:
            t, q = stack.pop()
            if t == "r":
                for j in adj_r[q]:
                    if E[j] is None:
                        E[j] = mul(ent[q, j][0], inv(D[q]))
                        stack.append(("c", j))
            else:
                for i in adj_c[q]:
                    if D[i] is None:
                        D[i] = mul(ent[i, q][0], inv(E[q]))
                        stack.append(("r", i))
    for j in range(m):
        if E[j] is None:
            E[j] = V.ONE
    for (i, j), (k, c) in ent.items():
        if mul(D[i], E[j]) != k:
            d = norm(mk(mul(D[i], E[j])) - mk(k))
            if d.t:
                return None
        M[i, j] = c
    if not np.iscomplexobj(M) or np.all(np.abs(M.imag) < 1e-15):
        M = M.real.copy()
    return [mk(k) for k in D], M, [mk(k) for k in E]


def _unimodular(ds):
    for d in ds:
        ((k, c),) = d.t.items()
        if k[0]:
            return False
    return True


@impl(np.copyto)
def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = call(np.where, (where, src, dst), {})


@impl(np.linalg.qr)
def _qr(a, mode="reduced"):
    x = _as_obj(a)
    if x.dtype != object:
        return wrap(tuple(np.linalg.qr(x, mode)))
    if x.ndim == 2 and x.shape[1] == 1:
        # a single column: Q = column / norm
        nrm = _norm(SA(x))
        q = call(np.true_divide, (SA(x), nrm), {})
        return (q, wrap(to_array([[nrm]])))
    f = factor_phases(x)
    if f is None:
        return _gram_schmidt(x)
    D, M, E = f
    if not _unimodular(D):
        return _gram_schmidt(x)
    Q, R = np.linalg.qr(M, mode)
    Qo = Q.astype(object)
    for i, d in enumerate(D):
        Qo[i, :] = _map1(lambda q: d * complex(q), Qo[i, :])
    Ro = R.astype(object)
    for j, e in enumerate(E):
        Ro[:, j] = _map1(lambda q: e * complex(q), Ro[:, j])
    V.ctx().assumptions_made.add("QR factors of a phase-scaled matrix are the phase-scaled QR factors (unique up to column phases)")
    return wrap(Qo), wrap(Ro)


def _gram_schmidt(x):
    raise Unsupported("qr of symbolic matrix")


@impl(np.linalg.svd)
def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    x = _as_obj(a)
    if x.ndim == 2 and min(x.shape) == 1 and not compute_uv:
        return wrap(to_array([_norm(SA(x))]))
    f = factor_phases(x)
    if f is None or not _unimodular(f[0]) or not _unimodular(f[2]):
        # x x^dagger may be constant although x is not
        if not compute_uv:
            xo = x.astype(object)
            xc = _map1(_conj, xo)
            g = np.matmul(xo, xc.T) if x.shape[0] <= x.shape[1] else np.matmul(xc.T, xo)
            g = demote(g)
            if g.dtype != object:
                return SA(np.sqrt(np.clip(np.linalg.eigvalsh(g)[::-1], 0, None)))
            fg = factor_phases(g)
            if fg is not None and _unimodular(fg[0]) and _unimodular(fg[2]):
                return SA(np.sqrt(np.clip(np.linalg.svd(fg[1], compute_uv=False), 0, None)))
        raise Unsupported("svd of symbolic matrix")
    D, M, E = f
    if not compute_uv:
        return SA(np.linalg.svd(M, compute_uv=False))
    U, s, Vh = np.linalg.svd(M, full_matrices=full_matrices)
    U = U.astype(object)
    Vh = Vh.astype(object)
    for i, d in enumerate(D):
        U[i, :] = _map1(lambda q: d * complex(q), U[i, :])
    for j, e in enumerate(E):
        Vh[:, j] = _map1(lambda q: e * complex(q), Vh[:, j])
    return wrap(U), SA(s), wrap(Vh)


def _eigh_parts(x):
    f = factor_phases(x)
    if f is None or not _unimodular(f[0]) or not _unimodular(f[2]):
        raise Unsupported("eigen-decomposition of symbolic matrix")
    D, M, E = f
    # Hermitian: x = D (M E D) D^-1 with M E D constant
    n = len(D)
    H = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            H[i, j] = M[i, j] * (E[j] * D[j])
    H = demote(H)
    if H.dtype == object:
        raise Unsupported("eigen-decomposition of symbolic matrix")
    return D, H


@impl(np.linalg.eigh)
def _eigh(a, UPLO="L"):
    x = _as_obj(a)
    if x.dtype != object:
        return wrap(tuple(np.linalg.eigh(x)))
    D, H = _eigh_parts(x)
    w, v = np.linalg.eigh(H)
    vo = v.astype(object)
    for i, d in enumerate(D):
        vo[i, :] = _map1(lambda q: d * complex(q), vo[i, :])
    return SA(w), wrap(vo)


@impl(np.linalg.eigvalsh)
def _eigvalsh(a, UPLO="L"):
    return _eigh(a)[0]


@impl(np.linalg.eig)
def _eig(a):
    x = _as_obj(a)
    if x.dtype != object:
        return wrap(tuple(np.linalg.eig(x)))
    c = V.ctx()
    for lams, vecs in c.eig_hints:
        # verify the hint: x v = lam v exactly
        ok = True
        for lam, v in zip(lams, vecs):
            r = np.matmul(x.astype(object), v.astype(object)) - lam * v
            for e in r.ravel():
                e = norm(Sym.lift(e))
                if e.t and max(abs(q) for q in e.t.values()) > 1e-9:
                    ok = False
                    break
            if not ok:
                break
        if ok:
            # LAPACK may return any sign: fork
            s = 1.0 if c.choose([("s+", []), ("s-", [])]) == "s+" else -1.0
            c.assumptions_made.add("eig returns the verified eigenvectors up to sign")
            cols = np.stack([to_array(v) * s for v in vecs], axis=1)
            return SA(np.array(lams, dtype=complex)), wrap(cols)
    D, H = None, None
    f = factor_phases(x)
    if f is not None:
        D, M, E = f
        n = len(D)
        H = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                H[i, j] = M[i, j] * (E[j] * D[j])
        H = demote(H)
        if H.dtype != object:
            w, v = np.linalg.eig(H)
            vo = v.astype(object)
            for i, d in enumerate(D):
                vo[i, :] = _map1(lambda q: d * complex(q), vo[i, :])
            return SA(w), wrap(vo)
    raise Unsupported("eig of symbolic matrix")


@impl(np.linalg.eigvals)
def _eigvals(a):
    return _eig(a)[0]


# -- creation ------------------------------------------------------------------------


def f_array(obj, dtype=None, copy=True, **k):
    if isinstance(obj, SA) or _contains_sa(obj) or _deep_sym(obj):
        a = to_array(obj)
        if a.dtype == object:
            a2 = demote(a)
            if a2.dtype == object:
                kind = obj_kind(a2)
                if dtype is not None and np.dtype(dtype).kind != "O":
                    kk = np.dtype(dtype).kind
                    a2 = _map1(lambda x: V.cast_store(x, kk), a2)
                    kind = kk
                else:
                    a2 = a2.copy()
                return SA(a2, kind)
            a = a2
        if dtype is not None:
            if np.dtype(dtype).kind in "fi" and a.dtype.kind == "c":
                raise TypeError("complex to real in array()")
            a = a.astype(dtype)
        else:
            a = a.copy()
        return wrap(a)
    return wrap(np.array(obj, dtype=dtype, **k))


def _contains_sa(x):
    if isinstance(x, SA):
        return True
    if isinstance(x, (list, tuple)):
        return any(_contains_sa(y) for y in x)
    return False


def f_asarray(obj, dtype=None, **k):
    if isinstance(obj, SA):
        if dtype is None or np.dtype(dtype) == obj.dtype:
            return obj
        return obj.astype(dtype)
    if isinstance(obj, np.ndarray):
        return wrap(np.asarray(obj, dtype=dtype))
    return f_array(obj, dtype)


def _mk_create(fn):
    def f(*a, **k):
        a = tuple(unwrap_index(x) for x in a)
        k = {q: unwrap_index(x) for q, x in k.items()}
        r = fn(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype.kind in "fc":
            if fn is np.empty:
                r[...] = np.nan
            return SA(r)
        return r

    return f


def unwrap_index(x):
    if isinstance(x, Sym):
        return V.ctx().concretize_int(x)
    if isinstance(x, tuple):
        return tuple(unwrap_index(y) for y in x)
    if isinstance(x, list):
        return [unwrap_index(y) for y in x]
    if isinstance(x, SA):
        return x.a
    return x


def f_like(val):
    def f(a, dtype=None, **k):
        shape = to_array(a).shape if not isinstance(a, SA) else a.shape
        if dtype is None:
            dtype = a.dtype if hasattr(a, "dtype") else to_array(a).dtype
        r = np.full(shape, val, dtype=dtype)
        return wrap(r)

    return f


def f_full(shape, fill, dtype=None, **k):
    if _deep_sym(fill):
        out = SA(np.zeros(unwrap_index(shape), dtype=dtype or complex))
        out[...] = fill
        return out
    return wrap(np.full(unwrap_index(shape), unwrap_numeric(fill), dtype=dtype))


def f_linspace(a, b, num=50, **k):
    if _deep_sym([a, b]):
        return f_array([a + (b - a) * (i / (num - 1)) for i in range(num)])
    return wrap(np.linspace(a, b, num, **k))


def f_fromiter(it, dtype=None, count=-1):
    return f_array(list(it), dtype)


def f_vectorize(pyfunc, **k):
    def g(*args):
        arrs = np.broadcast_arrays(*[to_array(x) for x in args])
        out = np.empty(arrs[0].shape, dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = pyfunc(*[out_scalar(x[idx]) for x in arrs])
        return wrap(out)

    return g


def f_einsum(*ops, **k):
    return call(np.einsum, ops, k)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SA))

    def __subclasscheck__(cls, c):
        return issubclass(c, (np.ndarray, SA))


class ndarray_shim(metaclass=_NdMeta):
    __class_getitem__ = classmethod(lambda cls, x: cls)

    def __new__(cls, shape, dtype=float, **k):
        return _mk_create(np.empty)(shape, dtype=dtype)


OVERRIDES = {
    "array": f_array,
    "asarray": f_asarray,
    "asanyarray": f_asarray,
    "ascontiguousarray": f_asarray,
    "zeros": _mk_create(np.zeros),
    "ones": _mk_create(np.ones),
    "empty": _mk_create(np.empty),
    "eye": _mk_create(np.eye),
    "identity": _mk_create(np.identity),
    "arange": _mk_create(np.arange),
    "zeros_like": f_like(0),
    "ones_like": f_like(1),
    "empty_like": f_like(0),
    "full_like": lambda a, v, dtype=None, **k: f_full(a.shape, v, dtype or a.dtype),
    "full": f_full,
    "linspace": f_linspace,
    "fromiter": f_fromiter,
    "vectorize": f_vectorize,
    "ndarray": ndarray_shim,
    "copy": lambda a, **k: f_array(a),
}


class UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        return dispatch_ufunc(self._u, "__call__", a, k)

    def reduce(self, *a, **k):
        return self._red("reduce", *a, **k)

    def accumulate(self, *a, **k):
        return self._red("accumulate", *a, **k)

    def _red(self, m, x, *a, **k):
        if a:
            k["axis"] = a[0]
        x = to_array(x) if isinstance(x, (list, tuple)) else x
        x = SA(x) if isinstance(x, np.ndarray) and x.dtype == object else x
        return dispatch_ufunc(self._u, m, (x,), k)

    def outer(self, a, b, **k):
        a = SA(to_array(a)) if isinstance(a, (list, tuple)) else a
        b = SA(to_array(b)) if isinstance(b, (list, tuple)) else b
        return dispatch_ufunc(self._u, "outer", (a, b), k)

    def at(self, a, idx, b=None):
        if isinstance(a, SA):
            if self._u is np.add or self._u is np.multiply or self._u is np.subtract:
                idx2 = np.asarray(unwrap_numeric(idx)).ravel()
                for n, i in enumerate(idx2):
                    v = b if np.ndim(unwrap_numeric(b) if not _deep_sym(b) else 0) == 0 else b[n]
                    a[i] = self._u(a[i], v)
                return None
            raise Unsupported("ufunc.at")
        return self._u.at(a, idx, unwrap_numeric(b))

    @property
    def nin(self):
        return self._u.nin


class RngProxy:
    """Concrete generator whose float arrays are handed out wrapped; or symbolic draws."""

    def __init__(self, rng):
        self._r = rng

    def __getattr__(self, n):
        f = getattr(self._r, n)
        if not callable(f):
            return f

        def g(*a, **k):
            hook = getattr(V.CTX, "rng_hook", None) if V.CTX is not None else None
            if hook is not None:
                r = hook(n, a, k)
                if r is not None:
                    return r
            return wrap(f(*a, **k))

        return g


class RandomNS(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            return getattr(np.random, n)
        f = getattr(np.random, n)
        if n in ("default_rng", "RandomState"):
            def make(*a, **k):
                if V.CTX is not None and all(x is None for x in list(a) + list(k.values())):
                    # unseeded: other draws at every call, the same ones whenever a path is run again
                    V.CTX.unseeded = getattr(V.CTX, "unseeded", 0) + 1
                    a, k = (1000003 + V.CTX.unseeded,), {}
                return RngProxy(f(*a, **k))

            return make
        if isinstance(f, type) or not callable(f):
            return f
        if V.CTX is not None and n != "seed":
            # global generator: one stream per path
            g = V.CTX.__dict__.get("global_rng")
            if g is None:
                g = V.CTX.global_rng = np.random.RandomState(1000003)
            if hasattr(g, n):
                return RngProxy(g).__getattr__(n)
        if V.CTX is not None and n == "seed":
            def seed(s=None):
                if s is not None:
                    V.CTX.global_rng = np.random.RandomState(s)

            return seed
        return lambda *a, **k: RngProxy(np.random).__getattr__(n)(*a, **k)


class Namespace(types.ModuleType):
    def __init__(self, name, real, overrides=None):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_ov"] = overrides or {}

    def __getattr__(self, n):
        ov = self.__dict__["_ov"]
        if n in ov:
            r = ov[n]
        else:
            f = getattr(self.__dict__["_real"], n)
            if isinstance(f, np.ufunc):
                r = UfuncProxy(f)
            elif isinstance(f, types.ModuleType) or isinstance(f, type) or not callable(f):
                r = f
            else:
                r = _wrap_fn(f)
        self.__dict__[n] = r
        return r


def _wrap_fn(f):
    def g(*a, **k):
        return call(f, a, k)

    g.__name__ = getattr(f, "__name__", "f")
    g._np = f
    return g


linalg_ns = Namespace("numpy.linalg", np.linalg, {"LinAlgError": np.linalg.LinAlgError})
random_ns = RandomNS("numpy.random")
np_ns = Namespace("numpy", np, dict(OVERRIDES, linalg=linalg_ns, random=random_ns))


# -- math / cmath ------------------------------------------------------------------


class MathNS(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        f = getattr(self.__dict__["_real"], n)
        if not callable(f):
            return f
        table = {
            "sqrt": np.sqrt,
            "cos": np.cos,
            "sin": np.sin,
            "tan": np.tan,
            "exp": np.exp,
            "atan2": np.arctan2,
            "floor": np.floor,
            "ceil": np.ceil,
            "fabs": np.absolute,
            "phase": np.angle,
            "acos": np.arccos,
            "hypot": np.hypot,
        }

        def g(*a, **k):
            if not any(_deep_sym(x) for x in a):
                return f(*[unwrap_numeric(x) for x in a], **k)
            if n == "isclose":
                return _isclose(a[0], a[1], k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0))
            if n in table:
                return call(table[n], a, {})
            if n == "prod":
                return call(np.prod, a, {})
            if n in ("isnan", "isinf"):
                return False
            if n in ("gcd", "lcm", "comb", "factorial", "isqrt"):
                return f(*[V.ctx().concretize_int(x) for x in a])
            raise Unsupported("math." + n)

        return g
