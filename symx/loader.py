"""Load the spgrep sources for symbolic execution."""

from __future__ import annotations

import ast
import builtins
import os
import sys
import types

import numpy as np

from . import arrays, values
from .arrays import MathNS, SA, Sym, np_ns, unwrap_numeric, wrap
from .values import Unsupported

SRC = os.environ.get("SPGREP_SRC", "/repo/src")


class SpglibNS(types.ModuleType):
    """spglib is a C library: its calls get concrete data; floats that are small fractions are made exact."""

    def __getattr__(self, n):
        import spglib

        f = getattr(spglib, n)
        if isinstance(f, type) or not callable(f):
            return f

        def g(*a, **k):
            if any(arrays._deep_sym(x) for x in a) or any(arrays._deep_sym(x) for x in k.values()):
                raise Unsupported("symbolic argument of spglib." + n)
            a = [_num_deep(x) for x in a]
            k = {q: _num_deep(x) for q, x in k.items()}
            return _exact(f(*a, **k))

        return g


def _num_deep(x):
    if isinstance(x, SA):
        return x.a
    if isinstance(x, tuple):
        return tuple(_num_deep(y) for y in x)
    if isinstance(x, list):
        return [_num_deep(y) for y in x]
    return x


def snap_array(a, tol=1e-6):
    """Round floats that are within tol of a fraction with small denominator."""
    a = np.array(a, dtype=float)
    out = a.copy()
    done = np.zeros(a.shape, dtype=bool)
    for d in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 18, 20, 24, 48, 100, 200, 240, 720):
        r = np.round(a * d) / d
        m = (~done) & (np.abs(r - a) < tol / max(1, d / 24))
        out[m] = r[m]
        done |= m
    return out


class DictProxy:
    """spglib dataset: attribute and item access with wrapped arrays."""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        v = self._d[k]
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            if k in ("translations", "transformation_matrix", "origin_shift"):
                return SA(snap_array(v))
            return SA(v.copy())
        return v

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        try:
            return self[k]
        except Exception:
            v = getattr(self._d, k)
            return SA(snap_array(v)) if isinstance(v, np.ndarray) and v.dtype.kind == "f" else v

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def keys(self):
        return self._d.keys()

    def __contains__(self, k):
        return k in self._d


def _exact(r):
    if r is None:
        return None
    if isinstance(r, dict) or (hasattr(r, "__getitem__") and hasattr(r, "keys")):
        return DictProxy(r)
    if isinstance(r, np.ndarray):
        return SA(snap_array(r)) if r.dtype.kind == "f" else r
    if isinstance(r, tuple) and not hasattr(r, "_fields"):
        return tuple(_exact(x) for x in r)
    if isinstance(r, list):
        return [_exact(x) for x in r]
    return r


def _sample_key(k):
    """Sort key with every symbolic complex number replaced by its value at a sample point (Python orders complex keys of numpy lexicographically)."""
    if isinstance(k, tuple):
        return tuple(_sample_key(x) for x in k)
    if isinstance(k, Sym):
        z = values.sample(values.norm(k))
        return (round(z.real, 9), round(z.imag, 9))
    if isinstance(k, (complex, np.complexfloating)):
        return (round(k.real, 9), round(k.imag, 9))
    return k


def _sorted(it, key=None, reverse=False):
    ctx = values.CTX
    if ctx is None or ctx.opts.get("complex_order") != "any" or key is None:
        return builtins.sorted(it, key=key, reverse=reverse)
    items = list(it)
    keys = [key(x) for x in items]
    if any(isinstance(y, Sym) and y.has_phase() for k in keys for y in (k if isinstance(k, tuple) else (k,))):
        ctx.assumptions_made.add("the order in which results are listed is immaterial (complex sort keys compared at a sample point)")
        def lift(k):
            return tuple((float(y), 0.0) if isinstance(y, (int, float, np.floating, np.integer)) else y for y in k) if isinstance(k, tuple) else k
        keys = [lift(_sample_key(k)) for k in keys]
    return [items[i] for i in builtins.sorted(range(len(items)), key=lambda i: keys[i], reverse=reverse)]


def _merge(test, pair):
    """Truth value of a branch condition; False if the branch only stores a value which the condition says is there already."""
    if isinstance(test, SA) and test.a.shape == () and test.sym:
        test = test.a[()]
    if not builtins.isinstance(test, values.SymBool) or values.CTX is None or values.CTX.tol_mode != "ideal":
        return test
    try:
        cur, val = pair()
    except (NameError, IndexError, KeyError, AttributeError):
        return test
    cur, val = arrays.strip(cur), arrays.strip(val)
    for x in (cur, val):
        if not builtins.isinstance(x, (Sym, int, float, complex, np.number)):
            return test
    return False if arrays.implies_equal(test, cur, val) else test


class Merge(ast.NodeTransformer):
    """`if C: x = v` (also followed by break or continue), `return v if C` before a final `return x`, and `v if C else x` with plain v and x."""

    def __init__(self):
        self.final = [None]

    @staticmethod
    def plain(e):
        return builtins.all(
            builtins.isinstance(n, (ast.Name, ast.Constant, ast.Subscript, ast.Attribute, ast.Tuple, ast.UnaryOp, ast.USub, ast.expr_context, ast.Slice)) for n in ast.walk(e)
        )

    def wrap(self, test, cur, val):
        import copy

        cur = copy.deepcopy(cur)
        for n in ast.walk(cur):
            if hasattr(n, "ctx"):
                n.ctx = ast.Load()
        fn = ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Tuple([cur, copy.deepcopy(val)], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name("_symx_merge", ast.Load()), [test, fn], []), test)

    def visit_FunctionDef(self, node):
        last = node.body[-1]
        self.final.append(last.value if builtins.isinstance(last, ast.Return) and last.value is not None and self.plain(last.value) else None)
        self.generic_visit(node)
        self.final.pop()
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        body = node.body
        if node.orelse or len(body) > 2 or len(body) == 2 and not builtins.isinstance(body[1], (ast.Break, ast.Continue)):
            return node
        a = body[0]
        if builtins.isinstance(a, ast.Assign) and len(a.targets) == 1 and self.plain(a.targets[0]) and self.plain(a.value) and builtins.isinstance(a.targets[0], (ast.Name, ast.Subscript)):
            node.test = self.wrap(node.test, a.targets[0], a.value)
        elif builtins.isinstance(a, ast.Return) and a.value is not None and self.plain(a.value) and self.final[-1] is not None:
            node.test = self.wrap(node.test, self.final[-1], a.value)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.plain(node.body) and self.plain(node.orelse):
            node.test = self.wrap(node.test, node.orelse, node.body)
        return node


class Loader:
    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}
        self.spglib = SpglibNS("spglib")
        import cmath
        import math

        self.repl = {
            "numpy": np_ns,
            "numpy.linalg": arrays.linalg_ns,
            "numpy.random": arrays.random_ns,
            "math": MathNS(math),
            "cmath": MathNS(cmath),
            "spglib": self.spglib,
        }
        self.funcs_executed = set()

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.src, *name.split("."))
        if os.path.isdir(path):
            file = os.path.join(path, "__init__.py")
            pkg = True
        else:
            file = path + ".py"
            pkg = False
        with open(file) as f:
            text = f.read()
        m = types.ModuleType(name)
        m.__file__ = file
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [path]
        b = types.ModuleType("builtins")
        b.__dict__.update(builtins.__dict__)
        b.__import__ = self._import
        b.sorted = _sorted
        b.isinstance = _isinstance
        b.sum = _sum
        b.round = _round
        b.abs = abs
        b.complex = _complex
        b.float = _float
        m.__dict__["__builtins__"] = b.__dict__
        self.mods[name] = m
        m.__dict__["_symx_merge"] = _merge
        tree = ast.fix_missing_locations(Merge().visit(ast.parse(text, file)))
        code = compile(tree, file, "exec", dont_inherit=True)
        exec(code, m.__dict__)
        parent, _, leaf = name.rpartition(".")
        if parent and parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name == "spgrep" or name.startswith("spgrep."):
            if name.endswith("_version"):
                return builtins.__import__(name, globals, locals, fromlist, 0)
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and hasattr(m, "__path__"):
                        sub = os.path.join(m.__path__[0], f)
                        if os.path.exists(sub + ".py") or os.path.isdir(sub):
                            setattr(m, f, self.load(name + "." + f))
                return m
            top = self.load("spgrep")
            return top
        if name in self.repl:
            m = self.repl[name]
            if not fromlist and "." in name:
                return self.repl[name.split(".")[0]]
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)


def _isinstance(x, t):
    if builtins.isinstance(x, Sym):
        ts = t if builtins.isinstance(t, tuple) else (t,)
        for q in ts:
            if q in (float, np.floating, np.float64) and x.is_real():
                return True
            if q in (complex, np.complexfloating, np.complex128) and not x.is_real():
                return True
    return builtins.isinstance(x, t)


def _scalar(x):
    x = x.a.item() if builtins.isinstance(x, SA) else x
    return x.simp() if builtins.isinstance(x, Sym) else x


class _NumberType(type):
    """float and complex of the loaded modules: unknowns pass through; otherwise the builtin types."""

    def __instancecheck__(cls, x):
        return _isinstance(x, cls.__base__)

    def __subclasscheck__(cls, t):
        return issubclass(t, cls.__base__)

    def __eq__(cls, o):
        return o is cls or o is cls.__base__

    def __hash__(cls):
        return hash(cls.__base__)

    def __call__(cls, *a, **k):
        if not k and builtins.any(builtins.isinstance(x, Sym) or builtins.isinstance(x, SA) and x.sym for x in a):
            a = [_scalar(x) for x in a]
            if cls.__base__ is builtins.float:
                if builtins.isinstance(a[0], Sym) and not a[0].is_real():
                    raise Unsupported("float() of symbolic value")
                return a[0]
            return a[0] if len(a) == 1 else a[0] + 1j * a[1]
        return cls.__base__(*a, **k)


class _float(builtins.float, metaclass=_NumberType):
    dtype = np.dtype(builtins.float)


class _complex(builtins.complex, metaclass=_NumberType):
    dtype = np.dtype(builtins.complex)


def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _round(x, n=None):
    if builtins.isinstance(x, (SA, Sym)):
        return x.__round__(n) if n is not None else x.__round__()
    return builtins.round(x) if n is None else builtins.round(x, n)


_LOADER = None


def symbolic_spgrep():
    """Fresh symbolic copy of the package (sources read now)."""
    global _LOADER
    if _LOADER is None:
        _LOADER = Loader()
        for n in ("group", "irreps", "core", "corep", "spinor", "representation", "tensor", "transform", "utils", "pointgroup"):
            _LOADER.load("spgrep." + n)
    return _LOADER


def real_spgrep(name):
    """Plain package module with real numpy."""
    import importlib

    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    return importlib.import_module("spgrep." + name)
