"""Obligations about symbolic representations (D_i = phase_i * M_i with numeric M_i where possible, else entry by entry)."""

from __future__ import annotations

import numpy as np

from . import values as V
from .arrays import SA, strip
from .oracle import table
from .values import Sym, norm, phase_add, phase_neg

TOL = 1e-6


def raw(x):
    """ndarray (object or numeric) of an SA / ndarray / list."""
    if isinstance(x, SA):
        return x.a
    x = strip(x)
    return np.asarray(x) if not isinstance(x, np.ndarray) else x


def kvec(ctx, prefix="k"):
    """Arbitrary real k: kappa in [0,1] plus an arbitrary integer, per component."""
    inp = {}
    k = []
    for i in range(3):
        a = ctx.real(f"{prefix}{i}", 0, 1)
        n = ctx.integer(f"{prefix}n{i}")
        inp[f"{prefix}{i}"] = a
        inp[f"{prefix}n{i}"] = n
        k.append(a + n)
    return inp, k


def kval(vals, prefix="k"):
    return np.array([vals[f"{prefix}{i}"] + vals[f"{prefix}n{i}"] for i in range(3)], dtype=float)


def phase(expr):
    """exp(2 pi i expr) for a real Sym/number."""
    ctx = V.CTX
    if not isinstance(expr, Sym):
        return V.cexp(V.snap(float(expr))) if abs(V.snap(float(expr)) - float(expr)) < 1e-9 else np.exp(2j * np.pi * float(expr))
    return ctx.exp(expr * (2j * np.pi)) if not expr.is_const() else phase(expr.value().real)


def split(rep):
    """[(phase key, numeric matrix)] per operation, or None when some matrix is not (phase x numbers)."""
    rep = raw(rep)
    n = rep.shape[0]
    out = []
    if rep.dtype != object:
        return [((), np.asarray(rep[i], dtype=complex)) for i in range(n)]
    for i in range(n):
        key = None
        M = np.zeros(rep[i].shape, dtype=complex)
        for idx, v in np.ndenumerate(rep[i]):
            if isinstance(v, Sym):
                v = norm(v)
                if not v.t:
                    continue
                if len(v.t) != 1:
                    return None
                (((m, p), c),) = v.t.items()
                if m:
                    return None
            else:
                c, p = complex(v), ()
                if abs(c) < 1e-12:
                    continue
            if key is None:
                key = p
            elif key != p:
                return None
            M[idx] = c
        out.append((key if key is not None else (), M))
    return out


_ph_cache = {}


def key_sym(p):
    return Sym({((), p): 1 + 0j})


def dag(x):
    x = raw(x)
    y = np.empty(x.T.shape, dtype=object)
    for idx, v in np.ndenumerate(x.T):
        y[idx] = v.conjugate()
    return y


def matmul(a, b):
    return np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))


def k_dot(k, T):
    e = 0
    for a in range(3):
        if isinstance(T[a], Sym) or T[a] != 0:
            t = T[a] if isinstance(T[a], Sym) else float(V.snap(float(T[a]), 1e-7))
            e = e + k[a] * t
    return e


def lattice_factor(ctx, obl, rots, trans, k, idx, trs=None, rows=None):
    """u[i][j] = exp(-2 pi i k.T_ij) with T_ij = R_i t_j + t_i - t_l (Syms or numbers)."""
    n = len(rots)
    trans = raw(trans)
    cache = {}
    out = [[None] * n for _ in range(n)]
    numeric = trans.dtype != object
    for i in rows if rows is not None else range(n):
        for j in range(n):
            if numeric:
                T = rots[i] @ trans[j] + trans[i] - trans[idx[i, j]]
                Ti = np.rint(T)
                if np.abs(T - Ti).max() > 1e-5:
                    obl.true("operations close modulo lattice translations", False)
                    Ti = T
                key = tuple(np.round(Ti, 9))
            else:
                T = [norm(Sym.lift(sum(float(rots[i][a, b]) * trans[j][b] for b in range(3)) + trans[i][a] - trans[idx[i, j]][a])) for a in range(3)]
                T = [x.simp() for x in T]
                if any(isinstance(x, Sym) for x in T):
                    obl.true("operations close modulo lattice translations", False)
                Ti = [complex(x).real for x in T]
                key = tuple(np.round(Ti, 9))
            u = cache.get(key)
            if u is None:
                e = k_dot(k, [-x for x in Ti])
                u = phase(e)
                cache[key] = u
            out[i][j] = u
    return out


def rep_obligations(ctx, obl, reps, rots, trans, k, om=None, trs=None, tag="", complete=True, unit=True, idx=None, fold=1, rows=None):
    """Unitarity, multiplication law, completeness and irreducibility of a list of representations.

    idx: table of products when it is not decided by the rotations alone; fold: number of centring translations;
    rows: generating set of left factors (the law for all pairs follows by induction on words)."""
    rots = np.asarray(rots)
    n = len(rots)
    if idx is None:
        idx = table(rots, trs)
    if idx is None:
        obl.true(tag + "operations form a group", False)
        return
    for r in reps:
        if raw(r).shape[0] != n:
            obl.true(tag + "one matrix per operation", False)
            return
    u = lattice_factor(ctx, obl, rots, trans, k, idx, trs, rows)
    rows = list(range(n)) if rows is None else list(rows)
    a = np.zeros(n, dtype=int) if trs is None else np.asarray(trs).astype(int)
    zom = None if om is None else raw(om)
    if zom is not None and zom.shape != (n, n):
        obl.true(tag + "factor system has one entry per pair", False)
        return
    sp = []
    pcache = {}
    for q, rep in enumerate(reps):
        s = split(rep)
        sp.append(s)
        if s is None:
            direct_law(ctx, obl, raw(rep), idx, u, zom, a, tag + f"irrep {q}: ", unit, rows)
            continue
        M = np.array([x[1] for x in s])
        d = M.shape[-1]
        if unit:
            e = np.abs(np.matmul(M, np.conj(np.swapaxes(M, -1, -2))) - np.eye(d)).max()
            obl.true(tag + f"irrep {q} is unitary", e < TOL)
        keys = tuple(x[0] for x in s)
        res = pcache.get(keys)
        if res is None:
            ps = [key_sym(p) if p else None for p in keys]
            pc = [key_sym(phase_neg(p)) if p else None for p in keys]
            res = {}
            seen = {}
            for i in rows:
                for j in range(n):
                    l = idx[i, j]
                    sig = (keys[i], keys[j], keys[l], a[i], id(u[i][j]))
                    v = seen.get(sig)
                    if v is None:
                        v = 1
                        for f in (ps[i], (pc[j] if a[i] else ps[j]), pc[l]):
                            if f is not None:
                                v = f * v
                        uu = u[i][j]
                        uc = uu.conjugate() if isinstance(uu, Sym) else complex(uu).conjugate()
                        v = v * uc
                        if isinstance(v, Sym):
                            v = norm(v).simp()
                        seen[sig] = v
                    res[i, j] = v
            pcache[keys] = res
        done = set()
        for i in rows:
            B = M.conj() if a[i] else M
            lhs = np.matmul(M[i][None], B)
            tgt = M[idx[i]]
            c = np.einsum("kab,kab->k", tgt.conj(), lhs) / np.maximum(np.einsum("kab,kab->k", tgt.conj(), tgt).real, 1e-12)
            e = np.abs(lhs - c[:, None, None] * tgt).max()
            if not e < TOL:
                obl.true(tag + f"irrep {q}: products are multiples of the matrix of the product", False)
                continue
            for j in range(n):
                v = res[i, j]
                z = 1 if zom is None else zom[i, j]
                if isinstance(z, Sym):
                    z = norm(z)
                    sig = None
                else:
                    z = complex(z)
                    sig = (id(v) if isinstance(v, Sym) else complex(v), round(c[j].real, 7), round(c[j].imag, 7), round(z.real, 7), round(z.imag, 7))
                if sig is not None and sig in done:
                    obl.count += 1
                    continue
                done.add(sig)
                obl.zero(tag + f"irrep {q}: product law", complex(c[j]) * v - z)
    if complete:
        complete_obligations(ctx, obl, reps, sp, n, tag, fold)


def direct_law(ctx, obl, rep, idx, u, zom, a, tag, unit=True, rows=None):
    n, d = rep.shape[0], rep.shape[-1]
    rep = rep.astype(object)
    eye = np.eye(d)
    if unit:
        for i in range(n):
            x = matmul(rep[i], dag(rep[i]))
            for p, v in np.ndenumerate(x):
                obl.zero(tag + "unitary", v - eye[p])
    rows = list(range(n)) if rows is None else rows
    if len(rows) * n * d**3 > 120000:
        rows = generators(idx)
    pairs = [(i, j) for i in rows for j in range(n)]
    for i, j in pairs:
        b = rep[j]
        if a[i]:
            b = dag(rep[j].T)
        lhs = matmul(rep[i], b)
        z = 1 if zom is None else zom[i, j]
        z = z * u[i][j]
        for p, v in np.ndenumerate(lhs):
            obl.zero(tag + "product law", v - z * rep[idx[i, j]][p])


def generators(idx):
    """Small generating set of a group given by its table (the law for generators on the left implies it for all pairs)."""
    n = len(idx)
    got, gens = set(), []
    # prefer elements of high order first: few generators
    order = []
    for i in range(n):
        x, o = i, 1
        while x != idx[x, i] and o <= n:
            x, o = idx[x, i], o + 1
            if idx[x, x] == x:
                break
        order.append(o)
    for i in sorted(range(n), key=lambda i: -order[i]):
        if i in got and n > 1:
            continue
        gens.append(i)
        todo = list(gens) + list(got)
        got |= set(gens)
        while todo:
            x = todo.pop()
            for g in gens:
                for y in (idx[x, g], idx[g, x]):
                    if y not in got:
                        got.add(y)
                        todo.append(y)
        if len(got) == n:
            break
    return gens


def trace(m):
    t = 0
    for i in range(m.shape[0]):
        t = t + m[i, i]
    return t


def characters(rep):
    rep = raw(rep)
    return [trace(rep[i]) for i in range(rep.shape[0])]


def inner(c1, c2):
    """sum conj(c1) c2"""
    t = 0
    for x, y in zip(c1, c2):
        t = t + x.conjugate() * y
    return t


def complete_obligations(ctx, obl, reps, sp, n, tag, fold=1):
    s = sum(raw(r).shape[-1] ** 2 for r in reps)
    obl.true(tag + "squared dimensions sum to the order", s * fold == n)
    ch = []
    for r, x in zip(reps, sp):
        if x is None:
            ch.append((None, characters(r)))
        else:
            ch.append((tuple(p for p, _ in x), np.array([np.trace(M) for _, M in x])))
    for i in range(len(ch)):
        for j in range(i, len(ch)):
            want = n if i == j else 0
            ki, ci = ch[i]
            kj, cj = ch[j]
            if ki is not None and ki == kj:
                v = np.vdot(ci, cj)
                obl.true(tag + "characters orthonormal", abs(v - want) < 1e-5 * max(1, n))
            else:
                a = _chs(ki, ci)
                b = _chs(kj, cj)
                obl.zero(tag + "characters orthonormal", inner(a, b) - want, tol=1e-5 * n)


def _chs(keys, c):
    if keys is None:
        return [norm(x) if isinstance(x, Sym) else complex(x) for x in c]
    return [complex(x) * key_sym(p) if p else complex(x) for p, x in zip(keys, c)]


def little_formula(ctx, R, k, s=1):
    """z3 formula: s R^T k - k is an integer vector (conjunction), as Syms residual list."""
    return [norm(Sym.lift(sum(s * float(R[b, a]) * k[b] for b in range(3)) - k[a])) for a in range(3)]


def integer_part_removed(ctx, e):
    """e minus an obviously integer part (integer multiples of integer unknowns, integer constant)."""
    out = {}
    for (m, p), c in e.t.items():
        if p or abs(c.imag) > 1e-12:
            return e
        if not m:
            c = complex(c.real - round(c.real))
            if abs(c) < 1e-9:
                continue
        elif V.mono_is_int(m) and abs(c.real - round(c.real)) < 1e-9:
            continue
        out[m, p] = c
    return Sym(out)


def is_integer_vector(ctx, es):
    """z3 formula: every entry is an integer."""
    import z3

    fs = []
    seen = set()
    for e in es:
        e = integer_part_removed(ctx, norm(e)) if isinstance(e, Sym) else e
        if not isinstance(e, Sym) or e.is_const():
            v = e.value().real if isinstance(e, Sym) else float(e)
            if abs(v - round(v)) > 1e-8:
                return z3.BoolVal(False)
            continue
        key = tuple(sorted((k, round(c.real, 9)) for k, c in e.t.items()))
        nkey = tuple(sorted((k, -round(c.real, 9)) for k, c in e.t.items()))
        if key in seen or nkey in seen:
            continue
        seen.add(key)
        ctx.fresh = getattr(ctx, "fresh", 0) + 1
        m = z3.Int(f"iv_{ctx.fresh}")
        fs.append((ctx.zreal(e), m, key))
    if not fs:
        return z3.BoolVal(True)
    f = z3.And(*[z == z3.ToReal(m) for z, m, _ in fs])
    # the existential integers may be left free: the formula is used positively, and negated through not_integer_vector
    f.forms = [(z, m) for z, m, _ in fs]
    f.key = tuple(sorted(k for _, _, k in fs))
    return f


def not_integer_vector(ctx, f):
    import z3

    return z3.Or(*[z3.And(z != z3.ToReal(m), 2 * (z - z3.ToReal(m)) <= 1, 2 * (z - z3.ToReal(m)) >= -1) for z, m in f.forms])


def little_obligations(ctx, obl, rots, k, mapping, trs=None, tag=""):
    """Reported indices are increasing and are exactly the operations fixing k modulo integers."""
    import z3

    mp = [int(x) for x in raw(mapping)]
    obl.true(tag + "indices increasing", all(a < b for a, b in zip(mp, mp[1:])))
    obl.true(tag + "indices in range", all(0 <= a < len(rots) for a in mp))
    ins = set(mp)
    done = set()
    for i, R in enumerate(np.asarray(rots)):
        s = -1 if trs is not None and int(trs[i]) == 1 else 1
        es = little_formula(ctx, R, k, s)
        f = is_integer_vector(ctx, es)
        key = getattr(f, "key", None)
        if key is not None and (key, i in ins) in done:
            obl.count += 1
            continue
        done.add((key, i in ins))
        if i in ins:
            if z3.is_true(f):
                obl.count += 1
                obl.trivial += 1
            else:
                obl.never(tag + f"operation {i} reported although it does not fix k", not_integer_vector(ctx, f) if not z3.is_false(f) else z3.BoolVal(True))
        else:
            if z3.is_false(f):
                obl.count += 1
                obl.trivial += 1
            else:
                obl.never(tag + f"operation {i} fixes k but is missing", f)


def same_up_to_equivalence(ctx, obl, reps1, reps2, n, tag="", what="irreps", norms=False):
    """Two lists of irreps of one group of order n are the same up to order and equivalence (by characters)."""
    obl.true(tag + f"equally many {what}", len(reps1) == len(reps2))
    if len(reps1) != len(reps2):
        return

    def chars(reps):
        out = []
        for r in reps:
            s = split(r)
            out.append(_chs(None, characters(r)) if s is None else _chs(tuple(p for p, _ in s), [np.trace(M) for _, M in s]))
        return out

    c1, c2 = chars(reps1), chars(reps2)
    used = set()
    for i, a in enumerate(c1):
        if norms:  # representations that need not be irreducible, but share no constituent within each list
            v = norm(Sym.lift(inner(a, a)))
            if not v.is_const():
                raise V.Unsupported('norm of a character')
            n = v.value().real
        cand = []
        hit = None
        for j, b in enumerate(c2):
            if j in used:
                continue
            v = inner(a, b)
            if isinstance(v, Sym):
                v = norm(v)
                if not v.is_const():
                    v = norm(Sym.lift(ctx.refine_const(v)))
                v = v.value() if v.is_const() else v
            if isinstance(v, Sym):
                cand.append((j, v))
            elif abs(v - n) < 1e-5 * n:
                hit = j
                break
        if hit is None and cand:
            j, v = cand[0]
            obl.zero(tag + f"{what}: characters agree", v - n, tol=1e-5 * n)
            used.add(j)
        elif hit is None:
            obl.true(tag + f"{what} {i} has an equivalent partner", False)
            return
        else:
            used.add(hit)
            obl.true(tag + f"{what} {i} has an equivalent partner", True)
