"""Crystal structures in cells other than the database's, and the obligations for results reported in them."""

from __future__ import annotations

import functools

from checks import c06
from checks.common import *

SHIFT = np.array([0.125, 0.25, 0.375])
SHEAR = {
    # new basis vectors as columns, in the database cell (volume unchanged)
    "perm": np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]),
    "shear": np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]) @ np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]]),
    "flip": np.array([[0, -1, 0], [-1, 0, 0], [0, 0, -1]]),
    "double": np.diag([2, 1, 1]),
}
RECIP = {"": np.eye(3), "shear": np.array([[1, 1, 0], [0, 1, 0], [0, 1, -1.0]]), "half": np.array([[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1.0]])}


def base_lattice(rots):
    return G.lattice_for(rots) * 5


@functools.lru_cache(maxsize=None)
def structure(hall, mode, magnetic=0):
    """(lattice rows, positions, numbers, magnetic moments, basis of the crystal's lattice in the given cell)."""
    if magnetic:
        from spglib import get_magnetic_symmetry_from_database

        d = get_magnetic_symmetry_from_database(magnetic)
        r, t, s = np.array(d["rotations"]), G.frac(d["translations"]), np.array(d["time_reversals"]).astype(int)
        P = G.reduce_primitive(r, t, s)[0]
    else:
        r, t = G.conventional(hall)
        s = np.zeros(len(r), dtype=int)
        P = G.primitive(hall)[0]
    lat = base_lattice(r)
    rng = np.random.default_rng(hall + 7 * magnetic)
    pos, num, mag = [], [], []
    for z in range(2):
        x0 = rng.random(3)
        d = {}
        for R, T, a in zip(r, t, s):
            d.setdefault(tuple(np.round((R @ x0 + T) % 1, 9) % 1), []).append(-1.0 if a else 1.0)
        for x, m in d.items():
            pos.append(x)
            num.append(z + 1)
            mag.append(float(np.mean(m)))
    pos, num, mag = np.array(pos), np.array(num), np.array(mag)
    if mode == "shift":
        pos = (pos + SHIFT) % 1
    B = np.eye(3)
    if mode == "prim":
        B = np.asarray(P, dtype=float)
    elif mode in SHEAR:
        B = SHEAR[mode].astype(float)
    if mode != "shift" and mode != "conv":
        lat = B.T @ lat
        Bi = np.linalg.inv(B)
        if mode == "double":
            pos = np.concatenate([pos, pos + [1, 0, 0]])
            num, mag = np.tile(num, 2), np.tile(mag, 2)
        pp = (pos @ Bi.T) % 1
        pp = np.where(np.abs(pp - 1) < 1e-9, 0.0, pp)
        keep = []
        seen = set()
        for i in range(len(pp)):
            # values on a cell boundary may differ by rounding: compare a coarse, shifted key
            key = (int(num[i]),) + tuple(np.round((pp[i] + 0.01234) % 1, 5))
            if key not in seen:
                seen.add(key)
                keep.append(i)
        pos, num, mag = pp[keep], num[keep], mag[keep]
    return lat, pos, num, mag, np.linalg.inv(B) @ np.asarray(P, dtype=float)


def from_primitive(P, M, kp):
    """(k in the dual basis of the cell, k in the user's reciprocal basis) from coordinates in the primitive reciprocal basis."""
    A = np.linalg.inv(P.T)
    B = np.linalg.inv(M.T) @ A

    def lin(X):
        return [V.norm(V.Sym.lift(sum(V.snap(float(X[a, b])) * kp[b] for b in range(3)))).simp() for a in range(3)]

    return lin(A), lin(B)


def products(rots, trans, trs=None):
    """Table of products of operations modulo the translations of the given cell; None when not closed."""
    n = len(rots)
    rots = np.asarray(rots).astype(int)
    trs = np.zeros(n, dtype=int) if trs is None else np.asarray(trs).astype(int)

    def key(R, t, a):
        return R.astype(np.int64).tobytes() + bytes([int(a)]), t

    by = {}
    for i in range(n):
        by.setdefault((rots[i].astype(np.int64).tobytes(), int(trs[i])), []).append(i)
    idx = np.full((n, n), -1)
    for i in range(n):
        W = trans @ rots[i].T + trans[i]
        for j in range(n):
            for l in by.get(((rots[i] @ rots[j]).astype(np.int64).tobytes(), int(trs[i] ^ trs[j])), ()):
                d = W[j] - trans[l]
                if np.abs(d - np.rint(d)).max() < 1e-4:
                    idx[i, j] = l
                    break
            if idx[i, j] < 0:
                return None
    return idx


def in_primitive(rots, P):
    Pi = np.linalg.inv(P)
    r = np.array([Pi @ R @ P for R in rots])
    return np.rint(r).astype(int), np.abs(r - np.rint(r)).max()


def obligations(ctx, obl, P, rots, trans, k, mp, reps, om=None, trs=None, expected=None, complete=True):
    """Little group, law, completeness of a result reported in the user's cell (P: basis of the crystal's lattice)."""
    rots, trans = np.asarray(laws.raw(rots)), np.asarray(laws.raw(trans), dtype=float)
    if trs is not None:
        trs = np.asarray(laws.raw(trs)).astype(int)
    cell = int(round(1 / abs(np.linalg.det(P))))
    rp, e = in_primitive(rots, P)
    obl.true("reported rotations are symmetries of the lattice", e < 1e-5)
    if expected is not None:
        obl.true("reported operations are the symmetry of the crystal", same_ops((rots, trans, trs), expected))
    kp = [V.norm(V.Sym.lift(sum(float(P[b, a]) * k[b] for b in range(3)))).simp() for a in range(3)]
    laws.little_obligations(ctx, obl, rp, kp, mp, trs)
    mp = [int(x) for x in laws.raw(mp)]
    lr, lt = rots[mp], G.frac(trans[mp])
    la = None if trs is None else trs[mp]
    idx = products(lr, lt, la)
    if idx is None:
        obl.true("reported operations form a group", False)
        return
    rows = laws.generators(idx) if len(mp) > 24 else None
    laws.rep_obligations(ctx, obl, reps, lr, lt, k, om=om, trs=la, idx=idx, fold=cell, rows=rows, complete=complete)


def same_ops(a, b):
    (r1, t1, s1), (r2, t2, s2) = a, b
    r1, t1, r2, t2 = np.asarray(r1), np.asarray(t1, dtype=float), np.asarray(r2), np.asarray(t2, dtype=float)
    if len(r1) != len(r2) or len(t1) != len(r1):
        return False
    s1 = np.zeros(len(r1)) if s1 is None else np.asarray(s1).astype(int)
    s2 = np.zeros(len(r2)) if s2 is None else np.asarray(s2).astype(int)
    used = set()
    for R, t, a in zip(r1, t1, s1):
        hit = [j for j in range(len(r2)) if j not in used and (r2[j] == R).all() and s2[j] == a and np.abs((t2[j] - t) - np.rint(t2[j] - t)).max() < 1e-4]
        if not hit:
            return False
        used.add(hit[0])
    return True


def judge(P, rots, trans, k, mp, reps, om=None, trs=None, expected=None, complete=True):
    """None | message, everything numeric; 'ambiguous' when k sits next to a symmetry condition."""
    rp, e = in_primitive(rots, P)
    if not e < 1e-5:
        return "reported rotations are not symmetries of the lattice"
    if expected is not None and not same_ops((rots, trans, trs), expected):
        return "reported operations are not the symmetry of the crystal"
    want = oracle.little(rp, P.T @ k, trs)
    if isinstance(want, str):
        return "ambiguous"
    if list(map(int, mp)) != list(want):
        return f"operations {list(map(int, mp))[:12]}.. reported, {list(want)[:12]}.. fix k"
    n = len(mp)
    lr, lt = np.asarray(rots)[mp], np.asarray(trans, dtype=float)[mp]
    la = None if trs is None else np.asarray(trs).astype(int)[mp]
    idx = products(lr, lt, la)
    if idx is None:
        return "reported operations do not form a group"
    T = np.einsum("iab,jb->ija", lr, lt) + lt[:, None, :] - lt[idx]
    ph = np.exp(-2j * np.pi * (np.rint(T) @ k))
    if om is not None:
        om = np.asarray(om)
        if om.shape != (n, n):
            return "shape of the sign table"
        ph = ph * om
    for q, D in enumerate(reps):
        D = np.asarray(D)
        if D.shape[0] != n:
            return f"irrep {q}: {D.shape[0]} matrices for {n} operations"
        if not np.all(np.isfinite(D)):
            return f"irrep {q} not finite"
        e = oracle.unitary(D)
        if not e < 1e-4:
            return f"irrep {q} not unitary ({e:.3g})"
        for i in range(n):
            B = D.conj() if la is not None and la[i] else D
            e = np.abs(np.matmul(D[i][None], B) - ph[i][:, None, None] * D[idx[i]]).max()
            if not e < 1e-4:
                return f"irrep {q} breaks the multiplication law ({e:.3g})"
    if complete:
        cell = int(round(1 / abs(np.linalg.det(P))))
        s = sum(np.asarray(D).shape[1] ** 2 for D in reps)
        if s * cell != n:
            return f"sum of squared dimensions {s} is not the order {n / cell:g} of the little co-group"
        ch = np.array([np.einsum("kii->k", D) for D in reps])
        e = np.abs(ch.conj() @ ch.T / n - np.eye(len(ch))).max()
        if not e < 1e-4:
            return f"characters not orthonormal ({e:.3g})"
    return None


@functools.lru_cache(maxsize=None)
def dataset(hall, mode, magnetic=0, use_mag=False):
    """Symmetry of the structure as spglib reports it, asked independently of the code under test."""
    import spglib

    lat, pos, num, mag, _ = structure(hall, mode, magnetic)
    if use_mag:
        d = spglib.get_magnetic_symmetry_dataset((lat, pos, num, mag), symprec=1e-5)
    else:
        d = spglib.get_symmetry_dataset((lat, pos, num), symprec=1e-5)
    f = (lambda x: d[x]) if isinstance(d, dict) else (lambda x: getattr(d, x))
    return np.array(f("rotations")), np.array(f("translations")), np.array(f("time_reversals")).astype(int) if use_mag else None
