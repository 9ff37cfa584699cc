"""Plain numeric oracles, written from the definitions, for replaying solver models on the real package."""

from __future__ import annotations

import numpy as np

TOL = 1e-4


def table(rots, trs=None):
    """idx[i, j] = l with R_i R_j = R_l (and matching time reversal); None if not closed."""
    rots = np.asarray(rots)
    n = len(rots)
    trs = np.zeros(n, dtype=int) if trs is None else np.asarray(trs).astype(int)
    key = {}
    for i in range(n):
        key.setdefault((rots[i].astype(int).tobytes(), int(trs[i])), i)
    idx = np.zeros((n, n), dtype=int)
    for i in range(n):
        for j in range(n):
            l = key.get(((rots[i] @ rots[j]).astype(int).tobytes(), int(trs[i] ^ trs[j])))
            if l is None:
                return None
            idx[i, j] = l
    return idx


def little(rots, k, trs=None, tol=1e-6):
    """Indices fixing k modulo integers. 'ambiguous' if some residual is neither near zero nor clearly off."""
    rots = np.asarray(rots)
    s = np.ones(len(rots)) if trs is None else np.where(np.asarray(trs).astype(int) == 1, -1, 1)
    out = []
    for i, r in enumerate(rots):
        d = s[i] * (r.T @ k) - k
        e = np.abs(d - np.rint(d)).max()
        if e < 1e-9:
            out.append(i)
        elif e < 1e-4:
            return "ambiguous"
    return out


def ambiguous(rots, k, trs=None):
    return isinstance(little(rots, k, trs), str)


def law(rots, trans, k, rep, om=None, trs=None):
    """Largest violation of D_i D_j^(*i) = om_ij exp(-2 pi i k.T) D_l ; None if not closed."""
    rots = np.asarray(rots)
    trans = np.asarray(trans, dtype=float)
    rep = np.asarray(rep)
    n = len(rots)
    if rep.shape[0] != n:
        return np.inf
    idx = table(rots, trs)
    if idx is None:
        return np.inf
    T = np.einsum("iab,jb->ija", rots, trans) + trans[:, None, :] - trans[idx]
    if np.abs(T - np.rint(T)).max() > 1e-3:
        return np.inf
    ph = np.exp(-2j * np.pi * (T @ np.asarray(k, dtype=float)))
    if om is not None:
        ph = ph * om
    if not np.all(np.isfinite(rep)):
        return np.inf
    a = np.zeros(n, dtype=int) if trs is None else np.asarray(trs).astype(int)
    err = 0.0
    for i in range(n):
        B = rep.conj() if a[i] else rep
        lhs = np.matmul(rep[i][None], B)
        err = max(err, np.abs(lhs - ph[i][:, None, None] * rep[idx[i]]).max())
    return err


def unitary(rep):
    rep = np.asarray(rep)
    d = rep.shape[-1]
    if not np.all(np.isfinite(rep)):
        return np.inf
    return np.abs(np.matmul(rep, np.conj(np.swapaxes(rep, -1, -2))) - np.eye(d)).max()


def complete(reps, n):
    """None if the list is a complete set of inequivalent irreps of a (projective) group of order n."""
    s = sum(r.shape[1] ** 2 for r in reps)
    if s != n:
        return f"sum of squared dimensions {s} != {n}"
    ch = np.array([np.einsum("kii->k", r) for r in reps])
    G = ch.conj() @ ch.T / n
    e = np.abs(G - np.eye(len(ch))).max()
    if not e < TOL:
        return f"characters not orthonormal ({e:.3g})"
    return None


def rep_list(reps, rots, trans, k, om=None, trs=None, tol=TOL):
    """None | message: all unitary and law."""
    for a, r in enumerate(reps):
        e = unitary(r)
        if not e < tol:
            return f"irrep {a} not unitary ({e:.3g})"
        e = law(rots, trans, k, r, om, trs)
        if not e < tol:
            return f"irrep {a} breaks the multiplication law ({e:.3g})"
    return None


def match_chars(reps1, reps2, n):
    """None | message: two lists equal up to order and equivalence (by characters)."""
    if len(reps1) != len(reps2):
        return f"{len(reps1)} against {len(reps2)} irreps"
    c1 = np.array([np.einsum("kii->k", r) for r in reps1])
    c2 = np.array([np.einsum("kii->k", r) for r in reps2])
    used = set()
    for i in range(len(c1)):
        hit = [j for j in range(len(c2)) if j not in used and np.abs(c1[i] - c2[j]).max() < 1e-3]
        if not hit:
            return f"irrep {i} has no equivalent partner"
        used.add(hit[0])
    return None


PAULI = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]], dtype=complex)


def cover(lattice, rots, U):
    """Largest violation of U sigma U^-1 = R_proper sigma; also unitary, det one."""
    lat = np.asarray(lattice, dtype=float)
    err = 0.0
    for i, R in enumerate(np.asarray(rots)):
        C = lat.T @ R @ np.linalg.inv(lat.T)
        C = C * np.sign(np.linalg.det(R))
        u = np.asarray(U[i])
        if u.shape != (2, 2):
            return np.inf
        lhs = np.einsum("ab,sbc,dc->sad", u, PAULI, u.conj())
        rhs = np.einsum("ts,tad->sad", C, PAULI)
        err = max(err, np.abs(lhs - rhs).max(), abs(np.linalg.det(u) - 1), np.abs(u @ u.conj().T - np.eye(2)).max())
    return err


def irreps(rots, om, seed=7):
    """Unitary irreps of the projective group, from the regular representation by generic numerics (independent of spgrep)."""
    rots = np.asarray(rots)
    n = len(rots)
    T = table(rots)
    reg = np.zeros((n, n, n), dtype=complex)
    for k in range(n):
        for j in range(n):
            reg[k, T[k, j], j] = om[k, j]
    rng = np.random.default_rng(seed)
    for _ in range(5):
        A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        A = A + A.conj().T
        A = np.einsum("kij,jl,kml->im", reg, A, reg.conj(), optimize="greedy") / n
        w, v = np.linalg.eigh(A)
        groups = np.split(np.arange(n), np.nonzero(np.diff(w) > 1e-6)[0] + 1)
        out = []
        for g in groups:
            q = v[:, g]
            D = np.einsum("ai,kab,bj->kij", q.conj(), reg, q, optimize="greedy")
            ch = np.einsum("kii->k", D)
            if abs(np.vdot(ch, ch) / n - 1) > 1e-6:
                break
            if all(abs(np.vdot(ch, np.einsum("kii->k", E)) / n) < 0.5 for E in out):
                out.append(D)
        else:
            if sum(D.shape[1] ** 2 for D in out) == n:
                out.sort(key=lambda D: (D.shape[1], tuple(np.round(-np.einsum("kii->k", D).real, 5)), tuple(np.round(np.einsum("kii->k", D).imag, 5))))
                return out
    raise RuntimeError("reference irreps not found")


def random_unitary(d, seed):
    rng = np.random.default_rng(seed)
    q, r = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))
    return q * (np.diag(r) / np.abs(np.diag(r)))
