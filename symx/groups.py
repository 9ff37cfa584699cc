"""Input data of the harnesses: space groups and magnetic groups from the spglib database (not through spgrep),
reduced to a primitive cell by a table of centrings written here, lattices compatible with a group, point groups."""

from __future__ import annotations

import functools
from fractions import Fraction

import numpy as np

F = Fraction

# columns: primitive basis vectors in the conventional basis
_CENTRED = {
    "P": np.eye(3),
    "A": np.array([[1, 0, 0], [0, 1 / 2, -1 / 2], [0, 1 / 2, 1 / 2]]),
    "B": np.array([[1 / 2, 0, -1 / 2], [0, 1, 0], [1 / 2, 0, 1 / 2]]),
    "C": np.array([[1 / 2, 1 / 2, 0], [-1 / 2, 1 / 2, 0], [0, 0, 1]]),
    "I": np.array([[-1 / 2, 1 / 2, 1 / 2], [1 / 2, -1 / 2, 1 / 2], [1 / 2, 1 / 2, -1 / 2]]),
    "F": np.array([[0, 1 / 2, 1 / 2], [1 / 2, 0, 1 / 2], [1 / 2, 1 / 2, 0]]),
    "R": np.array([[2 / 3, -1 / 3, -1 / 3], [1 / 3, 1 / 3, -2 / 3], [1 / 3, 1 / 3, 1 / 3]]),
    "Rrev": np.array([[1 / 3, -2 / 3, 1 / 3], [2 / 3, -1 / 3, -1 / 3], [1 / 3, 1 / 3, 1 / 3]]),
    "H": np.array([[2 / 3, -1 / 3, 0], [1 / 3, 1 / 3, 0], [0, 0, 1]]),
}


def frac(a, den=720):
    """Round to fractions with small denominators (exact as far as floats go)."""
    from .loader import snap_array

    return snap_array(np.asarray(a, dtype=float))


def centring_matrix(cent):
    """Matrix whose columns span the lattice Z^3 + cent."""
    cent = np.asarray(cent, dtype=float)
    want = {tuple(np.round(c % 1, 4) % 1) for c in cent}
    for name, P in _CENTRED.items():
        if abs(abs(np.linalg.det(P)) * len(want) - 1) > 1e-6:
            continue
        Pi = np.linalg.inv(P)
        if all(np.abs(Pi @ c - np.rint(Pi @ c)).max() < 1e-4 for c in cent) and np.abs(Pi - np.rint(Pi)).max() < 1e-6:
            return P
    raise ValueError("centring")


@functools.lru_cache(maxsize=None)
def conventional(hall):
    from spglib import get_symmetry_from_database

    d = get_symmetry_from_database(hall)
    return np.array(d["rotations"]), frac(d["translations"])


def reduce_primitive(rots, trans, trs=None):
    """Operations in a primitive cell: first of each class modulo lattice translations."""
    ident = [i for i in range(len(rots)) if (rots[i] == np.eye(3)).all() and (trs is None or not trs[i])]
    P = centring_matrix(trans[ident])
    Pi = np.linalg.inv(P)
    out_r, out_t, out_s, src = [], [], [], []
    for i in range(len(rots)):
        r = Pi @ rots[i] @ P
        ri = np.rint(r).astype(int)
        assert np.abs(r - ri).max() < 1e-6
        t = frac(frac(Pi @ trans[i]) % 1) % 1
        s = 0 if trs is None else int(trs[i])
        if any((ri == a).all() and s == c for a, c in zip(out_r, out_s)) and trs is None:
            continue
        if any((ri == a).all() and s == c for a, c in zip(out_r, out_s)):
            continue
        out_r.append(ri)
        out_t.append(t)
        out_s.append(s)
        src.append(i)
    return P, np.array(out_r), np.array(out_t), np.array(out_s), src


@functools.lru_cache(maxsize=None)
def primitive(hall):
    r, t = conventional(hall)
    P, pr, pt, _, _ = reduce_primitive(r, t)
    return P, pr, pt


def order_ops(n, order, seed=0):
    """Permutation of operations: db | rev | shuf."""
    if order == "db":
        return np.arange(n)
    if order == "rev":
        return np.arange(n)[::-1]
    if order.startswith("shuf"):
        return np.random.default_rng(int(order[4:] or seed)).permutation(n)
    raise ValueError(order)


def lattice_shifts(rots, trs, order):
    """Integer vectors to add to the translations: a list of operations need not keep them in [0, 1). Zero for the identity
    (a cell given with a lattice translation as the identity's translation is rejected), zero in the listings db and rev."""
    n = len(rots)
    if not order.startswith("shuf"):
        return np.zeros((n, 3))
    d = np.random.default_rng(int(order[4:] or 0) + 100).integers(-2, 3, size=(n, 3)).astype(float)
    for i in range(n):
        if (np.asarray(rots[i]) == np.eye(3)).all() and (trs is None or not trs[i]):
            d[i] = 0
    return d


@functools.lru_cache(maxsize=None)
def magnetic(uni):
    """(P, rotations, translations, time_reversals) in the primitive cell of the unitary translations."""
    from spglib import get_magnetic_symmetry_from_database

    d = get_magnetic_symmetry_from_database(uni)
    r, t, s = np.array(d["rotations"]), frac(d["translations"]), np.array(d["time_reversals"]).astype(int)
    P, pr, pt, ps, _ = reduce_primitive(r, t, s)
    return P, pr, pt, ps


HEX = np.array([[2.0, 0, 0], [-1, np.sqrt(3), 0], [0, 0, 3.0]])


def metric_err(lat, rots):
    g = lat @ lat.T
    return max(np.abs(np.asarray(x).T @ g @ np.asarray(x) - g).max() for x in rots)


def lattice_for(rots, seed=0):
    """Row-wise lattice whose metric is invariant under the rotations."""
    rots = np.asarray(rots)
    # the least symmetric cell that fits comes first
    for ax in (1, 2, 0):
        base = np.diag([1, 1.2, 1.5])
        base[(ax + 1) % 3, (ax + 2) % 3] = 0.3
        if len(rots) > 2 and metric_err(base, rots) < 1e-8:
            return base
    for base in (np.diag([1, 1.2, 1.5]), np.diag([1, 1, 1.3]), HEX, np.eye(3)):
        if metric_err(base, rots) < 1e-8:
            return base
    g = np.array([[1, 0.1, 0.2], [0.1, 1.2, 0.05], [0.2, 0.05, 1.5]])
    G = sum(x.T @ g @ x for x in rots) / len(rots)
    return np.linalg.cholesky(G)


@functools.lru_cache(maxsize=None)
def spacegroup_number(hall):
    from spglib import get_spacegroup_type

    t = get_spacegroup_type(hall)
    return int(t["number"] if isinstance(t, dict) else t.number)


@functools.lru_cache(maxsize=None)
def default_halls():
    """First Hall number of each of the 230 space groups."""
    seen, out = set(), []
    for h in range(1, 531):
        n = spacegroup_number(h)
        if n not in seen:
            seen.add(n)
            out.append(h)
    return tuple(out)


@functools.lru_cache(maxsize=None)
def pointgroups():
    """Generators of the 32 crystallographic point groups in the standard setting (written here), closed up."""
    g = {
        "c2z": [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
        "c2y": [[-1, 0, 0], [0, 1, 0], [0, 0, -1]],
        "c4z": [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
        "c3z": [[0, -1, 0], [1, -1, 0], [0, 0, 1]],
        "c6z": [[1, -1, 0], [1, 0, 0], [0, 0, 1]],
        "c3d": [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
        "c2x": [[1, 0, 0], [0, -1, 0], [0, 0, -1]],
        "h2": [[0, 1, 0], [1, 0, 0], [0, 0, -1]],  # 2 along a+b
        "h2p": [[0, -1, 0], [-1, 0, 0], [0, 0, -1]],  # 2 along a-b
    }
    g = {k: np.array(v) for k, v in g.items()}
    I = -np.eye(3, dtype=int)
    m = lambda k: I @ g[k]
    defs = {
        "1": [], "-1": [I], "2": [g["c2y"]], "m": [m("c2y")], "2/m": [g["c2y"], I],
        "222": [g["c2z"], g["c2y"]], "mm2": [g["c2z"], m("c2y")], "mmm": [g["c2z"], g["c2y"], I],
        "4": [g["c4z"]], "-4": [m("c4z")], "4/m": [g["c4z"], I], "422": [g["c4z"], g["c2y"]],
        "4mm": [g["c4z"], m("c2y")], "-42m": [m("c4z"), g["c2y"]], "-4m2": [m("c4z"), m("c2y")], "4/mmm": [g["c4z"], g["c2y"], I],
        "3": [g["c3z"]], "-3": [g["c3z"], I], "312": [g["c3z"], g["h2p"]], "321": [g["c3z"], g["h2"]],
        "3m1": [g["c3z"], m("h2")], "31m": [g["c3z"], m("h2p")], "-31m": [g["c3z"], g["h2p"], I], "-3m1": [g["c3z"], g["h2"], I],
        "6": [g["c6z"]], "-6": [m("c6z")], "6/m": [g["c6z"], I], "622": [g["c6z"], g["h2"]],
        "6mm": [g["c6z"], m("h2")], "-62m": [m("c6z"), g["h2"]], "-6m2": [m("c6z"), m("h2")], "6/mmm": [g["c6z"], g["h2"], I],
        "23": [g["c2z"], g["c2y"], g["c3d"]], "m-3": [g["c2z"], g["c2y"], g["c3d"], I],
        "432": [g["c4z"], g["c3d"]], "-43m": [m("c4z"), g["c3d"]], "m-3m": [g["c4z"], g["c3d"], I],
    }
    out = {}
    for name, gens in defs.items():
        els = [np.eye(3, dtype=int)]
        q = list(els)
        while q:
            x = q.pop()
            for s in gens:
                y = s @ x
                if not any((y == e).all() for e in els):
                    els.append(y)
                    q.append(y)
        out[name] = np.array(els)
    return out
