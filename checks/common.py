"""Shared harness parts."""

from __future__ import annotations

import numpy as np

from symx import groups as G
from symx import laws, oracle
from symx import values as V
from symx.arrays import SA
from symx.run import Case, CodeRaised, call

# representative settings: every crystal class, every centring, symmorphic and not, several unusual settings
QUICK_HALLS = [1, 2, 4, 6, 8, 12, 18, 21, 39, 57, 81, 90, 112, 116, 122, 130, 176, 184, 212, 230, 278, 298, 334, 349, 351, 355, 359, 361,
               366, 376, 389, 400, 406, 425, 430, 431, 433, 435, 438, 440, 446, 452, 454, 456, 460, 462, 463, 468, 469, 474, 477,
               481, 488, 489, 490, 494, 497, 501, 503, 505, 509, 512, 515]

# one magnetic group for every combination of type, point group and unitary point group
QUICK_UNIS = [1, 2, 3, 4, 5, 6, 7, 10, 14, 17, 21, 44, 45, 46, 47, 57, 58, 60, 81, 86, 94, 99, 106, 108, 154, 158, 165, 217, 280,
322, 509, 539, 576, 590, 601, 656, 679, 680, 688, 691, 694, 696, 699, 701, 703, 712, 714, 723, 729, 733, 780, 784, 795,
799, 814, 861, 864, 890, 893, 897, 915, 936, 954, 981, 990, 998, 1032, 1061, 1095, 1122, 1206, 1217, 1219, 1222, 1234,
1238, 1239, 1243, 1244, 1249, 1250, 1251, 1254, 1260, 1277, 1281, 1284, 1290, 1291, 1305, 1306, 1321, 1322, 1331, 1332,
1339, 1352, 1358, 1361, 1363, 1364, 1365, 1366, 1368, 1369, 1370, 1371, 1372, 1373, 1390, 1392, 1395, 1397, 1406, 1415,
1426, 1428, 1430, 1431, 1443, 1456, 1457, 1458, 1459, 1460, 1472, 1474, 1485, 1488, 1490, 1491, 1493, 1496, 1508, 1511,
1515, 1516, 1529, 1534, 1538, 1543, 1550, 1557, 1563, 1580, 1582, 1586, 1592, 1595, 1597, 1598, 1629, 1636, 1649]


def real(name):
    from symx.loader import real_spgrep

    return real_spgrep(name)


def prim_ops(hall, order="db"):
    P, r, t = G.primitive(hall)
    o = G.order_ops(len(r), order)
    return r[o].copy(), t[o] + G.lattice_shifts(r[o], None, order)


def eq_entries(obl, name, got, want):
    """Arrays equal entry by entry (symbolic or numeric)."""
    got, want = laws.raw(got), laws.raw(want)
    if got.shape != want.shape:
        obl.true(name + ": shape", False)
        return
    for idx, v in np.ndenumerate(got):
        obl.equal(name, v, want[idx])


def spin_signs(rots):
    """(U, sign table): quaternion matrices of the proper parts of rotations in a lattice with invariant metric."""
    rots = np.asarray(rots)
    lat = G.lattice_for(rots)
    U = []
    for r in rots:
        c = lat.T @ (r * round(np.linalg.det(r))) @ np.linalg.inv(lat.T)
        cs = np.clip((np.trace(c) - 1) / 2, -1, 1)
        w, v = np.linalg.eig(c)
        ax = np.real(v[:, np.argmin(np.abs(w - 1))])
        ax = ax / np.linalg.norm(ax)
        if np.allclose(c, np.eye(3)):
            ax = np.array([0.0, 0, 1])
        sn = 0.5 * np.dot(ax, [c[2, 1] - c[1, 2], c[0, 2] - c[2, 0], c[1, 0] - c[0, 1]])
        th = np.arctan2(sn, cs)
        U.append(np.cos(th / 2) * np.eye(2) - 1j * np.sin(th / 2) * np.einsum("i,iab->ab", ax, oracle.PAULI))
    U = np.array(U)
    idx = oracle.table(rots)
    om = np.array([[np.trace(U[i] @ U[j] @ U[idx[i, j]].conj().T) / 2 for j in range(len(U))] for i in range(len(U))])
    return U, np.rint(om.real).astype(complex)


def base_cocycle(p):
    """(rotations, numeric factor system) of a job: point group or little co-group of a space group at a given k."""
    if "pg" in p:
        R = G.pointgroups()[p["pg"]]
        n = len(R)
        om = np.ones((n, n), dtype=complex)
    else:
        _, r, t = G.primitive(p["hall"])
        k = np.array(p["k"], dtype=float)
        mp = oracle.little(r, k)
        R, t = r[mp], t[mp]
        om = np.exp(-2j * np.pi * np.einsum("ia,ja->ij", np.array([x.T @ k - k for x in R]), t))
    o = G.order_ops(len(R), p.get("order", "db"))
    R, om = R[o].copy(), om[np.ix_(o, o)]
    if p.get("spin"):
        om = om * spin_signs(R)[1]
    return R, G.frac(om.real) + 1j * G.frac(om.imag)


def gauge(om, T, b):
    """om_ij b_i b_j / b_l with symbolic or numeric phases b."""
    n = len(T)
    sym = any(isinstance(x, V.Sym) for x in b)
    out = np.empty((n, n), dtype=object if sym else complex)
    for i, j in np.ndindex(n, n):
        x = b[i] * b[j]
        c = b[T[i, j]]
        out[i, j] = complex(om[i, j]) * x * (c.conjugate())
        if sym:
            out[i, j] = V.norm(V.Sym.lift(out[i, j])).simp()
    return out


PROPER = ["1", "2", "222", "4", "422", "3", "312", "321", "6", "622", "23", "432"]
SPECIAL_K = [(0.5, 0, 0), (0, 0.5, 0), (0, 0, 0.5), (0.5, 0.5, 0), (0.5, 0, 0.5), (0, 0.5, 0.5), (0.5, 0.5, 0.5), (1 / 3, 1 / 3, 0.5), (1 / 3, 1 / 3, 0),
             (0.25, 0.25, 0.25), (0.75, 0.25, 0.25), (0, 0, 1 / 3), (0.25, 0.5, 0.75), (-0.5, 0.5, 0.5)]


def nontrivial_cocycles(halls):
    """(hall, k) whose little co-group has a factor system that is not symmetric (hence not a coboundary)."""
    out = []
    for h in halls:
        best = None
        for k in SPECIAL_K:
            R, om = base_cocycle({"hall": h, "k": k})
            T = oracle.table(R)
            com = T == T.T
            if np.abs((om - om.T)[com]).max() > 1e-6 and (best is None or len(R) > best[1]):
                best = (k, len(R))
        if best:
            out.append((h, list(best[0])))
    return out


def gauge_draws(ctx, b, f):
    """f() with random n x n draws X handed out as diag(b)^-1 X diag(b) (or the inverse, if the code transposes its draw).

    A matrix built from them stays phase-similar to a number matrix. The abstraction (recorded): the outcome does not depend
    on which generic matrix was drawn.
    """
    n = len(b)
    ctx.assumptions_made.add("random draws are replaced by their image under the diagonal phases of the input (generic either way)")

    def draws(flip):
        rng = np.random.default_rng(0)

        def hook(name, a, k):
            if name != "random" or tuple(np.ravel(a[0] if a else ())) != (n, n):
                return None
            X = rng.random((n, n))
            out = np.empty((n, n), dtype=object)
            for i, j in np.ndindex(n, n):
                p, q = (j, i) if flip else (i, j)
                x = V.Sym.lift(b[p]).conjugate() * b[q] * float(X[i, j])
                out[i, j] = V.norm(V.Sym.lift(x)).simp()
            return SA(out, "c")

        return hook

    try:
        ctx.rng_hook = draws(False)
        return f()
    except V.Unsupported:
        ctx.rng_hook = draws(True)
        return f()
    finally:
        ctx.rng_hook = None
