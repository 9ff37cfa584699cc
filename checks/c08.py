"""C08: co-representations of magnetic groups at every k."""
from checks import c06, cells
from checks.common import *

FUNCTIONS = ["core.get_spacegroup_spinor_irreps_from_primitive_symmetry", "core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry", "core.get_spacegroup_spinor_irreps",
             "corep.enumerate_spinor_small_corepresentations", "corep.get_corep_spinor_factor_system", "group.decompose_by_maximal_space_subgroup",
             "group.get_little_group", "group.get_factor_system_from_little_group", "group.get_cayley_table", "representation.get_intertwiner", "irreps.enumerate_unitary_irreps"]
UNKNOWNS = "k in R^3 (three reals plus three unbounded integers)"
BOUNDS = ("magnetic space groups listed in the jobs (quick: one per combination of type, point group and unitary point group; thorough: every third of the 1651), lattice in standard and generic orientation; "
          "all black-white and grey point groups (k = 0, unknown scale of the lattice); collinear magnetic structures in conventional, primitive and re-axised cells for every seventh group")


def antispin(lat, rots, trs, om, U):
    """Message when sign table and spin matrices (numbers) are not those of linear/anti-linear spin operators."""
    om, U = np.asarray(om, dtype=complex), np.asarray(U, dtype=complex)
    n = len(rots)
    if om.shape != (n, n) or U.shape != (n, 2, 2):
        return "shape of the sign table or spin matrices"
    for i, R in enumerate(rots):
        C = lat.T @ R @ np.linalg.inv(lat.T) * round(np.linalg.det(R))
        S = oracle.PAULI.conj() if trs[i] else oracle.PAULI
        lhs = np.einsum("ab,sbc,dc->sad", U[i], S, U[i].conj())
        rhs = np.einsum("ts,tad->sad", C, oracle.PAULI) * (-1 if trs[i] else 1)
        e = max(np.abs(lhs - rhs).max(), np.abs(U[i] @ U[i].conj().T - np.eye(2)).max())
        if not e < 1e-5:
            return f"spin matrix {i} does not act on spins as its operation ({e:.3g})"
    if np.abs(np.abs(om.real) - 1).max() > 1e-9 or np.abs(om.imag).max() > 1e-9:
        return "sign table has entries other than +1, -1"
    T = oracle.table(rots, trs)
    for i in range(n):
        e = np.abs(np.matmul(U[i][None], U.conj() if trs[i] else U) - om[i][:, None, None] * U[T[i]]).max()
        if not e < 1e-5:
            return f"sign table does not fit the spin matrices ({e:.3g})"
    return None


def hermitian_commutant(M, anti):
    """Dimension of the real space of Hermitian X with X M_i = M_i X (linear) or M_i X* (anti-linear)."""
    d = M.shape[-1]
    basis = []
    for i in range(d):
        for j in range(i, d):
            for c in ([1.0] if i == j else [1.0, 1j]):
                X = np.zeros((d, d), dtype=complex)
                X[i, j] = c
                X[j, i] = np.conj(c)
                basis.append(X)
    cols = []
    for X in basis:
        v = []
        for m, a in zip(M, anti):
            v.append((X @ m - m @ (X.conj() if a else X)).ravel())
        v = np.concatenate(v)
        cols.append(np.concatenate([v.real, v.imag]))
    A = np.array(cols).T
    return len(basis) - int((np.linalg.svd(A.T @ A, compute_uv=False) > 1e-7).sum())


TYPE = {1: 1, 4: -1, 2: 0}


def content(obl, reps, trs, indicators, tag="", fold=1):
    """Every irreducible representation of the unitary subgroup occurs with the multiplicity of its type, and the list is complete."""
    n = len(trs)
    lin = [i for i in range(n) if not trs[i]]
    h = len(lin)
    anti = [bool(x) for x in trs]
    total = 0.0
    chars = []
    types = []
    for q, rep in enumerate(reps):
        rep = laws.raw(rep)
        s = laws.split(rep)
        d = rep.shape[-1]
        if s is None:
            raise V.Unsupported("co-representation is not a phase times a number matrix per operation")
        M = np.array([x[1] for x in s])
        keys = tuple(s[i][0] for i in lin)
        c = np.array([np.trace(M[i]) for i in lin])
        chars.append((keys, c))
        w = np.vdot(c, c).real / h
        obl.true(tag + f"co-representation {q}: restricted to the unitary operations it is one, twice one, or a pair of irreducible representations", min(abs(w - x) for x in (1, 2, 4)) < 1e-4)
        w = min((1, 2, 4), key=lambda x: abs(x - w))
        if max(anti) == 0:
            obl.true(tag + "no doubling without anti-linear operations", w == 1)
        else:
            obl.true(tag + f"co-representation {q} is irreducible", hermitian_commutant(M, anti) == 1)
        types.append(TYPE[w])
        total += d * d / w * (1 if w != 2 else 1)
    obl.true(tag + "the list contains every irreducible representation of the unitary operations", abs(total * fold - h) < 1e-6)
    if len(indicators):
        obl.true(tag + "reported indicators are the types", [int(x) for x in indicators] == types)
    for i in range(len(chars)):
        for j in range(i + 1, len(chars)):
            (ki, ci), (kj, cj) = chars[i], chars[j]
            if ki == kj:
                obl.true(tag + "no irreducible representation occurs in two co-representations", abs(np.vdot(ci, cj)) < 1e-5 * h)
            else:
                obl.zero(tag + "no irreducible representation occurs in two co-representations", laws.inner(laws._chs(ki, ci), laws._chs(kj, cj)), tol=1e-5 * h)


class Collect:
    """Obligation collector for numbers."""

    def __init__(self):
        self.msg = None

    def true(self, name, cond):
        if not cond and self.msg is None:
            self.msg = name

    def zero(self, name, v, tol=1e-5):
        self.true(name, abs(complex(v)) < tol)


def judge(lat, r, t, s, k, out):
    reps, ind, om, U, al, mp = out
    want = oracle.little(r, k, s)
    if list(map(int, mp)) != list(want):
        return f"operations {list(map(int, mp))} reported, {list(want)} fix k"
    return judge_little(lat, r[mp], t[mp], s[mp], k, reps, ind, om, U, al)


def judge_little(lat, r, t, s, k, reps, ind, om, U, al):
    if list(np.asarray(al).astype(int)) != list(s):
        return "anti-linear flags are not the time reversals"
    msg = antispin(lat, r, s, om, U) or oracle.rep_list(reps, r, t, k, om=om, trs=s)
    if msg:
        return msg
    c = Collect()
    # phases of the unitary operations are common to all co-representations: numbers throughout
    content(c, [np.asarray(x) for x in reps], s, ind)
    return c.msg


class Space(Case):
    def inputs(self, ctx):
        inp, self.k = laws.kvec(ctx)
        return inp

    def data(self):
        p = self.params
        P, r, t, s = G.magnetic(p["uni"])
        o = G.order_ops(len(r), p.get("order", "db"))
        lat = G.lattice_for(r)
        if p.get("turn"):
            q = np.random.default_rng(p["turn"]).normal(size=4)
            lat = lat @ c06.quat(q / np.linalg.norm(q)).astype(float).T
        return lat, r[o].copy(), t[o] + G.lattice_shifts(r[o], s[o], p.get("order", "db")), s[o].copy()

    def symbolic(self, ctx, L, inp, obl):
        lat, r, t, s = self.data()
        reps, ind, om, U, al, mp = L.mods["spgrep.core"].get_spacegroup_spinor_irreps_from_primitive_symmetry(
            SA(lat.copy()), r.copy(), SA(t.copy()), s.copy(), SA(np.array(self.k, dtype=object)), method=self.params["method"])
        laws.little_obligations(ctx, obl, r, self.k, mp, s)
        mp = [int(x) for x in laws.raw(mp)]
        finish(ctx, obl, lat, r[mp], t[mp], s[mp], self.k, reps, ind, om, U, al)

    def concrete(self, vals):
        lat, r, t, s = self.data()
        k = laws.kval(vals)
        if oracle.ambiguous(r, k, s):
            return None
        out = call(real("core").get_spacegroup_spinor_irreps_from_primitive_symmetry, lat.copy(), r.copy(), t.copy(), s.copy(), k.copy(), method=self.params["method"])
        return judge(lat, r, t, s, k, out)


def finish(ctx, obl, lat, r, t, s, k, reps, ind, om, U, al):
    om, U = laws.raw(om), laws.raw(U)
    obl.true("anti-linear flags are the time reversals", [int(bool(x)) for x in laws.raw(al)] == list(s))
    msg = antispin(lat, r, s, om, U)
    obl.true(f"sign table and spin matrices: {msg}", msg is None)
    if msg is None:
        laws.rep_obligations(ctx, obl, reps, r, t, k, om=om, trs=s, complete=False)
        content(obl, reps, s, laws.raw(ind) if isinstance(ind, SA) else ind)


class Point(Case):
    """Magnetic point group: nothing unknown but the scale of the lattice."""

    def inputs(self, ctx):
        return {"a": ctx.positive("a")}

    def data(self):
        p = self.params
        R = G.pointgroups()[p["pg"]]
        if p["kind"] == "grey":
            r = np.concatenate([R, R])
            s = np.repeat([0, 1], len(R))
        else:
            r = R
            s = np.array([int(x) for x in p["kind"]])
        o = G.order_ops(len(r), p.get("order", "db"))
        return G.lattice_for(R), r[o].copy(), s[o].copy()

    def symbolic(self, ctx, L, inp, obl):
        lat, r, s = self.data()
        x = np.array([[V.Sym.lift(float(v)) * inp["a"] if v else 0.0 for v in row] for row in lat], dtype=object)
        reps, ind, om, U, al = L.mods["spgrep.core"].get_crystallographic_pointgroup_spinor_irreps_from_symmetry(SA(x, "f"), r.copy(), s.copy(), method=self.params["method"])
        finish(ctx, obl, lat, r, np.zeros((len(r), 3)), s, [0.0] * 3, reps, ind, om, U, al)

    def concrete(self, vals):
        lat, r, s = self.data()
        lat = lat * vals["a"]
        out = call(real("core").get_crystallographic_pointgroup_spinor_irreps_from_symmetry, lat.copy(), r.copy(), s.copy(), method=self.params["method"])
        return judge_little(lat, r, np.zeros((len(r), 3)), s, np.zeros(3), *out)


class Structure(Case):
    """Magnetic crystal structure in the user's own cell."""

    def data(self):
        p = self.params
        lat, pos, num, mag, P = cells.structure(0, p["mode"], p["uni"])
        M = cells.RECIP[p.get("rec", "")]
        return lat, pos, num, mag, P, M, {} if not p.get("rec") else dict(reciprocal_lattice=M @ np.linalg.inv(lat).T)

    def inputs(self, ctx):
        inp, self.kp = laws.kvec(ctx)
        d = self.data()
        self.k, self.ku = cells.from_primitive(d[4], d[5], self.kp)
        return inp

    def symbolic(self, ctx, L, inp, obl):
        lat, pos, num, mag, P, M, kw = self.data()
        reps, om, U, al, rots, trans, trs, mp = L.mods["spgrep.core"].get_spacegroup_spinor_irreps(
            lat.copy(), pos.copy(), num.copy(), magmoms=mag.copy(), kpoint=SA(np.array(self.ku, dtype=object)), method=self.params["method"], **kw)
        om, U = laws.raw(om), laws.raw(U)
        m = [int(x) for x in laws.raw(mp)]
        s = np.asarray(laws.raw(trs)).astype(int)
        obl.true("anti-linear flags are the time reversals", [int(bool(x)) for x in laws.raw(al)] == list(s[m]))
        msg = antispin(lat, laws.raw(rots)[m], s[m], om, U)
        obl.true(f"sign table and spin matrices: {msg}", msg is None)
        if msg is None:
            cells.obligations(ctx, obl, P, rots, trans, self.k, mp, reps, om=om, trs=s, expected=cells.dataset(0, self.params["mode"], self.params["uni"], True), complete=False)
            content(obl, reps, s[m], [], fold=int(round(1 / abs(np.linalg.det(P)))))

    def concrete(self, vals):
        lat, pos, num, mag, P, M, kw = self.data()
        k = np.linalg.inv(P.T) @ laws.kval(vals)
        rot0, tr0, s0 = cells.dataset(0, self.params["mode"], self.params["uni"], True)
        if isinstance(oracle.little(cells.in_primitive(rot0, P)[0], P.T @ k, s0), str):
            return None
        reps, om, U, al, rots, trans, trs, mp = call(
            real("core").get_spacegroup_spinor_irreps, lat.copy(), pos.copy(), num.copy(), magmoms=mag.copy(), kpoint=np.linalg.inv(M.T) @ k, method=self.params["method"], **kw)
        s = np.asarray(trs).astype(int)
        if list(np.asarray(al).astype(int)) != list(s[mp]):
            return "anti-linear flags are not the time reversals"
        msg = antispin(lat, rots[mp], s[mp], om, U) or cells.judge(P, rots, trans, k, mp, reps, om=om, trs=s, expected=(rot0, tr0, s0), complete=False)
        if msg:
            return msg
        c = Collect()
        content(c, [np.asarray(x) for x in reps], s[mp], [], fold=int(round(1 / abs(np.linalg.det(P)))))
        return c.msg


def make(**p):
    return {"point": Point, "cell": Structure, "space": Space}[p["what"]](**p)


def black_white(R):
    """Index-two subgroups of a point group as 0/1 flags (homomorphisms onto Z2)."""
    T = oracle.table(R)
    gens = laws.generators(T)
    out = []
    for m in range(1, 2 ** len(gens)):
        f = {next(i for i in range(len(R)) if (R[i] == np.eye(3)).all()): 0}
        todo = list(f)
        while todo:
            x = todo.pop()
            for q, g in enumerate(gens):
                y = T[x, g]
                if y not in f:
                    f[y] = f[x] ^ (m >> q & 1)
                    todo.append(y)
        fl = np.array([f[i] for i in range(len(R))])
        if fl.any() and (fl[T] == (fl[:, None] ^ fl[None, :])).all():
            s = "".join(map(str, fl))
            if s not in out:
                out.append(s)
    return out


def jobs(tier, seed):
    out = []
    orders = ["db", "rev", "shuf1", "shuf2"]
    th = tier == "thorough"
    for i, u in enumerate(QUICK_UNIS if not th else sorted(set(QUICK_UNIS) | set(range(1, 1652, 3)))):
        n = len(G.magnetic(u)[1])
        for m in ("Neto", "random"):
            if not th and (m == "random") != (i % 4 == 3):
                continue
            out.append(dict(what="space", uni=u, method=m, order=orders[(i + (m == "random")) % 4], turn=i if i % 3 else 0))
    for i, (pg, R) in enumerate(G.pointgroups().items()):
        kinds = ["grey"] + black_white(R)
        for j, kd in enumerate(kinds):
            for m in ("Neto", "random"):
                if not th and (m == "random") != ((i + j) % 4 == 3):
                    continue
                out.append(dict(what="point", pg=pg, kind=kd, method=m, order=orders[(i + j) % 4]))
    for i, u in enumerate(QUICK_UNIS[::7] if not th else QUICK_UNIS):
        try:
            _, pos, _, _, P = cells.structure(0, "conv", u)
        except Exception:
            continue
        if not th and len(pos) > 64:
            continue
        centred = abs(np.linalg.det(P)) < 0.99
        mode = (["conv", "prim", "shear"] if centred else ["perm", "shear", "flip"])[i % 3]
        out.append(dict(what="cell", uni=u, mode=mode, rec=["", "shear", "half"][i % 3], method="random" if i % 4 == 0 else "Neto"))
    out.sort(key=lambda j: -len(G.magnetic(j["uni"])[1]) if "uni" in j else -len(G.pointgroups()[j["pg"]]) / 4)
    return out
