"""C20: caller's arrays are left alone; results do not depend on what was computed before."""
import copy
import os
import traceback
import importlib
import sys

from checks import c06, c11, c12, c23, cells
from checks.common import *
from symx.loader import Loader

FUNCTIONS = ["all public functions of core, group, irreps, representation, spinor, corep, tensor, transform, utils"]
UNKNOWNS = ("k in R^3 and its integer part; factor-system phases of up to three operations; phases of basis vectors; translations; cell lengths; entries and tolerance of matrices to be purified; the two k vectors of the two inputs "
            "differ by (1,-1,2)")
BOUNDS = ("history: input X in a fresh process against, in another fresh process, input Y (same operations, other k, cell, phases or order), then X twice, every array of each result overwritten before the next call; "
          "every public entry point on small groups (order at most 16, thorough 48)")

MODS = ("group", "irreps", "core", "corep", "spinor", "representation", "tensor", "transform", "utils", "pointgroup")
IN_PLACE = ("purify_irrep_value", "purify_real_irrep_value")  # by design: they return their argument
DK = np.array([1.0, -1.0, 2.0])


class Ambiguous(Exception):
    pass


def fresh_symbolic():
    L = Loader()
    for n in MODS:
        L.load("spgrep." + n)
    return lambda m: L.mods["spgrep." + m]


def fresh_real():
    real("core")  # makes sure the path is set
    saved = {k: v for k, v in sys.modules.items() if k == "spgrep" or k.startswith("spgrep.")}
    for k in saved:
        del sys.modules[k]
    mods = {m: importlib.import_module("spgrep." + m) for m in MODS}
    for k in [k for k in sys.modules if k == "spgrep" or k.startswith("spgrep.")]:
        del sys.modules[k]
    sys.modules.update(saved)
    return mods.__getitem__


def wrap_sym(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return SA(x.copy())
        return x.copy() if x.dtype.kind in "iub" else SA(x.copy())
    if isinstance(x, (list, tuple)):
        return type(x)(wrap_sym(y) for y in x)
    return x


def wrap_num(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(wrap_num(y) for y in x)
    return x


def leaves(x, path=""):
    """(path, array or scalar) of nested results."""
    if isinstance(x, V.Sym) and not V.norm(x).t:
        return [(path, 0.0)]
    if isinstance(x, (list, tuple)):
        out = [(path + "#", len(x))]
        for i, y in enumerate(x):
            out += leaves(y, f"{path}.{i}")
        return out
    if isinstance(x, dict):
        return sum((leaves(v, f"{path}.{k}") for k, v in sorted(x.items())), [])
    return [(path, x)]


def overwrite(x):
    """Fill every array of a result with rubbish; extend its lists."""
    if isinstance(x, list):
        for y in x:
            overwrite(y)
        x.append(-17)
    elif isinstance(x, tuple):
        for y in x:
            overwrite(y)
    elif isinstance(x, dict):
        for y in x.values():
            overwrite(y)
        x["extra"] = 1
    elif isinstance(x, (np.ndarray, SA)) and x.ndim:
        try:
            x[...] = 7
        except (ValueError, TypeError):
            pass


class Scn(Case):
    opts = {"eager_den": 1, "complex_order": "any", "max_enum": 64}

    def inputs(self, ctx):
        self.ctx_inp = SC[self.params["what"]]["inp"](ctx, self.params)
        return self.ctx_inp

    def calls(self, get, ph, k, kind):
        return SC[self.params["what"]]["calls"](self.params, get, ph, k, kind)

    def kvec(self, inp, kind):
        if "k0" not in inp:
            return None
        k = [inp[f"k{a}"] + inp[f"kn{a}"] for a in range(3)]
        for a in self.params.get("tiny", []):  # below every tolerance, still the caller's number
            k[a] = k[a] + 3e-9
        return np.array(k, dtype=kind)

    @staticmethod
    def run(f, c, w):
        mod, fn, args, kw = c
        a, k = [w(x) for x in args], {q: w(v) for q, v in kw.items()}
        try:
            return a, k, getattr(f(mod), fn)(*a, **k)
        except (ValueError, AssertionError, RuntimeError, TypeError, IndexError, KeyError, ZeroDivisionError, np.linalg.LinAlgError) as e:
            if type(e).__module__.startswith("symx"):
                raise
            if os.environ.get("C20_TRACE"):
                traceback.print_exc()
            return a, k, ("raised", type(e).__name__)

    def symbolic(self, ctx, L, inp, obl):
        X, Y, gz = self.calls(lambda q: inp[q], lambda q: laws.phase(inp[q]), self.kvec(inp, object), object)
        w = wrap_sym

        def unchanged(c, a, k):
            if c[1] in IN_PLACE:
                return
            for have, want in list(zip(leaves(list(a)), leaves(list(c[2])))) + list(zip(leaves(k), leaves(c[3]))):
                g, s = have[1], want[1]
                if isinstance(g, (SA, np.ndarray)) or isinstance(s, np.ndarray):
                    eq_entries(obl, f"argument {have[0]} of {c[1]} unchanged", g, s)
                elif isinstance(s, (int, str, type(None))):
                    obl.true(f"argument {have[0]} of {c[1]} unchanged", g == s)

        def go(f, c):
            if gz is None or c is Y:
                return self.run(f, c, w)
            return gauge_draws(ctx, gz, lambda: self.run(f, c, w))

        f = fresh_symbolic()
        a, k, r = go(f, Y)
        unchanged(Y, a, k)
        overwrite(r)
        a, k, r = go(f, X)
        unchanged(X, a, k)
        overwrite(r)
        a, k, r = go(f, X)
        unchanged(X, a, k)
        # the fresh process comes last: everything the code decides about X is known on the path by then
        a, k, r1 = go(fresh_symbolic(), X)
        unchanged(X, a, k)
        self.same(obl, leaves(r1), leaves(r))

    @staticmethod
    def same(obl, want, got):
        ok = [p for p, _ in want] == [p for p, _ in got]
        obl.true("same structure of the result", ok)
        if not ok:
            return
        for (p, x), (_, y) in zip(want, got):
            if isinstance(x, (np.ndarray, SA)):
                eq_entries(obl, f"same result {p}", y, x)
            elif V.Sym.liftable(x):
                obl.equal(f"same result {p}", y, x)
            else:
                obl.true(f"same result {p}", x == y)

    def concrete(self, vals):
        k = self.kvec(vals, float)
        try:
            X, Y, _ = self.calls(lambda q: vals[q], lambda q: np.exp(2j * np.pi * vals[q]), k, complex)
        except Ambiguous:
            return None
        w = wrap_num

        def unchanged(c, a, kw):
            if c[1] in IN_PLACE:
                return None
            for have, want in list(zip(leaves(list(a)), leaves(list(c[2])))) + list(zip(leaves(kw), leaves(c[3]))):
                g, s = have[1], want[1]
                if isinstance(s, np.ndarray):
                    if not isinstance(g, np.ndarray) or g.shape != s.shape or g.dtype != s.dtype or g.tobytes() != s.tobytes():
                        return f"{c[1]} changed its argument {have[0]}"
                elif have[0] != want[0] or (isinstance(s, (int, float, str, type(None))) and g != s):
                    return f"{c[1]} changed its argument {have[0]}"
            return None

        with np.errstate(all="ignore"):
            a, kw, r1 = call(self.run, fresh_real(), X, w)
            msg = unchanged(X, a, kw)
            if msg:
                return msg
            keep = [(p, copy.deepcopy(v)) for p, v in leaves(r1)]
            f = fresh_real()
            a, kw, r = call(self.run, f, Y, w)
            msg = unchanged(Y, a, kw)
            if msg:
                return msg
            overwrite(r)
            for rep in range(2):
                a, kw, r = call(self.run, f, X, w)
                msg = unchanged(X, a, kw)
                if msg:
                    return msg
                got = leaves(r)
                if [p for p, _ in keep] != [p for p, _ in got]:
                    return f"{X[1]} gives another result after another call"
                for (p, x), (_, y) in zip(keep, got):
                    if isinstance(x, (np.ndarray, float, complex, np.number)):
                        if np.shape(x) != np.shape(y) or (np.size(x) and not np.abs(np.asarray(x) * 1.0 - np.asarray(y) * 1.0).max() <= 1e-9 * (1 + np.abs(x).max())):
                            return f"{X[1]} gives another result ({p}) after another call"
                    elif x != y:
                        return f"{X[1]} gives another result ({p}) after another call"
                overwrite(r)
        return None


SC = {}


def scn(name, inp):
    def deco(f):
        SC[name] = {"inp": inp, "calls": f}
        return f

    return deco


def in_k(ctx, p):
    return laws.kvec(ctx)[0]


def in_kt(ctx, p):
    inp = in_k(ctx, p)
    for a in range(3):
        inp[f"p{a}"] = ctx.real(f"p{a}", -2, 2)
    return inp


def ambiguous(r, k, s=None):
    if k.dtype != object and oracle.ambiguous(r, k, *([] if s is None else [s])):
        raise Ambiguous


def space(p, get, k, kind):
    r, t = prim_ops(p["hall"], p.get("order", "db"))
    return r, t


@scn("core.primitive", in_k)
def _(p, get, ph, k, kind):
    r, t = space(p, get, k, kind)
    ambiguous(r, k)
    kw = dict(method=p.get("method", "Neto"), real=bool(p.get("real")))
    f = ("core", "get_spacegroup_irreps_from_primitive_symmetry")
    if kw["method"] == "random":
        return f + ([r, t, k], kw), f + ([r, t, k + DK], kw), None
    return f + ([r, t, k], kw), f + ([r[::-1], t[::-1], k + DK], kw), None


@scn("core.cell", in_k)
def _(p, get, ph, k, kind):
    lat, pos, num, _, B = cells.structure(p["hall"], p["mode"])
    r, t = prim_ops(p["hall"])
    # numeric part of k only enters through the code
    kw = dict(method=p.get("method", "Neto"))
    if p.get("rec"):
        kw["reciprocal_lattice"] = (cells.RECIP["shear"] @ np.linalg.inv(lat).T).copy()
    f = ("core", "get_spacegroup_irreps")
    lat2 = lat @ np.diag([1.0, 1.0, 1.0]) * 1.25
    kw2 = dict(kw, reciprocal_lattice=kw["reciprocal_lattice"] / 1.25) if p.get("rec") else kw
    return f + ([lat, pos, num, k], kw), f + ([lat2, (pos + 0.25) % 1, num[::-1].copy() * 0 + num, k + DK], kw2), None


@scn("core.spinor.primitive", in_k)
def _(p, get, ph, k, kind):
    r, t = space(p, get, k, kind)
    ambiguous(r, k)
    lat = c06.lattice0(dict(hall=p["hall"]))
    f = ("core", "get_spacegroup_spinor_irreps_from_primitive_symmetry")
    kw = dict(method=p.get("method", "Neto"))
    Q = turn(3)
    return f + ([lat, r, t], dict(kw, kpoint=k)), f + ([lat @ Q.T, r, t], dict(kw, kpoint=k + DK)), None


def turn(seed):
    rng = np.random.default_rng(seed)
    q = rng.normal(size=4)
    return c06.quat(q / np.linalg.norm(q)).astype(float)


def magnetic_lattice(u):
    P, r, t, s = G.magnetic(u)
    rc = np.unique(np.array([np.rint(np.asarray(P) @ x @ np.linalg.inv(P)).astype(int) for x in r]), axis=0)
    return np.asarray(P, dtype=float).T @ G.lattice_for(rc), r.copy(), t.copy(), s.copy()


@scn("core.spinor.magnetic", in_k)
def _(p, get, ph, k, kind):
    lat, r, t, s = magnetic_lattice(p["uni"])
    ambiguous(r, k, s)
    f = ("core", "get_spacegroup_spinor_irreps_from_primitive_symmetry")
    kw = dict(method=p.get("method", "Neto"))
    return f + ([lat, r, t], dict(kw, time_reversals=s, kpoint=k)), f + ([lat @ turn(5).T, r[::-1], t[::-1]], dict(kw, time_reversals=s[::-1], kpoint=k + DK)), None


@scn("core.spinor.cell", in_k)
def _(p, get, ph, k, kind):
    lat, pos, num, mag, B = cells.structure(p.get("hall", 0), p["mode"], p.get("uni", 0))
    f = ("core", "get_spacegroup_spinor_irreps")
    kw = dict(method=p.get("method", "Neto"))
    if p.get("uni"):
        kw["magmoms"] = mag
    return f + ([lat, pos, num], dict(kw, kpoint=k)), f + ([lat * 1.25, (pos + 0.25) % 1, num], dict(kw, kpoint=k + DK)), None


def in_list(ctx, p):
    n = len(G.pointgroups()[p["pg"]])
    return {"start": ctx.integer("start", 0, min(n, p.get("starts", 4)) - 1), "rev": ctx.integer("rev", 0, 1)}


def listed(p, get):
    R = G.pointgroups()[p["pg"]]
    n = len(R)
    s, d = int(get("start")), int(get("rev"))
    o = [(s * max(1, n // p.get("starts", 4)) + i) % n for i in range(n)]
    return R[o[::-1] if d else o].copy()


@scn("core.point", in_list)
def _(p, get, ph, k, kind):
    R = listed(p, get)
    f = ("core", "get_crystallographic_pointgroup_irreps_from_symmetry")
    kw = dict(method=p.get("method", "Neto"), real=bool(p.get("real")))
    return f + ([R], kw), f + ([R[::-1].copy()], kw), None


@scn("table", in_list)
def _(p, get, ph, k, kind):
    R = listed(p, get)
    s = np.array([0 if round(np.linalg.det(x)) > 0 else 1 for x in R])
    a = [R] + ([s] if p.get("tr") else [])
    f = ("group", p["fn"])
    if p["fn"] == "is_matrix_group":
        a = [R]
    if p["fn"] == "decompose_by_maximal_space_subgroup":
        a = [R, np.arange(3 * len(R)).reshape(-1, 3) / 7, s]
    if p["fn"] in ("get_regular_representation",):
        f, a = ("representation", p["fn"]), [R]
    if p["fn"] == "get_pointgroup_chain_generators":
        f, a = ("pointgroup", p["fn"]), [R]
    return f + (a, {}), f + ([x[::-1].copy() for x in a], {}), None


@scn("core.spinor.point", lambda ctx, p: {x: ctx.positive(x) for x in "abc"})
def _(p, get, ph, k, kind):
    R = G.pointgroups()[p["pg"]]
    z = 0.0
    lat = np.array([[get("a"), z, z], [z, get("b"), z], [z, z, get("c")]], dtype=object if kind == object else float)
    f = {"enum": ("core", "get_crystallographic_pointgroup_spinor_irreps_from_symmetry"), "fs": ("spinor", "get_spinor_factor_system"),
         "cofs": ("corep", "get_corep_spinor_factor_system"), "rot": ("spinor", "get_spinor_unitary_rotation")}[p["fn"]]
    s = np.array([0 if round(np.linalg.det(x)) > 0 else 1 for x in R])
    a, kw = [lat, R], {}
    if p["fn"] == "cofs":
        a = a + [s]
    if p["fn"] == "rot":
        a[1] = R[-1]
    if p["fn"] == "enum" and p.get("tr"):
        kw = {"time_reversals": s}
    b = [lat @ turn(2).T if kind != object else np.array(lat.dot(quarter()), dtype=object)] + [x[::-1].copy() if p["fn"] != "rot" else x for x in a[1:]]
    return f + (a, kw), f + (b, {q: v[::-1].copy() for q, v in kw.items()}), None


def quarter():
    return np.array([[0.6, 0.8, 0], [-0.8, 0.6, 0], [0, 0, 1.0]])


@scn("little", in_kt)
def _(p, get, ph, k, kind):
    """get_little_group, translations displaced by an unknown vector."""
    s = None
    if p.get("uni"):
        _, r, t, s = G.magnetic(p["uni"])
    else:
        r, t = prim_ops(p["hall"])
    ambiguous(r, k, s)
    o = np.array([get(f"p{a}") for a in range(3)], dtype=object if kind == object else float)
    t = np.array([x + o - R @ o for x, R in zip(t.astype(o.dtype), r)])
    kw = {} if s is None else {"time_reversals": s}
    f = ("group", "get_little_group")
    return f + ([r, t, k], kw), f + ([r[::-1], t[::-1] + 0, k + DK], {q: v[::-1] for q, v in kw.items()}), None


def in_little(ctx, p):
    """k on the stratum fixed by the whole group is only a point in general: k = k0 + integers, displaced origin."""
    free = p.get("free", 3)
    inp = {f"p{a}": ctx.real(f"p{a}", -2, 2) for a in range(free)}
    inp.update({f"g{a}": ctx.integer(f"g{a}") for a in range(free)})
    return inp


def little(p, get, kind):
    s = None
    if p.get("uni"):
        _, r, t, s = G.magnetic(p["uni"])
    else:
        r, t = prim_ops(p["hall"])
    k0 = np.array(p["k"], dtype=float)
    mp = oracle.little(r, k0) if s is None else oracle.little(r, k0, s)
    r, t, s = r[mp], t[mp], None if s is None else s[mp]
    dt = object if kind == object else float
    free = p.get("free", 3)
    o = np.array([get(f"p{a}") if a < free else 0 for a in range(3)], dtype=dt)
    g = np.array([get(f"g{a}") if a < free else 0 for a in range(3)], dtype=dt)
    t = np.array([x + o - R @ o for x, R in zip(t.astype(dt), r)])
    return r, t, k0 + g, s


@scn("factor", in_little)
def _(p, get, ph, k, kind):
    r, t, k, s = little(p, get, kind)
    f = ("group", "get_factor_system_from_little_group")
    a = [r, t, k] + ([s] if s is not None else [])
    b = [r, t * -1, k + DK] + ([s] if s is not None else [])
    return f + (a, {}), f + (b, {}), None


@scn("small", in_little)
def _(p, get, ph, k, kind):
    r, t, k, s = little(p, get, kind)
    kw = dict(method=p.get("method", "Neto"))
    if p.get("spin"):
        lat = c06.lattice0(dict(hall=p["hall"])) if s is None else magnetic_lattice(p["uni"])[0]
        if s is None:
            f = ("spinor", "enumerate_spinor_small_representations")
            return f + ([lat, r, t, k], kw), f + ([lat @ turn(4).T, r, t, k + DK], kw), None
        f = ("corep", "enumerate_spinor_small_corepresentations")
        return f + ([lat, r, t, s, k], kw), f + ([lat @ turn(4).T, r, t, s, k + DK], kw), None
    f = ("irreps", "enumerate_small_representations")
    kw["real"] = bool(p.get("real"))
    return f + ([r, t, k], kw), f + ([r, t, k + DK], kw), None


@scn("check", in_little)
def _(p, get, ph, k, kind):
    r, t, k, s = little(p, get, kind)
    R, om = base_cocycle(dict(hall=p["hall"], k=p["k"]))
    rep = oracle.irreps(R, om)[-1].astype(complex)
    f = ("representation", "check_spacegroup_representation")
    return f + ([r, t, k, rep], {}), f + ([r, t, k + DK, rep.conj()], {}), None


def in_fs(ctx, p):
    return {f"b{i}": ctx.real(f"b{i}", 0, 1) for i in p["free"]}


def fs(p, ph):
    R, om = base_cocycle(p)
    e = c23.identity(R)
    b = [1.0 if i == e or i not in p["free"] else ph(f"b{i}") for i in range(len(R))]
    return R, gauge(om, oracle.table(R), b), b, om


@scn("projective", in_fs)
def _(p, get, ph, k, kind):
    R, z, b, om = fs(p, ph)
    z2 = om.astype(complex)
    f = ("irreps", "enumerate_unitary_irreps")
    kw = dict(method=p.get("method", "Neto"))
    if p["fn"] == "regular":
        f, kw = ("representation", "get_projective_regular_representation"), {}
    if p["fn"] == "cocycle":
        f, kw = ("group", "check_cocycle_condition"), {}
    if p["fn"] == "chain":
        T = oracle.table(R)
        gens = [int(x) for x in real("pointgroup").get_pointgroup_chain_generators(R)]
        f = ("irreps", "enumerate_unitary_irreps_from_solvable_group_chain")
        return f + ([T, z, gens], {}), f + ([T, z2, gens], {}), None
    if p["fn"] == "fromreg":
        reg = np.zeros((len(R),) * 3, dtype=object if kind == object else complex)
        T = oracle.table(R)
        for i, j in np.ndindex(*T.shape):
            reg[i, T[i, j], j] = z[i, j]
        f = ("irreps", "enumerate_unitary_irreps_from_regular_representation")
        reg2 = np.where(np.abs(reg) > 0.5, 1.0 + 0j, 0) if kind != object else np.array([[[0j if not isinstance(x, V.Sym) and abs(x) < 0.5 else 1 + 0j for x in row] for row in m] for m in reg])
        return f + ([reg], {}), f + ([reg2], {}), b
    return f + ([R, z], kw), f + ([R, z2], kw), b if p.get("method") == "random" else None


def in_dec(ctx, p):
    _, _, _, rep = c23.parts(p)
    out = {f"x{i}": ctx.real(f"x{i}", 0, 1) for i in range(1, rep.shape[1])}
    out.update({f"b{i}": ctx.real(f"b{i}", 0, 1) for i in p["free"]})
    return out


@scn("decompose", in_dec)
def _(p, get, ph, k, kind):
    R, z, sel, rep, b, x = c23.C(**p).build(ph, kind)
    R, om, sel, rep0 = c23.parts(p)
    if p["fn"] == "decompose":
        f = ("irreps", "decompose_representation")
        return f + ([rep], {}), f + ([rep0], {}), x
    if p["fn"] == "is_unitary":
        f = ("representation", "is_unitary")
        return f + ([rep], {}), f + ([rep0 * 2], {}), None
    if p["fn"] == "is_representation":
        f = ("representation", "is_representation")
        return f + ([rep, oracle.table(R), z], {}), f + ([rep0, oracle.table(R), np.ones_like(om) * 1.0], {}), None
    if p["fn"] == "character":
        f = ("representation", "get_character")
        return f + ([rep], {}), f + ([rep0], {}), None
    if p["fn"] == "equivalent":
        ch = np.array([sum((m[i, i] for i in range(len(m))), 0) for m in rep], dtype=object if kind == object else complex)
        f = ("irreps", "is_equivalent_irrep")
        return f + ([ch, ch], {}), f + ([ch, ch * 0 + 1], {}), None
    if p["fn"] == "product":
        f = ("representation", "get_direct_product")
        return f + ([rep, rep], {}), f + ([rep0, rep], {}), None
    if p["fn"] == "intertwiner":
        f = ("representation", "get_intertwiner")
        return f + ([rep, rep], {}), f + ([rep0, rep0], {}), x
    if p["fn"] == "indicator":
        f = ("representation", "frobenius_schur_indicator")
        return f + ([rep], {}), f + ([rep0 * -1], {}), None
    if p["fn"] == "physical":
        f = ("irreps", "get_physically_irrep")
        ind = int(round(np.mean([np.trace(m @ m) for m in rep0]).real))
        kw = {}
        return f + ([rep, ind], kw), f + ([rep0, ind], kw), x
    raise KeyError(p["fn"])


@scn("project", lambda ctx, p: c11.C(**p).inputs(ctx))
def _(p, get, ph, k, kind):
    rep, D, m = c11.C(**p).build(ph, kind)
    rep0, D0, _ = c11.C(**p).build(lambda q: 1.0, complex)
    f = ("representation", "project_to_irrep")
    return f + ([rep, D], {}), f + ([rep0, D0], {}), None


def in_tensor(ctx, p):
    return {f"x{i}": ctx.real(f"x{i}", 0, 1) for i in range(1, 3)}


@scn("tensor", in_tensor)
def _(p, get, ph, k, kind):
    R, rep0 = c12.base(p)
    d = rep0.shape[1]
    x = [1.0] + [ph(f"x{i}") if i < 3 else 1.0 for i in range(1, d)]
    rep = np.zeros(rep0.shape, dtype=kind)
    for q, i, j in np.ndindex(*rep0.shape):
        if abs(rep0[q, i, j]) > 1e-12:
            v = complex(rep0[q, i, j]) * np.conj(x[i]) * x[j]
            rep[q, i, j] = V.norm(v).simp() if isinstance(v, V.Sym) else v
    f = ("tensor", "get_symmetry_adapted_tensors")
    return f + ([rep, R, p["rank"]], {}), f + ([rep0, R, p["rank"]], {}), None


def in_intrinsic(ctx, p):
    out = {"s": ctx.positive("s"), "f": ctx.real("f", 0, 1)}
    return out


@scn("intrinsic", in_intrinsic)
def _(p, get, ph, k, kind):
    rng = np.random.default_rng(1)
    ts = []
    for q in range(p["n"]):
        t = rng.integers(-2, 3, size=(2,) * p["rank"]).astype(complex)
        c = get("s") * ph("f") if q == 0 else 1.0
        ts.append(np.array([V.norm(V.Sym.lift(c * complex(x))).simp() if kind == object else c * x for x in t.ravel()], dtype=kind).reshape(t.shape))
    f = ("tensor", "apply_intrinsic_symmetry")
    return f + ([ts], {}), f + ([[np.eye(2).astype(complex) if p["rank"] == 2 else np.ones((2,) * p["rank"], dtype=complex)]], {}), None


def in_purify(ctx, p):
    out = {"atol": ctx.real("atol", 1e-4, 0.05), "x": ctx.real("x", -1.2, 1.2)}
    if p["fn"] == "purify_irrep_value":
        out["y"] = ctx.real("y", -0.1, 0.1)
    return out


@scn("purify", in_purify)
def _(p, get, ph, k, kind):
    cx = p["fn"] == "purify_irrep_value"
    a = np.array([[[0.3, 1.0], [-0.5, 0.2]]] * 2, dtype=object if kind == object else (complex if cx else float))
    a[1, 0, 1] = get("x") + (get("y") * 1j if cx else 0)
    f = ("irreps", p["fn"])
    return f + ([a], {"atol": get("atol")}), f + ([np.array([[[0.99, 0.0], [0.0, 1.01]]]) + (0j if cx else 0)], {"atol": 0.02}), None


def in_trans(ctx, p):
    out = in_k(ctx, p)
    for i in range(2):
        for a in range(3):
            out[f"t{i}{a}"] = ctx.real(f"t{i}{a}", -1, 2)
    return out


@scn("transform", in_trans)
def _(p, get, ph, k, kind):
    dt = object if kind == object else float
    P, r, t = G.primitive(p["hall"])
    rc = G.conventional(p["hall"])[0]
    R = rc[[0, len(rc) - 1]] if p["fn"] == "transform_symmetry_and_kpoint" else rc[[0, 0]]
    T = np.array([[get(f"t{i}{a}") for a in range(3)] for i in range(2)], dtype=dt)
    f = ("transform", p["fn"])
    if p["fn"] == "transform_symmetry_and_kpoint":
        return f + ([np.array(P, dtype=float), R, T, k], {}), f + ([np.eye(3), R, T, k + DK], {}), None
    s = np.array([0, 1])
    kw = {"time_reversals": s} if p.get("tr") else {}
    return f + ([R, T], kw), f + ([R[::-1].copy(), T + 1], kw), None


@scn("primmat", lambda ctx, p: {"h": ctx.integer("h", 0, 9)})
def _(p, get, ph, k, kind):
    h = 1 + 53 * int(get("h")) + p["off"]
    f = ("transform", "get_primitive_transformation_matrix")
    return f + ([h], {}), f + ([1 + (h + 100) % 530], {}), None


def in_dist(ctx, p):
    return {f"x{i}": ctx.real(f"x{i}", 0, 1) for i in range(3)}


@scn("distance", in_dist)
def _(p, get, ph, k, kind):
    U = np.round(oracle.random_unitary(3, 8), 3)
    x = [ph(f"x{i}") for i in range(3)]
    dt = object if kind == object else complex
    a = np.array([[complex(U[i, j]) * x[j] for j in range(3)] for i in range(2)], dtype=dt)
    b = np.array([[complex(U[i, j]) * x[j] for j in range(3)] for i in (1, 2)], dtype=dt)
    if p["fn"] == "mode_dot":
        f = ("utils", "mode_dot")
        c = np.arange(9.0).reshape(3, 3) + 0j
        return f + ([c, [a, b]], {}), f + ([c * 2, [np.eye(3), np.eye(3)]], {}), None
    f = ("utils", "grassmann_distance")
    return f + ([a, b], {"ord": p["ord"]}), f + ([np.eye(3)[:2] + 0j, np.eye(3)[1:] + 0j], {"ord": p["ord"]}), None


class ScnK(Scn):
    opts = {"max_enum": 64}


JOB_BUDGET = {"quick": 40, "thorough": 240}


def make(**p):
    return (ScnK if p["what"].startswith("core.") or p["what"] in ("little", "factor", "check", "transform") else Scn)(**p)


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    J = lambda what, **p: out.append(dict(what=what, **p))
    halls = [1, 2, 4, 6, 8, 21, 39, 57, 81, 112, 116, 122, 130, 278, 298, 349, 351, 366, 376, 430, 435, 446, 460, 463, 468, 489, 497] if q else QUICK_HALLS
    for i, h in enumerate(halls):
        n = len(G.primitive(h)[1])
        J("core.primitive", hall=h, method="Neto")
        if n <= (8 if q else 16):
            J("core.primitive", hall=h, method="random")
            J("core.spinor.primitive", hall=h, method="random" if i % 3 == 0 else "Neto")
        elif n <= 12 or not q:
            J("core.spinor.primitive", hall=h, method="Neto")
        if n <= 8 and (i % 5 == 1 or not q):
            J("core.primitive", hall=h, method="Neto", tiny=[0, 2])
            J("core.spinor.primitive", hall=h, method="Neto", tiny=[1])
        if n <= 8:
            J("little", hall=h)
            if i % 3 == 0 or not q:
                J("core.primitive", hall=h, method="Neto", real=1)
    for i, h in enumerate([4, 21, 57, 122, 349, 433] if q else halls[::2]):
        J("core.cell", hall=h, mode=["conv", "perm", "shear"][i % 3] if q else ["conv", "perm", "shear", "flip", "shift"][i % 5], rec=i % 2)
        if i % 2 == 0:
            J("core.spinor.cell", hall=h, mode="conv")
    for i, u in enumerate(QUICK_UNIS[1:100:8] if q else QUICK_UNIS[1:140:2]):
        if len(G.magnetic(u)[1]) <= (8 if q else 16):
            J("core.spinor.magnetic", uni=u, method="random" if i % 3 == 0 else "Neto")
            J("little", uni=u)
    for u in ([10, 60] if q else QUICK_UNIS[4:40:5]):
        J("core.spinor.cell", uni=u, mode="conv")
    pgs = ["2/m", "222", "mmm", "4", "-42m", "3", "-3", "32" if "32" in G.pointgroups() else "321", "6", "622", "23", "432"] if q else list(G.pointgroups())
    for pg in pgs:
        for m in ("Neto", "random"):
            J("core.point", pg=pg, method=m, starts=2 if q else 6)
        J("core.point", pg=pg, real=1, starts=2 if q else 6)
    for pg in ["mmm", "-42m", "321"] if q else ["mmm", "-42m", "321", "622", "m-3", "-43m"]:
        for fn in ("get_cayley_table", "is_matrix_group", "get_regular_representation", "get_pointgroup_chain_generators", "decompose_by_maximal_space_subgroup"):
            if fn == "decompose_by_maximal_space_subgroup" and pg == "321":
                continue
            J("table", pg=pg, fn=fn, starts=2)
        J("table", pg=pg, fn="get_cayley_table", tr=1, starts=2)
    for pg in ["2/m", "222", "mmm"]:
        for fn in ("fs", "enum", "rot", "cofs"):
            J("core.spinor.point", pg=pg, fn=fn)
        if pg != "222":
            J("core.spinor.point", pg=pg, fn="enum", tr=1)
    for h, k in [(6, (0, 0.5, 0)), (21, (0, 0, 0.5)), (116, (0.5, 0, 0)), (130, (0, 0, 0)), (57, (0, 0, 0.5)), (278, (0.5, 0.5, 0)), (366, (0, 0, 0.5)), (435, (0, 0, 0.5))]:
        if q and h in (366, 435):
            continue
        J("factor", hall=h, k=k)
        J("check", hall=h, k=k)
        J("small", hall=h, k=k, method="Neto", free=1)
        J("small", hall=h, k=k, method="Neto", spin=1, free=1)
        if h in (6, 116, 57):
            J("small", hall=h, k=k, method="Neto", real=1, free=1)
    for u in [10, 60, 99]:
        for k in [(0, 0, 0), (0.5, 0, 0)]:
            J("factor", uni=u, k=k)
            J("small", uni=u, k=k, spin=1, free=1)
    for pg in ["2", "222", "4", "321", "mmm", "422"]:
        n = len(G.pointgroups()[pg])
        free = [1, n - 1] if n > 2 else [1]
        for spin in (0, 1):
            for fn, m in (("enum", "Neto"), ("enum", "random"), ("regular", ""), ("cocycle", ""), ("chain", ""), ("fromreg", "")):
                if n > 6 and m == "random" and q:
                    continue
                J("projective", pg=pg, spin=spin, free=free, fn=fn, method=m)
    for pg, sm in [("222", [(1, 1)]), ("4", [(1, 1)]), ("222", [(0, 1), (1, 1)]), ("321", [(2, 1)]), ("321", [(0, 1), (2, 1)]), ("4", [(1, 1), (2, 1)]), ("23", [(3, 1)]), ("422", [(4, 1)])]:
        for basis in (0, 1):
            for fn in ("decompose", "is_unitary", "is_representation", "character", "equivalent", "product", "indicator", "intertwiner", "physical"):
                single = len(sm) == 1
                if fn == "physical" and pg not in ("222", "4"):
                    continue  # larger ones run through the real=1 jobs of core
                if fn in ("intertwiner", "physical", "indicator") and not single:
                    continue
                if fn == "product" and basis and len(sm) > 1:
                    continue
                J("decompose", pg=pg, sum=sm, basis=basis, free=[1] if fn not in ("physical", "product") else [], fn=fn)
        J("project", pg=pg, sum=sm, basis=0, free=[1], irrep=sm[-1][0])
    for pg in ["222", "4", "321", "-42m"]:
        for rank in (1, 2):
            J("tensor", pg=pg, order="db", sum="vector", basis=0, rank=rank)
    for n in (1, 2):
        for rank in (2, 3):
            J("intrinsic", n=n, rank=rank)
    for fn in ("purify_irrep_value", "purify_real_irrep_value"):
        J("purify", fn=fn)
    for h in (21, 122, 433, 460, 512):
        J("transform", hall=h, fn="transform_symmetry_and_kpoint")
        J("transform", hall=h, fn="unique_primitive_symmetry", tr=h % 2)
    for off in (0, 17, 40):
        J("primmat", off=off)
    J("distance", fn="mode_dot", ord="")
    for o in ("min", "projection"):
        J("distance", fn="grassmann", ord=o)
    return out
