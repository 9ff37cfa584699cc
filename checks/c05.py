"""C05: projective irreps for every equivalent choice of factor system."""
from checks.common import *

FUNCTIONS = ["irreps.enumerate_unitary_irreps", "irreps.enumerate_unitary_irreps_from_solvable_group_chain", "irreps.enumerate_unitary_irreps_from_regular_representation",
             "irreps._get_irreps_from_matrix", "irreps.enumerate_small_representations", "irreps.purify_irrep_value", "pointgroup.get_pointgroup_chain_generators",
             "representation.get_intertwiner", "representation.get_projective_regular_representation", "group.get_cayley_table", "utils.nroot"]
UNKNOWNS = "one phase per operation (coboundary on top of the base factor system); for space groups the shift of the origin in R^3 (and k in R^3 for some)"
BOUNDS = ("point groups up to order 48 with up to three (thorough: all up to order 8, six above) operations carrying unknown phases at once, the others numeric pseudo-random phases; base classes trivial, spinor, "
          "zone-boundary little co-groups; space groups listed in the jobs")


def numeric_phases(n, seed):
    rng = np.random.default_rng(1000 + seed)
    return rng.random(n)


def identity(R):
    return next(i for i in range(len(R)) if (R[i] == np.eye(3)).all())


class C(Case):
    opts = {"eager_den": 1, "complex_order": "any"}

    def inputs(self, ctx):
        return {f"b{i}": ctx.real(f"b{i}", 0, 1) for i in self.params["free"]}

    def phases(self, get):
        p = self.params
        R, _ = base_cocycle(p)
        x = numeric_phases(len(R), p["seed"]) if p["others"] == "random" else np.zeros(len(R))
        e = identity(R)
        return [1.0 if i == e else get(i) if i in p["free"] else complex(np.exp(2j * np.pi * x[i])) for i in range(len(R))]

    def symbolic(self, ctx, L, inp, obl):
        p = self.params
        R, om = base_cocycle(p)
        b = self.phases(lambda i: laws.phase(inp[f"b{i}"]))
        z = gauge(om, oracle.table(R), b)
        irreps, _ = gauge_draws(ctx, b, lambda: L.mods["spgrep.irreps"].enumerate_unitary_irreps(R.copy(), SA(z.copy(), "c"), method=p["method"]))
        laws.rep_obligations(ctx, obl, irreps, R, np.zeros((len(R), 3)), [0.0] * 3, om=z)

    def concrete(self, vals):
        p = self.params
        R, om = base_cocycle(p)
        n = len(R)
        z = gauge(om, oracle.table(R), self.phases(lambda i: np.exp(2j * np.pi * vals[f"b{i}"])))
        irreps, _ = call(real("irreps").enumerate_unitary_irreps, R.copy(), z.copy(), method=p["method"])
        return oracle.rep_list(irreps, R, np.zeros((n, 3)), np.zeros(3), om=z) or oracle.complete(irreps, n)


class Origin(Case):
    """Little group of a space group with the origin moved by an unknown vector."""

    opts = {"eager_den": 1, "complex_order": "any"}

    def ops(self):
        p = self.params
        r, t = prim_ops(p["hall"], p.get("order", "db"))
        mp = oracle.little(r, np.array(p["k"]))
        return r[mp], t[mp]

    def inputs(self, ctx):
        return {f"o{a}": ctx.real(f"o{a}", 0, 1) for a in range(3)}

    def moved(self, o, kind):
        r, t = self.ops()
        out = np.empty(t.shape, dtype=kind)
        for i in range(len(r)):
            for a in range(3):
                out[i, a] = t[i, a] - sum(int(r[i][a, b]) * o[b] for b in range(3)) + o[a]
        return out

    def symbolic(self, ctx, L, inp, obl):
        p = self.params
        r, _ = self.ops()
        t = self.moved([inp[f"o{a}"] for a in range(3)], object)
        k = np.array(p["k"], dtype=float)
        b = [laws.phase(sum((-float(x) * inp[f"o{a}"] for a, x in enumerate(R.T @ k - k)), 0.0)) for R in r]
        irreps, _ = gauge_draws(
            ctx, b, lambda: L.mods["spgrep.irreps"].enumerate_small_representations(r.copy(), SA(t.copy(), "f"), k.copy(), method=p["method"])
        )
        laws.rep_obligations(ctx, obl, irreps, r, t, [float(x) for x in k])

    def concrete(self, vals):
        p = self.params
        r, _ = self.ops()
        t = self.moved([vals[f"o{a}"] for a in range(3)], float)
        k = np.array(p["k"], dtype=float)
        irreps, _ = call(real("irreps").enumerate_small_representations, r.copy(), t.copy(), k.copy(), method=p["method"])
        return oracle.rep_list(irreps, r, t, k) or oracle.complete(irreps, len(r))


def make(**p):
    return Origin(**p) if p.get("origin") else C(**p)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    cases = []
    for q, pg in enumerate(G.pointgroups()):
        for spin in (0, 1):
            cases.append(dict(pg=pg, spin=spin, order=["db", "rev", "shuf1", "shuf2"][(q + spin) % 4]))
    for h, k in nontrivial_cocycles(QUICK_HALLS if not th else G.default_halls()):
        cases.append(dict(hall=h, k=k, order="db"))
    for q, c in enumerate(cases):
        n = len(base_cocycle(c)[0])
        for m in ("Neto", "random"):
            if m == "random" and n > (12 if not th else 48):
                continue
            w = 3 if not th else (n if n <= 8 else 6)
            rng = np.random.default_rng(q + 17 * (m == "random"))
            e = identity(base_cocycle(c)[0])
            rest = [i for i in range(n) if i != e]
            sets = [sorted(int(x) for x in rng.choice(rest, min(w, n - 1), replace=False)) if n > 4 else rest]
            for others in ("zero", "random"):
                out.append(dict(c, method=m, free=sets[0], others=others, seed=q))
    for h, k in nontrivial_cocycles(QUICK_HALLS if not th else G.default_halls()):
        n = len(base_cocycle({"hall": h, "k": k})[0])
        out.append(dict(origin=1, hall=h, k=k, method="Neto"))
        if n <= 12 or th:
            out.append(dict(origin=1, hall=h, k=k, method="random"))
    out.sort(key=lambda j: -len(base_cocycle(j)[0]))
    return out
