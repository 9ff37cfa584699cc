"""C25: origin, listed lattice translations and order of the operations are conventions."""
from checks.c24 import C as Base, FUNCTIONS, same  # noqa: F401
from checks.common import *

UNKNOWNS = "k in R^3 (three reals plus three unbounded integers), the shift of the origin in R^3, an unbounded lattice translation in Z^3 added to one listed operation"
BOUNDS = ("space groups and magnetic groups listed in the jobs, one reordering of the operations per job, fixed integer lattice translations added to all operations, an unknown one to one of them; "
          "unknown origin and unknown translation in separate jobs; chain construction (the other one in jobs with an unknown translation)")


class C(Base):
    opts = {"eager_den": 1, "complex_order": "any"}

    def inputs(self, ctx):
        p = self.params
        inp = {}
        if "k" in p:
            self.k = [float(v) for v in p["k"]]
        elif p["free"] == "origin":
            inp = {f"k{i}": ctx.real(f"k{i}", 0, 1) for i in range(3)}
            self.k = [inp[f"k{i}"] for i in range(3)]
        else:
            inp, self.k = laws.kvec(ctx)
        self.x = []
        for i in range(3):
            if "x" in p:
                self.x.append(p["x"][i])
                continue
            name = f"o{i}" if p["free"] == "origin" else f"n{i}"
            inp[name] = ctx.real(name) if p["free"] == "origin" else ctx.integer(name)
            self.x.append(inp[name])
        return inp

    def wave(self):
        return np.array(self.k) if "k" in self.params else SA(np.array(self.k, dtype=object))

    def moved(self, r, t, s, x):
        """Translations of the other description (in the original order), and the lattice translations in it."""
        p = self.params
        n = len(r)
        d = G.lattice_shifts(r, s, "shuf5").astype(int)
        t2 = [[float(t[i, a]) + int(d[i, a]) for a in range(3)] for i in range(n)]
        lt = [[int(v) for v in d[i]] for i in range(n)]
        if p["free"] == "origin":
            for i in range(n):
                M = r[i] - np.eye(3, dtype=int)
                for a in range(3):
                    for b in range(3):
                        if M[a, b]:
                            t2[i][a] = t2[i][a] + int(M[a, b]) * x[b]
        else:
            i = p["op"]
            for a in range(3):
                t2[i][a] = t2[i][a] + x[a]
                lt[i][a] = lt[i][a] + x[a]
        return t2, lt

    def order2(self, n):
        return G.order_ops(n, self.params["order2"])

    def symbolic(self, ctx, L, inp, obl):
        lat, r, t, s = self.data()
        core = L.mods["spgrep.core"]

        def run(f, *a, **kw):
            return f(*a, **kw)

        reps, mp, U = self.compute(core, lat, r, t, s, self.wave(), SA, run)
        t2, lt = self.moved(r, t, s, self.x)
        o = self.order2(len(r))
        t2 = np.array(t2, dtype=object)[o]
        reps2, mp2, U2 = self.compute(core, lat, r[o], t2, s[o], self.wave(), SA, run)
        back = [int(o[j]) for j in mp2]
        ok = sorted(back) == list(mp)
        obl.true("same little group", ok)
        if not ok:
            return
        signs = self.signs2(U, mp, U2, back)
        obl.true("spin matrices equal up to sign", signs is not None)
        if signs is None:
            return
        carried = self.carry(reps, mp, back, signs, lt, self.k, lambda e: laws.phase(e[0]))
        lin = [q for q, j in enumerate(back) if not s[j]]
        same(ctx, obl, [x[lin] for x in carried], [laws.raw(x)[lin] for x in reps2], len(lin))

    def signs2(self, U, mp, U2, back):
        if U is None:
            return [1.0] * len(back)
        out = []
        for q, j in enumerate(back):
            c = np.trace(U2[q] @ U[mp.index(j)].conj().T) / 2
            if abs(abs(c.real) - 1) > 1e-5:
                return None
            out.append(float(np.sign(c.real)))
        return out

    def carry(self, reps, mp, back, signs, lt, k, phase):
        """Representations of the first description in the order (and with the lattice translations) of the second."""
        out = []
        for rep in reps:
            x = laws.raw(rep)
            y = np.empty((len(back),) + x.shape[1:], dtype=object)
            for q, j in enumerate(back):
                e = sum((-1) * k[a] * lt[j][a] for a in range(3))
                f = phase([e]) if isinstance(e, V.Sym) or e else 1.0
                m = x[mp.index(j)]
                for a, b in np.ndindex(m.shape):
                    y[q, a, b] = m[a, b] * signs[q] * f
            out.append(y if any(isinstance(v, V.Sym) for v in y.ravel()) else y.astype(complex))
        return out

    def concrete(self, vals):
        lat, r, t, s = self.data()
        p = self.params
        k = np.array(p["k"] if "k" in p else [vals[f"k{i}"] + vals.get(f"kn{i}", 0) for i in range(3)], dtype=float)
        if oracle.ambiguous(r, k, s):
            return None
        free = self.params["free"]
        x = p["x"] if "x" in p else [float(vals[f"{'o' if free == 'origin' else 'n'}{i}"]) for i in range(3)]
        if max(abs(v) for v in x) > 1e4:
            return None
        reps, mp, U = self.compute(real("core"), lat, r, t, s, k.copy(), np.asarray, call)
        t2, lt = self.moved(r, t, s, x)
        o = self.order2(len(r))
        reps2, mp2, U2 = self.compute(real("core"), lat, r[o], np.array(t2, dtype=float)[o], s[o], k.copy(), np.asarray, call)
        back = [int(o[j]) for j in mp2]
        if sorted(back) != list(mp):
            return f"little groups {sorted(back)} and {list(mp)} (in the original order)"
        signs = self.signs2(U, mp, U2, back)
        if signs is None:
            return "spin matrices differ by more than a sign"
        carried = self.carry(reps, mp, back, signs, lt, list(k), lambda e: np.exp(2j * np.pi * e[0]))
        lin = [q for q, j in enumerate(back) if not s[j]]
        return oracle.match_chars([x[lin] for x in carried], [np.asarray(x)[lin] for x in reps2], len(lin))


def make(**p):
    return C(**p)


def waves(r):
    """Wave vectors with different little co-groups, largest first."""
    best = {}
    for k in [list(x) for x in SPECIAL_K] + [[0.25, 0.25, 0.25], [0.125, 0.125, 0.375], [0.2, 0.0, 0.5], [0.0, 0.125, 0.0]]:
        best.setdefault(tuple(oracle.little(r, np.array(k))), [float(v) for v in k])
    return [best[m] for m in sorted(best, key=lambda m: (-len(m), m)) if any(best[m])][:4]


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    orders = ["db", "shuf1", "rev", "shuf2"]
    groups = [("hall", h) for h in (QUICK_HALLS if not th else sorted(set(G.default_halls()) | set(QUICK_HALLS)))]
    groups += [("uni", u) for u in (QUICK_UNIS[1::4] if not th else QUICK_UNIS)]
    for i, (w, g) in enumerate(groups):
        r, t = (G.primitive(g) if w == "hall" else G.magnetic(g))[1:3]
        n = len(r)
        if not th and n > (24 if w == "hall" else 16):
            continue
        op = next((q for q in range(n - 1, -1, -1) if not (r[q] == np.eye(3)).all()), None)
        kind = "corep" if w == "uni" else "spin" if i % 3 == 2 else "single"
        base = {"kind": kind, "order": "db", w: g}
        ks = waves(r)
        out.append(dict(base, free="origin", x=[0.125, 0.25, 0.375], method="Neto", order2=orders[i % 4]))
        for q, k in enumerate(ks if th else [ks[i % len(ks)], ks[(i + 1) % len(ks)]] if len(ks) > 1 else ks):
            out.append(dict(base, free="origin", k=k, method="Neto", order2=orders[(i + q + 1) % 4]))
            if op is not None:
                out.append(dict(base, free="lattice", k=k, op=op, method="random" if n <= 8 and i % 3 == 1 else "Neto", order2=orders[(i + q + 2) % 4]))
        if op is not None:
            out.append(dict(base, free="lattice", x=[1, -2, 3], op=op, method="Neto", order2=orders[(i + 3) % 4]))
    out.sort(key=lambda j: -len((G.magnetic(j["uni"]) if "uni" in j else G.primitive(j["hall"]))[1]))
    return out
