"""C24: symmetry-related wave vectors carry corresponding representations."""
from checks import c06
from checks.common import *

FUNCTIONS = ["core.get_spacegroup_irreps_from_primitive_symmetry", "core.get_spacegroup_spinor_irreps_from_primitive_symmetry", "group.get_little_group",
             "group.get_factor_system_from_little_group", "irreps.enumerate_small_representations", "spinor.enumerate_spinor_small_representations",
             "irreps.enumerate_unitary_irreps", "corep.enumerate_spinor_small_corepresentations"]
UNKNOWNS = "k in R^3 (three reals plus three unbounded integers)"
BOUNDS = ("space groups listed in the jobs, for each of them two operations h relating k to hk (quick), complex conjugation relating k to -k; single-valued, double-valued and "
          "(magnetic groups, linear and anti-linear h) co-representations")


def spin(lat, r, s=None):
    """Spin matrices (numbers) of operations, those with time reversal followed by -i sigma_y K."""
    U = spin_signs_at(lat, r)
    Y = np.array([[0, -1], [1, 0]])
    return U if s is None else np.array([u @ Y if x else u for u, x in zip(U, s)])


def spin_signs_at(lat, rots):
    U = []
    for r in rots:
        c = lat.T @ (r * round(np.linalg.det(r))) @ np.linalg.inv(lat.T)
        a = np.einsum("iab,ij,jbc->ac", oracle.PAULI, c, oracle.PAULI)  # sum_ij C_ij s_i s_j = u up to a factor
        # u sigma_j u^-1 = sum_i C_ij sigma_i: u is the one-dimensional solution space
        A = np.concatenate([np.kron(np.eye(2), oracle.PAULI[j].T) - np.kron(sum(c[i, j] * oracle.PAULI[i] for i in range(3)), np.eye(2)) for j in range(3)])
        u = np.linalg.svd(A)[2][-1].conj().reshape(2, 2)
        u = u / np.sqrt(np.linalg.det(u))
        U.append(u)
    return np.array(U)


class C(Case):
    def data(self):
        p = self.params
        if "uni" in p:
            P, r, t, s = G.magnetic(p["uni"])
        else:
            P, r, t = G.primitive(p["hall"])
            s = np.zeros(len(r), dtype=int)
        o = G.order_ops(len(r), p.get("order", "db"))
        lat = G.lattice_for(r)
        return lat, r[o].copy(), t[o] + G.lattice_shifts(r[o], s[o], p.get("order", "db")), s[o].copy()

    def inputs(self, ctx):
        inp, self.k = laws.kvec(ctx)
        return inp

    def compute(self, core, lat, r, t, s, k, wrapf, run):
        """(representations, little indices, spin matrices or None)"""
        p = self.params
        if p["kind"] == "single":
            reps, mp = run(core.get_spacegroup_irreps_from_primitive_symmetry, r.copy(), wrapf(t.copy()), k, method=p["method"])
            U = None
        elif p["kind"] == "spin":
            reps, _, U, mp = run(core.get_spacegroup_spinor_irreps_from_primitive_symmetry, wrapf(lat.copy()), r.copy(), wrapf(t.copy()), kpoint=k, method=p["method"])
        else:
            reps, _, _, U, _, mp = run(core.get_spacegroup_spinor_irreps_from_primitive_symmetry, wrapf(lat.copy()), r.copy(), wrapf(t.copy()), s.copy(), k, method=p["method"])
        return reps, [int(x) for x in laws.raw(mp)], None if U is None else np.asarray(laws.raw(U), dtype=complex)

    def image(self, k, r, s):
        """Wave vector related to k by the operation of the job (or by conjugation)."""
        if self.params["h"] == "conj":
            return [-x for x in k]
        h = self.params["h"]
        M = np.linalg.inv(r[h]).T.round().astype(int) * (-1 if s[h] else 1)
        return [sum(int(M[i, j]) * k[j] for j in range(3) if M[i, j]) + 0 * k[0] for i in range(3)]

    def carried(self, lat, r, t, s, mp, U):
        """For every operation g of the little group of k: index of h g h^-1 in the whole list, lattice translation by which it differs, spin sign."""
        h = self.params["h"]
        out = []
        if h == "conj":
            return [(i, np.zeros(3), 1.0) for i in mp]
        inv = np.linalg.inv(r[h]).round().astype(int)
        Uh = spin(lat, r[[h]], s[[h]])[0] if U is not None else None
        for g in mp:
            R = r[h] @ r[g] @ inv
            T = r[h] @ (t[g] + r[g] @ (-inv @ t[h])) + t[h]
            j = next(x for x in range(len(r)) if (r[x] == R).all() and s[x] == s[g])
            d = T - t[j]
            assert np.abs(d - np.rint(d)).max() < 1e-6
            out.append((j, np.rint(d), None))
        return out

    def signs(self, lat, r, s, pairs, mp, U, mp2, U2):
        """Signs c with U_h U_g U_h^-1 = c U'_(hgh^-1); U, U' as returned at the two wave vectors."""
        h = self.params["h"]
        if U is None:
            return [1.0] * len(pairs)
        if h == "conj":
            # conjugate representation: U -> sigma_y-transformed, i.e. the conjugate of a spin matrix is equivalent to itself
            Y = np.array([[0, -1], [1, 0]])
            X = [Y @ u.conj() @ Y.T for u in U]
        else:
            Uh = spin(lat, r[[h]], s[[h]])[0]
            X = []
            for q, g in enumerate(mp):
                # (Uh K^a)(Ug K^b)(Uh K^a)^-1
                ug = U[q].conj() if s[h] else U[q]
                w = np.linalg.inv(Uh)
                if s[h]:
                    w = w.conj()
                # (Uh K^a)^-1 = K^a Uh^-1 = conj^a(Uh^-1) K^a
                if s[h] ^ s[g]:
                    w = w.conj()
                X.append(Uh @ ug @ w)
        out = []
        for (j, _, _), x in zip(pairs, X):
            u = U2[mp2.index(j)]
            c = np.trace(x @ u.conj().T) / 2
            if abs(abs(c.real) - 1) > 1e-5:
                return None
            out.append(float(np.sign(c.real)))
        return out

    def transport(self, reps, pairs, signs, mp2, k2, conj, phase):
        """Representations at k carried over to k2, in the order of mp2."""
        pos = {j: i for i, (j, _, _) in enumerate(pairs)}
        out = []
        for rep in reps:
            x = laws.raw(rep)
            y = np.empty(x.shape, dtype=object)
            for q, j in enumerate(mp2):
                i = pos[j]
                m = x[i].conj() if conj else x[i]
                # D'(h g h^-1) = c D(g), and h g h^-1 = (lattice translation T)(listed operation)
                f = phase([sum(a * int(b) for a, b in zip(k2, pairs[i][1]) if b)]) if pairs[i][1].any() else 1.0
                for a, b in np.ndindex(m.shape):
                    y[q, a, b] = m[a, b] * signs[i] * f
            out.append(y if any(isinstance(v, V.Sym) for v in y.ravel()) else y.astype(complex))
        return out

    def judge_sets(self, mp, mp2, pairs):
        return sorted(j for j, _, _ in pairs) == list(mp2)

    def conj(self, s):
        h = self.params["h"]
        return h == "conj" or bool(s[h])

    def symbolic(self, ctx, L, inp, obl):
        lat, r, t, s = self.data()
        core = L.mods["spgrep.core"]
        k2 = self.image(self.k, r, s)

        def run(f, *a, **kw):
            return f(*a, **kw)

        reps, mp, U = self.compute(core, lat, r, t, s, SA(np.array(self.k, dtype=object)), SA, run)
        reps2, mp2, U2 = self.compute(core, lat, r, t, s, SA(np.array(k2, dtype=object)), SA, run)
        pairs = self.carried(lat, r, t, s, mp, U)
        ok = self.judge_sets(mp, mp2, pairs)
        obl.true("little groups are conjugate", ok)
        if not ok:
            return
        signs = self.signs(lat, r, s, pairs, mp, U, mp2, U2)
        obl.true("spin matrices correspond up to sign", signs is not None)
        if signs is None:
            return
        carried = self.transport(reps, pairs, signs, mp2, k2, self.conj(s), lambda e: laws.phase(e[0]))
        lin = [q for q, j in enumerate(mp2) if not s[j]]
        same(ctx, obl, [x[lin] for x in carried], [laws.raw(x)[lin] for x in reps2], len(lin))

    def concrete(self, vals):
        lat, r, t, s = self.data()
        k = laws.kval(vals)
        if oracle.ambiguous(r, k, s):
            return None
        k2 = np.array([float(x) for x in self.image(list(k), r, s)])

        reps, mp, U = self.compute(real("core"), lat, r, t, s, k.copy(), np.asarray, call)
        reps2, mp2, U2 = self.compute(real("core"), lat, r, t, s, k2.copy(), np.asarray, call)
        pairs = self.carried(lat, r, t, s, mp, U)
        if not self.judge_sets(mp, mp2, pairs):
            return f"little groups {mp} and {mp2} are not conjugate"
        signs = self.signs(lat, r, s, pairs, mp, U, mp2, U2)
        if signs is None:
            return "spin matrices do not correspond"
        carried = self.transport(reps, pairs, signs, mp2, k2, self.conj(s), lambda e: np.exp(2j * np.pi * e[0]))
        lin = [q for q, j in enumerate(mp2) if not s[j]]
        return oracle.match_chars([x[lin] for x in carried], [np.asarray(x)[lin] for x in reps2], len(lin))


def same(ctx, obl, a, b, n):
    laws.same_up_to_equivalence(ctx, obl, a, b, n, what="representations", norms=True)


def make(**p):
    return C(**p)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    orders = ["db", "shuf1", "rev", "shuf2"]
    halls = QUICK_HALLS if not th else sorted(set(G.default_halls()) | set(QUICK_HALLS))
    for i, hall in enumerate(halls):
        r = G.primitive(hall)[1]
        n = len(r)
        if not th and n > 24:
            continue
        hs = ["conj"] + (list(range(1, n)) if th and n <= 12 else [1 + i % (n - 1), 1 + (i * 7 + 3) % (n - 1)] if n > 1 else [])
        for q, h in enumerate(dict.fromkeys(hs)):
            kind = "spin" if (i + q) % 3 == 2 else "single"
            out.append(dict(kind=kind, hall=hall, h=h, method="random" if n <= 8 and (i + q) % 4 == 1 else "Neto", order=orders[(i + q) % 4]))
    for i, u in enumerate(QUICK_UNIS[::3] if not th else QUICK_UNIS):
        n = len(G.magnetic(u)[1])
        if not th and n > 16:
            continue
        hs = [1 + i % (n - 1), 1 + (i * 5 + 2) % (n - 1)] if n > 1 else []
        for q, h in enumerate(dict.fromkeys(hs)):
            out.append(dict(kind="corep", uni=u, h=h, method="Neto", order=orders[(i + q) % 4]))
    out.sort(key=lambda j: -len((G.magnetic(j["uni"]) if "uni" in j else G.primitive(j["hall"]))[1]))
    return out
