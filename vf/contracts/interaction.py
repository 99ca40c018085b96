"""C11: interaction strength (c/real_to_reciprocal.c, c/reciprocal_to_normal.c, c/interaction.c)."""
from ..contract import *
from .. import terms as T
from ..terms import ZERO, ONE
import numpy as np
from fractions import Fraction

PERMS = ((0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 2, 1), (1, 0, 2))

PI2 = T.num("6.283185307179586476925286766559")


def cis(x):
    return Cx(T.func("cos", x), T.func("sin", x))


def phase(s, q, i, j):
    """phase of the pair (primitive atom i, supercell atom j) averaged over its shortest vectors"""
    a = (s.q_vecs(q, 0), s.q_vecs(q, 1), s.q_vecs(q, 2), s.multiplicity(j, i, 0), s.multiplicity(j, i, 1))
    return Cx(T.app("phase_re", a), T.app("phase_im", a))


def pre_phase(s, i):
    a = s.multiplicity(s.p2s_map(i), 0, 1)
    return cis(PI2 * sum((s.svecs(a, k) * (s.q_vecs(0, k) + s.q_vecs(1, k) + s.q_vecs(2, k)) for k in range(3)), ZERO))


def phase_def(svecs, q, n, a):
    r = SUM([n], lambda v: cis(PI2 * sum((q[k] * svecs(a + v, k) for k in range(3)), ZERO)))
    return Cx(T.rdiv(r.re, n), T.rdiv(r.im, n))


def np_phase(v, f):
    def g(q0, q1, q2, n, a):
        sv = v["svecs"]
        n, a = int(n), int(a)
        return sum(f(2 * np.pi * (q0 * sv[a + k, 0] + q1 * sv[a + k, 1] + q2 * sv[a + k, 2])) for k in range(n)) / n
    return g


@register
class PhaseFactor(Contract):
    """average over the shortest vectors; the symbol phase_re/phase_im in callers"""
    file, fn, props = "real_to_reciprocal.c", "get_phase_factor", ("C11", "C17")
    optional = True
    ghosts = [Size("num_svecs", rng=(3, 6))]
    params = [Arr("q", "real", [3]), Arr("svecs", "real", ["num_svecs", 3]), Arr("multi", "int", [2])]

    def requires(self, s):
        n, a = s.multi(0), s.multi(1)
        return [T.le(ONE, n), T.le(ZERO, a), T.le(a + n, s.num_svecs)]

    def generate(self, rng, case):
        n = int(rng.integers(3, 7))
        m = int(rng.integers(1, n + 1))
        return {"num_svecs": n, "multi": np.array([m, rng.integers(0, n - m + 1)])}

    def returns(self, s):
        r = phase_def(s.svecs, [s.q(k) for k in range(3)], s.multi(0), s.multi(1))
        return (r.re, r.im)

    def call_returns(self, s):
        # the symbol stands for the list of shortest vectors of the caller
        s.svecs.whole("svecs")
        a = (s.q(0), s.q(1), s.q(2), s.multi(0), s.multi(1))
        return (T.app("phase_re", a), T.app("phase_im", a))


def leg(s, i, j, k, comp, q1, q2, mode):
    """sum over supercell atoms J, K that are images of j, k"""
    first = i if s.compact else s.p2s_map(i)

    def body(J, K):
        w = cmul(phase(s, q1, i, J), phase(s, q2, i, K))
        f = s.fc3(first, J, K, *comp)
        if mode == 1:
            f = f * T.ite(T.ne(s.all_shortest(i, J, K), 0), T.const(3), ONE)
        return cscale(w, f)

    def guard(J, K):
        c = [T.eq(s.s2p_map(J), s.p2s_map(j)), T.eq(s.s2p_map(K), s.p2s_map(k))]
        if mode > 1:
            c.append(T.eq(s.all_shortest(i, J, K), 0))
        return T.conj(*c)
    return cmul(SUM([s.num_satom, s.num_satom], body, guard), pre_phase(s, i))


def recip(s, i, l, j, m, k, n):
    """fc3 in reciprocal space at (q0,q1,q2), legacy (atom 1 as reference) or reference averaged"""
    if not s.r0:
        return leg(s, i, j, k, (l, m, n), 1, 2, 0)
    a = leg(s, i, j, k, (l, m, n), 1, 2, 1)
    b = leg(s, j, i, k, (m, l, n), 0, 2, 2)
    c = leg(s, k, j, i, (n, m, l), 1, 0, 3)
    return cadd(cadd(a, b), c)


def multi_range(s, j, i, k):
    n, a = s.multiplicity(j, i, 0), s.multiplicity(j, i, 1)
    return [T.le(ONE, n), T.le(ZERO, a), T.le(a + n, s.num_svecs)]


def gen_multi(r, v, sh):
    n = r.integers(1, 3, sh[:2])
    return np.stack([n, r.integers(0, v["num_svecs"] - n + 1)], axis=-1)


ATOMS = Struct("atom_triplets", [
    ("svecs", Arr("svecs", "real", ["num_svecs", 3])),
    ("multi_dims", Arr("multi_dims", "int", [2], value=lambda s: [s.num_satom, s.num_patom])),
    ("multiplicity", Arr("multiplicity", "int", ["num_satom", "num_patom", 2], elem=multi_range, gen=gen_multi)),
    ("p2s_map", Arr("p2s_map", "int", ["num_patom"], lo=0, hi="num_satom")),
    ("s2p_map", Arr("s2p_map", "int", ["num_satom"])),
    ("make_r0_average", Const("make_r0_average", 0)),
    ("all_shortest", Arr("all_shortest", "char", ["num_patom", "num_satom", "num_satom"], lo=0, hi=2)),
])


@register
class R2R(Contract):
    file, fn, props = "real_to_reciprocal.c", "r2r_real_to_reciprocal", ("C11", "C16", "C17")
    ghosts = [Size("num_patom", rng=(1, 2)), Size("num_satom", rng=(1, 3)), Size("num_svecs", rng=(3, 6))]
    params = [
        Arr("fc3_reciprocal", "cplx", ["num_patom", 3, "num_patom", 3, "num_patom", 3], "inout"),
        Arr("q_vecs", "real", [3, 3]),
        Arr("fc3", "real", ["num_first", "num_satom", "num_satom", 3, 3, 3]),
        Const("is_compact_fc3", 0),
        ATOMS,
        IntP("openmp_per_triplets", lo=0, hi=2),
    ]
    cases = [{"is_compact_fc3": c, "make_r0_average": r} for r in (1, 0) for c in (0, 1)]
    trials = 6
    cost = 60
    opts = {"unroll_total": 8}

    def funcs(self, v):
        return {"phase_re": np_phase(v, np.cos), "phase_im": np_phase(v, np.sin)}

    def derive(self, s, case):
        s._v["compact"] = T.cval(s.is_compact_fc3) != 0
        s._v["r0"] = T.cval(s.make_r0_average) != 0
        s._v["num_first"] = s.num_patom if s.compact else s.num_satom

    def ensures(self, s):
        def val(i, l, j, m, k, n):
            v = recip(s, i, l, j, m, k, n)
            if not s.r0:
                return v
            o = s.fc3_reciprocal(i, l, j, m, k, n)
            return Cx(T.rdiv(o.re + v.re, T.const(3)), T.rdiv(o.im + v.im, T.const(3)))
        return {"fc3_reciprocal": [("phase-weighted sum of force constants over images", val, None)]}

    def call_ensures(self, s):
        """callers see the symbol fc3q(q0, q1, q2; indices) of their constant arrays"""
        for a in ("svecs", "multiplicity", "p2s_map", "s2p_map", "all_shortest", "fc3"):
            getattr(s, a).whole(a)
        E = s._E
        if s.r0:
            ds = [T.fresh("z") for _ in range(6)]
            nh = len(E.hyps)
            for d, n in zip(ds, [s.num_patom, T.const(3)] * 3):
                E.hyps += [T.le(ZERO, d), T.lt(d, n)]
            o = s.fc3_reciprocal(*ds)
            E.oblige("fc3_reciprocal is zero before accumulation", T.conj(T.eq(o.re, 0), T.eq(o.im, 0)), "requires")
            del E.hyps[nh:]
        q = [s.q_vecs(i, j) for i in range(3) for j in range(3)]
        return {"fc3_reciprocal": lambda *d: fc3q(q, d)}


def fc3q(q, d):
    a = tuple(q) + tuple(T.lift(x) for x in d)
    return Cx(T.app("fc3q_re", a), T.app("fc3q_im", a))


class NpAtoms:
    """numeric meaning of fc3q"""

    def __init__(self, v):
        self.v, self.memo = v, {}

    def leg(self, q1, q2, i, j, k, mode):
        v = self.v
        I = i if v["is_compact_fc3"] else v["p2s_map"][i]
        tot = np.zeros((3, 3, 3), dtype=complex)
        for J in range(v["num_satom"]):
            if v["s2p_map"][J] != v["p2s_map"][j]:
                continue
            for K in range(v["num_satom"]):
                if v["s2p_map"][K] != v["p2s_map"][k]:
                    continue
                sh = v["all_shortest"][i, J, K]
                if mode > 1 and sh:
                    continue
                tot += self.ph(q1, J, i) * self.ph(q2, K, i) * v["fc3"][I, J, K] * (3 if mode == 1 and sh else 1)
        return tot

    def ph(self, q, J, i):
        n, a = self.v["multiplicity"][J, i]
        return np.exp(2j * np.pi * (self.v["svecs"][a:a + n] @ q)).mean()

    def pre(self, qs, i):
        a = self.v["multiplicity"][self.v["p2s_map"][i], 0, 1]
        return np.exp(2j * np.pi * (self.v["svecs"][a] @ qs))

    def block(self, q, i, j, k):
        key = (tuple(q), i, j, k)
        if key not in self.memo:
            Q = np.array(q, dtype=float).reshape(3, 3)
            qs = Q.sum(0)
            if not self.v["make_r0_average"]:
                r = self.leg(Q[1], Q[2], i, j, k, 0) * self.pre(qs, i)
            else:
                r = self.leg(Q[1], Q[2], i, j, k, 1) * self.pre(qs, i)
                r = r + np.transpose(self.leg(Q[0], Q[2], j, i, k, 2) * self.pre(qs, j), (1, 0, 2))
                r = r + np.transpose(self.leg(Q[1], Q[0], k, j, i, 3) * self.pre(qs, k), (2, 1, 0))
                r = r / 3
            self.memo[key] = r
        return self.memo[key]

    def __call__(self, part):
        def f(*a):
            i, l, j, m, k, n = [int(x) for x in a[9:]]
            z = self.block(a[:9], i, j, k)[l, m, n]
            return z.real if part == 0 else z.imag
        return f


def strength(s, t, b0, b1, b2, perm=(0, 1, 2)):
    """|<e0 e1 e2|fc3(q0,q1,q2)>|^2 / (f0 f1 f2) of triplet t; zero unless all f > cutoff.
    perm: order in which the three phonons are taken"""
    q = []
    for p in range(3):
        a = [T.rdiv(s.addresses(s.triplets(t, p), k), s.D_diag(k)) for k in range(3)]
        q.append([sum((s.Q(k, x) * a[x] for x in range(3)), ZERO) for k in range(3)])
    band = (s.band_indices(b0), b1, b2)
    f = [s.frequencies(s.triplets(t, p), band[p]) for p in range(3)]
    qq = [x for p in perm for x in q[p]]

    def body(*d):
        z = fc3q(qq, d)
        for x, p in enumerate(perm):
            i, c = d[2 * x], d[2 * x + 1]
            z = cmul(z, cscale(s.eigenvectors(s.triplets(t, p), i, c, band[p]), T.inv(T.func("sqrt", s.masses(i)))))
        return z
    S = SUM([s.num_patom, 3] * 3, body)
    ok = T.conj(*[T.lt(s.cutoff_frequency, x) for x in f])
    return T.ite(ok, T.rdiv(abs2(S), f[0] * f[1] * f[2]), ZERO)


def np_strength(v, at, t, band, memo, perm=(0, 1, 2)):
    P = v["num_patom"]
    tp = v["triplets"][t]
    f = [v["frequencies"][tp[p], band[p]] for p in range(3)]
    if not all(x > v["cutoff_frequency"] for x in f):
        return 0.0
    key = (t, perm)
    if key not in memo:
        q = [v["Q"] @ (v["addresses"][tp[p]] / v["D_diag"]) for p in perm]
        x = np.zeros((P, 3) * 3, dtype=complex)
        for i, j, k in np.ndindex(P, P, P):
            x[i, :, j, :, k, :] = at.block(tuple(np.concatenate(q)), i, j, k)
        memo[key] = x
    e = [v["eigenvectors"][tp[p]][:, :, band[p]] / np.sqrt(v["masses"])[:, None] for p in perm]
    z = np.einsum("iajbkc,ia,jb,kc->", memo[key], *e)
    return abs(z) ** 2 / (f[0] * f[1] * f[2])


BZG = Struct("bzgrid", [
    ("D_diag", Arr("D_diag", "int", [3], lo=1, hi=5)),
    ("Q", Arr("Q", "int", [3, 3], lo=-2, hi=3)),
    ("addresses", Arr("addresses", "int", ["num_grid", 3], lo=-3, hi=4)),
])


@register
class Interaction(Contract):
    file, fn, props = "interaction.c", "itr_get_interaction", ("C11", "C16", "C17")
    modular = False
    ghosts = [Size("num_patom", rng=(1, 2)), Size("num_satom", rng=(1, 3)), Size("num_svecs", rng=(3, 6)),
              Size("num_band0", rng=(1, 3)), Size("num_grid", rng=(1, 3)), DerivedSize("num_band", lambda s: 3 * s.num_patom)]
    params = [
        Darray(Arr("fc3_normal_squared", "real", ["num_triplets", "num_band0", "num_band", "num_band"], "inout")),
        Arr("g_zero", "char", ["num_triplets", "num_band0", "num_band", "num_band"], lo=0, hi=2),
        Darray(Arr("frequencies", "real", ["num_grid", "num_band"], gen=lambda r, v, sh: r.uniform(-0.5, 5, sh))),
        Arr("eigenvectors", "cplx", ["num_grid", "num_patom", 3, "num_band"]),
        Arr("triplets", "int", ["num_triplets", 3], lo=0, hi="num_grid"),
        Size("num_triplets", rng=(1, 3)),
        BZG,
        Arr("fc3", "real", ["num_first", "num_satom", "num_satom", 3, 3, 3]),
        Const("is_compact_fc3", 0),
        ATOMS,
        Arr("masses", "real", ["num_patom"], gen=lambda r, v, sh: r.uniform(1, 50, sh)),
        Arr("band_indices", "int", ["num_band0"], lo=0, hi="num_band"),
        Const("symmetrize_fc3_q", 0),
        RealP("cutoff_frequency", lo=0, gen=lambda r: r.choice([0.0, r.uniform(0, 1)])),
        IntP("openmp_per_triplets", lo=0, hi=2),
    ]
    cases = [{"is_compact_fc3": c, "make_r0_average": r, "symmetrize_fc3_q": y}
             for r, c, y in ((1, 0, 0), (1, 1, 0), (0, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 1, 1))]
    trials = 6
    cost = 200
    quick = {"C11": [0, 1, 2, 3, 4], "C16": [2], "C17": [1]}
    derive = R2R.derive

    def numeric(self, v):
        at = NpAtoms(v)
        out = np.array(v["fc3_normal_squared"], dtype=float)
        P = v["num_patom"]
        memo = {}
        for t, b0, b1, b2 in np.ndindex(*out.shape):
            b = (v["band_indices"][b0], b1, b2)
            if v["symmetrize_fc3_q"]:
                out[t, b0, b1, b2] = sum(np_strength(v, at, t, b, memo, p) for p in PERMS) / 6
            elif not v["g_zero"][t, b0, b1, b2]:
                out[t, b0, b1, b2] = np_strength(v, at, t, b, memo)
        return {"fc3_normal_squared": out}

    def funcs(self, v):
        a = NpAtoms(v)
        return {"fc3q_re": a(0), "fc3q_im": a(1)}

    def ensures(self, s):
        if T.cval(s.symmetrize_fc3_q):
            return {"fc3_normal_squared": [("average over the six orderings of the triplet",
                                            lambda t, b0, b1, b2: T.scale(T.addn([strength(s, t, b0, b1, b2, p) for p in PERMS]), Fraction(1, 6)), None)]}
        return {"fc3_normal_squared": [("squared projected coupling where not flagged, otherwise untouched",
                                        lambda t, b0, b1, b2: T.ite(T.eq(s.g_zero(t, b0, b1, b2), 0), strength(s, t, b0, b1, b2),
                                                                    s.fc3_normal_squared(t, b0, b1, b2)), None)]}
