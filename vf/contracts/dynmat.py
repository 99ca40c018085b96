"""C10: dynamical matrices (c/dynmat.c, c/phonon.c)."""
from fractions import Fraction

import numpy as np

from ..contract import *
from .. import terms as T
from ..terms import ZERO, ONE

TWOPI = T.num("6.283185307179586476925286766559")
HALF = Fraction(1, 2)


def pair_table(rng, ns, npat, most=3):
    """numbers and offsets of the shortest vectors of each pair, and the vectors"""
    m = np.zeros((ns, npat, 2), int)
    off = 0
    for i in range(ns):
        for j in range(npat):
            m[i, j] = rng.integers(1, most + 1), off
            off += m[i, j, 0]
    return m, rng.integers(-4, 5, (off, 3)) / 4.0 + rng.normal(0, 0.1, (off, 3))


def crystal(rng):
    """supercell with maps in the full or compact layout of force constants"""
    npat, nc = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    ns = npat * nc
    owner = np.repeat(np.arange(npat), nc)
    if rng.integers(2):
        owner = owner[rng.permutation(ns)]
    first = np.array([int(np.nonzero(owner == p)[0][0]) for p in range(npat)])
    full = bool(rng.integers(2))
    p2s = first if full else np.arange(npat)
    s2p = first[owner] if full else owner
    multi, svecs = pair_table(rng, ns, npat)
    return dict(num_patom=npat, num_satom=ns, p2s_map=p2s, s2p_map=s2p, multi=multi, svecs=svecs,
                nfc=ns if full else npat, nsv=len(svecs), mass=rng.uniform(1, 30, npat)), owner


FC = Arr("fc", "real", ["nfc", "num_satom", 3, 3])
SVECS = Arr("svecs", "real", ["nsv", 3])


def MULTI(n="multi"):
    def el(s, k, i, t):
        m0 = T.app(n, (k, i, ZERO), "int")
        m1 = T.app(n, (k, i, ONE), "int")
        return [T.lt(ZERO, m0), T.le(ZERO, m1), T.le(m0 + m1, s.nsv)]
    return Arr(n, "int", ["num_satom", "num_patom", 2], elem=el)


def phases(s, q, i, k, f, multi=None):
    """average over the equally short vectors of pair (k, i) of f(2 pi q . vector)"""
    multi = multi or s.multi
    m, a = multi(k, i, 0), multi(k, i, 1)
    return SUM([m], lambda l: T.rdiv(T.func(f, TWOPI * T.addn([q(x) * s.svecs(a + l, x) for x in range(3)])), m))


def fourier(s, q, i, j, k, l, cs, mass):
    """mass-weighted Fourier sum, before symmetrization"""
    rm = T.inv(T.func("sqrt", mass(i) * mass(j)))

    def part(f):
        return SUM([s.num_satom], lambda n: phases(s, q, i, n, f) * (
            s.fc(s.p2s_map(i), n, k, l) + (cs(i, j, k, l) if cs is not None else ZERO)),
            lambda n: T.eq(s.s2p_map(n), s.p2s_map(j))) * rm
    return Cx(part("cos"), part("sin"))


def hermitian(M, i, k, j, l):
    a, b = M(i, j, k, l), M(j, i, l, k)
    return Cx(T.scale(a.re + b.re, HALF), T.scale(a.im - b.im, HALF))


@register
class DynmatAtQ(Contract):
    file, fn, props = "dynmat.c", "dym_get_dynamical_matrix_at_q", ("C10", "C16", "C17")
    ghosts = [Size("nfc"), Size("nsv")]
    opts = {"unroll_total": 8, "triangular": True}
    params = [
        Arr("dm", "cplx", ["num_patom", 3, "num_patom", 3], "out"),
        Size("num_patom"), Size("num_satom"), FC, Arr("q", "real", [3]), SVECS, MULTI(),
        Arr("mass", "real", ["num_patom"], lo=1), Arr("s2p_map", "int", ["num_satom"]),
        Arr("p2s_map", "int", ["num_patom"], lo=0, hi="nfc"),
        Arr("charge_sum", "real", ["num_patom", "num_patom", 3, 3]), Const("use_openmp", 0)]
    cases = [{"charge_sum": None, "use_openmp": 0}, {"use_openmp": 1}, {"charge_sum": None, "use_openmp": 1}, {"use_openmp": 0}]
    trials = 12

    def generate(self, rng, case):
        return crystal(rng)[0]

    def ensures(self, s):
        cs = s.charge_sum

        def M(i, j, k, l):
            return fourier(s, s.q, i, j, k, l, cs, s.mass)
        return {"dm": [("Hermitian mass-weighted Fourier sum", lambda i, k, j, l: hermitian(M, i, k, j, l), None)]}

    def call_ensures(self, s):
        return {"dm": self.ensures(s)["dm"][0][1]}


@register
class ChargeSum(Contract):
    file, fn, props = "dynmat.c", "dym_get_charge_sum", ("C10", "C17")
    params = [Arr("charge_sum", "real", ["num_patom", "num_patom", 3, 3], "out"), Size("num_patom"), RealP("factor"),
              Arr("q_cart", "real", [3]), Arr("born", "real", ["num_patom", 3, 3])]

    def ensures(self, s):
        return {"charge_sum": [("outer product of q times Born charges", lambda i, j, a, b: charge_sum(s, s.factor, s.q_cart, i, j, a, b), None)]}

    def call_ensures(self, s):
        return {"charge_sum": lambda i, j, a, b: charge_sum(s, s.factor, s.q_cart, i, j, a, b)}


def charge_sum(s, factor, q, i, j, a, b):
    za = T.addn([q(k) * s.born(i, k, a) for k in range(3)])
    zb = T.addn([q(k) * s.born(j, k, b) for k in range(3)])
    return za * zb * factor


def quad(q, eps):
    return T.addn([q(i) * eps(i, j) * q(j) for i in range(3) for j in range(3)])


# ------------------------------------------------------------------ dipole-dipole (Gonze-Lee)
def KK(s, g, q, qdir, a, b):
    """reciprocal-space kernel at K = G + q (Cartesian); the limit along the direction when K vanishes"""
    K = [s.G_list(g, i) + (q(i) if q is not None else ZERO) for i in range(3)]
    n2 = T.addn([x * x for x in K])
    e = quad(lambda i: K[i], s.dielectric)
    reg = T.rdiv(K[a] * K[b], e) * T.func("exp", T.neg_(T.rdiv(e, T.const(4) * s.lam * s.lam)) if hasattr(T, "neg_") else ZERO - T.rdiv(e, T.const(4) * s.lam * s.lam))
    if qdir is None:
        lim = ZERO
    else:
        lim = T.rdiv(qdir(a) * qdir(b), quad(qdir, s.dielectric))
    return T.ite(T.lt(T.func("sqrt", n2), s.tolerance), lim, reg)


def dd_part(s, q, qdir, i, j, a, b, f):
    return SUM([s.num_G], lambda g: KK(s, g, q, qdir, a, b) * T.func(f, TWOPI * T.addn(
        [(s.pos(i, x) - s.pos(j, x)) * s.G_list(g, x) for x in range(3)])))


def dd_born(s, q, qdir, i, j, k, l, f):
    return T.addn([dd_part(s, q, qdir, i, j, m, n, f) * s.born(i, m, k) * s.born(j, n, l) for m in range(3) for n in range(3)])


GL = [Arr("G_list", "real", ["num_G", 3], gen=lambda r, v, sh: np.vstack([np.zeros((1, 3)), r.normal(0, 0.5, (sh[0] - 1, 3))])),
      Size("num_G", rng=(1, 4)), Size("num_patom", rng=(1, 3))]
EPS3 = Arr("dielectric", "real", [3, 3], gen=lambda r, v, sh: (lambda x: np.eye(3) * 3 + 0.2 * (x + x.T))(r.normal(size=(3, 3))))


def gen_q(rng):
    return np.zeros(3) if rng.integers(3) == 0 else rng.normal(0, 0.3, 3)


@register
class RecipDipole(Contract):
    file, fn, props = "dynmat.c", "dym_get_recip_dipole_dipole", ("C10", "C16", "C17")
    opts = {"unroll_total": 8}
    params = [
        Arr("dd", "cplx", ["num_patom", 3, "num_patom", 3], "out"),
        Arr("dd_q0", "cplx", ["num_patom", 3, 3]), *GL,
        Arr("q_cart", "real", [3]), Arr("q_dir", "real", [3]), Arr("born", "real", ["num_patom", 3, 3]),
        EPS3, Arr("pos", "real", ["num_patom", 3]), RealP("factor"), RealP("lam", lo=0, strict=True, gen=lambda r: r.uniform(0.2, 1)),
        RealP("tolerance", lo=0, strict=True, gen=lambda r: 1e-5), Const("use_openmp", 0)]
    cases = [{"q_dir": None, "use_openmp": 0}, {"use_openmp": 0}, {"use_openmp": 1}, {"q_dir": None, "use_openmp": 1}]
    quick = {"C10": [0, 2], "C16": [2], "C17": [0]}
    trials = 4

    def generate(self, rng, case):
        return {"q_cart": gen_q(rng)}

    def ensures(self, s):
        return {"dd": [("charge-weighted reciprocal dipole sum minus its sum-rule part",
                        lambda i, k, j, l: self.val(s, s.q_cart, s.q_dir, i, k, j, l), None)]}

    @staticmethod
    def val(s, q, qdir, i, k, j, l):
        def c(f, t):
            return s.factor * (dd_born(s, q, qdir, i, j, k, l, f) - T.ite(T.eq(i, j), t, ZERO))
        q0 = s.dd_q0(i, k, l)
        return Cx(c("cos", q0.re), c("sin", q0.im))

    def call_ensures(self, s):
        return {"dd": self.ensures(s)["dd"][0][1]}


@register
class RecipDipoleQ0(Contract):
    file, fn, props = "dynmat.c", "dym_get_recip_dipole_dipole_q0", ("C10", "C16", "C17")
    modular = False
    opts = {"unroll_total": 9}
    params = [Arr("dd_q0", "cplx", ["num_patom", 3, 3], "out"), *GL, Arr("born", "real", ["num_patom", 3, 3]), EPS3,
              Arr("pos", "real", ["num_patom", 3]), RealP("lam", lo=0, strict=True, gen=lambda r: r.uniform(0.2, 1)),
              RealP("tolerance", lo=0, strict=True, gen=lambda r: 1e-5), Const("use_openmp", 0)]
    cases = [{"use_openmp": 0}, {"use_openmp": 1}]
    quick = {"C10": [0], "C16": [1], "C17": [0]}
    trials = 4

    def ensures(self, s):
        def val(i, k, l):
            def c(a, b, f):
                return SUM([s.num_patom], lambda j: dd_born(s, None, None, i, j, a, b, f))
            return Cx(T.scale(c(k, l, "cos") + c(l, k, "cos"), HALF), T.scale(c(k, l, "sin") - c(l, k, "sin"), HALF))
        return {"dd_q0": [("Hermitian on-site sum over the other atoms", val, None)]}


@register
class DynmatToFC(Contract):
    file, fn, props = "dynmat.c", "dym_transform_dynmat_to_fc", ("C10", "C16", "C17")
    modular = False
    ghosts = [Size("N", rng=(1, 3)), Size("nsv"), Size("nfc")]
    opts = {"unroll_total": 8}
    params = [
        Arr("fc", "real", ["num_patom", "num_satom", 3, 3], "out"),
        Arr("dm", "cplx", ["N", "num_patom", 3, "num_patom", 3]), Arr("comm_points", "real", ["N", 3]), SVECS, MULTI(),
        Arr("masses", "real", ["num_patom"], lo=1), Arr("s2pp_map", "int", ["num_satom"], lo=0, hi="num_patom"),
        Arr("fc_index_map", "int", ["num_patom"], lo=0, hi="nfc"), Size("num_patom"), DerivedSize("num_satom", lambda s: s.num_patom * s.N),
        Const("use_openmp", 0)]
    cases = [{"use_openmp": 0}, {"use_openmp": 1}]
    skip_symbolic = True
    trials = 10

    def generate(self, rng, case):
        v, owner = crystal(rng)
        v.update(N=v["num_satom"] // v["num_patom"], nfc=v["num_patom"], s2pp_map=owner, fc_index_map=np.arange(v["num_patom"]))
        return v

    def ensures(self, s):
        return {"fc": [("inverse Fourier sum over commensurate points", None, None)]}

    def numeric(self, v):
        N, ns, npat = int(v["N"]), int(v["num_satom"]), int(v["num_patom"])
        out = np.zeros((npat, ns, 3, 3))
        for i in range(npat):
            for j in range(ns):
                m, a = v["multi"][j, i]
                sv = v["svecs"][a:a + m]
                jj = v["s2pp_map"][j]
                for k in range(N):
                    ph = np.exp(-2j * np.pi * sv @ v["comm_points"][k]).mean()
                    out[v["fc_index_map"][i], j] += (v["dm"][k][i, :, jj, :] * ph).real * np.sqrt(v["masses"][i] * v["masses"][jj]) / N
        return {"fc": out}


# ------------------------------------------------------------------ phonons on the grid
def ADDR(s, x, gp):
    return T.addn([s.QDinv(x, y) * s.grid_address(gp, y) for y in range(3)])


def requested(s, gp):
    """gp is in the list and not yet done"""
    i = T.app("place", (gp,), "int")
    return [T.le(ZERO, i), T.lt(i, s.num_grid_points), T.eq(s.grid_points(i), gp), T.eq(s.phonon_done(gp), ZERO)]


class GridPhonons(Contract):
    file, fn, props = "phononcalc.c", "phcalc_get_phonons_at_gridpoints", ("C10", "C16", "C17")
    modular = False
    ghosts = [Size("nfc"), Size("nsv")]
    opts = {"unroll_total": 8, "triangular": True}
    trials = 30

    def spec(args, y):
        i = T.app("place", (y,), "int")
        return 0, i, [T.le(ZERO, i), T.lt(i, T.var("num_grid_points", "int")), T.eq(T.app("grid_points", (i,), "int"), y)]

    def plist(nac, gonze):
        return [
            Arr("frequencies", "real", ["num_phonons", lambda s: s.num_patom * 3], "inout"),
            Arr("eigenvectors", "cplx", ["num_phonons", "num_patom", 3, "num_patom", 3], "inout"),
            Arr("phonon_done", "char", ["num_phonons"], "inout"),
            Size("num_phonons", rng=(1, 5)),
            Arr("grid_points", "int", ["num_grid_points"], lo=0, hi="num_phonons", inj=lambda s: GridPhonons.spec),
            Size("num_grid_points", rng=(1, 5)),
            Arr("grid_address", "int", ["num_phonons", 3]), Arr("QDinv", "real", [3, 3]),
            FC, SVECS, MULTI(), Arr("positions", "real", ["num_patom", 3]) if gonze else NullP("positions"),
            Size("num_patom"), Size("num_satom"), Arr("mass", "real", ["num_patom"], lo=1),
            Arr("p2s_map", "int", ["num_patom"], lo=0, hi="nfc"), Arr("s2p_map", "int", ["num_satom"]), RealP("conversion"),
            Arr("born", "real", ["num_patom", 3, 3]) if nac else NullP("born"), EPS3 if nac else NullP("dielectric"),
            Arr("reciprocal_lattice", "real", [3, 3]), Arr("q_direction", "real", [3]), RealP("nac_factor"),
            NullP("dd_q0"), NullP("G_list"), Const("num_G", 0), RealP("lam"), Const("uplo", 76, "char")]
    params = plist(False, False)

    def generate(self, rng, case):
        v = crystal(rng)[0]
        v["num_phonons"] = n = int(rng.integers(2, 6))
        ad = rng.integers(-2, 3, (n, 3))
        ad[rng.integers(n)] = 0
        v["grid_address"] = ad
        m = v["num_grid_points"] = int(rng.integers(1, n + 1))
        v["grid_points"] = rng.permutation(n)[:m]
        if rng.integers(3) == 0 and m > 1:
            v["grid_points"][-1] = v["grid_points"][0]
        v["phonon_done"] = rng.integers(0, 2, n)
        return v

    def funcs(self, v):
        gl = [int(x) for x in v["grid_points"]]
        return {"place": lambda y: gl.index(int(y)) if int(y) in gl else 0}

    def numeric(self, v):
        """the same postcondition in numpy"""
        done, ev = np.array(v["phonon_done"]), np.array(v["eigenvectors"], dtype=complex)
        npat, ns = int(v["num_patom"]), int(v["num_satom"])
        fc, m = np.asarray(v["fc"]), np.asarray(v["mass"], dtype=float)
        rm = np.sqrt(np.outer(m, m))
        qd = v.get("q_direction")
        for gp in [int(x) for x in v["grid_points"]]:
            if done[gp]:
                continue
            done[gp] = 1
            q = np.asarray(v["QDinv"], dtype=float) @ np.asarray(v["grid_address"])[gp]
            born = v.get("born")
            gonze = v.get("dd_q0") is not None
            cs = np.zeros((npat, npat, 3, 3))
            rec = np.asarray(v["reciprocal_lattice"], dtype=float)
            centre = not np.any(np.asarray(v["grid_address"])[gp])
            if born is not None and not gonze and not (qd is None and centre):
                qc = rec @ (np.asarray(qd) if qd is not None and centre else q)
                z = np.einsum("k,ika->ia", qc, born)
                cs = np.einsum("ia,jb->ijab", z, z) * v["nac_factor"] / (qc @ np.asarray(v["dielectric"]) @ qc) * npat / ns
            D = np.zeros((npat, 3, npat, 3), dtype=complex)
            for i in range(npat):
                for j in range(npat):
                    for k in np.nonzero(np.asarray(v["s2p_map"]) == v["p2s_map"][j])[0]:
                        n, a = v["multi"][k][i]
                        ph = np.exp(2j * np.pi * np.asarray(v["svecs"])[a:a + n] @ q).mean()
                        D[i, :, j, :] += (fc[v["p2s_map"][i], k] + cs[i, j]) * ph / rm[i, j]
            D = (D + D.transpose(2, 3, 0, 1).conj()) / 2
            if gonze:
                D += self.dipole(v, rec @ q, rec @ np.asarray(qd) if qd is not None else None) / rm[:, None, :, None]
            ev[gp] = D
        return {"eigenvectors": ev, "phonon_done": done}

    def dipole(self, v, q, qd):
        npat = int(v["num_patom"])
        eps, born, pos = (np.asarray(v[k], dtype=float) for k in ("dielectric", "born", "positions"))
        dd = np.zeros((npat, 3, npat, 3), dtype=complex)
        for G in np.asarray(v["G_list"], dtype=float):
            K = G + q
            if np.linalg.norm(K) < 1e-5:
                if qd is None:
                    continue
                kk = np.outer(qd, qd) / (qd @ eps @ qd)
            else:
                e = K @ eps @ K
                kk = np.outer(K, K) / e * np.exp(-e / (4 * v["lam"] ** 2))
            ph = np.exp(2j * np.pi * pos @ G)
            dd += np.einsum("i,j,imk,mn,jnl->ikjl", ph, ph.conj(), born, kk, born)
        for i in range(npat):
            dd[i, :, i, :] -= np.asarray(v["dd_q0"])[i]
        return dd * v["nac_factor"]

    def requires(self, s):
        return [T.le(s.num_grid_points, s.num_phonons)]     # distinct points of the grid

    def value(self, s, gp, i, k, j, l):
        return hermitian(lambda a, b, c, d: fourier(s, lambda x: ADDR(s, x, gp), a, b, c, d, None, s.mass), i, k, j, l)

    def ensures(self, s):
        def want(gp, i, k, j, l):
            return self.value(s, gp, i, k, j, l)

        def asked(gp, *r):
            return T.conj(*requested(s, gp))

        def not_asked(gp, *r):
            return T.neg(asked(gp))
        return {"eigenvectors": [("dynamical matrix of the requested points not done before", want, asked),
                                 ("other points untouched", lambda *d: s.eigenvectors(*d), not_asked)],
                "phonon_done": [("requested points are marked", lambda gp: ONE, asked),
                                ("other marks kept", lambda gp: s.phonon_done(gp), not_asked)]}


@register
class GridPhononsPlain(GridPhonons):
    cases = [{"q_direction": None}, {}]


@register
class GridPhononsWang(GridPhonons):
    params = GridPhonons.plist(True, False)
    cases = [{"q_direction": None}, {}]
    skip_symbolic = True

    def value(self, s, gp, i, k, j, l):
        def q(x):
            return ADDR(s, x, gp)
        gamma = T.conj(*[T.eq(s.grid_address(gp, x), ZERO) for x in range(3)])

        def term(along):
            def qc(x):
                return T.addn([s.reciprocal_lattice(x, y) * along(y) for y in range(3)])
            f = T.rdiv(s.nac_factor * s.num_patom, quad(qc, s.dielectric) * s.num_satom)

            def cs(a, b, c, d):
                return charge_sum(s, f, qc, a, b, c, d)
            return hermitian(lambda a, b, c, d: fourier(s, q, a, b, c, d, cs, s.mass), i, k, j, l)
        nac = term(q)
        if s.q_direction is not None:           # the direction is used at the zone centre only
            centre = term(s.q_direction)
        else:
            centre = hermitian(lambda a, b, c, d: fourier(s, q, a, b, c, d, None, s.mass), i, k, j, l)
        return Cx(T.ite(gamma, centre.re, nac.re), T.ite(gamma, centre.im, nac.im))


def gonze_plist():
    ps = GridPhonons.plist(True, True)
    k = [p.name for p in ps].index("dd_q0")
    return ps[:k] + [Arr("dd_q0", "cplx", ["num_patom", 3, 3]), GL[0], Size("num_G", rng=(1, 4)),
                     RealP("lam", lo=0, strict=True, gen=lambda r: r.uniform(0.2, 1)), ps[-1]]


@register
class GridPhononsGonze(GridPhonons):
    params = gonze_plist()
    cases = [{"q_direction": None}, {}]
    skip_symbolic = True        # bounded: the term of the combined sum is too large; its two parts are proved separately

    def value(self, s, gp, i, k, j, l):
        def q(x):
            return ADDR(s, x, gp)

        def cart(v):
            return lambda x: T.addn([s.reciprocal_lattice(x, y) * v(y) for y in range(3)])
        qc = cart(q)
        qd = cart(s.q_direction) if s.q_direction is not None else None
        rm = T.inv(T.func("sqrt", s.mass(i) * s.mass(j)))
        v = Vals2(s, pos=s.positions, factor=s.nac_factor, tolerance=T.const(Fraction(1, 100000)))
        bare = hermitian(lambda a, b, c, d: fourier(s, q, a, b, c, d, None, s.mass), i, k, j, l)
        dd = RecipDipole.val(v, qc, qd, i, k, j, l)
        return Cx(bare.re + dd.re * rm, bare.im + dd.im * rm)


class Vals2:
    def __init__(self, s, **kw):
        self.__dict__.update(kw)
        self.s = s

    def __getattr__(self, k):
        return getattr(self.s, k)
