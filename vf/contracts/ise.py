"""C12: imaginary self-energy (c/imag_self_energy_with_g.c, c/funcs.c)."""
from ..contract import *
from .. import terms as T
from ..terms import ZERO, ONE

KB = T.num("47.992398658977166")


def bose(x, t):
    return T.app("bose", (x, t))


def golden(s, n1, n2, g1, g23, pp, temp):
    """[(n1+n2+1) g1 + (n1-n2) g23] |Phi|^2 ; at T = 0 the occupations vanish"""
    return T.ite(T.lt(ZERO, temp), ((n1 + n2 + 1) * g1 + (n1 - n2) * g23) * pp, g1 * pp)


def decay_term(s, i, b0, b1, b2, gb0, pp, temp):
    """one (b1,b2) channel of triplet i; zero below the cutoff frequency"""
    f1 = s.frequencies(s.triplets(i, 1), b1)
    f2 = s.frequencies(s.triplets(i, 2), b2)
    ok = T.conj(T.lt(s.cutoff_frequency, f1), T.lt(s.cutoff_frequency, f2),
                T.eq(s.g_zero(i, gb0, b1, b2), 0))
    v = golden(s, bose(f1, temp), bose(f2, temp), s.g(0, i, gb0, b1, b2), s.g(1, i, gb0, b1, b2), pp, temp)
    return T.ite(ok, v, ZERO)


@register
class Bose(Contract):
    file, fn, props = "funcs.c", "funcs_bose_einstein", ("C12", "C13", "C15")
    params = [RealP("x", lo=0, strict=True, gen=lambda r: r.uniform(0.1, 20)),
              RealP("t", lo=0, gen=lambda r: r.uniform(1, 900))]

    def returns(self, s):
        return T.inv(T.func("exp", T.rdiv(KB * s.x, s.t)) - 1)

    def call_returns(self, s):
        return bose(s.x, s.t)


def triplet_elem(s, i, j):
    return [T.le(ZERO, s.triplets(i, j)), T.lt(s.triplets(i, j), s.num_grid)]


FC3 = Darray(Arr("pp", "real", ["num_triplets", "num_band0", "num_band", "num_band"], lo=0))


@register
class ImagSelfEnergy(Contract):
    file, fn, props = "imag_self_energy_with_g.c", "ise_get_imag_self_energy_with_g", ("C12", "C16", "C17")
    modular = False
    ghosts = [Size("num_triplets"), Size("num_band0"), Size("num_band"), Size("num_grid")]
    params = [
        Arr("imag_self_energy", "real", ["num_band0"], "out"),
        FC3,
        Arr("frequencies", "real", ["num_grid", "num_band"]),
        Arr("triplets", "int", ["num_triplets", 3], lo=0, hi="num_grid"),
        Arr("triplet_weights", "int", ["num_triplets"], lo=0, hi=5),
        Arr("g", "real", [2, "num_triplets", "num_gf", "num_band", "num_band"]),
        Arr("g_zero", "char", ["num_triplets", "num_gf", "num_band", "num_band"], lo=0, hi=2),
        RealP("temperature", lo=0, gen=lambda r: r.choice([0.0, r.uniform(1, 900)])),
        RealP("cutoff_frequency", lo=0, gen=lambda r: r.choice([0.0, r.uniform(0, 3)])),
        Size("num_frequency_points"),
        IntP("frequency_point_index", lo=0, hi="num_frequency_points"),
    ]
    cases = [{"frequency_point_index": -1}, {}]

    def derive(self, s, case):
        at_bands = "frequency_point_index" in case
        s._v["at_bands"] = at_bands
        s._v["num_gf"] = s.num_band0 if at_bands else s.num_frequency_points

    def ensures(self, s):
        def gamma(j):
            return SUM([s.num_triplets, s.num_band, s.num_band],
                       lambda i, b1, b2: s.triplet_weights(i) * decay_term(
                           s, i, j, b1, b2, j if s.at_bands else s.frequency_point_index,
                           s.pp(i, j, b1, b2), s.temperature))
        return {"imag_self_energy": [("golden-rule sum over triplets and bands", gamma, None)]}


@register
class DetailedImagSelfEnergy(Contract):
    file, fn, props = "imag_self_energy_with_g.c", "ise_get_detailed_imag_self_energy_with_g", ("C12", "C16", "C17")
    modular = False
    ghosts = [Size("num_triplets"), Size("num_band0"), Size("num_band"), Size("num_grid")]
    params = [
        Arr("detailed", "real", ["num_triplets", "num_band0", "num_band", "num_band"], "out"),
        Arr("ise_N", "real", ["num_band0"], "out"),
        Arr("ise_U", "real", ["num_band0"], "out"),
        FC3,
        Arr("frequencies", "real", ["num_grid", "num_band"]),
        Arr("triplets", "int", ["num_triplets", 3], lo=0, hi="num_grid"),
        Arr("triplet_weights", "int", ["num_triplets"], lo=0, hi=5),
        Arr("bz_grid_addresses", "int", ["num_grid", 3], lo=-1, hi=2),
        Arr("g", "real", [2, "num_triplets", "num_band0", "num_band", "num_band"]),
        Arr("g_zero", "char", ["num_triplets", "num_band0", "num_band", "num_band"], lo=0, hi=2),
        RealP("temperature", lo=0, gen=lambda r: r.choice([0.0, r.uniform(1, 900)])),
        RealP("cutoff_frequency", lo=0, gen=lambda r: r.choice([0.0, r.uniform(0, 3)])),
    ]

    def ensures(self, s):
        def elem(i, j, b1, b2):
            return decay_term(s, i, j, b1, b2, j, s.pp(i, j, b1, b2), s.temperature)

        def normal(i):
            return T.conj(*[T.eq(sum_addr(s, i, k), 0) for k in range(3)])

        def part(want):
            def f(j):
                return SUM([s.num_triplets, s.num_band, s.num_band],
                           lambda i, b1, b2: s.triplet_weights(i) * elem(i, j, b1, b2),
                           lambda i, b1, b2: normal(i) if want else T.neg(normal(i)))
            return f
        return {"detailed": [("contribution of each triplet and band pair", elem, None)],
                "ise_N": [("normal part: triplets whose addresses sum to zero", part(True), None)],
                "ise_U": [("Umklapp part: the other triplets", part(False), None)]}


def sum_addr(s, i, k):
    return (s.bz_grid_addresses(s.triplets(i, 0), k) + s.bz_grid_addresses(s.triplets(i, 1), k)
            + s.bz_grid_addresses(s.triplets(i, 2), k))


@register
class IsN(Contract):
    file, fn, props = "triplet.c", "tpl_is_N", ("C12",)
    modular = False
    ghosts = [Size("num_grid")]
    params = [Arr("triplet", "int", [3], lo=0, hi="num_grid"),
              Arr("bz", "int", ["num_grid", 3], lo=-1, hi=2)]

    def returns(self, s):
        return T.indicator(T.conj(*[T.eq(s.bz(s.triplet(0), k) + s.bz(s.triplet(1), k) + s.bz(s.triplet(2), k), 0)
                                    for k in range(3)]))
