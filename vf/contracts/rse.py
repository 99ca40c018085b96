"""C15: real part of the self-energy (c/real_self_energy.c)."""
from ..contract import *
from .. import terms as T
from ..terms import ZERO, ONE
from .ise import bose, FC3


def principal(s, fp, f1, f2, n1, n2):
    e2 = s.epsilon * s.epsilon

    def pv(x):
        return x * T.inv(x * x + e2)
    hot = (n1 + n2 + 1) * (pv(fp - f1 - f2) - pv(fp + f1 + f2)) + (n1 - n2) * (pv(fp + f1 - f2) - pv(fp - f1 + f2))
    cold = pv(fp - f1 - f2) - pv(fp + f1 + f2)
    return T.ite(T.lt(ZERO, s.temperature), hot, cold)


def shift_at(s, j, fp):
    def body(i, b1, b2):
        f1 = s.frequencies(s.triplets(i, 1), b1)
        f2 = s.frequencies(s.triplets(i, 2), b2)
        return (s.triplet_weights(i) * s.pp(i, j, b1, b2) * s.unit_conversion_factor
                * principal(s, fp, f1, f2, bose(f1, s.temperature), bose(f2, s.temperature)))

    def guard(i, b1, b2):
        return T.conj(T.lt(s.cutoff_frequency, s.frequencies(s.triplets(i, 1), b1)),
                      T.lt(s.cutoff_frequency, s.frequencies(s.triplets(i, 2), b2)))
    return T.ite(T.lt(fp, s.cutoff_frequency), ZERO, SUM([s.num_triplets, s.num_band, s.num_band], body, guard))


COMMON = [
    Arr("frequencies", "real", ["num_grid", "num_band"]),
    Arr("triplets", "int", ["num_triplets", 3], lo=0, hi="num_grid"),
    Arr("triplet_weights", "int", ["num_triplets"], lo=0, hi=5),
    RealP("epsilon", lo=0, strict=True, gen=lambda r: r.uniform(0.01, 1)),
    RealP("temperature", lo=0, gen=lambda r: r.choice([0.0, r.uniform(1, 900)])),
    RealP("unit_conversion_factor"),
    RealP("cutoff_frequency", lo=0, gen=lambda r: r.choice([0.0, r.uniform(0, 1)])),
]


@register
class RealSelfEnergyBands(Contract):
    file, fn, props = "real_self_energy.c", "rse_get_real_self_energy_at_bands", ("C15", "C16", "C17")
    modular = False
    ghosts = [Size("num_triplets"), Size("num_band0"), Size("num_band"), Size("num_grid")]
    params = [Arr("shift", "real", ["num_band0"], "out"), FC3,
              Arr("band_indices", "int", ["num_band0"], lo=0, hi="num_band")] + COMMON

    def ensures(self, s):
        return {"shift": [("regularized principal-value sum at the band frequency",
                           lambda j: shift_at(s, j, s.frequencies(s.triplets(0, 0), s.band_indices(j))), None)]}


@register
class RealSelfEnergyPoint(Contract):
    file, fn, props = "real_self_energy.c", "rse_get_real_self_energy_at_frequency_point", ("C15", "C16", "C17")
    modular = False
    ghosts = RealSelfEnergyBands.ghosts
    params = [Arr("shift", "real", ["num_band0"], "out"),
              RealP("frequency_point", gen=lambda r: r.uniform(-0.5, 3)), FC3,
              Arr("band_indices", "int", ["num_band0"], lo=0, hi="num_band")] + COMMON

    def ensures(self, s):
        return {"shift": [("regularized principal-value sum at the frequency point",
                           lambda j: shift_at(s, j, s.frequency_point), None)]}
