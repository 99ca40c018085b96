"""C14: isotope scattering (c/isotope.c)."""
from ..contract import *
from .. import terms as T
from ..terms import ZERO, ONE

TWOPI = T.num("6.283185307179586")


def gamma(s, i, delta):
    """pi/4 f0^2 sum_q sum_k sum_atoms m |<e_k|e_0>|^2 delta  (gamma = half inverse lifetime)"""
    b0 = s.band_indices(i)
    f0 = s.frequencies(s.grid_point, b0)

    def overlap2(gp, k, l):
        re = im = ZERO
        for m in range(3):
            e0 = s.eigenvectors(s.grid_point, l * 3 + m, b0)
            e1 = s.eigenvectors(gp, l * 3 + m, k)
            p = cmul(e0, cconj(e1))
            re, im = re + p.re, im + p.im
        return re * re + im * im

    def body(j, k, l):
        gp = s.ir_grid_points(j)
        return s.weights(gp) * s.mass_variances(l) * overlap2(gp, k, l) * delta(gp, i, k, f0)

    def guard(j, k, l):
        return T.le(s.cutoff_frequency, s.frequencies(s.ir_grid_points(j), k))
    tot = SUM([s.num_grid_points, s.num_band, s.num_atom], body, guard)
    return T.ite(T.lt(f0, s.cutoff_frequency), ZERO, TWOPI * T.num("0.125") * f0 * f0 * tot)


def params(extra):
    return [Arr("gamma", "real", ["num_band0"], "out"),
            IntP("grid_point", lo=0, hi="num_bz"),
            Arr("ir_grid_points", "int", ["num_grid_points"], lo=0, hi="num_bz"),
            Arr("weights", "real", ["num_bz"], lo=0),
            Arr("mass_variances", "real", ["num_atom"], lo=0),
            Arr("frequencies", "real", ["num_bz", "num_band"]),
            Arr("eigenvectors", "cplx", ["num_bz", "num_band", "num_band"]),
            Size("num_grid_points"),
            Arr("band_indices", "int", ["num_band0"], lo=0, hi="num_band"),
            DerivedSize("num_band", lambda s: 3 * s.num_atom),
            Size("num_band0"), extra,
            RealP("cutoff_frequency", lo=0, gen=lambda r: r.choice([0.0, r.uniform(0, 1)]))]


GH = [Size("num_atom", rng=(1, 2)), Size("num_bz")]


@register
class IsotopeSigma(Contract):
    file, fn, props = "isotope.c", "iso_get_isotope_scattering_strength", ("C14", "C16", "C17")
    modular = False
    ghosts = GH
    params = params(RealP("sigma", lo=0, strict=True, gen=lambda r: r.uniform(0.2, 2)))

    def ensures(self, s):
        def delta(gp, i, k, f0):
            x = s.frequencies(gp, k) - f0
            return (T.num("0.3989422804014327") * T.inv(s.sigma)
                    * T.func("exp", T.num("-0.5") * x * x * T.inv(s.sigma * s.sigma)))
        return {"gamma": [("mass-variance golden-rule sum with a normal distribution",
                           lambda i: gamma(s, i, delta), None)]}


@register
class IsotopeThm(Contract):
    file, fn, props = "isotope.c", "iso_get_thm_isotope_scattering_strength", ("C14", "C16", "C17")
    modular = False
    ghosts = GH
    params = params(Arr("integration_weights", "real", ["num_bz", "num_band0", "num_band"], lo=0))

    def ensures(self, s):
        return {"gamma": [("mass-variance golden-rule sum with tetrahedron weights",
                           lambda i: gamma(s, i, lambda gp, ii, k, f0: s.integration_weights(gp, ii, k)), None)]}
