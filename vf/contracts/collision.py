"""C13: collision matrix (c/collision_matrix.c)."""
from ..contract import *
from .. import terms as T
from ..terms import ZERO, ONE
from .ise import FC3, KB
import numpy as np


def ti_of(s, g):
    """index of the triplet of q2 = g: rank of its representative among representatives"""
    rep = s.triplets_map(g)
    return SUM([rep], lambda k: ONE, lambda k: T.eq(s.triplets_map(k), k))


def invsinh(s, f):
    return T.ite(T.lt(s.cutoff_frequency, f), T.inv(T.func("sinh", f * KB * T.inv(2 * s.temperature))), ZERO)


def element(s, g, b0, b1):
    """sum over third-phonon bands for the pair (b0, (g, b1))"""
    ti = ti_of(s, g)
    swap = T.ne(s.triplets_map(g), s.map_q(g))

    def body(l):
        plain = (s.pp(ti, b0, b1, l) * s.g(2, ti, b0, b1, l) * invsinh(s, s.frequencies(s.triplets(ti, 2), l)))
        swapped = (s.pp(ti, b0, l, b1) * s.g(2, ti, b0, l, b1) * invsinh(s, s.frequencies(s.triplets(ti, 1), l)))
        return T.ite(swap, swapped, plain) * s.unit_conversion_factor
    return SUM([s.num_band], body)


def gen_maps(rng, n):
    """a triplet map (idempotent, representative not larger) and a q-map"""
    m = np.arange(n)
    for i in range(1, n):
        if rng.random() < 0.5:
            m[i] = m[rng.integers(0, i)]
    mq = np.array([x if rng.random() < 0.5 else rng.integers(0, n) for x in m])
    return m, mq


BASE = [
    Arr("frequencies", "real", ["num_grid", "num_band"]),
    Arr("triplets", "int", ["num_triplets", 3], lo=0, hi="num_grid"),
    Arr("triplets_map", "int", ["num_gp"], lo=0, hi="num_gp",
        elem=lambda s, i: [T.eq(s.triplets_map(s.triplets_map(i)), s.triplets_map(i))]),
    Arr("map_q", "int", ["num_gp"]),
]


class ColBase(Contract):
    modular = False

    def requires(self, s):
        return [T.eq(SUM([s.num_gp], lambda k: ONE, lambda k: T.eq(s.triplets_map(k), k)), s.num_triplets)]

    def generate(self, rng, case):
        n = int(rng.integers(1, 6))
        m, mq = gen_maps(rng, n)
        return {"num_gp": n, "num_triplets": len(set(m.tolist())), "triplets_map": m, "map_q": mq}


@register
class ReducibleCollision(ColBase):
    file, fn, props = "collision_matrix.c", "col_get_reducible_collision_matrix", ("C13", "C16", "C17")
    ghosts = [Size("num_triplets"), Size("num_band0"), Size("num_band"), Size("num_grid")]
    params = [Arr("collision_matrix", "real", ["num_band0", "num_gp", "num_band"], "inout"), FC3] + BASE + [
        Arr("g", "real", [3, "num_triplets", "num_band0", "num_band", "num_band"]),
        Size("num_gp"),
        RealP("temperature", lo=0, strict=True, gen=lambda r: r.uniform(30, 900)),
        RealP("unit_conversion_factor"),
        RealP("cutoff_frequency", lo=0, gen=lambda r: r.choice([0.0, r.uniform(0, 1)]))]

    def ensures(self, s):
        return {"collision_matrix": [("defining sum of the reducible collision matrix, added to the array",
                                      lambda b0, g, b1: s.collision_matrix(b0, g, b1) + element(s, g, b0, b1), None)]}


@register
class Collision(ColBase):
    file, fn, props = "collision_matrix.c", "col_get_collision_matrix", ("C13", "C16", "C17")
    ghosts = [Size("num_triplets"), Size("num_band0"), Size("num_band"), Size("num_grid")]
    params = [Arr("collision_matrix", "real", ["num_band0", 3, "num_ir_gp", "num_band", 3], "inout"), FC3] + BASE + [
        Arr("rot_grid_points", "int", ["num_ir_gp", "num_rot"], lo=0, hi="num_gp"),
        Arr("rotations_cartesian", "real", ["num_rot", 3, 3]),
        Arr("g", "real", [3, "num_triplets", "num_band0", "num_band", "num_band"]),
        Size("num_ir_gp"), Size("num_gp"), Size("num_rot"),
        RealP("temperature", lo=0, strict=True, gen=lambda r: r.uniform(30, 900)),
        RealP("unit_conversion_factor"),
        RealP("cutoff_frequency", lo=0, gen=lambda r: r.choice([0.0, r.uniform(0, 1)]))]

    def ensures(self, s):
        def val(b0, m, i, b1, n):
            return s.collision_matrix(b0, m, i, b1, n) + SUM(
                [s.num_rot], lambda j: element(s, s.rot_grid_points(i, j), b0, b1) * s.rotations_cartesian(j, m, n))
        return {"collision_matrix": [("sum over rotations of the reducible element times the rotation", val, None)]}
