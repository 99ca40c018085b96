"""C06, C07: tetrahedron and smearing weights of triplets (c/triplet.c, c/triplet_iw.c, c/tetrahedron_method.c)."""
import math

import numpy as np

from ..contract import *
from .. import gridgen as GG
from .. import tetraref as TR
from .. import terms as T
from ..terms import ZERO, ONE
from .bz import bz_problem, bz_grid, D_arr, D3


# ------------------------------------------------------------------ the linear tetrahedron method
def tetra_sum(fn, omega, v):
    """1/6 of the sum over 24 tetrahedra of the weight of the first vertex"""
    return T.rdiv(SUM([24], lambda i: T.app(fn, (omega,) + tuple(v(i, j) for j in range(4)))), T.const(6))


def inside(f0, v):
    """some vertex is not above f0 and some vertex is not below f0"""
    lo = SUM([24, 4], lambda i, j: T.indicator(T.le(v(i, j), f0)))
    hi = SUM([24, 4], lambda i, j: T.indicator(T.le(f0, v(i, j))))
    return T.conj(T.lt(ZERO, lo), T.lt(ZERO, hi))


@register
class TetraWeight(Contract):
    """total weight on the 24 tetrahedra: the formula of one tetrahedron is decided in vf/obl06.py (all inputs);
    here the compiled function is compared with the divided-difference formula (bounded)"""
    file, fn, props = "tetrahedron_method.c", "thm_get_integration_weight", ("C06", "C07", "C17")
    skip_symbolic = True
    trials = 120
    params = [RealP("omega"), Arr("v", "real", [24, 4]), CharP("function", "I", "char")]
    cases = [{"function": "I"}, {"function": "J"}]

    def call_returns(self, s):
        c = T.cval(s.function)
        if c is None:
            raise Unsupported("weight type is not a constant")
        return tetra_sum("tetra_I" if int(c) == ord("I") else "tetra_J", s.omega, s.v)

    def generate(self, rng, case):
        kind = rng.integers(4)
        if kind == 0:
            v = rng.uniform(0, 1, (24, 4))
        elif kind == 1:
            v = rng.integers(0, 3, (24, 4)) / 2.0
        elif kind == 2:
            v = rng.integers(0, 6, (24, 4)) / 5.0 + (rng.random((24, 4)) < 0.2) * 1e-3
        else:
            g = rng.uniform(0, 1, 15)
            v = g[rng.integers(0, 15, (24, 4))]
        om = float(rng.uniform(-0.15, 1.2))
        return {"v": v, "omega": om}

    def concrete_check(self, v, out, ret):
        J = v["function"] in ("J", ord("J"))
        if (v["v"] == v["omega"]).any():
            return []
        e = sum(TR.weight(v["omega"], r, J) for r in v["v"]) / 6.0
        if abs(ret - e) > 1e-8 * max(1, abs(e)):
            return [("tetrahedron weight", f"got {ret}, the linear tetrahedron formula gives {e}")]
        return []


@register
class InTetrahedra(Contract):
    """bounded"""
    file, fn, props = "tetrahedron_method.c", "thm_in_tetrahedra", ("C06", "C07")
    skip_symbolic = True
    trials = 60
    params = [RealP("f0"), Arr("v", "real", [24, 4])]

    def call_returns(self, s):
        return T.indicator(inside(s.f0, s.v))

    def generate(self, rng, case):
        v = rng.uniform(0.4, 0.6, (24, 4))
        k = rng.integers(24), rng.integers(4)
        if rng.integers(2):
            v[k] = rng.choice([0.0, 1.0])
        om = rng.choice([v.min(), v.max(), rng.uniform(0, 1), rng.uniform(0.35, 0.65)])
        return {"v": v, "f0": float(om)}

    def concrete_check(self, v, out, ret):
        e = int(v["v"].min() <= v["f0"] <= v["v"].max())
        return [] if bool(ret) == bool(e) else [("whether the frequency lies in the vertex range", f"got {ret}, should be {e}")]


# ------------------------------------------------------------------ grid points around a grid point
BZG = Struct("bzgrid", [("size", IntP("size")), ("D_diag", D_arr()), ("Q", Arr("Q", "int", [3, 3])), ("PS", Arr("PS", "int", [3])),
                        ("gp_map", Arr("gp_map", "int", ["nmap"])), ("bzg2grg", Arr("bzg2grg", "int", ["nbz"])),
                        ("addresses", Arr("addresses", "int", ["nbz", 3])), ("reclat", Arr("reclat", "real", [3, 3])),
                        ("type", Const("type", 1))])


class _Zone(Contract):
    ghosts = D3

    def derive(self, s, case):
        if hasattr(self, "g") and not hasattr(s, "_E"):
            s._v["nbz"], s._v["nmap"] = T.const(len(self.g[0])), T.const(len(self.g[1]))

    def zone(self, rng, case, nmax=30):
        D, Q, PS, L = bz_problem(rng, nmax, shift=False)
        self.g = bz_grid(D, Q, PS, L, case["type"] == 2)
        return {"D0": D[0], "D1": D[1], "D2": D[2], "Q": Q, "PS": PS, "reclat": L, "size": int(np.prod(D)),
                "gp_map": self.g[1], "bzg2grg": self.g[2], "addresses": self.g[0]}

    @staticmethod
    def neighbor(v):
        """the stored zone point with exactly the summed address, otherwise an equivalent one"""
        D = [int(x) for x in v["D_diag"]]
        n = int(np.prod(D))
        adr = [tuple(int(c) for c in a) for a in v["addresses"]]
        pos = {a: i for i, a in enumerate(adr)}
        first = {}
        for i, g in enumerate(v["bzg2grg"]):
            first.setdefault(int(g), i)

        def f(gp, ra):
            a = tuple(adr[gp][k] + int(ra[k]) for k in range(3))
            return pos.get(a, first[GG.index(a, D)])
        return f


@register
class Neighbors(_Zone):
    """bounded (the search over stored zone points)"""
    file, fn, props = "triplet_iw.c", "tpi_get_neighboring_grid_points", ("C07", "C14", "C19")
    skip_symbolic = True
    optional = True
    cases = [{"type": 1}, {"type": 2}]
    trials = 40
    params = [Arr("nb", "int", ["num_rel"], "out"), IntP("grid_point"), Arr("rel", "int", ["num_rel", 3]), Size("num_rel", rng=(1, 6)), BZG]
    unconstrained = ("nb",)

    def derive(self, s, case):
        super().derive(s, case)

    def call_ensures(self, s):
        gp = s.grid_point
        return {"nb": lambda i: T.app("neighbor", (gp, s.rel(i, 0), s.rel(i, 1), s.rel(i, 2)), "int")}

    def generate(self, rng, case):
        v = self.zone(rng, case)
        v["num_rel"] = 6
        v["rel"] = rng.integers(-2, 3, (6, 3))
        v["grid_point"] = int(rng.integers(len(self.g[0]) if case["type"] == 2 else v["size"]))
        return v

    def concrete_check(self, v, out, ret):
        f = self.neighbor(v)
        for i, r in enumerate(v["rel"]):
            e = f(int(v["grid_point"]), r)
            g = int(out["nb"][i])
            if not 0 <= g < len(v["addresses"]) or v["bzg2grg"][g] != v["bzg2grg"][e]:
                return [("point equivalent to the summed address", f"point {v['grid_point']} + {r.tolist()}: got {g}, should be {e}")]
            if (v["addresses"][e] == v["addresses"][int(v["grid_point"])] + r).all() and g != e:
                return [("stored zone point of the summed address", f"point {v['grid_point']} + {r.tolist()}: got {g}, should be {e}")]
        return []


# ------------------------------------------------------------------ weights of triplets
def clip(f):
    return T.ite(T.lt(f, ZERO), ZERO, f)


@register
class TripletWeights(_Zone):
    file, fn, props = "triplet.c", "tpl_get_integration_weight", ("C07", "C16", "C17")
    modular = False
    opts = {"unroll_total": 8}
    uses = ("thm_get_integration_weight", "thm_in_tetrahedra", "tpi_get_neighboring_grid_points")
    ghosts = D3
    params = [
        Arr("iw", "real", ["ng", "num_triplets", "num_band0", "num_band1", "num_band2"], "out"),
        Arr("iw_zero", "char", ["num_triplets", "num_band0", "num_band1", "num_band2"], "out"),
        Arr("frequency_points", "real", ["num_band0"]), Size("num_band0"),
        Arr("rel", "int", [24, 4, 3]),
        Arr("triplets", "int", ["num_triplets", 3], lo=0, hi="nbz"), Size("num_triplets"), BZG,
        Arr("frequencies1", "real", ["nbz", "num_band1"]), Size("num_band1"),
        Arr("frequencies2", "real", ["nbz", "num_band2"]), Size("num_band2"),
        Const("tp_type", 2), Const("openmp_per_triplets", 1)]
    cases = [{"type": t, "tp_type": k, "openmp_per_triplets": o} for t, k, o in
             [(1, 2, 1), (2, 3, 0), (2, 2, 0), (1, 3, 1), (2, 4, 1), (1, 4, 0)]]
    trials = 12

    def derive(self, s, case):
        if hasattr(self, "g") and not hasattr(s, "_E"):
            s._v["nbz"], s._v["nmap"] = T.const(len(self.g[0])), T.const(len(self.g[1]))
        elif "nbz" not in s._v:
            s._v["nbz"], s._v["nmap"] = s._E.size("nbz"), s._E.size("nmap")
        s._v["ng"] = T.const({2: 2, 3: 3, 4: 1}[case["tp_type"]])

    def facts(self, s, E):
        nbz = s.nbz
        E.facts.add_elem("neighbor", lambda *a: [T.le(ZERO, T.app("neighbor", a, "int")), T.lt(T.app("neighbor", a, "int"), nbz)])

    def ensures(self, s):
        tp = int(T.cval(s.tp_type))
        sg = -1 if tp in (2, 3) else 1

        def vert(leg, f, nb, b, t):
            def g(i, j):
                sgn = T.const(1 if leg == 1 else sg)
                x = f(T.app("neighbor", (s.triplets(t, leg),) + tuple(s.rel(i, j, k) * sgn for k in range(3)), "int"), b)
                return clip(x) if tp in (2, 3) else x
            return g

        def gs(t, j, b1, b2):
            v1, v2 = vert(1, s.frequencies1, s.num_band1, b1, t), vert(2, s.frequencies2, s.num_band2, b2, t)
            f0 = s.frequency_points(j)
            vs = [lambda i, k: v2(i, k) - v1(i, k), lambda i, k: v1(i, k) - v2(i, k), lambda i, k: v1(i, k) + v2(i, k)]
            return [(inside(f0, v), T.ite(inside(f0, v), tetra_sum("tetra_I", f0, v), ZERO)) for v in (vs if tp in (2, 3) else vs[:1])]

        def iw(n, t, j, b1, b2):
            g = [x[1] for x in gs(t, j, b1, b2)]
            if tp == 4:
                return g[0]
            return T.ite(T.eq(n, 0), g[2], T.ite(T.eq(n, 1), g[0] - g[1], g[0] + g[1] + g[2]))

        def zero(t, j, b1, b2):
            return T.indicator(T.conj(*[T.neg(x[0]) for x in gs(t, j, b1, b2)]))
        return {"iw": [("delta functions of the frequency sums on the tetrahedra around the moving points", iw, None)],
                "iw_zero": [("flag is set exactly when no delta function can contribute", zero, None)]}

    def generate(self, rng, case):
        v = self.zone(rng, case, 14)
        D = [v["D0"], v["D1"], v["D2"]]
        n1, n2, n0, nt = (int(x) for x in (rng.integers(1, 3), rng.integers(1, 3), rng.integers(1, 3), rng.integers(1, 4)))
        if case["tp_type"] != 4:
            n2 = n1
        nbz = len(self.g[0])
        v.update(num_band0=n0, num_band1=n1, num_band2=n2, num_triplets=nt, nbz=nbz, nmap=len(self.g[1]))
        v["rel"] = np.array(TR.RELATIVE[int(rng.integers(4))])
        f1 = rng.uniform(-0.2, 3, (int(np.prod(D)), n1))[self.g[2]]      # equal at equivalent points
        v["frequencies1"] = f1
        v["frequencies2"] = f1 if n1 == n2 else rng.uniform(-0.2, 3, (int(np.prod(D)), n2))[self.g[2]]
        v["triplets"] = rng.integers(0, nbz, (nt, 3))
        v["frequency_points"] = rng.uniform(0, 5, n0)
        return v

    def numeric(self, v):
        nb = self.neighbor(v)
        tp = int(v["tp_type"])
        F1, F2 = v["frequencies1"], v["frequencies2"]
        nt, n0, n1, n2 = len(v["triplets"]), len(v["frequency_points"]), F1.shape[1], F2.shape[1]
        iw = np.zeros(({2: 2, 3: 3, 4: 1}[tp], nt, n0, n1, n2))
        zero = np.zeros((nt, n0, n1, n2), int)
        sg = -1 if tp in (2, 3) else 1
        for t in range(nt):
            A = np.array([[nb(int(v["triplets"][t][1]), r) for r in q] for q in v["rel"]])
            B = np.array([[nb(int(v["triplets"][t][2]), sg * r) for r in q] for q in v["rel"]])
            for b1 in range(n1):
                for b2 in range(n2):
                    x, y = F1[A, b1], F2[B, b2]
                    if tp != 4:
                        x, y = np.maximum(x, 0), np.maximum(y, 0)
                    vs = [y - x, x - y, x + y][:3 if tp != 4 else 1]
                    for j in range(n0):
                        f0 = float(v["frequency_points"][j])
                        g = [sum(TR.weight(f0, q, False) for q in vv) / 6.0 for vv in vs]
                        zero[t, j, b1, b2] = int(all(f0 < vv.min() or f0 > vv.max() for vv in vs))
                        iw[:, t, j, b1, b2] = [g[0]] if tp == 4 else [g[2], g[0] - g[1], g[0] + g[1] + g[2]][:len(iw)]
        return {"iw": iw, "iw_zero": zero}


@register
class TripletWeightsSigma(Contract):
    file, fn, props = "triplet.c", "tpl_get_integration_weight_with_sigma", ("C07", "C16", "C17")
    modular = False
    params = [
        Arr("iw", "real", ["ng", "num_triplets", "num_band0", "num_band", "num_band"], "out"),
        Arr("iw_zero", "char", ["num_triplets", "num_band0", "num_band", "num_band"], "out"),
        RealP("sigma", lo=0, strict=True, gen=lambda r: r.uniform(0.05, 0.5)),
        RealP("sigma_cutoff", gen=lambda r: r.choice([0.0, -1.0, r.uniform(0.5, 4)])),
        Arr("frequency_points", "real", ["num_band0"]), Size("num_band0"),
        Arr("triplets", "int", ["num_triplets", 3], lo=0, hi="num_grid"), Size("num_triplets"),
        Arr("frequencies", "real", ["num_grid", "num_band"]), Size("num_band"), Const("tp_type", 2)]
    ghosts = [Size("num_grid")]
    cases = [{"tp_type": 2}, {"tp_type": 3}, {"tp_type": 4}]
    trials = 40

    def derive(self, s, case):
        s._v["ng"] = T.const({2: 2, 3: 3, 4: 1}[case["tp_type"]])

    def ensures(self, s):
        tp = int(T.cval(s.tp_type))

        def xs(t, j, b1, b2):
            f0, f1, f2 = s.frequency_points(j), s.frequencies(s.triplets(t, 1), b1), s.frequencies(s.triplets(t, 2), b2)
            return [f0 + f1 - f2, f0 - f1 + f2, f0 - f1 - f2][:1 if tp == 4 else 3]

        def flag(t, j, b1, b2):
            c = s.sigma * s.sigma_cutoff
            far = [T.disj(T.lt(c, x), T.lt(x, -c)) for x in xs(t, j, b1, b2)]
            return T.conj(T.lt(ZERO, c), *far)

        def normal(x):
            return (T.num("0.3989422804014327") * T.inv(s.sigma) * T.func("exp", T.num("-0.5") * x * x * T.inv(s.sigma * s.sigma)))

        def iw(n, t, j, b1, b2):
            g = [normal(x) for x in xs(t, j, b1, b2)]
            v = g[0] if tp == 4 else T.ite(T.eq(n, 0), g[2], T.ite(T.eq(n, 1), g[0] - g[1], g[0] + g[1] + g[2]))
            return T.ite(flag(t, j, b1, b2), ZERO, v)
        return {"iw": [("normal distributions of the frequency sums", iw, None)],
                "iw_zero": [("flag is set exactly when all differences are beyond the cutoff", lambda *a: T.indicator(flag(*a)), None)]}
