"""C01, C02, C03, C18: grid addresses, grid generation, irreducible points, rotations
(c/grgrid.c, c/recgrid.c, c/snf3x3.c)."""
import itertools

import numpy as np

from ..contract import *
from .. import gridgen as GG
from .. import terms as T
from ..terms import ZERO, ONE

D3 = [Size("D0", rng=(1, 6)), Size("D1", rng=(1, 6)), Size("D2", rng=(1, 6))]


def D_arr():
    return Arr("D_diag", "int", [3], value=lambda s: [s.D0, s.D1, s.D2])


def NGP(s):
    return s.D0 * s.D1 * s.D2


def gmesh(rng, nmax=60):
    D = GG.mesh(rng, nmax)
    return {"D0": D[0], "D1": D[1], "D2": D[2]}


@register
class AllAddresses(Contract):
    """listing all addresses: entry number a + D0 (b + D1 c) is (a, b, c)"""
    file, fn, props = "recgrid.c", "recgrid_get_all_grid_addresses", ("C01", "C17")
    ghosts = D3
    params = [Arr("gr_grid_addresses", "int", ["D2", "D1", "D0", 3], "out"), D_arr()]
    trials = 40

    def generate(self, rng, case):
        return gmesh(rng)

    def ensures(self, s):
        return {"gr_grid_addresses": [("address of each grid point", lambda c, b, a, k: T.ite(T.eq(k, 0), a, T.ite(T.eq(k, 1), b, c)), None)]}


class _Digits(Contract):
    """grid point index written with its digits a, b, c"""
    ghosts = D3 + [IntP("a", 0, "D0"), IntP("b", 0, "D1"), IntP("c", 0, "D2"),]
    trials = 60

    def generate(self, rng, case):
        return gmesh(rng)


@register
class AddressFromIndex(_Digits):
    file, fn, props = "recgrid.c", "recgrid_get_grid_address_from_index", ("C01", "C17")
    params = [Arr("address", "int", [3], "out"), ExprP("grid_index", lambda s: s.a + s.D0 * (s.b + s.D1 * s.c)), D_arr()]

    def ensures(self, s):
        return {"address": [("digits of the grid point index", lambda k: T.ite(T.eq(k, 0), s.a, T.ite(T.eq(k, 1), s.b, s.c)), None)]}


@register
class IndexFromAddress(_Digits):
    """index of any integer address: the digits of the address reduced to the mesh"""
    file, fn, props = "recgrid.c", "recgrid_get_grid_index_from_address", ("C01", "C17")
    ghosts = _Digits.ghosts + [IntP("ta"), IntP("tb"), IntP("tc")]
    params = [Arr("address", "int", [3], value=lambda s: [s.a + s.ta * s.D0, s.b + s.tb * s.D1, s.c + s.tc * s.D2]), D_arr()]

    def returns(self, s):
        return s.a + s.D0 * (s.b + s.D1 * s.c)


@register
class DoubleAddress(Contract):
    file, fn, props = "recgrid.c", "recgrid_get_double_grid_address", ("C01", "C17")
    params = [Arr("address_double", "int", [3], "out"), Arr("address", "int", [3]), Arr("PS", "int", [3], lo=0, hi=2)]

    def ensures(self, s):
        return {"address_double": [("twice the address plus the shift", lambda k: T.const(2) * s.address(k) + s.PS(k), None)]}


@register
class DoubleIndex(_Digits):
    file, fn, props = "recgrid.c", "recgrid_get_double_grid_index", ("C01", "C17")
    ghosts = _Digits.ghosts + [IntP("ta"), IntP("tb"), IntP("tc"), IntP("p0", 0, 2), IntP("p1", 0, 2), IntP("p2", 0, 2)]
    params = [Arr("address_double", "int", [3], value=lambda s: [
        T.const(2) * (s.a + s.ta * s.D0) + s.p0, T.const(2) * (s.b + s.tb * s.D1) + s.p1, T.const(2) * (s.c + s.tc * s.D2) + s.p2]),
        D_arr(), Arr("PS", "int", [3], value=lambda s: [s.p0, s.p1, s.p2])]

    def returns(self, s):
        return s.a + s.D0 * (s.b + s.D1 * s.c)


# ------------------------------------------------------------------ rotations on the mesh
ROTS = Arr("rotations", "int", ["num_rot", 3, 3])


def gen_rots(rng, nmax=60, shift=True):
    D = GG.mesh(rng, nmax)
    PS = rng.integers(0, 2, 3) if shift and rng.integers(2) else np.zeros(3, int)
    g = GG.group_on(rng, D, PS)
    g = [g[i] for i in rng.permutation(len(g))]
    return D, PS, g


@register
class RotateIndex(Contract):
    """index of the rotated grid point (bounded)"""
    file, fn, props = "recgrid.c", "recgrid_rotate_grid_index", ("C03", "C17")
    skip_symbolic = True
    ghosts = D3
    params = [IntP("grid_index"), Arr("rotation", "int", [3, 3]), D_arr(), Arr("PS", "int", [3])]
    trials = 60

    def generate(self, rng, case):
        D, PS, g = gen_rots(rng)
        return {"D0": D[0], "D1": D[1], "D2": D[2], "PS": PS, "rotation": g[0], "grid_index": int(rng.integers(np.prod(D)))}

    def concrete_check(self, v, out, ret):
        w = GG.rotate(v["grid_index"], v["rotation"], v["D_diag"], v["PS"])
        return [] if ret == w else [("rotated grid point", f"{v['grid_index']} goes to {ret}, the rotation takes it to {w}")]


@register
class IrGridMap(Contract):
    """smallest index of the orbit of each grid point (bounded)"""
    file, fn, props = "recgrid.c", "recgrid_get_ir_grid_map", ("C03", "C17")
    skip_symbolic = True
    ghosts = D3
    params = [Arr("ir_grid_map", "int", ["D0*D1*D2"], "out"), ROTS, Size("num_rot"), D_arr(), Arr("PS", "int", [3])]
    trials = 80

    def generate(self, rng, case):
        D, PS, g = gen_rots(rng)
        return {"D0": D[0], "D1": D[1], "D2": D[2], "PS": PS, "rotations": np.array(g), "num_rot": len(g)}

    unconstrained = ("ir_grid_map",)

    def concrete_check(self, v, out, ret):
        w = GG.ir_map(v["rotations"], [int(x) for x in v["D_diag"]], v["PS"])
        m = out["ir_grid_map"]
        f = []
        b = np.nonzero(m != w)[0]
        if len(b):
            f.append(("smallest index of the orbit", f"grid point {b[0]} is mapped to {m[b[0]]}, smallest point of its orbit is {w[b[0]]}"))
        n = len(set(w.tolist()))
        if ret != n:
            f.append(("number of irreducible grid points", f"returned {ret}, there are {n} orbits"))
        return f


@register
class PointGroup(Contract):
    """reciprocal rotations of a direct-space group (bounded)"""
    file, fn, props = "recgrid.c", "recgrid_get_reciprocal_point_group", ("C18", "C17")
    skip_symbolic = True
    params = [Arr("rec_rotations", "int", [48, 3, 3], "out"), ROTS, Size("num_rot"), IntP("is_time_reversal", values=(0, 1)),
              IntP("is_transpose", values=(0, 1))]
    unconstrained = ("rec_rotations",)
    trials = 80

    def generate(self, rng, case):
        g = GG.group(rng)
        k = rng.integers(1, 4)      # non-primitive cells repeat rotations
        if rng.integers(2):
            g = g * k
            g = [g[i] for i in rng.permutation(len(g))]
        return {"num_rot": len(g), "rotations": np.array(g)}

    def concrete_check(self, v, out, ret):
        want = []
        for r in v["rotations"]:
            r = r.T if v["is_transpose"] else r
            k = tuple(r.ravel().tolist())
            if k not in want:
                want.append(k)
        base = list(want)
        if v["is_time_reversal"]:
            for k in base:
                m = tuple(-x for x in k)
                if m not in want:
                    want.append(m)
        got = [tuple(x) for x in out["rec_rotations"].reshape(48, 9)[:ret].tolist()]
        if ret != len(want) or set(got) != set(want) or len(set(got)) != len(got):
            return [("the transposed rotations, with their negatives under time reversal, each once",
                     f"{ret} matrices ({len(set(got))} different), expected {len(want)}; missing {list(set(want) - set(got))[:2]} "
                     f"extra {list(set(got) - set(want))[:2]}")]
        return []


@register
class TransformRotations(Contract):
    """rotations in grid coordinates, D Q^-1 R Q D^-1, refused unless integer (bounded)"""
    file, fn, props = "recgrid.c", "recgrid_transform_rotations", ("C18", "C17")
    skip_symbolic = True
    ghosts = D3
    params = [Arr("transformed_rots", "int", ["num_rot", 3, 3], "out"), ROTS, Size("num_rot"), D_arr(), Arr("Q", "int", [3, 3])]
    unconstrained = ("transformed_rots",)
    trials = 120

    def generate(self, rng, case):
        D = GG.mesh(rng, 10 ** 6)
        if rng.integers(3) == 0:
            D = [int(x) * int(rng.choice([1, 20, 40])) for x in D]
        Q = GG.unimodular(rng)
        want = rng.integers(4) > 0

        def ok(m):
            if not want:
                return True
            t = self.exact(m, D, Q)
            return all(x.denominator == 1 for r in t for x in r)
        Qi = np.array([[int(x) for x in r] for r in GG.inv_exact(Q)])
        fam = int(rng.integers(4))
        if rng.integers(2):
            # rotations simple in the mesh basis: R = Q M Q^-1
            g = GG.closure([Q @ GG.FAMS[fam][rng.integers(len(GG.FAMS[fam]))] @ Qi for _ in range(2)]) or [GG.I3]
            g = [m for m in g if ok(m)]
        else:
            g = GG.group(rng, ok, fam)
        g = [g[i] for i in rng.permutation(len(g))]
        return {"D0": D[0], "D1": D[1], "D2": D[2], "Q": Q, "num_rot": len(g), "rotations": np.array(g)}

    @staticmethod
    def exact(R, D, Q):
        m = GG.mm(GG.mm(GG.inv_exact(Q), [[int(x) for x in r] for r in R]), [[int(x) for x in r] for r in Q])
        return [[m[i][j] * int(D[i]) / int(D[j]) for j in range(3)] for i in range(3)]

    def concrete_check(self, v, out, ret):
        good = True
        for i, R in enumerate(v["rotations"]):
            t = self.exact(R, v["D_diag"], v["Q"])
            if any(x.denominator != 1 for r in t for x in r):
                good = False
                break
            if ret and out["transformed_rots"][i].tolist() != [[int(x) for x in r] for r in t]:
                return [("transformed rotation is D Q^-1 R Q D^-1", f"rotation {i}: {out['transformed_rots'][i].tolist()} instead of {t}")]
        if bool(ret) != good:
            return [("success exactly when all rotations keep the grid", f"returned {ret}")]
        return []


@register
class SNF(Contract):
    """Smith-like decomposition D = P A Q (bounded)"""
    file, fn, props = "recgrid.c", "recgrid_get_snf3x3", ("C02", "C17")
    skip_symbolic = True
    params = [Arr("D_diag", "int", [3], "out"), Arr("P", "int", [3, 3], "out"), Arr("Q", "int", [3, 3], "out"), Arr("A", "int", [3, 3])]
    unconstrained = ("D_diag", "P", "Q")
    trials = 600
    opts = {"call_timeout": 5}

    def generate(self, rng, case):
        k = rng.integers(7)
        if k == 0:
            A = rng.integers(-4, 5, (3, 3))
        elif k == 1:
            A = np.diag(rng.integers(1, 30, 3))
        elif k == 2:
            A = rng.integers(-30, 31, (3, 3))
        elif k == 3:
            A = GG.unimodular(rng) @ np.diag(rng.integers(1, 13, 3)) @ GG.unimodular(rng)
        elif k == 4:
            A = rng.integers(0, 2, (3, 3)) * rng.integers(-9, 10, (3, 3))
        elif k == 5:
            n = int(rng.integers(1, 20))
            A = n * np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]])
        else:
            A = np.diag(rng.integers(-12, 13, 3))[rng.permutation(3)]
        return {"A": A}

    def concrete_check(self, v, out, ret):
        A, D, P, Q = v["A"], out["D_diag"], out["P"], out["Q"]
        d = GG.det(A)
        if d == 0:
            return [] if ret == 0 else [("a singular matrix is refused", f"returned {ret}")]
        if ret == 0:
            return [("a non-singular matrix is decomposed", "returned 0")]
        f = []
        if GG.mm(GG.mm(P.tolist(), A.tolist()), Q.tolist()) != np.diag(D).tolist():
            f.append(("D = P A Q", f"P A Q = {(P @ A @ Q).tolist()}, D = {D.tolist()}"))
        if abs(GG.det(P)) != 1 or abs(GG.det(Q)) != 1:
            f.append(("P and Q are unimodular", f"det P = {GG.det(P)}, det Q = {GG.det(Q)}"))
        if (D <= 0).any():
            f.append(("diagonal is positive", f"D = {D.tolist()}"))
        if abs(int(np.prod(D))) != abs(d):
            f.append(("number of grid points is |det A|", f"D = {D.tolist()}, det A = {d}"))
        return f
