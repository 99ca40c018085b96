"""C04, C05: Brillouin-zone grid points and q-point triplets (c/bzgrid.c, c/triplet_grid.c), bounded."""
import itertools

import numpy as np

from ..contract import *
from .. import gridgen as GG
from .. import terms as T
from .grid import D3, D_arr, ROTS


def bz_problem(rng, nmax=40, shift=True):
    fam = int(rng.integers(6))
    L = GG.lattice(rng, fam)
    D = GG.mesh(rng, nmax)
    Q = GG.I3 if rng.integers(2) else GG.unimodular(rng)
    PS = rng.integers(0, 2, 3) if shift and rng.integers(3) == 0 else np.zeros(3, int)
    return D, Q, PS, L


def bz_reference(D, Q, PS, L):
    """addresses of the shortest images per grid point -> list of lists, in addresses"""
    tol = GG.bz_tolerance(D, Q, L)
    Qi = np.array([[int(x) for x in r] for r in GG.inv_exact(Q)])
    out = []
    for g in range(int(np.prod(D))):
        a = np.array(GG.address(g, D))
        q = Q @ ((2 * a + PS) / (2.0 * np.array(D)))
        box = GG.BOX - np.rint(q).astype(int)
        d = GG.bz_lengths(a, D, Q, PS, L, box)
        sel = box[d < d.min() + tol]
        # near-degenerate distances leave the choice open
        amb = (d - d.min() > 1e-6 * tol) & (d - d.min() < 2.2 * tol)
        out.append((a[None, :] + (sel @ Qi.T) * np.array(D), bool(amb.any()), d.min()))
    return tol, out


def bz_grid(D, Q, PS, L, dense):
    """a zone grid built from the definition (input of the triplet functions)"""
    tol, ref = bz_reference(D, Q, PS, L)
    n = len(ref)
    if dense:
        adr, g2, gm = [], [], [0]
        for g, (x, _, _) in enumerate(ref):
            adr += x.tolist()
            g2 += [g] * len(x)
            gm.append(len(adr))
        return np.array(adr), np.array(gm), np.array(g2)
    first = [x[0].tolist() for x, _, _ in ref]
    g2 = list(range(n))
    cnt = [0]
    rest = []
    for g, (x, _, _) in enumerate(ref):
        rest += x[1:].tolist()
        g2 += [g] * (len(x) - 1)
        cnt.append(len(rest))
    adr = np.array(first + rest)
    big = [2 * d for d in D]
    m = np.full(8 * n, 8 * n)
    for i, a in enumerate(adr):
        m[GG.index(a, big)] = i
    return adr, np.concatenate([m, cnt]), np.array(g2)


@register
class BZAddresses(Contract):
    """zone grid points: complete, equivalent, shortest; tables consistent (bounded)"""
    file, fn, props = "recgrid.c", "recgrid_get_bz_grid_addresses", ("C04", "C17")
    skip_symbolic = True
    ghosts = D3
    cases = [{"bz_grid_type": 1}, {"bz_grid_type": 2}]
    params = [Arr("bz_grid_addresses", "int", ["8*D0*D1*D2 + 8", 3], "out"),
              Arr("bz_map", "int", ["map_size"], "out"), Arr("bzg2grg", "int", ["8*D0*D1*D2 + 8"], "out"),
              D_arr(), Arr("Q", "int", [3, 3]), Arr("PS", "int", [3]), Arr("rec_lattice", "real", [3, 3]), Const("bz_grid_type", 1)]
    unconstrained = ("bz_grid_addresses", "bz_map", "bzg2grg")
    trials = 40

    def derive(self, s, case):
        n = s.D0 * s.D1 * s.D2
        s._v["map_size"] = n * 9 + T.ONE if case["bz_grid_type"] == 1 else n + T.ONE

    def generate(self, rng, case):
        D, Q, PS, L = bz_problem(rng)
        return {"D0": D[0], "D1": D[1], "D2": D[2], "Q": Q, "PS": PS, "rec_lattice": L}

    def accept(self, v):
        D = [int(x) for x in (v["D0"], v["D1"], v["D2"])]
        self.ref = bz_reference(D, v["Q"], v["PS"], v["rec_lattice"])
        return not any(a for _, a, _ in self.ref[1])

    def concrete_check(self, v, out, ret):
        D = [int(x) for x in v["D_diag"]]
        n = int(np.prod(D))
        tol, ref = self.ref
        adr, gm, g2 = out["bz_grid_addresses"], out["bz_map"], out["bzg2grg"]
        tot = sum(len(x) for x, _, _ in ref)
        if ret != tot:
            return [("all equally short points are stored once", f"{ret} zone grid points, there are {tot}")]
        adr, g2 = adr[:ret], g2[:ret]
        f = []
        for i in range(ret):
            if GG.index(adr[i], D) != g2[i]:
                return [("each zone point is equivalent to its regular grid point", f"zone point {i} {adr[i].tolist()} is filed under {g2[i]}")]
        for g, (x, _, _) in enumerate(ref):
            if sorted(x.tolist()) != sorted(adr[g2 == g].tolist()):
                return [("the shortest equivalent points", f"grid point {g}: stored {adr[g2 == g].tolist()}, shortest are {x.tolist()}")]
        if v["bz_grid_type"] == 1:
            if (g2[:n] != np.arange(n)).any():
                f.append(("first zone points are the regular grid points in order", str(g2[:n].tolist())))
            big = [2 * d for d in D]
            want = np.full(8 * n, 8 * n)
            for i in range(ret):
                want[GG.index(adr[i], big)] = i
            b = np.nonzero(gm[:8 * n] != want)[0]
            if len(b):
                f.append(("address table of the doubled mesh", f"entry {b[0]} is {gm[b[0]]}, should be {want[b[0]]}"))
            cnt = np.concatenate([[0], np.cumsum([(g2[n:] == g).sum() for g in range(n)])])
            if (gm[8 * n:] != cnt).any():
                f.append(("table of surface points per grid point", f"{gm[8 * n:].tolist()} instead of {cnt.tolist()}"))
            for g in range(n):
                if (g2[n + cnt[g]:n + cnt[g + 1]] != g).any():
                    f.append(("surface points follow the order of the grid points", str(g2[n:].tolist())))
                    break
        else:
            cnt = np.concatenate([[0], np.cumsum([(g2 == g).sum() for g in range(n)])])
            if (gm != cnt).any() or (np.diff(g2) < 0).any():
                f.append(("table of zone points per grid point", f"{gm.tolist()} instead of {cnt.tolist()}"))
        return f


@register
class RotateBZ(Contract):
    """index of the rotated zone grid point, when that point is stored (bounded)"""
    file, fn, props = "recgrid.c", "recgrid_rotate_bz_grid_index", ("C04", "C17")
    skip_symbolic = True
    ghosts = D3
    cases = [{"bz_grid_type": 1}, {"bz_grid_type": 2}]
    params = [IntP("bz_grid_index"), Arr("rotation", "int", [3, 3]), Arr("bz_grid_addresses", "int", ["nbz", 3]),
              Arr("bz_map", "int", ["nmap"]), D_arr(), Arr("PS", "int", [3]), Const("bz_grid_type", 1)]
    trials = 40

    def derive(self, s, case):
        if hasattr(self, "g"):
            s._v["nbz"], s._v["nmap"] = T.const(len(self.g[0])), T.const(len(self.g[1]))

    def generate(self, rng, case):
        fam = int(rng.integers(2))
        D = [int(rng.integers(1, 5))] * 3 if fam == 0 else [2, 2, 3] if rng.integers(2) else [3, 3, 2]
        L = GG.lattice(rng, fam)
        PS = np.zeros(3, int)
        if rng.integers(4) == 0:
            PS = np.array([0, 0, 1]) if fam else np.ones(3, int)
        Q = GG.I3
        self.g = bz_grid(D, Q, PS, L, case["bz_grid_type"] == 2)
        grp = GG.SP if fam == 0 else GG.closure([np.linalg.inv(GG.C6).round().astype(int).T, -GG.I3])
        i = int(rng.integers(len(self.g[0])))
        big = np.where(np.arange(len(self.g[0])) >= 0)[0]
        if rng.integers(2) and len(big) > np.prod(D):
            cnt = np.bincount(self.g[2], minlength=int(np.prod(D)))
            c = np.nonzero(cnt[self.g[2]] > 1)[0]
            i = int(rng.choice(c)) if len(c) else i
        return {"D0": D[0], "D1": D[1], "D2": D[2], "PS": PS, "bz_grid_index": i, "rotation": grp[rng.integers(len(grp))],
                "bz_grid_addresses": self.g[0], "bz_map": self.g[1]}

    def want(self, v):
        a = v["bz_grid_addresses"]
        d = 2 * a[v["bz_grid_index"]] + v["PS"]
        r = v["rotation"] @ d - v["PS"]
        if (r % 2).any():
            return None
        return [i for i in range(len(a)) if (a[i] == r // 2).all()]

    def accept(self, v):
        w = self.want(v)
        return w is not None and len(w) == 1

    def concrete_check(self, v, out, ret):
        w = self.want(v)
        return [] if ret == w[0] else [("the stored point with the rotated address", f"returned {ret}, rotated point is {w[0]}")]


# ------------------------------------------------------------------ triplets
@register
class IrTriplets(Contract):
    """map of the second points of the triplets at a fixed first point (bounded)"""
    file, fn, props = "triplet.c", "tpl_get_triplets_reciprocal_mesh_at_q", ("C05", "C17", "C16")
    skip_symbolic = True
    ghosts = D3
    params = [Arr("map_triplets", "int", ["D0*D1*D2"], "out"), Arr("map_q", "int", ["D0*D1*D2"], "out"), IntP("grid_point"), D_arr(),
              IntP("is_time_reversal", values=(0, 1)), Size("num_rot"), ROTS, IntP("swappable", values=(0, 1))]
    unconstrained = ("map_triplets", "map_q")
    trials = 80

    def generate(self, rng, case):
        D = GG.mesh(rng, 60)
        g = GG.group_on(rng, D, [0, 0, 0])
        return {"D0": D[0], "D1": D[1], "D2": D[2], "grid_point": int(rng.integers(np.prod(D))), "num_rot": len(g), "rotations": np.array(g)}

    def concrete_check(self, v, out, ret):
        D = [int(x) for x in v["D_diag"]]
        n = int(np.prod(D))
        g0 = v["grid_point"]
        rots = [r for r in v["rotations"]]
        if v["is_time_reversal"]:
            rots = rots + [-r for r in rots]
        Z = [0, 0, 0]
        st = [r for r in rots if GG.rotate(g0, r, D, Z) == g0]
        mq = GG.ir_map(st, D, Z)
        if (out["map_q"] != mq).any():
            b = int(np.nonzero(out["map_q"] != mq)[0][0])
            return [("second points are grouped by the rotations fixing the first point",
                     f"point {b} is mapped to {out['map_q'][b]}, smallest equivalent is {mq[b]}")]
        a0 = np.array(GG.address(g0, D))
        mt = mq.copy()
        if v["swappable"]:
            for g in range(n):
                o = GG.index(-a0 - np.array(GG.address(g, D)), D)
                mt[g] = min(mq[g], mq[o])
        m = out["map_triplets"]
        if (m != mt).any():
            b = int(np.nonzero(m != mt)[0][0])
            return [("triplets are shared only through rotations and exchange", f"point {b} is mapped to {m[b]}, should be {mt[b]}")]
        k = len(set(mt.tolist()))
        return [] if ret == k else [("number of triplets", f"returned {ret}, there are {k}")]


@register
class BZTriplets(Contract):
    """triplets of zone points: momentum conserving, closest to zero sum (bounded)"""
    file, fn, props = "triplet.c", "tpl_get_BZ_triplets_at_q", ("C05", "C17", "C16")
    skip_symbolic = True
    ghosts = D3
    cases = [{"type": 1}, {"type": 2}]
    params = [Arr("triplets", "int", ["nir", 3], "out"), IntP("grid_point"),
              Struct("bzgrid", [("size", IntP("size")), ("D_diag", D_arr()), ("Q", Arr("Q", "int", [3, 3])), ("PS", Arr("PS", "int", [3])),
                                ("gp_map", Arr("gp_map", "int", ["nmap"])), ("bzg2grg", Arr("bzg2grg", "int", ["nbz"])),
                                ("addresses", Arr("addresses", "int", ["nbz", 3])), ("reclat", Arr("reclat", "real", [3, 3])),
                                ("type", Const("type", 1))]),
              Arr("map_triplets", "int", ["D0*D1*D2"])]
    unconstrained = ("triplets",)
    trials = 60

    def derive(self, s, case):
        if hasattr(self, "g"):
            s._v["nbz"], s._v["nmap"] = T.const(len(self.g[0])), T.const(len(self.g[1]))
            s._v["nir"] = T.const(len(set(self.mt.tolist())))

    def generate(self, rng, case):
        D, Q, PS, L = bz_problem(rng, 36, shift=False)
        n = int(np.prod(D))
        self.g = bz_grid(D, Q, PS, L, case["type"] == 2)
        gp = int(rng.integers(len(self.g[0])))
        if rng.integers(3):
            gp = int(self.g[1][rng.integers(n)]) if case["type"] == 2 else int(rng.integers(n))
        g0 = int(self.g[2][gp])
        mt = np.arange(n)
        if rng.integers(2):
            a0 = np.array(GG.address(g0, D))
            for g in range(n):
                mt[g] = min(g, GG.index(-a0 - np.array(GG.address(g, D)), D))
        self.mt = mt
        return {"D0": D[0], "D1": D[1], "D2": D[2], "Q": Q, "PS": PS, "reclat": L, "grid_point": gp, "size": n,
                "gp_map": self.g[1], "bzg2grg": self.g[2], "addresses": self.g[0], "map_triplets": mt}

    def concrete_check(self, v, out, ret):
        D = [int(x) for x in v["D_diag"]]
        n = int(np.prod(D))
        adr, g2, gm = v["addresses"], v["bzg2grg"], v["gp_map"]
        ir = [g for g in range(n) if v["map_triplets"][g] == g]
        if ret != len(ir):
            return [("one triplet per representative", f"returned {ret}, there are {len(ir)}")]
        g0 = int(g2[v["grid_point"]])
        LQ = v["reclat"] @ v["Q"] / np.array(D)[None, :]
        tol = GG.bz_tolerance(D, v["Q"], v["reclat"])
        img = [np.nonzero(g2 == g)[0] for g in range(n)]
        known = []
        for k, t in enumerate(out["triplets"]):
            if (t < 0).any() or (t >= len(adr)).any():
                return [("triplets are zone grid points", f"triplet {k} = {t.tolist()}")]
            if g2[t[0]] != g0 or g2[t[1]] != ir[k]:
                return [("triplet of the fixed point and the representative", f"triplet {k} = {t.tolist()} for points {g0}, {ir[k]}")]
            G = adr[t].sum(axis=0)
            if (G % np.array(D)).any():
                return [("momentum conservation", f"triplet {k}: addresses sum to {G.tolist()} on mesh {D}")]
            o = GG.index(-(adr[t[0]] + adr[t[1]]), D)
            best = min(float(((LQ @ (adr[a] + adr[b] + adr[c])) ** 2).sum()) for a in img[g0] for b in img[ir[k]] for c in img[o])
            d = float(((LQ @ G) ** 2).sum())
            if d > best + tol * 1.001 + 1e-12:
                w = self.third_axis_choice(v, img, g0, ir[k], o, tol)
                if best > 0 and w == t.tolist():
                    known.append((self.tolerated + ": the triplet minimises only the part of G along the third reciprocal axis",
                                  f"triplet {k}: |G|^2 = {d}, smallest is {best}"))
                    continue
                return [("sum as close to zero as the zone points allow", f"triplet {k}: |G|^2 = {d}, smallest is {best}")]
        return known[:1]

    tolerated = "no zero-sum choice exists"

    @staticmethod
    def third_axis_choice(v, img, g0, g1, g2, tol):
        """what the known finding selects (distances with reclat[:, 2] Q[2, k] / D[k])"""
        D = np.array([float(x) for x in v["D_diag"]])
        M = np.outer(v["reclat"][:, 2], v["Q"][2] / D)
        best, pick = -1.0, None
        for a in img[g0]:
            for b in img[g1]:
                for c in img[g2]:
                    G = v["addresses"][a] + v["addresses"][b] + v["addresses"][c]
                    d = float(((M @ G) ** 2).sum())
                    if d < best - tol or best < 0:
                        best, pick = d, [int(a), int(b), int(c)]
        return pick
