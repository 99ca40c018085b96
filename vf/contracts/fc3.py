"""C08, C09: force constants (c/fc3.c)."""
from ..contract import *
from .. import terms as T
from ..terms import ZERO, ONE
import numpy as np
from fractions import Fraction

PERMS3 = ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))


@register
class Distribute(Contract):
    file, fn, props = "fc3.c", "fc3_distribute_fc3", ("C09", "C17")
    ghosts = [Size("num_first", rng=(2, 4))]
    params = [
        Arr("fc3", "real", ["num_first", "num_atom", "num_atom", 3, 3, 3], "inout"),
        IntP("target", lo=0, hi="num_first"),
        IntP("source", lo=0, hi="num_first"),
        Arr("atom_mapping", "int", ["num_atom"], lo=0, hi="num_atom"),
        Size("num_atom", rng=(1, 4)),
        Arr("rot_cart", "real", [3, 3]),
    ]

    opts = {"unroll_total": 8}

    def requires(self, s):
        return [T.ne(s.target, s.source)]

    def ensures(self, s):
        def val(t, i, j, l, m, n):
            v = SUM([3, 3, 3], lambda a, b, c: s.rot_cart(l, a) * s.rot_cart(m, b) * s.rot_cart(n, c) *
                    s.fc3(s.source, s.atom_mapping(i), s.atom_mapping(j), a, b, c))
            return T.ite(T.eq(t, s.target), v, s.fc3(t, i, j, l, m, n))
        return {"fc3": [("mapped source element rotated in all three indices; other rows unchanged", val, None)]}


@register
class RotateDelta(Contract):
    file, fn, props = "fc3.c", "fc3_rotate_delta_fc2", ("C09", "C17")
    params = [
        Arr("fc3", "real", ["num_atom", "num_atom", 3, 3, 3], "out"),
        Arr("delta_fc2s", "real", ["num_disp", "num_atom", "num_atom", 3, 3]),
        Arr("inv_U", "real", [3, "num_disp", "num_site_sym"]),
        Arr("site_sym_cart", "real", ["num_site_sym", 3, 3]),
        Arr("rot_map_syms", "int", ["num_site_sym", "num_atom"], lo=0, hi="num_atom"),
        Size("num_atom", rng=(1, 3)), Size("num_site_sym", rng=(1, 3)), Size("num_disp", rng=(1, 3)),
    ]

    def ensures(self, s):
        def val(i, j, k, l, m):
            return SUM([s.num_disp, s.num_site_sym, 3, 3], lambda d, y, a, b:
                       s.inv_U(k, d, y) * s.site_sym_cart(y, l, a) * s.site_sym_cart(y, m, b) *
                       s.delta_fc2s(d, s.rot_map_syms(y, i), s.rot_map_syms(y, j), a, b))
        return {"fc3": [("pseudo-inverse combination of the rotated differences", val, None)]}


@register
class PermFull(Contract):
    cost = 100
    file, fn, props = "fc3.c", "fc3_set_permutation_symmetry_fc3", ("C08", "C16", "C17")
    opts = {"unroll_total": 8}
    params = [Arr("fc3", "real", ["num_atom", "num_atom", "num_atom", 3, 3, 3], "inout"), Size("num_atom", rng=(1, 4))]

    def ensures(self, s):
        def val(*d):
            a, c = d[:3], d[3:]
            v = [s.fc3(*[a[p] for p in P], *[c[p] for p in P]) for P in PERMS3]
            return T.scale(T.addn(v), Fraction(1, 6))
        return {"fc3": [("average over the six permutations", val, None)]}


def lattice_maps(rng, sizes=(1, 2, 3)):
    """a random translation group acting freely on supercell atoms, with the maps fc3 routines use"""
    dims = rng.choice(sizes, 3)
    while np.prod(dims) > 6:
        dims = rng.choice(sizes, 3)
    L, P = int(np.prod(dims)), int(rng.integers(1, 4))
    while L * P > 8:
        P -= 1
    n = L * P
    cells = list(np.ndindex(*dims))
    label = rng.permutation(n)                 # (cell, p) -> atom index
    idx = {(c, p): int(label[ci * P + p]) for ci, c in enumerate(cells) for p in range(P)}
    inv = {a: cp for cp, a in idx.items()}
    order = rng.permutation(L)
    trans = [cells[o] for o in order]
    perms = np.array([[idx[(tuple((np.array(inv[a][0]) + t) % dims), inv[a][1])] for a in range(n)] for t in trans])
    rep = [cells[rng.integers(0, L)] for _ in range(P)]
    p2s = np.array([idx[(rep[p], p)] for p in range(P)])
    s2pp = np.array([inv[a][1] for a in range(n)])
    nsym = np.array([[perms[t][a] == p2s[s2pp[a]] for t in range(L)].index(True) for a in range(n)])
    return {"n_satom": n, "n_patom": P, "n_trans": L, "p2s": p2s, "s2pp": s2pp, "nsym_list": nsym, "perms": perms}


def full_of(v):
    n = v["n_satom"]
    f = np.zeros((n, n, n, 3, 3, 3))
    for i in range(n):
        pm = v["perms"][v["nsym_list"][i]]
        f[i] = v["fc3"][v["s2pp"][i]][np.ix_(pm, pm)]
    return f


MAPS = [Arr("p2s", "int", ["n_patom"], lo=0, hi="n_satom"), Arr("s2pp", "int", ["n_satom"], lo=0, hi="n_patom"),
        Arr("nsym_list", "int", ["n_satom"], lo=0, hi="n_trans"), Arr("perms", "int", ["n_trans", "n_satom"], lo=0, hi="n_satom"),
        Size("n_satom"), Size("n_patom")]


class Compact(Contract):
    ghosts = [Size("n_trans")]
    trials = 40

    def generate(self, rng, case):
        return lattice_maps(rng)

    def ensures(self, s):
        return {"fc3": [(self.text, lambda *d: s.fc3(*d), None)]}


@register
class PermCompact(Compact):
    """bounded: the 'done' flags carry an orbit argument outside the verifier's reach"""
    file, fn, props = "fc3.c", "fc3_set_permutation_symmetry_compact_fc3", ("C08", "C17")
    skip_symbolic = True
    text = "compact rows of the average of the full array over the six permutations"
    params = [Arr("fc3", "real", ["n_patom", "n_satom", "n_satom", 3, 3, 3], "inout")] + MAPS

    def numeric(self, v):
        f = full_of(v)
        t = sum(np.transpose(f, P + tuple(3 + x for x in P)) for P in PERMS3) / 6
        return {"fc3": t[v["p2s"]]}


class Transpose(Compact):
    file, fn = "fc3.c", "fc3_transpose_compact_fc3"
    params = [Arr("fc3", "real", ["n_patom", "n_satom", "n_satom", 3, 3, 3], "inout")] + MAPS + [Const("t_type", 0)]
    text = "compact rows of the transposed full array"

    def numeric(self, v):
        f = full_of(v)
        P = {0: (1, 0, 2), 1: (2, 1, 0), 2: (0, 2, 1)}[v["t_type"]]
        return {"fc3": np.transpose(f, P + tuple(3 + x for x in P))[v["p2s"]]}


@register
class Transpose01(Transpose):
    """bounded, as PermCompact.  Supercells with a translation of order two: see Transpose01Even"""
    props = ("C08", "C17")
    skip_symbolic = True
    cases = [{"t_type": 0}, {"t_type": 1}]

    def generate(self, rng, case):
        return lattice_maps(rng, (1, 3))


@register
class Transpose01Even(Transpose):
    """bounded.  Pairs of atoms exchanged by a translation of order two (known finding)"""
    props = ("C08",)
    tolerated = "elements paired by a translation of order two"
    skip_symbolic = True
    cases = [{"t_type": 0}, {"t_type": 1}]
    unconstrained = ("fc3",)

    def ensures(self, s):
        return {}

    def numeric(self, v):
        return None

    def concrete_check(self, v, out, ret):
        w = Transpose.numeric(self, v)["fc3"]
        got = out["fc3"]
        if np.abs(got - w).max() < 1e-9:
            return []
        k = w.copy()
        n = v["n_satom"]
        for p in range(v["n_patom"]):
            for j in range(n):
                pm = v["perms"][v["nsym_list"][j]]
                if v["s2pp"][j] == p and pm[v["p2s"][p]] == j:
                    for x in range(n):
                        if pm[x] != x:
                            ix = (p, j, x) if v["t_type"] == 0 else (p, x, j)
                            k[ix] = v["fc3"][ix]
        if np.abs(got - k).max() < 1e-9:
            return [("elements paired by a translation of order two are swapped twice, i.e. not transposed", "")]
        b = np.unravel_index(np.abs(got - k).argmax(), k.shape)
        return [(self.text, f"fc3{[int(x) for x in b]} = {got[b]}, contract requires {w[b]}")]


@register
class Transpose2(Transpose):
    props = ("C08", "C17")
    cases = [{"t_type": 2}]
    opts = {"unroll_total": 8}

    def ensures(self, s):
        return {"fc3": [("last two indices exchanged", lambda p, j, k, l, m, n: s.fc3(p, k, j, l, n, m), None)]}
