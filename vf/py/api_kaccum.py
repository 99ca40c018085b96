"""Runtime contracts on cumulative spectra (C19) and on occupation and heat-capacity functions (C20)."""
import itertools

import numpy as np
from _common import close, dataset, mixed, need, primitive, same
import pyrun  # noqa: F401
import tetraref
from phono3py.other.kaccum import GammaDOSsmearing, KappaDOSTHM, get_mfp, run_mfp_dos, run_prop_dos
from phono3py.other.tetrahedron_method import get_integration_weights
from phono3py.phonon.func import bose_einstein, gaussian, sigma_squared
from phono3py.phonon.grid import BZGrid, get_ir_grid_points
from phono3py.phonon.heat_capacity_matrix import mode_cv_matrix
import phonopy.units as U

PROPS = ("C19", "C20")


def main_diagonals(g):
    L = g.microzone_lattice
    d = [np.linalg.norm(L @ x) for x in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1))]
    return [i for i in range(4) if d[i] < min(d) * (1 + 1e-9)]


def grid(rng, desc):
    k, c = primitive(rng)
    d = dataset(c)
    kind = int(rng.integers(3))
    dense = bool(rng.integers(2))
    if kind == 0:
        n = int(rng.integers(1, 4))
        g = BZGrid([n] * 3, lattice=c.cell, symmetry_dataset=d, store_dense_gp_map=dense) if k not in ("hcp", "hex1", "wurtzite") else \
            BZGrid([n, n, int(rng.integers(1, 4))], lattice=c.cell, symmetry_dataset=d, store_dense_gp_map=dense)
    elif kind == 1:
        g = BZGrid(float(rng.uniform(6, 14)), lattice=c.cell, symmetry_dataset=d, use_grg=True, store_dense_gp_map=dense)
    else:
        g = BZGrid([int(x) for x in rng.integers(1, 4, 3)], lattice=c.cell, store_dense_gp_map=dense)
    desc.update(cell=k, D=g.D_diag.tolist(), P=g.P.tolist(), dense=dense)
    return g


def values(rng, g, nb):
    """periodic values that have the symmetry of the grid, all distinct between orbits"""
    ir, w, m = get_ir_grid_points(g)
    v = rng.uniform(0, 10, (len(ir), nb))
    full = np.array([v[list(ir).index(x)] for x in m])
    return ir, w, m, v, full


def tet(rel, full, g, gp, b, w, cum):
    ad = g.addresses[g.grg2bzg[gp]]
    tot = 0.0
    for t in rel:
        x = [full[mixed(ad + g.P @ np.array(r), g.D_diag), b] for r in t]
        if min(abs(y - w) for y in x) < 1e-9:
            raise ValueError
        tot += tetraref.weight(w, x, cum)
    return tot / 6


def table(rels, full, g, gps, nb, fp, cum, got):
    """best of the possible main diagonals (equally long ones)"""
    best = None
    for rel in rels:
        R = np.array([[[tet(rel, full, g, x, b, w, cum) for b in range(nb)] for w in fp] for x in gps])
        e = abs(R - got).max()
        best = (e, R) if best is None or e < best[0] else best
    return best[1]


def weights(rng, desc):
    g = grid(rng, desc)
    nb = int(rng.integers(1, 3))
    ir, w, m, v, full = values(rng, g, nb)
    fp = np.sort(rng.uniform(-1, 11, 4))
    desc["fp"] = fp.tolist()
    rels = [tetraref.RELATIVE[i] for i in main_diagonals(g)]
    onbz = full[g.bzg2grg]
    sub = rng.permutation(len(full))[:6]
    gps = g.grg2bzg[sub]
    mode = int(rng.integers(2))
    for fn, cum in (("I", False), ("J", True)):
        if mode:
            got = get_integration_weights(fp, onbz, g, grid_points=gps, function=fn)
        else:
            pos = {x: i for i, x in enumerate(ir)}
            got = get_integration_weights(fp, v, g, grid_points=gps, function=fn,
                                          bzgp2irgp_map=np.array([pos[m[x]] for x in g.bzg2grg], dtype="int64"))
        need(got.shape == (len(gps), len(fp), nb), "one weight per grid point, frequency and band", got.shape)
        ref = table(rels, full, g, sub, nb, fp, cum, got)
        close(got, ref, "integration weights are those of the 24 tetrahedra around the point", 1e-7, 1)
    # all points: cumulative weights add up
    J = get_integration_weights(fp, onbz, g, function="J").mean(axis=0)
    need((np.diff(J, axis=0) > -1e-12).all(), "cumulative weights do not decrease with frequency", J)
    need((J > -1e-12).all() and (J < 1 + 1e-12).all(), "cumulative weights of all points lie in [0,1]", J)
    lo, hi = full.min(axis=0) - 1e-3, full.max(axis=0) + 1e-3
    for b in range(nb):
        J = get_integration_weights([lo[b], hi[b]] if False else np.array([lo[b], hi[b]]), onbz, g, function="J").mean(axis=0)[:, b]
        close(J, [0., 1.], "cumulative weights go from zero to one", 1e-9, 1)


def spectrum(rng, desc):
    g = grid(rng, desc)
    nb = int(rng.integers(1, 3))
    ir, w, m, v, full = values(rng, g, nb)
    nt, ne = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    k = rng.uniform(0, 5, (nt, len(ir), nb, ne))
    usew = bool(rng.integers(2))
    api = int(rng.integers(3))
    desc.update(nt=nt, ne=ne, usew=usew, api=api)
    rels = [tetraref.RELATIVE[i] for i in main_diagonals(g)]
    N = len(full)
    lo, hi = v.min(), v.max()
    given = np.concatenate([[lo - .5], np.sort(rng.uniform(lo, hi, 3)), [hi + .5]])
    if api == 0:
        o = KappaDOSTHM(k, v, g, ir_grid_points=ir, ir_grid_map=m, ir_grid_weights=w if usew else None, frequency_points=given)
        fp, kd = o.get_kdos()
        same(fp, given, "the given frequency points are used")
    elif api == 1:
        usew = False
        kd, fps = run_prop_dos(v, k, m, ir, 5, g)
        need(fps.shape == (nt, 5), "one list of frequency points per temperature", fps.shape)
        fp = fps[0]
    else:
        # whole mesh: no irreducible points given
        usew = False
        k = rng.uniform(0, 5, (nt, N, nb, ne))
        o = KappaDOSTHM(k, full, g, frequency_points=given)
        fp, kd = o.get_kdos()
        ir, v = np.arange(N), full
    ww = w if usew else np.ones(len(ir))
    total = np.einsum("tgbe,g->te", k, ww) / N
    J, I = kd[:, :, 0], kd[:, :, 1]
    need((np.diff(J, axis=1) > -1e-10).all(), "cumulative spectrum of non-negative values does not decrease", "")
    need((I > -1e-10).all(), "density of non-negative values is non-negative", "")
    if api != 1:
        close(J[:, 0], 0 * total, "cumulative spectrum starts at zero below all frequencies", 1e-9, max(total.max(), 1e-9))
        close(J[:, -1], total, "cumulative spectrum reaches the total above all frequencies", 1e-9)
        try:
            best = None
            for rel in rels:
                RJ = np.zeros_like(J)
                RI = np.zeros_like(I)
                for i, x in enumerate(ir):
                    for f, y in enumerate(fp):
                        for b in range(nb):
                            RJ[:, f] += tet(rel, full, g, x, b, y, True) * ww[i] * k[:, i, b] / N
                            RI[:, f] += tet(rel, full, g, x, b, y, False) * ww[i] * k[:, i, b] / N
                e = abs(RJ - J).max() + abs(RI - I).max()
                best = (e, RJ, RI) if best is None or e < best[0] else best
            close(J, best[1], "cumulative spectrum is the weighted sum of cumulative weights", 1e-7, max(abs(best[1]).max(), 1e-9))
            close(I, best[2], "density is the weighted sum of delta weights", 1e-7, max(abs(best[2]).max(), 1e-9))
        except ValueError:
            pass
    else:
        need(abs(fp[0] - lo) < 1e-6 and abs(fp[-1] - hi) < 1e-6 and np.allclose(np.diff(fp), np.diff(fp)[0]),
             "frequency points are uniform between the lowest and the highest value", fp)
        close(J[:, -1], total, "cumulative spectrum reaches the total above all frequencies", 1e-6)
        o = KappaDOSTHM(k, v, g, ir_grid_points=ir, ir_grid_map=m, frequency_points=fp)
        close(kd, o.get_kdos()[1], "spectrum at generated points equals the spectrum at the same given points", 1e-9)


def mean_free_path(rng, desc):
    g = grid(rng, desc)
    nb = int(rng.integers(1, 3))
    ir, w, m, v, full = values(rng, g, nb)
    nt = int(rng.integers(1, 4))
    gam = rng.uniform(0, 2, (nt, len(ir), nb)) * (rng.uniform(size=(nt, len(ir), nb)) > .2)
    gv = rng.normal(size=(len(ir), nb, 3))
    mfp = np.array([get_mfp(gam[t], gv) for t in range(nt)])
    ref = np.zeros_like(gam)
    for t, i, b in np.ndindex(gam.shape):
        if gam[t, i, b] > 0:
            ref[t, i, b] = np.linalg.norm(gv[i, b]) / (4 * np.pi * gam[t, i, b])
    close(mfp, ref, "mean free path is group velocity times lifetime", 1e-10)
    mfp = rng.uniform(0, 30, (nt, len(ir), nb))
    k = rng.uniform(0, 5, (nt, len(ir), nb, 6))
    kd, sp = run_mfp_dos(mfp, k, m, ir, 6, g)
    need(kd.shape == (nt, 6, 2, 6) and sp.shape == (nt, 6), "one spectrum per temperature", (kd.shape, sp.shape))
    for t in range(nt):
        close(sp[t], np.linspace(mfp[t].min(), mfp[t].max(), 6), "sampling points of each temperature span its own mean free paths", 1e-6)
        o = KappaDOSTHM(k[t:t + 1], mfp[t], g, ir_grid_points=ir, ir_grid_map=m, frequency_points=sp[t])
        close(kd[t], o.get_kdos()[1][0], "spectrum over mean free path of each temperature", 1e-9)
        close(kd[t, -1, 0], k[t].sum(axis=(0, 1)) / len(full), "cumulative spectrum reaches the total", 1e-6)


def smearing(rng, desc):
    nt, ni, nb = int(rng.integers(1, 4)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
    gam = rng.uniform(0, 2, (nt, ni, nb))
    f = rng.uniform(0, 10, (ni, nb))
    w = rng.integers(1, 8, ni)
    s = [None, .05, .1, .7][int(rng.integers(4))]
    n = int(rng.integers(2, 12))
    desc.update(sigma=s, n=n, w=w.tolist())
    fp, gd = GammaDOSsmearing(gam, f, w, sigma=s, num_sampling_points=n).get_gdos()
    close(fp, np.linspace(f.min(), f.max(), n), "sampling points span the frequencies", 1e-6, 10)
    s = (fp.max() - fp.min()) / 100 if s is None else s
    ref = np.zeros((nt, n))
    for t, i in np.ndindex(nt, n):
        d = np.exp(-(f - fp[i]) ** 2 / 2 / s ** 2) / s / np.sqrt(2 * np.pi)
        ref[t, i] = (w[:, None] * d * gam[t]).sum() / w.sum()
    close(gd[:, :, 1], ref, "smeared spectrum is the weighted mean of normal distributions of the given width", 1e-6)


# ------------------------------------------------------------------ C20
def cv(T, f):
    x = f / U.Kb / T
    return U.Kb * (x / 2 / np.sinh(x / 2)) ** 2 if x < 600 else 0.0


def heat(rng, desc):
    T = float(10 ** rng.uniform(.5, 3.3))
    n = int(rng.integers(1, 7))
    f = np.sort(rng.uniform(.0005, min(.2, 100 * U.Kb * T), n))
    if n > 2 and rng.integers(2):
        f[1] = f[0]
        f[2] = f[0] + float(rng.choice([1.1e-4, 2e-4, 1e-3]))
    f = rng.permutation(f)
    cut = [1e-4, 1e-4, 1e-6][int(rng.integers(3))]
    desc.update(T=T, f=f.tolist(), cut=cut)
    C = mode_cv_matrix(T, f, cutoff=cut)
    need(C.shape == (n, n), "one element per pair of bands", C.shape)
    need((C > 0).all(), "heat capacities are positive", C)
    for i, j in np.ndindex(n, n):
        if i == j:
            need(abs(C[i, i] - cv(T, f[i])) <= 1e-9 * U.Kb, "diagonal is the mode heat capacity", (C[i, i], cv(T, f[i])))
        elif abs(f[i] - f[j]) >= cut:
            a, b = f[i] / U.Kb / T, f[j] / U.Kb / T
            # symmetric form: sinh(d/2)/(d/2) * s^2 / (4 sinh(a/2) sinh(b/2))
            d, s = (a - b) / 2, (a + b) / 2
            ref = U.Kb * (np.sinh(d) / d) * s ** 2 / (4 * np.sinh(a / 2) * np.sinh(b / 2))
            need(abs(C[i, j] - ref) <= 1e-7 * ref, "off-diagonal element is the two-frequency heat capacity", (i, j, C[i, j], ref))
            need(abs(C[i, j] - C[j, i]) <= 1e-8 * U.Kb, "matrix is symmetric", (C[i, j], C[j, i]))
        else:
            # within the degeneracy tolerance: between the two mode values up to that tolerance
            lo, hi = sorted((cv(T, f[i]), cv(T, f[j])))
            need(lo * (1 - 1e-9) <= C[i, j] <= hi * (1 + 1e-9), "degenerate pair has the mode heat capacity", (C[i, j], lo, hi))
    # continuity where two frequencies become degenerate
    f0 = float(rng.uniform(.3, 5)) * U.Kb * T
    vals = [mode_cv_matrix(T, np.array([f0, f0 + d]), cutoff=1e-12)[0, 1] for d in (0, 1e-5 * f0)]
    need(abs(vals[1] - vals[0]) <= 1e-4 * vals[0], "element is continuous at degeneracy", vals)


def occupation(rng, desc):
    T = float(10 ** rng.uniform(0, 3.5))
    x = rng.uniform(1e-3, 40, 5)
    desc.update(T=T, x=x.tolist())
    n = bose_einstein(x, T)
    y = x * U.THzToEv / U.Kb / T
    close(n * (np.exp(np.minimum(y, 700)) - 1), np.ones(5) * (y < 700), "occupation times (exp(x)-1) is one", 1e-9, 1) if (y < 700).all() else None
    need((n >= 0).all() and (np.diff(n[np.argsort(x)]) <= 0).all(), "occupation is positive and falls with frequency", n)
    if (y < 30).all():
        close(-bose_einstein(-x, T), n + 1, "occupation at the negative frequency is -(n+1)", 1e-6, (n + 1).max())
        f = U.Hbar * U.EV / (2 * np.pi * 1e12) / U.AMU / 1e-20
        close(sigma_squared(x, T), f / x / 2 / np.tanh(y / 2), "mode length is (n+1/2) hbar/omega", 1e-9)
    s = float(rng.uniform(.01, 2))
    t = np.linspace(-12 * s, 12 * s, 4001)
    gg = gaussian(t, s)
    close([gg.sum() * (t[1] - t[0]), (gg * t ** 2).sum() * (t[1] - t[0]), (gg * t).sum()], [1, s ** 2, 0],
          "normal distribution has unit weight, zero mean and the given variance", 1e-6, 1)
    need(np.allclose(gg, gg[::-1]), "normal distribution is even", "")


B = "random lattices, regular and generalized meshes up to about 60 points, random mode values"
CHECKS = [
    ("grid integration weights", weights, 20, ("C19",), B),
    ("cumulative spectrum", spectrum, 20, ("C19",), B),
    ("mean free path spectrum", mean_free_path, 12, ("C19",), B),
    ("smeared spectrum", smearing, 30, ("C19",), "random values"),
    ("heat capacity matrix", heat, 200, ("C20",), "random frequencies and temperatures"),
    ("occupation functions", occupation, 200, ("C20",), "random frequencies and temperatures"),
]
