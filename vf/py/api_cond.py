"""Runtime contracts on the assembled thermal conductivity (C24)."""
import contextlib
import io

import numpy as np
from _common import close, need, same
import api_phph as A
from api_phph import ANG, EV, KB, TEV, THZ, VASP, Atoms, setup

PROPS = ("C24",)
UNIT = (THZ * ANG) ** 2 / ANG ** 3 * EV / THZ / (2 * np.pi)
VOIGT = ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))


def heat(f, T, cutoff):
    """eV/K per mode"""
    x = np.where(f > cutoff, f, 1) * TEV / (KB * max(T, 1e-9))
    ok = (f > cutoff) & (x < 100)
    y = np.where(ok, x, 1)
    return np.where(ok, KB * (y / 2 / np.sinh(y / 2)) ** 2, 0)


def velocity(at, q):
    """derivatives of the frequencies for Cartesian q (central differences of the dynamical matrix)"""
    D = at.dyn(q)
    lam, e = np.linalg.eigh(D)
    f = np.sign(lam) * np.sqrt(abs(lam)) * VASP
    h = 1e-5
    v = np.zeros((len(f), 3))
    for a in range(3):
        dq = at.lat @ np.eye(3)[a] * h            # reduced coordinates of a Cartesian step
        dD = (at.dyn(q + dq) - at.dyn(q - dq)) / (2 * h)
        v[:, a] = np.einsum("ib,ij,jb->b", e.conj(), dD, e).real
    return f, v * VASP ** 2 / 2 / np.where(abs(f) > 1e-3, f, 1)[:, None]


def full(x):
    m = np.zeros(x.shape[:-1] + (3, 3))
    for i, (a, b) in enumerate(VOIGT):
        m[..., a, b] = m[..., b, a] = x[..., i]
    return m


def run(ph, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        ph.init_phph_interaction()
        ph.run_thermal_conductivity(**kw)
    return ph.thermal_conductivity


def options(rng, desc):
    kw = {"temperatures": [0., 30., 300.] if rng.integers(2) else [1500.]}
    if rng.integers(2):
        kw["boundary_mfp"] = float(np.round(rng.uniform(.001, 2), 4))
    if rng.integers(2):
        kw["is_isotope"] = True
        kw["mass_variances"] = rng.uniform(0, 1e-2, desc["P"]).tolist()
    if rng.integers(4) == 0:
        kw["is_full_pp"] = True
    desc["kw"] = repr(kw)
    return kw


def rta(rng, desc):
    ph, fc2, fc3 = setup(rng, desc)
    at = Atoms(ph, fc2, fc3)
    desc["P"] = at.P
    ph.sigmas = [[None], [.5], [None, .3]][int(rng.integers(3))]
    desc["sigmas"] = repr(ph.sigmas)
    kw = options(rng, desc)
    star = bool(rng.integers(3))
    desc["star"] = star
    tc = run(ph, is_kappa_star=star, **kw)
    pp = ph.phph_interaction
    g = pp.bz_grid
    cutoff = pp.cutoff_frequency
    nb, N, T = 3 * at.P, int(np.prod(g.D_diag)), np.array(kw["temperatures"])
    gps, w = tc.grid_points, tc.grid_weights
    kap = tc.kappa
    need(kap.shape == (len(ph.sigmas), len(T), 6), "one tensor per width and temperature", kap.shape)
    # the sampled points stand for every grid point once
    need(int(np.sum(w)) == N, "weights of the sampled points sum to the number of grid points", np.sum(w))
    seen = np.zeros(N, dtype=int)
    rots = g.rotations if star else [np.eye(3, dtype=int)]
    for x in gps:
        orbit = {int(A.mixed(r @ g.addresses[x], g.D_diag)) for r in rots}
        seen[list(orbit)] += 1
    need((seen == 1).all(), "every grid point belongs to the star of exactly one sampled point", seen.tolist())
    f = tc.frequencies
    gam = tc.gamma.copy()
    need(gam.shape == (len(ph.sigmas), len(T), len(gps), nb), "one linewidth per width, temperature, point and band", gam.shape)
    tot = gam.copy()
    if kw.get("is_isotope"):
        tot += tc.gamma_isotope[:, None]
    if kw.get("boundary_mfp"):
        tot += (np.linalg.norm(tc.group_velocities, axis=2) * ANG * 1e6 / (4 * np.pi * kw["boundary_mfp"]))[None, None]
    ok = f >= cutoff
    cv = np.array([heat(f, t, cutoff) for t in T])
    close(tc.mode_heat_capacities, cv, "mode heat capacities", 1e-7, KB)
    gv = tc.group_velocities
    ops = g.rotations_cartesian if star else np.eye(3)[None]
    vol = abs(np.linalg.det(ph.primitive.cell))
    R = np.zeros((len(ph.sigmas), len(T), len(gps), nb, 3, 3))
    for i, x in enumerate(gps):
        fx, v = velocity(at, A.qpt(g, x))
        close(np.sign(f[i]) * f[i] ** 2, np.sign(fx) * fx ** 2, "frequencies at the sampled points", 1e-6, 1)
        gap = np.diff(f[i])
        lone = np.r_[1, gap] > 1e-2
        lone &= np.r_[gap, 1] > 1e-2
        lone &= f[i] > .05
        close(gv[i][lone], v[lone], "group velocities are the derivatives of the frequencies", 1e-4, max(abs(v[lone]).max(initial=0), 1))
        # full star average of outer products, times the number of arms
        vv = np.einsum("rab,nb,rcd,nd->nac", ops, gv[i], ops, gv[i]) / len(ops) * w[i]
        close(full(tc.gv_by_gv[i]), vv, "velocity tensors summed over the star", 1e-7, max(abs(vv).max(), 1e-9))
        for j in range(len(ph.sigmas)):
            with np.errstate(all="ignore"):
                lt = np.where((tot[j, :, i] > 0) & ok[i], 1 / (2 * np.where(tot[j, :, i] > 0, tot[j, :, i], 1)), 0)
            R[j, :, i] = np.einsum("tb,tb,bac->tbac", cv[:, i], lt, vv) * UNIT / vol
    sc = max(abs(R).max(), 1e-12)
    close(full(tc.mode_kappa), R, "mode conductivities are heat capacity x velocity tensor x lifetime", 1e-7, sc)
    ref = R.sum(axis=(2, 3)) / N
    for t in range(len(T)):
        for j in range(len(ph.sigmas)):
            s = max(abs(ref[j, t]).max(), 1e-12)
            K = full(kap[j, t])
            close(K, ref[j, t], "conductivity is the mean of the mode conductivities over the grid", 1e-7, s)
            need(np.linalg.eigvalsh(K).min() > -1e-9 * s, "conductivity is positive semi-definite", K)
            if star:
                for r in ops:
                    close(r @ K @ r.T, K, "conductivity is invariant under the point group", 1e-7, s)


def reduction(rng, desc):
    """with and without symmetry reduction, and with the two ways of storing interaction strengths"""
    ph, fc2, fc3 = setup(rng, desc, is_mesh_symmetry=True)
    desc["P"] = len(ph.primitive)
    ph.sigmas = [.5]
    kw = options(rng, desc)
    kw["temperatures"] = [300.]
    kw.pop("boundary_mfp", None)
    tc = run(ph, **kw)
    # degenerate modes have no velocities of their own: compare the sums of modes that can be told apart
    a = full(tc.kappa[0, 0])
    pp = ph.phph_interaction
    f = np.sort(pp.get_phonons()[0][pp.bz_grid.grg2bzg], axis=1)
    up = f[:, 1:]
    clean = bool((np.diff(f, axis=1)[up > pp.cutoff_frequency] > 1e-2).all())
    desc["clean"] = clean
    kw["is_full_pp"] = not kw.get("is_full_pp", False)
    b = full(run(ph, **kw).kappa[0, 0])
    s = max(abs(a).max(), 1e-4)   # W/m-K
    close(b, a, "conductivity with all interaction strengths kept equals that without", 1e-6, s)
    if clean:
        c = full(run(ph, is_kappa_star=False, **kw).kappa[0, 0])
        close(c, a, "conductivity from all grid points equals that from the irreducible ones", 1e-4, s)
    sub = [int(x) for x in rng.permutation(tc.grid_points)[:2]]
    d = run(ph, grid_points=sub, **kw)
    k = [list(tc.grid_points).index(x) for x in sub]
    close(d.gamma[0, 0], tc.gamma[0, 0, k], "linewidths of requested grid points", 1e-6, max(abs(tc.gamma).max(), 1e-12))
    same(d.grid_weights, np.array(tc.grid_weights)[k], "weights of requested grid points")


def operators(rng, desc):
    """Wigner and Kubo conductivities: coherent part added to the relaxation-time one"""
    ph, fc2, fc3 = setup(rng, desc, is_mesh_symmetry=True)
    desc["P"] = len(ph.primitive)
    ph.sigmas = [.5]
    kw = options(rng, desc)
    kw["temperatures"] = [300.]
    kw.pop("boundary_mfp", None)
    kw.pop("is_isotope", None)      # rates of degenerate modes depend on the choice of their eigenvectors
    kw.pop("mass_variances", None)
    rt = run(ph, **kw)
    a = full(rt.kappa[0, 0])
    pp = ph.phph_interaction
    g = pp.bz_grid
    cut = pp.cutoff_frequency
    f = pp.get_phonons()[0][g.grg2bzg]
    clean = bool((np.diff(f, axis=1)[f[:, 1:] > cut] > 1e-2).all())
    desc["clean"] = clean
    sc = max(abs(a).max(), 1e-4)   # W/m-K
    if not (rt.gamma[0, 0][rt.frequencies > cut] > 1e-12).all():     # no lifetime
        return
    w = run(ph, conductivity_type="wigner", **kw)
    P, C = full(w.kappa_P_RTA[0, 0]), full(w.kappa_C[0, 0])
    close(full(w.kappa_TOT_RTA[0, 0]), P + C, "total Wigner conductivity is the sum of its parts", 1e-9)
    s = max(abs(P + C).max(), 1e-4)   # W/m-K
    for r in g.rotations_cartesian:
        close(r @ (P + C) @ r.T, P + C, "Wigner conductivity is invariant under the point group", 1e-6, s)
    if clean:
        close(P, a, "population part of the Wigner conductivity is the relaxation-time one", 1e-3, sc)
    v = run(ph, is_kappa_star=False, conductivity_type="wigner", **kw)
    close(full(v.kappa_TOT_RTA[0, 0]), P + C, "Wigner conductivity from all grid points equals that from the irreducible ones", 1e-3, s)
    k = run(ph, conductivity_type="kubo", **kw)
    m = k._mode_kappa_mat[0, 0]
    if clean:
        close(full(np.einsum("nbbx->nbx", m).real), full(rt.mode_kappa[0, 0]), "diagonal of the Kubo conductivity is the relaxation-time one",
              1e-3, max(abs(rt.mode_kappa).max(), 1e-12))


B = "ten crystal types with random force constants of their symmetry, meshes up to 4 x 4 x 4"
CHECKS = [
    ("relaxation-time conductivity", rta, 24, ("C24",), B),
    ("coherent conductivity", operators, 12, ("C24",), B),
    ("symmetry reduction", reduction, 12, ("C24",), B),
]
