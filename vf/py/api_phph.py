"""Runtime contracts on the Python API around the compiled kernels: phonons on the grid (C10),
interaction strength (C11), triplet weights (C07), linewidths (C12), collision matrices (C13), isotope
scattering (C14), frequency shifts (C15).  Crystals are small supercells with random force constants
that have the crystal's symmetry."""
import io
import itertools
import contextlib

import numpy as np
from _common import FCC, Fail, cell, close, hexl, mixed, need, primitive, same
import pyrun  # noqa: F401
import tetraref
import phonopy.units as U
from phono3py import Phono3py
from phono3py.conductivity.rta import ConductivityRTA
from phono3py.other.isotope import Isotope
from phono3py.phonon3.collision_matrix import CollisionMatrix
from phono3py.phonon3.imag_self_energy import ImagSelfEnergy, get_imag_self_energy
from phono3py.phonon3.real_self_energy import RealSelfEnergy, get_real_self_energy
from phono3py.phonon3.triplets import get_triplets_integration_weights
from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix
from phonopy.structure.cells import compute_all_sg_permutations
from phonopy.structure.symmetry import Symmetry

PROPS = ("C07", "C10", "C11", "C12", "C13", "C14", "C15", "C25")
# CODATA values by phonopy (a dependency); hbar is in eV s
HBAR, EV, KB, AMU, TEV, VASP = U.Hbar, U.EV, U.Kb, U.AMU, U.THzToEv, U.VaspToTHz
THZ, ANG = 1e12, 1e-10


# ------------------------------------------------------------------ crystals
def conv(sym, base):
    pos, syms = [], []
    for s, b in zip(sym, base):
        for t in ((0, 0, 0), (0, .5, .5), (.5, 0, .5), (.5, .5, 0)):
            pos.append(np.mod(np.add(b, t), 1))
            syms.append(s)
    return syms, pos


def crystal(rng):
    """(name, unit cell, supercell matrix, primitive matrix, mesh maker)"""
    k = ["nacl", "wurtzite", "tri2", "tri2b", "hcp", "tet", "diamond", "fcc", "rhomb", "ortho"][int(rng.integers(10))]
    a = float(np.round(rng.uniform(3.5, 5.5), 2))
    r = lambda lo, hi: int(rng.integers(lo, hi))  # noqa: E731
    n = r(1, 4)
    if k == "nacl":
        return k, cell(np.eye(3) * a, *conv(["Na", "Cl"], [[0, 0, 0], [.5, .5, .5]])), np.eye(3, dtype=int), FCC, [n] * 3
    if k == "diamond":
        return k, cell(np.eye(3) * a, *conv(["Si", "Si"], [[.125] * 3, [.875] * 3])), np.eye(3, dtype=int), FCC, [n] * 3
    if k == "fcc":
        return k, cell(np.eye(3) * a, *conv(["Al"], [[0, 0, 0]])), np.eye(3, dtype=int), FCC, [r(1, 5)] * 3
    kk = "tri2" if k == "tri2b" else k
    state = np.random.default_rng(int(a * 100))
    _, c = primitive(state, kk)
    sc = {"wurtzite": [2, 2, 1], "tri2": [2, 1, 1], "tri2b": [3, 2, 1], "hcp": [2, 2, 1], "tet": [2, 2, 1],
          "rhomb": [2, 2, 2], "ortho": [2, 1, 2]}[k]
    m = {"wurtzite": [n % 2 + 1] * 2 + [r(1, 3)], "hcp": [n] * 2 + [r(1, 3)], "tet": [n] * 2 + [r(1, 4)], "rhomb": [n] * 3}.get(
        k, [r(1, 4), r(1, 4), r(1, 3)])
    return k, c, np.diag(sc), np.eye(3), m


CACHE = {}


def setup(rng, desc, **kw):
    """Phono3py object with random symmetric force constants"""
    k, uc, sm, pm, mesh = crystal(rng)
    args = {"make_r0_average": bool(rng.integers(2)), "is_mesh_symmetry": bool(rng.integers(4)),
            "cutoff_frequency": float(rng.choice([1e-4, 1e-4, 2.0]))}
    args.update(kw)
    desc.update(crystal=k, a=round(float(uc.cell[0][0]), 3), mesh=mesh, **args)
    key = (k, uc.cell.tobytes(), repr(sorted(args.items())))
    if key not in CACHE:
        if len(CACHE) > 24:
            CACHE.clear()
        CACHE[key] = (Phono3py(uc, supercell_matrix=sm, primitive_matrix=pm, log_level=0, **args), {})
    ph, ops = CACHE[key]
    if not ops:
        d = Symmetry(ph.supercell).dataset
        ops["rot"], ops["tr"] = d.rotations, d.translations
        L = ph.supercell.cell.T
        ops["cart"] = np.array([L @ x @ np.linalg.inv(L) for x in d.rotations])
        ops["perm"] = compute_all_sg_permutations(ph.supercell.scaled_positions, d.rotations, d.translations,
                                                  np.array(L, dtype="double", order="C"), 1e-5)
    fc2, fc3 = forces(rng, ops, len(ph.supercell))
    p2s = ph.primitive.p2s_map
    desc["compact"] = (bool(rng.integers(2)), bool(rng.integers(2)))
    ph.mesh_numbers = mesh
    ph.nac_params = None
    ph.band_indices = None
    ph.fc2 = np.array(fc2[p2s], order="C") if desc["compact"][0] else fc2
    ph.fc3 = np.array(fc3[p2s], order="C") if desc["compact"][1] else fc3
    return ph, fc2, fc3


def forces(rng, ops, n):
    """fc2 (mostly stable) and fc3 with the symmetry of the supercell"""
    A = rng.normal(size=(3 * n, 3 * n + 2))
    F = (A @ A.T / (3 * n)).reshape(n, 3, n, 3).transpose(0, 2, 1, 3)
    f3 = rng.normal(size=(n, n, n, 3, 3, 3))
    f3 = sum(np.transpose(f3, p + tuple(3 + x for x in p)) for p in itertools.permutations(range(3))) / 6
    o2, o3 = np.zeros_like(F), np.zeros_like(f3)
    # one permutation per distinct (rotation, permutation); rotate once per rotation matrix
    for R, perm in zip(ops["cart"].transpose(0, 2, 1), ops["perm"]):     # f(x, y) = R^T f(gx, gy) R
        o2 += np.einsum("ai,bj,xyij->xyab", R, R, F[np.ix_(perm, perm)])
        g = f3[np.ix_(perm, perm, perm)]
        g = np.einsum("ai,xyzijk->xyzajk", R, g)
        g = np.einsum("bj,xyzajk->xyzabk", R, g)
        o3 += np.einsum("ck,xyzabk->xyzabc", R, g)
    o2 /= len(ops["cart"])
    o3 /= len(ops["cart"])
    M = o2.transpose(0, 2, 1, 3).reshape(3 * n, 3 * n)
    U = np.tile(np.eye(3), (n, 1)) / np.sqrt(n)
    Pr = np.eye(3 * n) - U @ U.T
    M = Pr @ M @ Pr
    return np.array(M.reshape(n, 3, n, 3).transpose(0, 2, 1, 3), order="C"), np.array(o3, order="C")


class Atoms:
    """Fourier sums written out for one crystal"""

    def __init__(self, ph, fc2, fc3):
        prim = ph.primitive
        self.P, self.S = len(prim), len(ph.supercell)
        self.sv, self.mu = prim.get_smallest_vectors()
        self.p2s, self.s2p, self.m = prim.p2s_map, prim.s2p_map, prim.masses
        self.fc2, self.fc3, self.lat = fc2, fc3, prim.cell
        self.r0, self.prim = ph._make_r0_average, prim
        self.memo = {}
        self.short = None

    def ph(self, q, i):
        """averaged phase of every supercell atom as seen from primitive atom i"""
        key = (tuple(np.round(q, 12)), i)
        if key not in self.memo:
            self.memo[key] = np.array([np.exp(2j * np.pi * (self.sv[a:a + n] @ q)).mean() for n, a in self.mu[:, i]])
        return self.memo[key]

    def dyn(self, q):
        D = np.zeros((self.P, 3, self.P, 3), dtype=complex)
        for i in range(self.P):
            w = self.ph(q, i)
            for j in range(self.P):
                J = np.where(self.s2p == self.p2s[j])[0]
                D[i, :, j] = np.einsum("J,Jab->ab", w[J], self.fc2[self.p2s[i], J]) / np.sqrt(self.m[i] * self.m[j])
        D = D.reshape(3 * self.P, 3 * self.P)
        return (D + D.conj().T) / 2

    def shortest(self):
        """all three distances of (i, J, K) are unique shortest ones"""
        if self.short is None:
            S, P = self.S, self.P
            pos = np.array([self.sv[self.mu[J, i, 1]] for J in range(S) for i in range(P)]).reshape(S, P, 3)
            perms = self.prim.atomic_permutations
            back = np.zeros((S, S), dtype=int)      # K as seen after moving J into the first cell
            jp = np.array([list(self.p2s).index(x) for x in self.s2p])
            for J in range(S):
                p = [x for x in perms if x[J] == self.s2p[J]]
                need(len(p) == 1, "one lattice translation moves each atom to its primitive image", J)
                back[J] = p[0]
            out = np.zeros((P, S, S), dtype=bool)
            for i, J, K in np.ndindex(P, S, S):
                Kb = back[J, K]
                if self.mu[J, i, 0] > 1 or self.mu[K, i, 0] > 1 or self.mu[Kb, jp[J], 0] > 1:
                    continue
                d = np.linalg.norm((pos[K, i] - pos[J, i]) @ self.lat)
                out[i, J, K] = abs(d - np.linalg.norm(pos[Kb, jp[J]] @ self.lat)) < 1e-5
            self.short = out
        return self.short

    def leg(self, q1, q2, mode):
        """mode 0: all; 1: first of three with complete triangles tripled; 2: others"""
        P = self.P
        f = np.zeros((P, P, P, 3, 3, 3), dtype=complex)
        idx = [np.where(self.s2p == p)[0] for p in self.p2s]
        for i in range(P):
            w1, w2 = self.ph(q1, i), self.ph(q2, i)
            W = np.outer(w1, w2)
            if mode == 1:
                W = W * np.where(self.shortest()[i], 3, 1)
            if mode == 2:
                W = W * ~self.shortest()[i]
            for j, k in np.ndindex(P, P):
                x = np.ix_(idx[j], idx[k])
                f[i, j, k] = np.einsum("JK,JKabc->abc", W[x], self.fc3[self.p2s[i]][x])
        pre = np.exp(2j * np.pi * ((self.sv[self.mu[self.p2s, 0, 1]]) @ self.qs))
        return f * pre[:, None, None, None, None, None]

    def fc3q(self, Q):
        """P,P,P,3,3,3 for three q"""
        self.qs = np.sum(Q, axis=0)
        if not self.r0:
            return self.leg(Q[1], Q[2], 0)
        a = self.leg(Q[1], Q[2], 1)
        b = self.leg(Q[0], Q[2], 2).transpose(1, 0, 2, 4, 3, 5)
        c = self.leg(Q[1], Q[0], 2).transpose(2, 1, 0, 5, 4, 3)
        return (a + b + c) / 3

    def strength(self, Q, e, f, bands, cutoff, sym):
        V = 0
        perms = list(itertools.permutations(range(3))) if sym else [(0, 1, 2)]
        for p in perms:
            x = self.fc3q([Q[i] for i in p])
            ee = [e[i].reshape(self.P, 3, -1) / np.sqrt(self.m)[:, None, None] for i in p]
            z = np.einsum("ijkabc,iax->xjkabc", x, ee[0], optimize=True)
            z = np.einsum("xjkabc,jby,kcz->xyz", z, ee[1], ee[2], optimize=True)
            V = V + np.abs(z.transpose(np.argsort(p))) ** 2
        V = V / len(perms)
        ok = [x > cutoff for x in f]
        den = np.einsum("x,y,z->xyz", *[np.where(o, x, 1) for o, x in zip(ok, f)])
        msk = np.einsum("x,y,z->xyz", *[o.astype(float) for o in ok])
        return (V / den * msk)[list(bands)]


def unit(N):
    """eV^2"""
    return (HBAR * EV) ** 3 / 36 / 8 * EV ** 2 / ANG ** 6 / (2 * np.pi * THZ) ** 3 / AMU ** 3 / N / EV ** 2


def qpt(g, gp):
    return g.QDinv @ g.addresses[gp]


def occ(f, T):
    return 1 / np.expm1(f * TEV / (KB * T)) if T > 0 else np.zeros_like(f)


def averaged(x, bands, f):
    """mean over the requested bands of equal frequency (within 1e-4)"""
    out = np.array(x, dtype=float)
    for i, b in enumerate(bands):
        s = [k for k, c in enumerate(bands) if deg(f, b, c)]
        out[..., i] = np.asarray(x)[..., s].mean(axis=-1)
    return out


def deg(f, b, c):
    lo, hi = min(b, c), max(b, c)
    o = np.sort(f)
    return all(o[i + 1] - o[i] < 1e-4 for i in range(lo, hi))


def pick_bands(rng, ph, desc):
    n = 3 * len(ph.primitive)
    if rng.integers(3):
        return None
    k = int(rng.integers(1, n))
    b = [[int(x)] for x in rng.permutation(n)[:k]]
    desc["bands"] = b
    return b


def ready(ph, rng, desc, **kw):
    """Interaction at a random grid point"""
    ph.init_phph_interaction(**kw)
    pp = ph.phph_interaction
    g = pp.bz_grid
    gp = int(rng.integers(len(g.addresses))) if rng.integers(3) else int(g.grg2bzg[rng.integers(int(np.prod(g.D_diag)))])
    desc["gp"] = gp
    return pp, g, gp


# ------------------------------------------------------------------ C10
def born(rng, ph, desc):
    P = len(ph.primitive)
    b = rng.normal(size=(P, 3, 3))
    b -= b.mean(axis=0)
    if P == 1:
        b = rng.normal(size=(1, 3, 3))
    e = rng.normal(size=(3, 3)) * .3
    eps = e @ e.T + np.eye(3) * 2
    desc["nac"] = str(rng.choice(["wang", "gonze"]))
    return {"born": b, "dielectric": eps, "factor": 14.4, "method": desc["nac"]}


def eig_ok(D, f, e, what, factor=VASP):
    lam = np.sign(f) * (f / factor) ** 2
    sc = max(abs(lam).max(), 1e-3)
    close(D @ e, e * lam, what + ": eigenvectors and squared frequencies of the dynamical matrix", 1e-7, sc)
    close(e.conj().T @ e, np.eye(len(f)), what + ": eigenvectors are orthonormal", 1e-8, 1)


def phonons(rng, desc):
    ph, fc2, fc3 = setup(rng, desc)
    at = Atoms(ph, fc2, fc3)
    kw = {}
    nac = bool(rng.integers(2))
    d = None
    if nac:
        ph.nac_params = born(rng, ph, desc)
        if rng.integers(2):
            d = [float(x) for x in rng.integers(-2, 3, 3)]
            if d == [0, 0, 0]:
                d = [1., 0, 0]
            kw["nac_q_direction"] = desc["direction"] = d
    scale = None
    if rng.integers(4) == 0:
        scale = kw["frequency_scale_factor"] = desc["scale"] = 1.3
    kw["lapack_zheev_uplo"] = desc["uplo"] = str(rng.choice(["L", "U"]))
    pp, g, gp = ready(ph, rng, desc, **kw)
    rot = not nac and bool(rng.integers(2))
    desc["solve_by_rotation"] = rot
    with contextlib.redirect_stdout(io.StringIO()):
        if rng.integers(3) == 0:                # some points first
            pp.run_phonon_solver(np.array(rng.permutation(len(g.addresses))[:3], dtype="int64"))
            desc["partial"] = True
        if rot:
            pp.run_phonon_solver(solve_by_rotation=True)
        else:
            pp.run_phonon_solver()
    f, e, done = pp.get_phonons()
    need((np.asarray(done) == 1).all(), "every grid point is solved", "")
    dm = None
    if nac:
        dm = get_dynamical_matrix(ph.fc2, ph.phonon_supercell, ph.phonon_primitive, nac_params=ph.nac_params, frequency_scale_factor=scale)
    for x in range(len(g.addresses)):
        q = qpt(g, x)
        if nac:
            dm.run(q)                           # at q=0 without direction
            D = dm.dynamical_matrix
        else:
            D = at.dyn(q)
        if scale and not nac:
            D = D * scale ** 2
        eig_ok(D, f[x], e[x], f"grid point {g.addresses[x].tolist()}" if not (nac and x == g.gp_Gamma and d) else "zone centre before a request with direction") \
            if not (nac and d and x == g.gp_Gamma) else None
        m = np.where((g.addresses == -g.addresses[x]).all(axis=1))[0]
        if len(m) and not (nac and d):
            close(f[m[0]], f[x], "frequencies at opposite wave vectors are equal", 1e-6, max(abs(f[x]).max(), 1))
    # zone centre with and without direction
    pp.set_grid_point(g.gp_Gamma)
    pp.run_phonon_solver()
    f, e, _ = pp.get_phonons()
    if nac:
        dm.run(np.zeros(3), q_direction=d) if d else dm.run(np.zeros(3))
        D = dm.dynamical_matrix
    else:
        D = at.dyn(np.zeros(3))
    D = D * scale ** 2 if scale and not nac else D
    if pp.is_mesh_symmetry or not d:
        eig_ok(D, f[g.gp_Gamma], e[g.gp_Gamma], "zone centre" + (" with direction" if d else ""))
    pp.run_phonon_solver_at_gamma()
    f, e, _ = pp.get_phonons()
    if nac:
        dm.run(np.zeros(3))
        D = dm.dynamical_matrix
    eig_ok(D, f[g.gp_Gamma], e[g.gp_Gamma], "zone centre without direction")


# ------------------------------------------------------------------ C11
def strengths(rng, desc):
    ph, fc2, fc3 = setup(rng, desc)
    at = Atoms(ph, fc2, fc3)
    ph.band_indices = pick_bands(rng, ph, desc)
    sym = bool(rng.integers(3) == 0)
    scale = None
    kw = {"symmetrize_fc3q": sym, "openmp_per_triplets": [None, True, False][int(rng.integers(3))]}
    if rng.integers(5) == 0:
        scale = kw["frequency_scale_factor"] = 1.2
    desc.update(kw)
    pp, g, gp = ready(ph, rng, desc, **kw)
    pp.set_grid_point(gp)
    g_zero = None
    tr, w = pp.get_triplets_at_q()[:2]
    nb = 3 * at.P
    bands = [int(x) for x in pp.band_indices]
    if rng.integers(2):
        pp.run()
    else:
        desc["g_zero"] = True
        g_zero = np.array(rng.integers(0, 2, (len(tr), len(bands), nb, nb)), dtype="byte")
        pp.run(g_zero=g_zero)
    V = pp.interaction_strength
    f, e, _ = pp.get_phonons()
    cv = unit(np.prod(g.D_diag)) * (scale ** 4 if scale else 1)
    pick = rng.permutation(len(tr))[:6]
    ref = np.array([at.strength([qpt(g, x) for x in tr[t]], e[tr[t]], f[tr[t]], bands, ph._cutoff_frequency, sym) * cv for t in pick])
    got = V[pick]
    if g_zero is not None and not sym:
        keep = g_zero[pick] == 0
        got, ref = got * keep, ref * keep
    close(got, ref, "interaction strength is the squared projected coupling over the three frequencies", 1e-6)
    need((V >= 0).all() or g_zero is not None, "interaction strength is non-negative", V.min())
    if g_zero is None:
        close(pp.averaged_interaction, np.einsum("t,tbij->b", w, V) / nb ** 2, "averaged interaction", 1e-9)
        close(pp.unit_conversion_factor, unit(np.prod(g.D_diag)), "unit conversion", 1e-6)


def orders(rng, desc):
    """the same point after other requests (C25, C11)"""
    ph, fc2, fc3 = setup(rng, desc, cutoff_frequency=1e-4)
    nac = bool(rng.integers(2))
    kw = {}
    if nac:
        ph.nac_params = born(rng, ph, desc)
    pp, g, gp = ready(ph, rng, desc, **kw)
    gps = [int(x) for x in rng.permutation(len(g.addresses))[:3]] + [int(g.gp_Gamma)]
    desc["order"] = gps
    got = {}
    for x in gps + gps[:1]:
        pp.set_grid_point(x)
        pp.run()
        v = pp.interaction_strength
        if x in got:
            close(v, got[x], "interaction strength after other requests equals the first one", 1e-9)
        got[x] = v.copy()
    ph.init_phph_interaction(**kw)
    pp = ph.phph_interaction
    x = gps[int(rng.integers(len(gps)))]
    pp.set_grid_point(x)
    pp.run()
    close(pp.interaction_strength, got[x], "interaction strength on a fresh object equals the one after other requests", 1e-9)


def histories(rng, desc):
    """requests with and without a direction at the zone centre, in any order, against a fresh object (C25)"""
    ph, fc2, fc3 = setup(rng, desc, cutoff_frequency=1e-4)
    if rng.integers(4):
        ph.nac_params = born(rng, ph, desc)
    pp, g, gp = ready(ph, rng, desc)
    gm = int(g.gp_Gamma)
    dirs = [rng.normal(size=3), np.eye(3)[int(rng.integers(3))]]
    req = []
    for _ in range(int(rng.integers(3, 6))):
        c = int(rng.integers(5))
        req.append((gm, c % 2) if c < 4 and rng.integers(2) else (int(rng.integers(len(g.addresses))), None))
    req.append((gm, int(rng.integers(2))))
    req.insert(int(rng.integers(len(req))), (gm, None))
    desc.update(requests=req, dirs=[d.tolist() for d in dirs], whole=bool(rng.integers(2)))
    if desc["whole"]:
        pp.run_phonon_solver()

    def do(pp, x, d):
        pp.nac_q_direction = None if d is None else dirs[d]
        pp.set_grid_point(x)
        pp.run()
        f, e, _ = pp.get_phonons()
        t = pp.get_triplets_at_q()[0]
        return pp.interaction_strength.copy(), f[np.unique(t)].copy(), np.array(t), pp.get_triplets_at_q()[1].copy()
    fresh = {}
    for n, (x, d) in enumerate(req):
        got = do(pp, x, d)
        if (x, d) not in fresh:
            ph.init_phph_interaction(nac_q_direction=None)
            fresh[x, d] = do(ph.phph_interaction, x, d)
        ref = fresh[x, d]
        same(got[2], ref[2], "triplets after other requests equal those of a fresh object", f"request {n}")
        same(got[3], ref[3], "weights after other requests equal those of a fresh object", f"request {n}")
        close(got[1] * abs(got[1]), ref[1] * abs(ref[1]), "frequencies after other requests equal those of a fresh object", 1e-9, where=f"request {n}")
        close(got[0], ref[0], "interaction strength after other requests equals the one of a fresh object", 1e-7, where=f"request {n}")


def batches(rng, desc):
    """linewidths requested together, permuted and one by one (C25)"""
    ph, fc2, fc3 = setup(rng, desc, cutoff_frequency=1e-4)
    pp, g, gp = ready(ph, rng, desc)
    gps = [int(x) for x in rng.permutation(len(g.addresses))[:3]]
    Ts, sig = [0., 40., 300.], [None, .3]
    desc.update(gps=gps)
    pp.run_phonon_solver()
    kw = {"frequency_points": np.sort(rng.uniform(.01, max(pp.get_phonons()[0].max(), 1) * 2, 3))}

    def run(pp, gps, Ts, sig):
        with contextlib.redirect_stdout(io.StringIO()):
            return get_imag_self_energy(pp, gps, Ts, sigmas=sig, **kw)[1]
    ref = run(pp, gps, Ts, sig)
    a, b, c = rng.permutation(len(gps)), rng.permutation(3), rng.permutation(2)
    got = run(pp, [gps[i] for i in a], [Ts[i] for i in b], [sig[i] for i in c])
    close(got, ref[np.ix_(c, b, a)], "linewidths of permuted requests are the permuted linewidths", 1e-7)
    ph.init_phph_interaction()
    i, j, k = int(rng.integers(2)), int(rng.integers(3)), int(rng.integers(len(gps)))
    ph.phph_interaction.run_phonon_solver()
    one = run(ph.phph_interaction, [gps[k]], [Ts[j]], [sig[i]])
    close(one[0, 0, 0], ref[i, j, k], "linewidth requested alone equals the one requested with others", 1e-7, max(abs(ref[i, j]).max(), 1e-12))


# ------------------------------------------------------------------ C07
def tetra_value(rel, fv, w):
    """24 tetrahedra; fv(address offset) -> value"""
    tot = 0.0
    for tet in rel:
        v = [fv(np.array(r)) for r in tet]
        if min(abs(x - w) for x in v) < 1e-9 * (1 + abs(w)):
            raise ValueError
        tot += tetraref.weight(w, v, False)
    return tot / 6


def main_diagonals(g):
    L = g.microzone_lattice
    d = [np.linalg.norm(L @ x) for x in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1))]
    return [i for i in range(4) if d[i] < min(d) * (1 + 1e-9)]


def weights(rng, desc):
    ph, fc2, fc3 = setup(rng, desc)
    pp, g, gp = ready(ph, rng, desc)
    pp.run_phonon_solver()
    pp.set_grid_point(gp)
    tr = pp.get_triplets_at_q()[0]
    f = pp.get_phonons()[0]
    col = bool(rng.integers(2))
    sigma = [None, None, .3, 1.0][int(rng.integers(4))]
    cut = [None, 2.0, 3.5][int(rng.integers(3))] if sigma else None
    fp = np.sort(rng.uniform(.01, max(f.max(), 1) * 2.1, 4))
    desc.update(sigma=sigma, cut=cut, col=col, fp=fp.tolist())
    G, Z = get_triplets_integration_weights(pp, fp, sigma, sigma_cutoff=cut, is_collision_matrix=col)
    nb = f.shape[1]
    need(G.shape == ((3 if col else 2), len(tr), len(fp), nb, nb), "one weight for every triplet, frequency and band pair", G.shape)
    if sigma:
        gs = lambda x: np.exp(-x ** 2 / 2 / sigma ** 2) / sigma / np.sqrt(2 * np.pi)  # noqa: E731
        a = f[tr[:, 1]][:, None, :, None]
        b = f[tr[:, 2]][:, None, None, :]
        w = fp[None, :, None, None]
        d = [gs(w - a - b), gs(w + a - b), gs(w - a + b)]
        R = [d[0], d[1] - d[2]] + ([d[0] + d[1] + d[2]] if col else [])
        far = (np.minimum(np.minimum(abs(w - a - b), abs(w + a - b)), abs(w - a + b)) > (cut or 1e9) * sigma)
        R = np.array(R)
        if cut is None:
            close(G, R, "smearing weights are the normal distributions of the three energy sums", 1e-9)
            need(not Z.any(), "nothing is skipped without a cutoff", Z.sum())
        else:
            edge = np.zeros_like(Z, dtype=bool)
            for x in (abs(w - a - b), abs(w + a - b), abs(w - a + b)):
                edge |= abs(x - cut * sigma) < 1e-9
            ok = ~edge
            same((Z != 0)[ok], far[ok], "elements outside the cutoff window are flagged, and only those")
            close((G * (Z == 0) * ok), R * (Z == 0) * ok, "smearing weights of elements inside the window", 1e-9)
            need((G * (Z != 0) * ok == 0).all(), "flagged elements have zero weights", "")
        return
    rels = [tetraref.RELATIVE[i] for i in main_diagonals(g)]
    D = g.D_diag

    def val(t, leg, r, b):
        s = 1 if leg == 1 else -1
        ad = g.addresses[tr[t][leg]] + s * (g.P @ r)
        return max(f[g.grg2bzg[mixed(ad, D)], b], 0.0)   # imaginary modes count as zero frequency
    n = 0
    for _ in range(200):
        if n >= 24:
            break
        t, j, b1, b2 = [int(rng.integers(x)) for x in (len(tr), len(fp), nb, nb)]
        if n > 8 and not G[:, t, j, b1, b2].any():
            continue
        best = None
        try:
            for rel in rels:
                d = [tetra_value(rel, lambda r: s1 * val(t, 1, r, b1) + s2 * val(t, 2, r, b2), fp[j])
                     for s1, s2 in ((1, 1), (-1, 1), (1, -1))]
                R = np.array([d[0], d[1] - d[2]] + ([sum(d)] if col else []))
                er = abs(G[:, t, j, b1, b2] - R).max()
                best = (er, R) if best is None or er < best[0] else best
        except ValueError:
            continue
        n += 1
        need(best[0] <= 1e-6 * max(1, abs(best[1]).max()), "tetrahedron weights are the delta functions of the three energy sums",
             f"triplet {tr[t].tolist()} frequency {fp[j]} bands {b1},{b2}: got {G[:, t, j, b1, b2]} contract requires {best[1]}")
    need((G * (Z != 0) == 0).all(), "flagged elements have zero weights", "")


# ------------------------------------------------------------------ C12
ISE_U = 18 * np.pi / (HBAR * EV) ** 2 / (2 * np.pi * THZ) ** 2 * EV ** 2


def ise_terms(pp, G, V, T, cutoff, freq=None):
    """(triplet, freq or band, band, band) terms of the linewidth; freq None: one weight per band"""
    tr, w = pp.get_triplets_at_q()[:2]
    f = pp.get_phonons()[0]
    f1, f2 = f[tr[:, 1]], f[tr[:, 2]]
    ok1, ok2 = f1 > cutoff, f2 > cutoff
    n1 = np.where(ok1, occ(np.where(ok1, f1, 1.), T), 0)[:, None, :, None]
    n2 = np.where(ok2, occ(np.where(ok2, f2, 1.), T), 0)[:, None, None, :]
    ok = (ok1[:, None, :, None] & ok2[:, None, None, :])
    return ((n1 + n2 + 1) * G[0] + (n1 - n2) * G[1]) * ok


def linewidths(rng, desc):
    ph, fc2, fc3 = setup(rng, desc)
    ph.band_indices = pick_bands(rng, ph, desc)
    pp, g, gp = ready(ph, rng, desc, symmetrize_fc3q=bool(rng.integers(4) == 0))
    pp.run_phonon_solver()
    cutoff = ph._cutoff_frequency
    detail = bool(rng.integers(2))
    T = float(rng.choice([0., 10., 300., 1000.]))
    sigma = [None, .3, 1.][int(rng.integers(3))]
    scut = [None, 3.][int(rng.integers(2))] if sigma else None
    atf = bool(rng.integers(2))
    desc.update(detail=detail, T=T, sigma=sigma, scut=scut, at_freq=atf)
    ise = ImagSelfEnergy(pp, with_detail=detail)
    ise.set_grid_point(gp)
    ise.set_sigma(sigma, sigma_cutoff=scut)
    f = pp.get_phonons()[0]
    bands = [int(x) for x in pp.band_indices]
    fp = f[gp][bands]
    if atf:
        fp = np.sort(rng.uniform(.01, max(f.max(), 1) * 2.1, 3))
        ise.frequency_points = fp
    cls = [None, None, 1, 2][int(rng.integers(4))]
    desc["event_class"] = cls
    ise.run_integration_weights(scattering_event_class=cls)
    full = bool(rng.integers(2))
    desc["full_pp"] = full
    ise.run_interaction(is_full_pp=full)
    ise.temperature = T
    ise.run()
    pp.run()
    V = pp.interaction_strength
    G, Z = get_triplets_integration_weights(pp, np.array(fp), sigma, sigma_cutoff=scut)
    if cls:
        G[cls - 1] = 0
    tr, w = pp.get_triplets_at_q()[:2]
    trm = ise_terms(pp, G, V, T, cutoff) * ISE_U
    if atf:
        ref_t = np.einsum("tfij,tbij->tfb", trm, V)
    else:
        ref_t = np.einsum("tbij,tbij->tb", trm, V)
    tot = np.einsum("t...,t->...", ref_t, w)
    close(ise.imag_self_energy, averaged(tot, bands, f[gp]), "linewidth is the golden-rule sum over triplets and bands", 1e-6)
    if detail:
        d = ise.detailed_imag_self_energy
        ref = np.einsum("tfij,tbij->ftbij", trm, V) if atf else trm * V
        close(d, ref, "detailed linewidths are the terms of the sum", 1e-6)
        norm = np.array([(g.addresses[x].sum(axis=0) == 0).all() for x in tr])
        N, Um = ise.get_imag_self_energy_N_and_U()
        close(N, averaged(np.einsum("t...,t->...", ref_t, w * norm), bands, f[gp]), "normal part: triplets whose addresses sum to zero", 1e-6,
              max(abs(tot).max(), 1e-12))
        close(Um, averaged(np.einsum("t...,t->...", ref_t, w * ~norm), bands, f[gp]), "Umklapp part: the other triplets", 1e-6,
              max(abs(tot).max(), 1e-12))


def linewidth_api(rng, desc):
    """get_imag_self_energy over grid points, temperatures, widths in batches"""
    ph, fc2, fc3 = setup(rng, desc, cutoff_frequency=1e-4)
    ph.band_indices = pick_bands(rng, ph, desc)
    pp, g, gp = ready(ph, rng, desc)
    gps = [gp, int(rng.integers(len(g.addresses)))]
    Ts = [0., 300.] if rng.integers(2) else [500., 20., 0.]
    sig = [None, .5] if rng.integers(2) else [.4]
    bands_mode = bool(rng.integers(2))
    pp.run_phonon_solver()
    f = pp.get_phonons()[0].copy()
    kw = {"frequency_points_at_bands": True} if bands_mode else {
        "frequency_points": np.sort(rng.uniform(.01, max(f.max(), 1) * 2, 5)), "num_points_in_batch": int(rng.integers(1, 7))}
    det = bool(rng.integers(3))
    desc.update(gps=gps, T=Ts, sigmas=sig, kw=repr(kw), det=det)
    with contextlib.redirect_stdout(io.StringIO()):
        out = get_imag_self_energy(pp, gps, Ts, sigmas=sig, return_gamma_detail=det, **kw)
    gam = out[1]
    if det and len(out[2]) != len(gps):
        raise Fail("one array of detailed linewidths per grid point", f"{len(out[2])} arrays for {len(gps)} grid points")
    bands = [int(x) for x in pp.band_indices]
    for i, x in enumerate(gps):
        pp.set_grid_point(x)
        pp.run()
        V = pp.interaction_strength
        f = pp.get_phonons()[0]
        fp = f[x][bands] if bands_mode else kw["frequency_points"]
        w = pp.get_triplets_at_q()[1]
        for j, s in enumerate(sig):
            G, _ = get_triplets_integration_weights(pp, np.array(fp), s)
            for k, T in enumerate(Ts):
                trm = ise_terms(pp, G, V, T, 1e-4) * ISE_U
                if bands_mode:
                    ref = averaged(np.einsum("tbij,tbij,t->b", trm, V, w), bands, f[x])
                    close(gam[j, k, i], ref, "linewidth of each width, temperature, grid point and band", 1e-6)
                    if det:
                        close(out[2][i][j][k], trm * V, "detailed linewidth of each grid point, width and temperature", 1e-6)
                else:
                    ref = averaged(np.einsum("tfij,tbij,t->fb", trm, V, w), bands, f[x]).T
                    close(gam[j, k, i], ref, "linewidth of each width, temperature, grid point, band and frequency", 1e-6)
                    if det:
                        close(out[2][i][j][k], np.einsum("tfij,tbij->ftbij", trm, V),
                              "detailed linewidth of each grid point, width, temperature and frequency", 1e-6)


def lowmem(rng, desc):
    """conductivity runs: storing the strengths or not, normal/Umklapp or not; without mesh symmetry"""
    ph, fc2, fc3 = setup(rng, desc, is_mesh_symmetry=True)
    pp, g, gp = ready(ph, rng, desc, symmetrize_fc3q=bool(rng.integers(4) == 0), openmp_per_triplets=[None, True, False][int(rng.integers(3))])
    cutoff = ph._cutoff_frequency
    Ts = np.array([0., 300., 700.] if rng.integers(2) else [400., 30.])
    sig = [[None], [.5], [None, .3]][int(rng.integers(3))]
    scut = [None, 3.][int(rng.integers(2))]
    full, NU = bool(rng.integers(2)), bool(rng.integers(2))
    if len(sig) > 1:
        full = True
    desc.update(T=Ts.tolist(), sigmas=sig, scut=scut, full_pp=full, NU=NU)
    gps = [int(g.grg2bzg[x]) for x in rng.permutation(int(np.prod(g.D_diag)))[:2]]
    with contextlib.redirect_stdout(io.StringIO()):
        br = ConductivityRTA(pp, grid_points=gps, temperatures=Ts, sigmas=sig, sigma_cutoff=scut, is_full_pp=full, is_N_U=NU,
                             is_kappa_star=bool(rng.integers(2)), log_level=0)
        for i in br:
            pass
    gam = br.gamma
    f = pp.get_phonons()[0]
    bands = list(range(f.shape[1]))
    for i, x in enumerate(br.grid_points):
        pp.set_grid_point(x)
        pp.run()
        V, (tr, w) = pp.interaction_strength, pp.get_triplets_at_q()[:2]
        norm = np.array([(g.addresses[y].sum(axis=0) == 0).all() for y in tr])
        for j, s in enumerate(sig):
            G, _ = get_triplets_integration_weights(pp, np.array(f[x]), s, sigma_cutoff=scut)
            for k, T in enumerate(Ts):
                t = np.einsum("tbij,tbij->tb", ise_terms(pp, G, V, T, cutoff) * ISE_U, V)
                tot = averaged(w @ t, bands, f[x])
                close(gam[j, k, i], tot, "linewidths of the conductivity run equal the golden-rule sum", 1e-6)
                if NU:
                    N, Um = br.get_gamma_N_U()
                    close(N[j, k, i], averaged((w * norm) @ t, bands, f[x]), "normal linewidths of the conductivity run", 1e-6, max(abs(tot).max(), 1e-12))
                    close(Um[j, k, i], averaged((w * ~norm) @ t, bands, f[x]), "Umklapp linewidths of the conductivity run", 1e-6, max(abs(tot).max(), 1e-12))


# ------------------------------------------------------------------ C13
def collisions(rng, desc):
    ph, fc2, fc3 = setup(rng, desc, is_mesh_symmetry=True)
    red = bool(rng.integers(2))
    pp, g, gp = ready(ph, rng, desc)
    gp = int(g.grg2bzg[g.bzg2grg[gp]])
    pp.run_phonon_solver()
    cutoff = ph._cutoff_frequency
    T = float(rng.choice([30., 300.]))
    sigma = [None, .4][int(rng.integers(2))]
    desc.update(T=T, sigma=sigma, reducible=red, gp=gp)
    N = int(np.prod(g.D_diag))
    if red:
        cm = CollisionMatrix(pp, is_reducible_collision_matrix=True)
    else:
        from phono3py.phonon.grid import get_grid_points_by_rotations, get_ir_grid_points
        ir = g.grg2bzg[get_ir_grid_points(g)[0]]
        rots = np.array([get_grid_points_by_rotations(x, g) for x in ir], dtype="int64")
        cm = CollisionMatrix(pp, rotations_cartesian=g.rotations_cartesian, num_ir_grid_points=len(ir), rot_grid_points=rots)
    cm.set_grid_point(gp)
    cm.set_sigma(sigma)
    cm.run_integration_weights()
    cm.temperature = T
    cm.run()
    M = cm.get_collision_matrix()
    tr, w, mp, irq = pp.get_triplets_at_q()
    f = pp.get_phonons()[0]
    V = pp.interaction_strength
    G, _ = get_triplets_integration_weights(pp, np.array(f[gp]), sigma, is_collision_matrix=True)
    # the triplet containing gp and gp1, from scratch: representative of the pair under the little group and exchange
    D = g.D_diag
    q0 = g.addresses[gp]
    little = [R for R in g.rotations if mixed(R @ q0, D) == mixed(q0, D)]
    table = {}
    for t, x in enumerate(tr):
        a, b = g.addresses[x[1]], g.addresses[x[2]]
        for R in little:
            table.setdefault(int(mixed(R @ a, D)), []).append((t, 0))
            table.setdefault(int(mixed(R @ b, D)), []).append((t, 1))

    nb = f.shape[1]

    def element(gp1):
        t, sw = min(table[gp1], key=lambda x: x[1])     # exchanged only if needed
        third = tr[t][1 if sw else 2]
        fr = f[third]
        ok = fr > cutoff
        s = np.where(ok, 1 / np.sinh(np.where(ok, fr, 1) * TEV / (2 * KB * T)), 0)
        v = V[t] * G[2, t]
        out = np.einsum("bjk,j->bk", v, s) if sw else np.einsum("bjk,k->bj", v, s)
        return out * ISE_U
    # unit of the collision matrix: that of the linewidth
    if red:
        ref = np.array([element(x) for x in range(N)]).transpose(1, 0, 2)
        close(M, ref, "reducible collision matrix element is the sum over third bands of its triplet", 1e-6)
    else:
        ref = np.zeros((nb, 3, len(ir), nb, 3))
        sc = 0.0
        for i in range(len(ir)):
            for r, x in zip(g.rotations_cartesian, rots[i]):
                e = element(int(g.bzg2grg[x]))
                sc = max(sc, abs(e).max(initial=0))
                ref[:, :, i] += np.einsum("bk,ac->bakc", e, r)
        close(M, ref, "collision matrix element is the sum over rotations of the reducible one times the rotation", 1e-6, max(sc, 1e-12))
    # linewidth of the same object
    Gi, _ = get_triplets_integration_weights(pp, np.array(f[gp]), sigma)
    tot = np.einsum("tbij,tbij,t->b", ise_terms(pp, Gi, V, T, cutoff) * ISE_U, V, w)
    close(cm.imag_self_energy, averaged(tot, list(range(nb)), f[gp]), "linewidth of the collision-matrix object", 1e-6)


# ------------------------------------------------------------------ C14
def isotope(rng, desc):
    ph, fc2, fc3 = setup(rng, desc)
    at = Atoms(ph, fc2, fc3)
    bands = pick_bands(rng, ph, desc)
    P = at.P
    b = None if bands is None else [x[0] for x in bands]
    mv = rng.uniform(0, 1e-2, P)
    sigma = [None, .3, 1.2][int(rng.integers(3))]
    desc.update(sigma=sigma, mv=mv.tolist())
    grg = bool(rng.integers(2))
    cutoff = ph._cutoff_frequency
    ph.init_phph_interaction()
    bz = ph.phph_interaction.bz_grid if rng.integers(2) and ph._is_mesh_symmetry else None
    mesh = ph.mesh_numbers
    iso = Isotope(mesh, ph.primitive, mass_variances=mv, band_indices=b, sigma=sigma, bz_grid=bz, cutoff_frequency=cutoff)
    iso.init_dynamical_matrix(ph.fc2, ph.phonon_supercell, ph.phonon_primitive)
    g = iso.bz_grid
    gp = int(rng.integers(len(g.addresses)))
    desc["gp"] = gp
    iso.set_grid_point(gp)
    iso.run()
    f, e, _ = iso.get_phonons()
    for x in rng.permutation(len(g.addresses))[:4]:
        eig_ok(at.dyn(qpt(g, x)), f[x], e[x], "phonons of the isotope calculation")
    bb = list(range(3 * P)) if b is None else b
    N = int(np.prod(g.D_diag))
    got = iso.gamma
    f0, e0 = f[gp], e[gp]
    if sigma is None:
        rels = [tetraref.RELATIVE[i] for i in main_diagonals(g)]
        if 3 * P * len(bb) * N > 1500:
            bb = bb[:max(1, 1500 // (3 * P * N))]
            got = got[:len(bb)]
    outs = []
    opts = range(len(rels)) if sigma is None else [0]
    for o in opts:
        ref = np.zeros(len(bb))
        try:
            for i, x in enumerate(bb):
                if not f0[x] > cutoff:
                    continue
                for y in range(N):
                    z = g.grg2bzg[y]
                    for k in range(3 * P):
                        if not f[z, k] > cutoff:
                            continue
                        if sigma is None:
                            d = tetra_value(rels[o], lambda r: f[g.grg2bzg[mixed(g.addresses[z] + g.P @ r, g.D_diag)], k], f0[x])
                        else:
                            d = np.exp(-(f0[x] - f[z, k]) ** 2 / 2 / sigma ** 2) / sigma / np.sqrt(2 * np.pi)
                        if d:
                            ov = (e0[:, x].conj().reshape(P, 3) * e[z][:, k].reshape(P, 3)).sum(axis=1)
                            ref[i] += d * (mv * abs(ov) ** 2).sum()
                ref[i] *= np.pi / 4 * f0[x] ** 2 / N
        except ValueError:
            return                            # a vertex exactly at the frequency
        outs.append(ref)
    er = [abs(got - r).max() / max(abs(r).max(), 1e-12) for r in outs]
    need(min(er) < 1e-6, "isotope scattering rate is the mass-variance golden-rule sum", f"got {got} contract requires {outs[0]}")
    need((iso.gamma >= 0).all(), "isotope scattering rate is non-negative", iso.gamma)


# ------------------------------------------------------------------ C15
RSE_U = 18 / (HBAR * EV) ** 2 / (2 * np.pi * THZ) ** 2 * EV ** 2


def rse_ref(pp, V, gp, bands, T, eps, cutoff, fp):
    tr, w = pp.get_triplets_at_q()[:2]
    f = pp.get_phonons()[0]
    out = np.zeros(len(bands) if fp is None else (len(fp), len(bands)))
    a, b = f[tr[:, 1]], f[tr[:, 2]]
    ok1, ok2 = a > cutoff, b > cutoff
    n1 = np.where(ok1, occ(np.where(ok1, a, 1.), T), 0)[:, :, None]
    n2 = np.where(ok2, occ(np.where(ok2, b, 1.), T), 0)[:, None, :]
    ok = ok1[:, :, None] & ok2[:, None, :]
    A, B = a[:, :, None], b[:, None, :]
    pv = lambda x: x / (x ** 2 + eps ** 2)  # noqa: E731

    def at(w0, i):
        if not w0 > cutoff:
            return 0.0
        d = (-(n1 + n2 + 1) * pv(w0 + A + B) + (n1 + n2 + 1) * pv(w0 - A - B) - (n1 - n2) * pv(w0 - A + B) + (n1 - n2) * pv(w0 + A - B))
        return np.einsum("tij,tij,t->", d * ok, V[:, i], w) * RSE_U
    for i, bd in enumerate(bands):
        if fp is None:
            out[i] = at(f[gp][bd], i)
        else:
            for k, x in enumerate(fp):
                out[k, i] = at(x, i)
    return out


def shifts(rng, desc):
    ph, fc2, fc3 = setup(rng, desc)
    ph.band_indices = pick_bands(rng, ph, desc)
    pp, g, gp = ready(ph, rng, desc)
    pp.run_phonon_solver()
    cutoff = ph._cutoff_frequency
    T = float(rng.choice([0., 10., 300., 900.]))
    eps = float(rng.choice([.05, .3, 1.]))
    atf = bool(rng.integers(2))
    desc.update(T=T, eps=eps, at_freq=atf)
    r = RealSelfEnergy(pp, grid_point=gp, temperature=T, epsilon=eps)
    f = pp.get_phonons()[0]
    fp = None
    if atf:
        fp = np.sort(rng.uniform(.01, max(f.max(), 1) * 2.1, 3))
        r.frequency_points = fp
    r.run()
    bands = [int(x) for x in pp.band_indices]
    V = pp.interaction_strength
    ref = averaged(rse_ref(pp, V, gp, bands, T, eps, cutoff, fp), bands, f[gp])
    close(r.real_self_energy, ref, "frequency shift is the regularized principal-value sum", 1e-6)


def shift_api(rng, desc):
    ph, fc2, fc3 = setup(rng, desc, cutoff_frequency=1e-4)
    ph.band_indices = pick_bands(rng, ph, desc)
    pp, g, gp = ready(ph, rng, desc)
    pp.run_phonon_solver()
    f = pp.get_phonons()[0]
    gps = [gp, int(rng.integers(len(g.addresses)))]
    Ts = [0., 300.]
    epss = [.05, .4]
    atb = bool(rng.integers(2))
    kw = {"frequency_points_at_bands": True} if atb else {"frequency_points": np.sort(rng.uniform(.01, max(f.max(), 1) * 2, 4))}
    desc.update(gps=gps, atb=atb)
    with contextlib.redirect_stdout(io.StringIO()):
        _, d = get_real_self_energy(pp, gps, Ts, epsilons=epss, **kw)
    bands = [int(x) for x in pp.band_indices]
    for i, x in enumerate(gps):
        pp.set_grid_point(x)
        pp.run()
        f = pp.get_phonons()[0]
        for j, e in enumerate(epss):
            for k, T in enumerate(Ts):
                ref = averaged(rse_ref(pp, pp.interaction_strength, x, bands, T, e, 1e-4, None if atb else kw["frequency_points"]), bands, f[x])
                close(d[j, k, i], ref if atb else ref.T, "frequency shift of each width, temperature, grid point and band", 1e-6)


B = "crystals: 10 small supercells (2..16 atoms), random symmetric force constants, meshes up to 4x4x4"
CHECKS = [
    ("phonons on the grid", phonons, 24, ("C10",), B),
    ("interaction strength", strengths, 24, ("C11",), B),
    ("request order", orders, 10, ("C11", "C25"), B),
    ("triplet weights", weights, 24, ("C07",), B),
    ("linewidths", linewidths, 40, ("C12",), B),
    ("request histories", histories, 60, ("C25",), B),
    ("batched requests", batches, 10, ("C25",), B),
    ("linewidth spectrum", linewidth_api, 14, ("C12",), B),
    ("conductivity linewidths", lowmem, 14, ("C12",), B),
    ("collision matrix", collisions, 24, ("C13",), B),
    ("isotope rates", isotope, 24, ("C14",), B),
    ("frequency shifts", shifts, 24, ("C15",), B),
    ("frequency shift spectrum", shift_api, 8, ("C15",), B),
]
