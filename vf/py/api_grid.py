"""Runtime contracts on phono3py.phonon.grid and phono3py.phonon3.triplets (bounded)."""
PROPS = ("C01", "C02", "C03", "C04", "C05", "C18")
import itertools
import os
import sys

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from gridgen import bz_tolerance
from _common import *
from phono3py.phonon import grid as G
from phono3py.phonon3 import triplets as TR

OFF = np.array(list(itertools.product(range(-2, 3), repeat=3)))


def make_grid(rng, desc, shift=True, big=False):
    """random zone grid; None when the class rejects the mesh as breaking the symmetry"""
    name, c = primitive(rng)
    ds = dataset(c)
    desc["crystal"] = name
    mode = int(rng.integers(6))
    kw = dict(lattice=c.cell, is_time_reversal=bool(rng.integers(4)), store_dense_gp_map=bool(rng.integers(2)))
    if rng.integers(5):
        kw["symmetry_dataset"] = ds
    n = 5 if big else 4
    if mode == 0:
        mesh = rng.integers(1, n + 1, 3)
    elif mode == 1:
        mesh = [int(rng.integers(1, n + 1))] * 3
    elif mode == 2:
        mesh = float(rng.uniform(6, 22 if big else 16))
    elif mode == 3:
        mesh = float(rng.uniform(8, 22 if big else 16))
        kw.update(use_grg=True, symmetry_dataset=ds, force_SNF=bool(rng.integers(2)))
        if rng.integers(5) == 0:
            kw["SNF_coordinates"] = "direct"
    elif mode == 4:
        A = rng.integers(-2, 4, (3, 3))
        while not 0 < abs(round(np.linalg.det(A))) <= 64:
            A = rng.integers(-2, 4, (3, 3))
        mesh = A
        kw["use_grg"] = True
        kw.pop("symmetry_dataset", None)
        kw["transformation_matrix"] = np.eye(3)
    else:
        # lattice of the conventional cell: keeps the symmetry
        mesh = np.rint(np.linalg.inv(ds.transformation_matrix)).T.astype(int) * int(rng.integers(1, 3))
        kw.update(use_grg=True, symmetry_dataset=ds)
    if shift and rng.integers(3) == 0:
        kw["is_shift"] = [int(x) for x in rng.integers(0, 2, 3)]
    desc.update(mesh=np.array(mesh).tolist(), **{k: v for k, v in kw.items() if k not in ("lattice", "symmetry_dataset")}, sym="symmetry_dataset" in kw)
    import warnings
    try:
        g = G.BZGrid(mesh, **kw)
    except RuntimeError as e:
        if "symmetry is broken" in str(e):
            return broken(desc, c, mesh, kw)
        if "SNF3x3 failed" in str(e) and mode == 4:
            raise Fail("every non-singular grid matrix is accepted", f"{mesh}")
        raise
    desc["D"] = g.D_diag.tolist()
    return g, c, kw


def broken(desc, c, mesh, kw):
    """the mesh was rejected: some rotation must indeed not keep it"""
    gm = G.GridMatrix(mesh, c.cell, symmetry_dataset=kw.get("symmetry_dataset"), transformation_matrix=kw.get("transformation_matrix"),
                      use_grg=kw.get("use_grg", False), force_SNF=kw.get("force_SNF", False), SNF_coordinates=kw.get("SNF_coordinates", "reciprocal"))
    B = gm.Q @ np.diag(1.0 / gm.D_diag)
    rots = [r.T for r in kw["symmetry_dataset"].rotations] if "symmetry_dataset" in kw else [np.eye(3)]
    ok = True
    for r in rots:
        t = np.linalg.inv(B) @ r @ B
        if abs(t - np.rint(t)).max() > 1e-5:
            ok = False
        else:
            s = np.array(kw.get("is_shift", [0, 0, 0]))
            Ps = gm.P @ s
            # q of the shifted point moves to another shifted point
            d = (np.rint(t).astype(int) @ Ps - Ps)
            if (d % 2).any():
                ok = False
    need(not ok, "a mesh kept by every rotation is accepted", "rejected as broken")
    return None


def is_pair(ad):
    return np.asarray(ad)


def indices(rng, desc):
    r = make_grid(rng, desc)
    if r is None:
        return
    g, c, kw = r
    D = g.D_diag
    N = int(np.prod(D))
    ad = G._get_grid_address(D)
    need(ad.shape == (N, 3), "one address per grid point", ad.shape)
    same(G.get_grid_point_from_address(ad, D), np.arange(N), "listed addresses are found again in order")
    far = rng.integers(-40, 41, (30, 3))
    got = np.array([G.get_grid_point_from_address(x, D) for x in far])
    need(((got >= 0) & (got < N)).all(), "indices of any address lie in 0..N-1", got)
    same(mixed(ad[got] - far, D), 0 * got, "an address is found at an equivalent grid point")
    same(G.get_grid_point_from_address(far, D), got, "list of addresses and single addresses agree")
    same(G.get_grid_point_from_address_py(far, D), got, "Python and compiled address lookups agree")
    # through the zone grid
    i = g.get_indices_from_addresses(far)
    same(mixed(g.addresses[i] - far, D), 0 * got, "zone-grid point of an address is equivalent to it")
    one = g.get_indices_from_addresses(far[0])
    need(int(one) == int(i[0]), "single address lookup", (one, i[0]))


def idet(m):
    a, b, c, d, e, f, g, h, i = (int(x) for x in np.ravel(m))
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)


def snf(rng, desc):
    name, c = primitive(rng)
    ds = dataset(c)
    desc["crystal"] = name
    if rng.integers(2):
        hi = int(rng.choice([2, 4, 8, 30]))
        A = rng.integers(-hi, hi + 1, (3, 3))
        while abs(round(np.linalg.det(A))) < 1:
            A = rng.integers(-hi, hi + 1, (3, 3))
        kw = dict(transformation_matrix=np.eye(3), use_grg=True)
        mesh = A
    else:
        mesh = float(rng.uniform(5, 40))
        kw = dict(symmetry_dataset=ds, use_grg=True, force_SNF=bool(rng.integers(2)))
        A = None
    desc.update(mesh=np.array(mesh).tolist(), force=kw.get("force_SNF"))
    m = G.GridMatrix(mesh, c.cell, **kw)
    D, P, Q = np.array(m.D_diag), np.array(m.P), np.array(m.Q)
    need((D > 0).all() or (A is not None and m.grid_matrix is None), "mesh numbers are positive", D)
    for x, n in ((P, "P"), (Q, "Q")):
        need(abs(idet(x)) == 1, f"{n} is unimodular", x.tolist())
    gm = m.grid_matrix
    if gm is None:
        same(P, np.eye(3, dtype=int), "identity P for a diagonal grid matrix")
        same(Q, np.eye(3, dtype=int), "identity Q for a diagonal grid matrix")
        if A is not None:
            same(np.diag(D), abs(A), "diagonal grid matrix is used as it is")
            need((np.diag(np.diag(A)) == A).all(), "normal form is computed unless the matrix is diagonal", A.tolist())
        return
    if A is not None:
        same(gm, A, "grid matrix is the given one")
    same(P @ gm @ Q, np.diag(D), "D = P A Q", gm.tolist())
    need(idet(P) == 1, "determinant of P is +1", P.tolist())
    need(int(np.prod(D)) == abs(idet(gm)), "number of grid points is |det A|", D)
    if isinstance(mesh, float):
        # grid matrix keeps the point group: its rows span a lattice of supercells
        for r in ds.rotations:
            t = np.linalg.inv(gm.astype(float)) @ r.T @ gm if False else np.linalg.inv(gm.astype(float).T) @ r @ gm.T
            t2 = gm @ r.T @ np.linalg.inv(gm.astype(float))
            need(abs(t2 - np.rint(t2)).max() < 1e-5 or abs(t - np.rint(t)).max() < 1e-5, "generalized grid keeps the point group", r.tolist())


def grid_geometry(rng, desc):
    """q = Q D^-1 a; microzone; a grid of the class carries det(P)=1"""
    r = make_grid(rng, desc)
    if r is None:
        return
    g, c, kw = r
    close(g.QDinv, g.Q @ np.diag(1.0 / g.D_diag), "QDinv = Q D^-1")
    rec = np.linalg.inv(c.cell)
    close(g.microzone_lattice, rec @ g.Q @ np.diag(1.0 / g.D_diag) @ g.P, "microzone lattice")
    if g.grid_matrix is not None:
        same(g.P @ g.grid_matrix @ g.Q, np.diag(g.D_diag), "D = P A Q")
        close(g.microzone_lattice, rec @ np.linalg.inv(g.grid_matrix), "microzone from the grid matrix")
    need((g.D_diag > 0).all(), "mesh numbers are positive", g.D_diag)


def rotations(rng, desc):
    r = make_grid(rng, desc)
    if r is None:
        return
    g, c, kw = r
    dr = kw["symmetry_dataset"].rotations if "symmetry_dataset" in kw else [np.eye(3, dtype=int)]
    want = {tuple(x.T.ravel()) for x in dr}
    if kw["is_time_reversal"]:
        want |= {tuple((-np.array(w)).tolist()) for w in want}
    got = [tuple(x.ravel()) for x in g.reciprocal_operations]
    need(len(got) == len(set(got)), "reciprocal rotations are not repeated", len(got))
    need(set(got) == want, "reciprocal rotations are the transposed rotations and their negatives", (len(got), len(want)))
    B = g.QDinv
    for R, Rg, Rc in zip(g.reciprocal_operations, g.rotations, g.rotations_cartesian):
        close(B @ Rg, R @ B, "rotation of addresses acts as the rotation of q-points", tol=1e-7)
        rec = np.linalg.inv(c.cell)
        close(Rc @ rec, rec @ R, "Cartesian rotation acts as the rotation of q-points", tol=1e-7)
    need(len(g.rotations) == len(g.reciprocal_operations), "one grid rotation per reciprocal rotation")


def ir(rng, desc):
    r = make_grid(rng, desc)
    if r is None:
        return
    g, c, kw = r
    D = g.D_diag
    N = int(np.prod(D))
    ad = G._get_grid_address(D)
    PS = np.array(g.PS)
    a2 = 2 * ad + PS
    orb = np.full((len(g.rotations), N), -1)
    for k, R in enumerate(g.rotations):
        b = a2 @ R.T - PS
        need((b % 2 == 0).all(), "rotations keep the (shifted) grid", R.tolist())
        orb[k] = mixed(b // 2, D)
    want = orb.min(axis=0)
    ip, iw, im = G.get_ir_grid_points(g)
    same(im, want, "each point maps to the smallest index of its orbit")
    same(ip, np.unique(want), "irreducible points")
    same(iw, np.bincount(want, minlength=N)[np.unique(want)], "weights are the orbit sizes")


def zone(rng, desc):
    r = make_grid(rng, desc)
    if r is None:
        return
    g, c, kw = r
    D = g.D_diag
    N = int(np.prod(D))
    PS = np.array(g.PS)
    rec = np.linalg.inv(c.cell)
    A = g.addresses
    ad = G._get_grid_address(D)
    same(g.bzg2grg, mixed(A, D), "zone points map to the regular point they are equivalent to")
    same(mixed(A[g.grg2bzg], D), np.arange(N), "regular points map to an equivalent zone point")
    need(mixed(A[g.gp_Gamma], D) == 0, "Gamma index", g.gp_Gamma)
    need(len({tuple(x) for x in A}) == len(A), "no zone point is stored twice")
    # reduced search: shortest equivalent points (the neighbourhood of the reduced basis)
    from phonopy.structure.cells import get_reduced_bases
    red = get_reduced_bases(rec.T.copy())
    Tm = np.rint(np.linalg.inv(red.T) @ rec).astype(int)

    def length(a2):
        return ((rec @ g.QDinv @ (np.atleast_2d(a2).T / 2.0)) ** 2).sum(axis=0)
    L = length(2 * A + PS)
    # tolerance used: 1 % of the longest... of the zone grid spacing
    tol = 0.01 * max(np.sum((red.T / D.astype(float)) ** 2, axis=0))
    if not (g.Q == np.eye(3, dtype=int)).all() or not (g.P == np.eye(3, dtype=int)).all():
        tol = max(tol, 0.01 * max(np.sum((red.T @ Tm @ g.QDinv) ** 2, axis=0)))
    Qinv = np.rint(np.linalg.inv(g.Q)).astype(int)
    Tinv = np.rint(np.linalg.inv(Tm)).astype(int)
    for i in range(N):
        # equivalent addresses: a + D Q^-1 G (G reciprocal lattice vector), all near the origin
        mine = A[g.bzg2grg == i]
        lm = L[g.bzg2grg == i]
        q = g.QDinv @ ((2 * ad[i] + PS) / 2.0)
        qr = Tm @ q
        base = -np.rint(qr).astype(int)
        Gs = (base + OFF) @ Tinv.T
        eq = ad[i] + (Gs @ Qinv.T) * D
        le = length(2 * eq + PS)
        m = le.min()
        need(len(mine) > 0, "every regular point has a zone point", i)
        need((lm <= m + 2 * tol + 1e-9).all(), "stored zone points are the shortest equivalent points", (i, lm.tolist(), m))
        have = {tuple(x) for x in mine}
        near = {tuple(x) for x, l in zip(eq, le) if l <= m + 1e-7 * max(m, 1)}
        need(near <= have, "all equally short equivalent points are stored", (i, near - have))
    # layout of the map
    if g.store_dense_gp_map:
        same(g.gp_map[0], 0, "map starts at 0")
        same(g.gp_map[-1], len(A), "map ends at the number of zone points")
        for i in range(N):
            same(g.bzg2grg[g.gp_map[i]:g.gp_map[i + 1]], np.full(g.gp_map[i + 1] - g.gp_map[i], i), "zone points of a regular point are contiguous")
    else:
        same(g.bzg2grg[:N], np.arange(N), "the first N zone points are the regular points in order")
    # rotation with surface treatment
    for gp in rng.integers(len(A), size=min(8, len(A))):
        want = A[gp] @ np.transpose(g.rotations, (0, 2, 1)) if False else np.array([R @ A[gp] for R in g.rotations])
        if (PS == 0).all():
            got = G.get_grid_points_by_rotations(gp, g, with_surface=True)
            same(A[got], want, "rotated zone point has exactly the rotated address", int(gp))
            got = G.get_grid_points_by_rotations(gp, g)
            same(mixed(A[got], D), mixed(want, D), "rotated point is equivalent to the rotated address", int(gp))
            same(got, g.grg2bzg[mixed(want, D)], "rotated points without surface are the representatives", int(gp))
            sub = g.rotations[rng.permutation(len(g.rotations))[:3]]
            got = G.get_grid_points_by_rotations(gp, g, reciprocal_rotations=sub, with_surface=True)
            same(A[got], np.array([R @ A[gp] for R in sub]), "given rotations are used", int(gp))


def _gnorm(g, rec, ads):
    Gv = g.QDinv @ np.sum(ads, axis=0)
    return np.linalg.norm(rec @ Gv)


def triplets(rng, desc):
    r = make_grid(rng, desc, shift=False)
    if r is None:
        return
    g, c, kw = r
    D, A = g.D_diag, g.addresses
    N = int(np.prod(D))
    rec = np.linalg.inv(c.cell)
    gp = int(rng.integers(len(A)))
    swap, msym = bool(rng.integers(4)), bool(rng.integers(4))
    itr = kw["is_time_reversal"] and bool(rng.integers(2))
    desc.update(gp=gp, swap=swap, mesh_sym=msym, itr=itr)
    t, w, mt, mq = TR.get_triplets_at_q(gp, g, is_time_reversal=itr, swappable=swap, reciprocal_rotations=None if msym else np.eye(3, dtype="int64").reshape(1, 3, 3))
    rots = g.rotations if msym else np.eye(3, dtype=int).reshape(1, 3, 3)
    if itr:
        rots = np.unique(np.concatenate([rots, -rots]), axis=0)
    check_triplets(g, rec, rots, gp, swap, t, w, mt, mq)


def check_triplets(g, rec, rots, gp, swap, t, w, mt, mq):
    D, A = g.D_diag, g.addresses
    N = int(np.prod(D))
    ad = G._get_grid_address(D)
    same(g.bzg2grg[t[:, 0]], np.full(len(t), g.bzg2grg[gp]), "triplets start with the fixed point or an image of it")
    s = A[t].sum(axis=1)
    same(mixed(s, D), np.zeros(len(t), int), "the three addresses sum to zero modulo the mesh")
    need(int(w.sum()) == N, "weights sum to the number of grid points", (w.sum(), N))
    # stabilizer of the first point on the mesh
    st = [R for R in rots if (mixed(R @ A[gp] - A[gp], D) == 0)]
    third = mixed(-A[gp] - ad, D)
    classes = np.arange(N)
    orb = np.array([mixed(ad @ R.T, D) for R in st])
    lab = orb.min(axis=0)
    if swap:
        both = np.minimum(lab, lab[third])
        lab = both
    # every mesh point belongs to exactly one triplet
    same(lab[mt] == lab, np.ones(N, bool), "mesh points share a triplet only if related by the little group or exchange")
    reps = np.unique(mt)
    need(len(reps) == len(t), "one triplet per representative", (len(reps), len(t)))
    if len(reps) != len(np.unique(lab)):
        raise Fail("related mesh points share a triplet", f"{len(reps)} triplets, {len(np.unique(lab))} classes")
    same(w, np.bincount(mt, minlength=N)[reps], "weights are the numbers of mesh points mapped to each triplet")
    g1 = mixed(A[t[:, 1]], D)
    g2 = mixed(A[t[:, 2]], D)
    need(all(r in (x, y) for r, x, y in zip(reps, g1, g2)) or len(set(lab[g1])) == len(t), "each triplet contains its representative")
    for k, r in enumerate(reps):
        need(lab[g1[k]] == lab[r], "the second point of a triplet is related to its representative", k)
    # shortest |G|
    tol = bz_tolerance([int(x) for x in D], g.Q, rec)
    M = rec @ g.QDinv
    M3 = np.outer(rec[:, 2], g.QDinv[2])
    known = None
    for k in range(len(t)):
        img = [np.nonzero(g.bzg2grg == x)[0] for x in (g.bzg2grg[gp], g1[k], g2[k])]
        c = [(x, y, z) for x in img[0] for y in img[1] for z in img[2]]
        Gs = np.array([A[x] + A[y] + A[z] for x, y, z in c])
        d = ((Gs @ M.T) ** 2).sum(axis=1)
        mine = ((M @ A[t[k]].sum(axis=0)) ** 2).sum()
        if mine > d.min() + 1.001 * tol + 1e-12:
            best, pick = -1.0, None
            for x, y in zip(c, ((Gs @ M3.T) ** 2).sum(axis=1)):
                if y < best - tol or best < 0:
                    best, pick = y, x
            if (d > 0).all() and tuple(t[k]) == tuple(pick):
                known = (k, mine, d.min())
            else:
                raise Fail("the choice with the smallest |G| is taken", f"triplet {k}: |G|^2 = {mine}, smallest is {d.min()}")
    if known:
        raise Fail("no zero-sum choice exists: the triplet minimises only the part of G along the third reciprocal axis", str(known))
    need(((0 <= mq) & (mq < N)).all(), "q map", mq)


def all_triplets(rng, desc):
    r = make_grid(rng, desc, shift=False)
    if r is None:
        return
    g, c, kw = r
    D, A = g.D_diag, g.addresses
    N = int(np.prod(D))
    if N > 30:
        return
    gp = int(g.grg2bzg[int(rng.integers(N))])
    desc["gp"] = gp
    t = TR.get_all_triplets(gp, g)
    same(g.bzg2grg[t[:, 0]], np.full(len(t), g.bzg2grg[gp]), "triplets start with the fixed point or an image of it")
    need(len(t) == N, "all triplets are listed", len(t))
    same(mixed(A[t].sum(axis=1), D), np.zeros(N, int), "the three addresses sum to zero modulo the mesh")
    same(np.sort(mixed(A[t[:, 1]], D)), np.arange(N), "every mesh point is listed once")


def nosym(rng, desc):
    r = make_grid(rng, desc, shift=False)
    if r is None:
        return
    g, c, kw = r
    gp = int(rng.integers(len(g.addresses)))
    swap = bool(rng.integers(2))
    desc.update(gp=gp, swap=swap)
    t, w, mt, mq = TR.get_nosym_triplets_at_q(gp, g)
    check_triplets(g, np.linalg.inv(c.cell), np.eye(3, dtype=int).reshape(1, 3, 3), gp, False, t, w, mt, mq)


B = "17 crystal families, regular, length, generalized and matrix meshes with up to about 100 points"
CHECKS = [
    ("zone grid addresses and indices", indices, 60, ("C01",), B),
    ("grid matrices", snf, 120, ("C02",), "integer matrices with entries up to 30"),
    ("grid geometry", grid_geometry, 60, ("C02", "C04"), B),
    ("grid rotations", rotations, 80, ("C18",), B),
    ("irreducible points", ir, 80, ("C03",), B),
    ("zone grid", zone, 60, ("C04",), B),
    ("triplets", triplets, 80, ("C05",), B),
    ("all triplets", all_triplets, 20, ("C05",), B),
    ("triplets without symmetry", nosym, 20, ("C05",), B),
]
TOLERATED = {"triplets": "no zero-sum choice exists", "triplets without symmetry": "no zero-sum choice exists"}
