"""Runtime contracts on displacement datasets and files: forces stay with the displacement they were
computed for (C21), files give back what was written (C22)."""
import contextlib
import copy
import io
import os
import shutil
import tempfile

import numpy as np
from _common import Fail, close, need, same
import api_phph as A
from phono3py import Phono3py, load
from phono3py import file_IO as F
from phono3py.phonon3.dataset import forces_in_dataset, get_displacements_and_forces_fc3

PROPS = ("C21", "C22")
OPEN = contextlib.redirect_stdout


@contextlib.contextmanager
def room():
    """an empty directory that is removed again"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="r", dir=os.environ.get("VERIF_SCRATCH") or None)
    os.chdir(d)
    try:
        with OPEN(io.StringIO()):
            yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def make(rng, desc):
    k, uc, sm, pm, mesh = A.crystal(rng)
    ph = Phono3py(uc, supercell_matrix=sm, primitive_matrix=pm, log_level=0)
    cut = [None, float(np.round(rng.uniform(1.5, 6), 3))][int(rng.integers(2))]
    kw = {"distance": float(rng.choice([.01, .03, .05])), "cutoff_pair_distance": cut, "is_plusminus": ["auto", True, False][int(rng.integers(3))],
          "is_diagonal": bool(rng.integers(2))}
    desc.update(crystal=k, a=round(float(uc.cell[0][0]), 3), **kw)
    ph.generate_displacements(**kw)
    return ph, kw


def own(ph, ds):
    """displacements of all atoms of each supercell, from the pairs of the dataset; excluded pairs"""
    n = len(ph.supercell)
    out, inc, key = [], [], []
    for d in ds["first_atoms"]:
        u = np.zeros((n, 3))
        u[d["number"]] = d["displacement"]
        out.append(u)
        inc.append(True)
        key.append((d["number"], tuple(np.round(d["displacement"], 10))))
    for d in ds["first_atoms"]:
        for e in d["second_atoms"]:
            u = np.zeros((n, 3))
            u[d["number"]] += d["displacement"]
            u[e["number"]] += e["displacement"]
            out.append(u)
            inc.append(bool(e.get("included", True)))
            key.append((d["number"], tuple(np.round(d["displacement"], 10)), e["number"], tuple(np.round(e["displacement"], 10))))
    return np.array(out), inc, key


def nearest(ph, i, j):
    s = ph.supercell.scaled_positions
    d = s[j] - s[i]
    best = 1e9
    for c in np.ndindex(5, 5, 5):
        best = min(best, np.linalg.norm((d - np.rint(d) + np.array(c) - 2) @ ph.supercell.cell))
    return best


def check_dataset(ph, ds, U, Fo, what):
    """forces Fo[i] belong to displacements U[i]"""
    u, inc, key = own(ph, ds)
    V, G = get_displacements_and_forces_fc3(ds)
    W = U.copy()  # listed finding: of a pair on one atom only the second displacement is recorded
    for i, k in enumerate(key):
        if len(k) == 4 and k[0] == k[2]:
            W[i, k[0]] = k[3]
    bad = [i for i in np.flatnonzero(np.array(inc) & (abs(W - U).max(axis=(1, 2)) > 1e-7))]
    at = np.flatnonzero(inc)
    bad = [i for i in bad if np.abs(V[np.searchsorted(at, i)] - W[i]).max() < 1e-8] if len(V) == len(at) else []
    W[[i for i in range(len(U)) if i not in bad]] = U[[i for i in range(len(U)) if i not in bad]]
    close(V, W[inc], what + ": displacements of the included supercells", 1e-8, 1)
    close(G, Fo[inc], what + ": forces of the included supercells, in their order", 1e-8, 1)
    i = 0
    for d in ds["first_atoms"]:
        close(d["forces"], Fo[i], what + ": forces of a displacement", 1e-8, 1)
        i += 1
    for d in ds["first_atoms"]:
        for e in d["second_atoms"]:
            if inc[i]:
                close(e["forces"], Fo[i], what + ": forces of a pair of displacements", 1e-8, 1)
            i += 1
    return bad


def association(rng, desc):
    ph, kw = make(rng, desc)
    ds = ph.dataset
    U, inc, key = own(ph, ds)
    n = len(ph.supercell)
    # the pairs
    for d in ds["first_atoms"]:
        need(abs(np.linalg.norm(d["displacement"]) - kw["distance"]) < 1e-9, "displacements have the requested length", d["displacement"])
        for e in d["second_atoms"]:
            r = nearest(ph, d["number"], e["number"])
            need(abs(r - e["pair_distance"]) < 1e-5, "pair distance is that of the nearest images", (r, e["pair_distance"]))
            if kw["cutoff_pair_distance"] is not None and abs(r - kw["cutoff_pair_distance"]) > 1e-5:
                need(e["included"] == (r < kw["cutoff_pair_distance"]), "pairs are excluded exactly beyond the cutoff distance", (r, e["included"]))
            need(kw["cutoff_pair_distance"] is not None or e.get("included", True), "nothing is excluded without a cutoff", e)
    need(not forces_in_dataset(ds), "a new dataset has no forces", "")
    sc = ph.supercells_with_displacements
    need(len(sc) == len(U), "one supercell per displacement or pair", len(sc))
    for i, s in enumerate(sc):
        need((s is None) == (not inc[i]), "supercells of excluded pairs are left out", i)
        if s is not None:
            d = s.scaled_positions - ph.supercell.scaled_positions
            close((d - np.rint(d)) @ ph.supercell.cell, U[i], "supercell has the displacements of its pair", 1e-9, 1, where=f"supercell {i}")
            same(s.numbers, ph.supercell.numbers, "species of the displaced supercell")
    x = ph.displacements
    close(x[inc], U[inc], "displacements of each supercell", 1e-9, 1)
    # duplicates are equal supercells
    listed = []
    for a, b in ds.get("duplicates", []):
        k = key[a - 1]
        if b == 0 and k[0] == k[2] and np.abs(U[a - 1]).max() > 1e-6 and any(
                len(q) == 4 and q[0] == q[2] == k[0] and np.allclose(q[1], -np.array(k[3])) and np.allclose(q[3], -np.array(k[1])) for q in key):
            listed.append(("a pair of displacements on one atom is called the perfect supercell because the pair exchanged and reversed exists", f"{a} {k}"))
            continue
        close(U[a - 1], U[b - 1] if b > 0 else np.zeros((n, 3)), "duplicated supercells have the same displacements", 1e-6, 1)
    Fo = np.round(rng.normal(size=(len(U), n, 3)), 8)
    Fo[~np.array(inc)] = 0
    E = np.round(rng.normal(size=len(U)), 6)
    ph.forces = Fo
    ph.supercell_energies = E
    need(forces_in_dataset(ph.dataset), "a dataset with forces says so", "")
    close(ph.forces, Fo, "forces come back in the order of the supercells", 1e-12, 1)
    close(ph.supercell_energies, E, "energies come back in the order of the supercells", 1e-12, 1)
    if check_dataset(ph, ph.dataset, U, Fo, "assigned forces"):
        listed.append(("of two displacements of one atom only the second is in the displacements given to a fit", ""))
    bare = copy.deepcopy(ds)
    for d in bare["first_atoms"]:
        d.pop("forces", None)
        for e in d["second_atoms"]:
            e.pop("forces", None)
    with room():
        if rng.integers(2):
            F.write_FORCES_FC3(ph.dataset, filename="X")
        else:
            F.write_FORCES_FC3(bare, forces_fc3=Fo[inc], filename="X")
        F.parse_FORCES_FC3(bare, filename="X", use_loadtxt=bool(rng.integers(2)))
        check_dataset(ph, bare, U, Fo, "FORCES_FC3")
        ph.save("p.yaml", settings={"force_sets": True})
        back = load("p.yaml", log_level=0, produce_fc=False)
        u2, inc2, key2 = own(ph, back.dataset)
        close(u2, U, "parameter file: displacements in their order", 1e-8, 1)
        same(inc2, inc, "parameter file: excluded pairs")
        check_dataset(ph, back.dataset, U, Fo, "parameter file")
        ph.save("d.yaml", settings={"force_sets": False})
        d2 = load("d.yaml", log_level=0, produce_fc=False).dataset
        u2, inc2, key2 = own(ph, d2)
        close(u2, U, "displacement file: displacements in their order", 1e-8, 1)
        same(inc2, inc, "displacement file: excluded pairs")
    if listed:
        raise Fail(*listed[int(rng.integers(len(listed)))])


def free(rng, desc):
    """supercells with all atoms displaced"""
    k, uc, sm, pm, mesh = A.crystal(rng)
    ph = Phono3py(uc, supercell_matrix=sm, primitive_matrix=pm, log_level=0)
    m, n = int(rng.integers(1, 5)), len(ph.supercell)
    desc.update(crystal=k, a=round(float(uc.cell[0][0]), 3), m=m)
    U = np.round(rng.normal(size=(m, n, 3)) * .03, 8)
    Fo = np.round(rng.normal(size=(m, n, 3)), 8)
    ph.dataset = {"displacements": U, "forces": Fo} if rng.integers(2) else {"displacements": U}
    for i, s in enumerate(ph.supercells_with_displacements):
        d = s.scaled_positions - ph.supercell.scaled_positions
        close((d - np.rint(d)) @ ph.supercell.cell, U[i], "supercell has its displacements", 1e-9, 1)
    ph.forces = Fo
    V, G = get_displacements_and_forces_fc3(ph.dataset)
    close(V, U, "displacements", 1e-12, 1)
    close(G, Fo, "forces", 1e-12, 1)
    with room():
        ph.save("p.yaml", settings={"force_sets": True})
        b = load("p.yaml", log_level=0, produce_fc=False)
        close(b.displacements, U, "parameter file: displacements", 1e-8, 1)
        close(b.forces, Fo, "parameter file: forces", 1e-8, 1)
        F.write_FORCES_FC3(ph.dataset, filename="X")
        need(os.path.exists("X"), "forces are written into the named file", os.listdir("."))


# ------------------------------------------------------------------ C22
def eq(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, what + ": shape", (a.shape, b.shape))
    need(np.array_equal(a, b), what + ": values", "")


def constants(rng, desc):
    """force constants, full and compact, and the parameter file"""
    ph, fc2, fc3 = A.setup(rng, desc)
    p2s = ph.primitive.p2s_map
    comp = "gzip" if rng.integers(2) else None
    with room():
        m = p2s if rng.integers(2) else None
        F.write_fc3_to_hdf5(ph.fc3, filename="c3", p2s_map=m, compression=comp)
        eq(F.read_fc3_from_hdf5("c3", p2s_map=p2s), ph.fc3, "third-order force constants")
        F.write_fc2_to_hdf5(ph.fc2, filename="c2", p2s_map=m, compression=comp, physical_unit="eV/angstrom^2")
        eq(F.read_fc2_from_hdf5("c2", p2s_map=p2s), ph.fc2, "second-order force constants")
        if m is not None and len(ph.supercell) > len(p2s):
            other = np.array(p2s)
            other[-1] = (other[-1] + 1) % len(ph.supercell)
            if ph.fc3.shape[0] == len(p2s):
                try:
                    F.read_fc3_from_hdf5("c3", p2s_map=other)
                except Exception:
                    pass
                else:
                    raise Fail("compact force constants of another primitive cell are refused", repr(other.tolist()))
        ph.nac_params = A.born(rng, ph, desc) if rng.integers(2) else None
        ph.save("p.yaml", settings={"force_constants": bool(rng.integers(2))})
        F.write_fc3_to_hdf5(ph.fc3, p2s_map=p2s)
        F.write_fc2_to_hdf5(ph.fc2, p2s_map=p2s)
        b = load("p.yaml", log_level=0, is_compact_fc=ph.fc3.shape[0] == len(p2s))
        close(b.supercell.cell, ph.supercell.cell, "supercell lattice", 1e-10, 1)
        close(b.supercell.scaled_positions, ph.supercell.scaled_positions, "supercell positions", 1e-10, 1)
        same(b.primitive.p2s_map, p2s, "primitive atoms in the supercell")
        same(b.primitive.s2p_map, ph.primitive.s2p_map, "supercell atoms in the primitive cell")
        close(b.primitive.masses, ph.primitive.masses, "masses", 1e-6, 1)
        close(b.fc3, ph.fc3, "third-order force constants through the default files", 1e-12, 1)
        close(b.fc2, ph.fc2, "second-order force constants through the default files", 1e-12, 1)
        need((b.nac_params is None) == (ph.nac_params is None), "non-analytical correction", "")
        if ph.nac_params:
            close(b.nac_params["born"], ph.nac_params["born"], "Born charges", 1e-8, 1)
            close(b.nac_params["dielectric"], ph.nac_params["dielectric"], "dielectric constants", 1e-8, 1)
    ph.nac_params = None


def results(rng, desc):
    """the files of a conductivity calculation"""
    S = lambda *s: rng.normal(size=s)  # noqa: E731
    m = [int(x) for x in rng.integers(1, 13, 3)]
    gp = None if rng.integers(2) else int(rng.integers(0, 2000))
    band = None if gp is None or rng.integers(2) else int(rng.integers(0, 12))
    sg = None if rng.integers(2) else float(rng.choice([.1, .05, .25, 1., 10., 20., .015]))
    cut = None if sg is None or rng.integers(2) else float(rng.choice([2., 3.5, 10.]))
    fn = None if rng.integers(2) else "tag"
    where = dict(grid_point=gp, band_index=band, sigma=sg, sigma_cutoff=cut, filename=fn)
    desc.update(mesh=m, **where)
    T = np.arange(int(rng.integers(1, 4))) * 100.
    nb, ng, nt = int(rng.integers(1, 4)) * 3, int(rng.integers(1, 5)), int(rng.integers(1, 5))
    with room():
        g, gi, gn, gu, pp = S(len(T), ng, nb), S(ng, nb), S(len(T), ng, nb), S(len(T), ng, nb), S(ng, nb)
        opt = {k: v for k, v in (("gamma_isotope", gi), ("gamma_N", gn), ("gamma_U", gu), ("averaged_pp_interaction", pp)) if rng.integers(2)}
        kap = S(len(T), 6)
        name = F.write_kappa_to_hdf5(T, m, gamma=g, kappa=kap, verbose=False, **opt, **where)
        # a file of another request must not be mistaken for it
        w2 = dict(where)
        w2["grid_point"] = 7 if gp is None else gp + 1
        F.write_kappa_to_hdf5(T, m, gamma=g * 2, verbose=False, **w2)
        if sg is not None:
            w2 = dict(where, sigma=sg * 10)
            F.write_kappa_to_hdf5(T, m, gamma=g * 3, verbose=False, **w2)
            w2 = dict(where, sigma=None, sigma_cutoff=None)
            F.write_kappa_to_hdf5(T, m, gamma=g * 4, verbose=False, **w2)
        d, name2 = F.read_gamma_from_hdf5(m, **where)
        need(name == name2, "conductivity file is found under the name it was written to", (name, name2))
        eq(d["gamma"], g, "linewidths of the conductivity file")
        for k, v in opt.items():
            eq(d["ave_pp" if k == "averaged_pp_interaction" else k], v, k + " of the conductivity file")
        need(set(d) == {"gamma"} | {"ave_pp" if k == "averaged_pp_interaction" else k for k in opt}, "nothing else is read", list(d))
        import h5py
        with h5py.File(name) as f:
            eq(f["kappa"][:], kap, "conductivity")
            eq(f["temperature"][:], T, "temperatures")
        pw = {k: v for k, v in where.items() if k != "band_index"}
        V = S(nt, nb, nb, nb)
        Z = np.array(rng.random(V.shape) < .4, dtype="byte")
        if rng.integers(2):
            F.write_pp_to_hdf5(m, pp=V, g_zero=Z, verbose=False, **pw)
            v, z = F.read_pp_from_hdf5(m, verbose=False, **pw)
            eq(z, Z, "flags of skipped interaction strengths")
            eq(v, np.where(Z == 0, V, 0), "interaction strengths that are not skipped")
        else:
            F.write_pp_to_hdf5(m, pp=V, verbose=False, **pw)
            v, z = F.read_pp_from_hdf5(m, verbose=False, **pw)
            need(z is None, "no flags without flags", z)
            eq(v, V, "interaction strengths")
        C = S(len(T), ng, nb, 3, ng, nb, 3)
        F.write_collision_to_hdf5(T, m, gamma=g, gamma_isotope=gi, collision_matrix=C, **where)
        c, g2, t = F.read_collision_from_hdf5(m, indices="all", verbose=False, **where)
        eq(c[0], C, "collision matrix")
        eq(g2, g, "linewidths of the collision file")
        eq(t, T, "temperatures of the collision file")
        k = [int(x) for x in np.sort(rng.permutation(len(T))[:max(1, len(T) - 1)])]
        c, g2, t = F.read_collision_from_hdf5(m, indices=k, verbose=False, **where)
        eq(c[0], C[k], "collision matrix of chosen temperatures")
        eq(g2, g[k], "linewidths of chosen temperatures")
        eq(t, T[k], "chosen temperatures")
        fr, ev, ad = S(ng, nb), S(ng, nb, nb) + 1j * S(ng, nb, nb), rng.integers(-5, 6, (ng, 3))
        F.write_phonon_to_hdf5(fr, ev, ad, m, filename=fn)
        a, b, c = F.read_phonon_from_hdf5(m, filename=fn, verbose=False)
        eq(a, fr, "frequencies")
        eq(b, ev, "eigenvectors")
        eq(c, ad, "grid addresses")


def reuse(rng, desc):
    """a conductivity calculation continued from its own files"""
    ph, fc2, fc3 = A.setup(rng, desc, is_mesh_symmetry=True)
    ph.sigmas = [[None], [.5], [None, .3]][int(rng.integers(3))]
    kw = {"temperatures": [100., 300.]}
    if rng.integers(2):
        kw.update(is_isotope=True, mass_variances=rng.uniform(0, 1e-2, len(ph.primitive)).tolist())
    way = ["gamma", "gp", "pp"][int(rng.integers(3))]
    if way == "pp":  # stored strengths are documented for a single width
        ph.sigmas = ph.sigmas[-1:]
    desc.update(sigmas=repr(ph.sigmas), kw=repr(kw), way=way)
    with room():
        ph.init_phph_interaction()
        if way == "pp":
            ph.run_thermal_conductivity(write_pp=True, write_kappa=True, **kw)
        elif way == "gp":
            ph.run_thermal_conductivity(write_gamma=True, **kw)
        else:
            ph.run_thermal_conductivity(write_kappa=True, **kw)
        a = ph.thermal_conductivity
        ph.init_phph_interaction()
        if way == "pp":
            ph.run_thermal_conductivity(read_pp=True, **kw)
        else:
            ph.run_thermal_conductivity(read_gamma=True, **kw)
        b = ph.thermal_conductivity
        sc = max(abs(a.gamma).max(), 1e-12)
        close(b.gamma, a.gamma, "linewidths continued from files", 1e-7, sc)
        close(b.kappa, a.kappa, "conductivity continued from files", 1e-7, max(abs(a.kappa).max(), 1e-12))
    ph.sigmas = None


B = "ten crystal types, generated displacements, cutoffs and file contents"
CHECKS = [
    ("displacements and forces", association, 30, ("C21",), B),
    ("free displacements", free, 12, ("C21", "C22"), B),
    ("force constants files", constants, 24, ("C22",), B),
    ("result files", results, 40, ("C22",), B),
    ("calculation continued from files", reuse, 10, ("C22",), B),
]

TOLERATED = {"displacements and forces": ("a pair of displacements on one atom", "of two displacements of one atom")}
