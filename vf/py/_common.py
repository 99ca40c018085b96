"""Generators shared by the runtime contracts on the Python API."""
import itertools
import os

import numpy as np
import pyrun
from pyrun import Fail, close, need, same  # noqa: F401
from phonopy.structure.atoms import PhonopyAtoms
from phonopy.structure.symmetry import Symmetry


def cell(lat, sym, pos):
    return PhonopyAtoms(cell=np.array(lat, float), symbols=sym, scaled_positions=np.array(pos, float))


FCC = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
BCC = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])
BASE = np.array([[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]])


def hexl(a, c):
    return [[a, 0, 0], [-a / 2, a * 3 ** .5 / 2, 0], [0, 0, c]]


def primitive(rng, which=None):
    """primitive cell of a random crystal family"""
    kinds = ["sc", "bcc", "fcc", "nacl", "diamond", "cscl", "hcp", "hex1", "wurtzite", "tet", "bct", "ortho", "base", "mono", "tri", "tri2", "rhomb"]
    k = which or kinds[int(rng.integers(len(kinds)))]
    a, b, c = np.sort(rng.uniform(3.0, 6.0, 3)) + [0, .1, .2]
    if k == "sc":
        return k, cell(np.eye(3) * a, ["Po"], [[0, 0, 0]])
    if k == "bcc":
        return k, cell(BCC * a, ["Fe"], [[0, 0, 0]])
    if k == "fcc":
        return k, cell(FCC * a, ["Al"], [[0, 0, 0]])
    if k == "nacl":
        return k, cell(FCC * a, ["Na", "Cl"], [[0, 0, 0], [.5, .5, .5]])
    if k == "diamond":
        return k, cell(FCC * a, ["Si", "Si"], [[.125] * 3, [.875] * 3])
    if k == "cscl":
        return k, cell(np.eye(3) * a, ["Cs", "Cl"], [[0, 0, 0], [.5, .5, .5]])
    if k == "hcp":
        return k, cell(hexl(a, 1.6 * a), ["Mg", "Mg"], [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]])
    if k == "hex1":
        return k, cell(hexl(a, c * 1.3), ["Zn"], [[0, 0, 0]])
    if k == "wurtzite":
        return k, cell(hexl(a, 1.62 * a), ["Al", "Al", "N", "N"],
                       [[1 / 3, 2 / 3, .001], [2 / 3, 1 / 3, .501], [1 / 3, 2 / 3, .382], [2 / 3, 1 / 3, .882]])
    if k == "tet":
        return k, cell(np.diag([a, a, c]), ["Ti", "O"], [[0, 0, 0], [.5, .5, .41]])
    if k == "bct":
        return k, cell(BCC @ np.diag([a, a, 1.4 * c]), ["Sn"], [[0, 0, 0]])
    if k == "ortho":
        return k, cell(np.diag([a, b, c]), ["Sb", "S"], [[0, 0, 0], [.5, .5, .3]])
    if k == "base":
        return k, cell(BASE @ np.diag([a, 1.3 * b, c]), ["Ga"], [[0, 0, 0]])
    if k == "mono":
        return k, cell([[a, 0, 0], [0, b, 0], [-.3 * c, 0, c]], ["Zr"], [[0, 0, 0]])
    if k == "tri":
        return k, cell([[a, 0, 0], [.2 * b, b, 0], [.3 * c, -.25 * c, c]], ["Bi"], [[0, 0, 0]])
    if k == "tri2":
        return k, cell([[a, 0, 0], [.2 * b, b, 0], [.3 * c, -.25 * c, c]], ["Ca", "B"], [[0, 0, 0], [.31, .27, .42]])
    al = np.deg2rad(rng.uniform(50, 75))
    x = a * np.sqrt((1 + 2 * np.cos(al)) / 3)
    y = a * np.sqrt((2 - 2 * np.cos(al)) / 3)
    th = np.array([0, 2 * np.pi / 3, 4 * np.pi / 3])
    return k, cell(np.array([y * np.cos(th), y * np.sin(th), [x] * 3]).T, ["As"], [[0, 0, 0]])


def dataset(c):
    return Symmetry(c).dataset


def mixed(ad, D):
    """index of an address: the first axis runs fastest"""
    m = np.mod(ad, D)
    return m[..., 0] + D[0] * (m[..., 1] + D[1] * m[..., 2])


SCRATCH = os.environ.get("VERIF_SCRATCH", ".")
