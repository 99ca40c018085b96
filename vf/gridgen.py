"""Random meshes, lattices and finite rotation groups (inputs of the bounded grid checks),
and plain reference definitions used as postconditions there."""
import itertools
from fractions import Fraction

import numpy as np

I3 = np.eye(3, dtype=int)


def closure(gens, limit=48):
    els = {tuple(I3.ravel())}
    todo = [I3]
    while todo:
        a = todo.pop()
        for g in gens:
            b = a @ g
            k = tuple(int(x) for x in b.ravel())
            if k not in els:
                els.add(k)
                if len(els) > limit:
                    return None
                todo.append(b)
    return [np.array(k).reshape(3, 3) for k in sorted(els, reverse=True)]


def _signed_perms():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3), int)
            for i in range(3):
                m[i, p[i]] = s[i]
            out.append(m)
    return out


SP = _signed_perms()
C6 = np.array([[1, -1, 0], [1, 0, 0], [0, 0, 1]])
MH = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]])
C2H = np.array([[-1, 1, 0], [0, 1, 0], [0, 0, -1]])
HEX = [C6, C6 @ C6, C6 @ C6 @ C6, MH, C2H, -I3, np.diag([1, 1, -1])]
# primitive fcc / bcc settings of the cubic group
FCC = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])
BCC = np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]])


def _conj(ms, b):
    bi = np.linalg.inv(b)
    return [np.rint(bi @ m @ b).astype(int) for m in ms]


FAMS = [SP, HEX, _conj(SP, FCC), _conj(SP, BCC)]
LATS = {0: "cubic", 1: "hex", 2: "fcc", 3: "bcc"}


def group(rng, ok=lambda m: True, fam=None):
    """random finite group of integer matrices whose elements all satisfy ok"""
    f = FAMS[rng.integers(4) if fam is None else fam]
    good = [m for m in f if ok(m)]
    gens = []
    for _ in range(rng.integers(0, 4)):
        if good:
            gens.append(good[rng.integers(len(good))])
    g = closure(gens)
    return g if g is not None and all(ok(m) for m in g) else [I3]


def group_on(rng, D, PS):
    """group acting on the mesh D shifted by PS/2 (matrices act on mesh addresses)"""
    D, PS = np.asarray(D), np.asarray(PS)

    def ok(m):
        for i in range(3):
            for j in range(3):
                if (m[i, j] * D[j]) % D[i]:
                    return False
        return not ((m @ PS - PS) % 2).any()
    return group(rng, ok)


def mesh(rng, nmax=60):
    k = rng.integers(0, 4)
    while True:
        if k == 0:
            D = [int(rng.integers(1, 5))] * 3
        elif k == 1:
            a = int(rng.integers(1, 5))
            D = [a, a, int(rng.integers(1, 5))]
        elif k == 2:
            a = int(rng.integers(1, 4))
            D = [a, a * int(rng.integers(1, 3)), a * int(rng.integers(1, 3)) * 2]
        else:
            D = [int(x) for x in rng.integers(1, 7, 3)]
        if np.prod(D) <= nmax:
            return D


def unimodular(rng, n=3, det1=False):
    m = I3.copy()
    for _ in range(n):
        i, j = rng.choice(3, 2, replace=False)
        e = I3.copy()
        e[i, j] = rng.integers(-1, 2)
        m = m @ e
    if not det1 and rng.integers(3) == 0:
        m[:, 0] *= -1
    return m


def det(m):
    m = [[int(x) for x in r] for r in m]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) + m[0][1] * (m[1][2] * m[2][0] - m[1][0] * m[2][2])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def adj(m):
    m = [[int(x) for x in r] for r in m]
    c = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a = [[m[p][q] for q in range(3) if q != j] for p in range(3) if p != i]
            c[j][i] = (-1) ** (i + j) * (a[0][0] * a[1][1] - a[0][1] * a[1][0])
    return c


def inv_exact(m):
    d = det(m)
    return [[Fraction(x, d) for x in r] for r in adj(m)]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def index(adr, D):
    a = [int(adr[i]) % int(D[i]) for i in range(3)]
    return a[0] + int(D[0]) * (a[1] + int(D[1]) * a[2])


def address(g, D):
    return [g % D[0], (g // D[0]) % D[1], g // (D[0] * D[1])]


def rotate(g, R, D, PS):
    d = np.array([2 * a + p for a, p in zip(address(g, D), PS)])
    r = np.asarray(R) @ d
    return index([(int(r[i]) - int(PS[i])) // 2 for i in range(3)], D)


def ir_map(rots, D, PS):
    n = int(np.prod(D))
    out = np.zeros(n, dtype=np.int64)
    for g in range(n):
        out[g] = min(rotate(g, R, D, PS) for R in rots)
    return out


def reduced(L):
    """columns form a Minkowski-reduced basis"""
    n = sorted((L[:, i] for i in range(3)), key=lambda v: v @ v)
    for i, j in ((1, 0), (2, 0), (2, 1)):
        if abs(2 * n[i] @ n[j]) > n[j] @ n[j]:
            return False
    for a in (-1, 1):
        for b in (-1, 1):
            w = n[2] + a * n[1] + b * n[0]
            if w @ w < n[2] @ n[2]:
                return False
    return True


def lattice(rng, fam=None):
    """reciprocal basis vectors in columns; mostly high symmetry (degenerate distances)"""
    k = rng.integers(6) if fam is None else fam
    if k == 0:
        L = np.eye(3)
    elif k == 1:
        L = np.array([[1, -0.5, 0], [0, np.sqrt(3) / 2, 0], [0, 0, rng.uniform(0.5, 2)]]).T.T
    elif k == 2:
        L = np.array([[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0.0]])
    elif k == 3:
        L = np.array([[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]])
    elif k == 4:
        L = np.diag(rng.uniform(0.5, 1.5, 3))
    else:
        L = np.eye(3) + 0.3 * rng.normal(size=(3, 3))
        while not reduced(L):
            L = np.eye(3) + 0.3 * rng.normal(size=(3, 3))
    return np.ascontiguousarray(L * rng.uniform(0.3, 2))


def bz_tolerance(D, Q, L):
    LQ = np.asarray(L) @ np.asarray(Q)
    return 0.01 * max(np.sum(LQ[:, i] ** 2) / float(D[i]) ** 2 for i in range(3))


def bz_lengths(adr, D, Q, PS, L, shifts):
    """squared lengths of the images of the grid point"""
    q = np.asarray(Q) @ np.array([(2 * a + p) / (2.0 * d) for a, p, d in zip(adr, PS, D)])
    v = (q[None, :] + shifts) @ np.asarray(L).T
    return (v ** 2).sum(axis=1)


BOX = np.array(list(itertools.product(range(-4, 5), repeat=3)))
