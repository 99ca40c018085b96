"""Reference for the linear tetrahedron method, independent of phono3py's formulas.

The cumulative weight of vertex k in a tetrahedron with values v is the integral over the unit-volume
tetrahedron of the barycentric coordinate of k where the interpolated value is below omega; the delta
weight is its derivative."""
import numpy as np


def _perm(v):
    return np.argsort(v, kind="stable")


def weight(omega, v, cumulative):
    """weight of vertex 0 of one tetrahedron"""
    v = [float(x) for x in v]
    if omega < min(v):
        return 0.0
    if omega > max(v):
        return 0.25 if cumulative else 0.0
    below = [i for i in range(4) if v[i] < omega]
    above = [i for i in range(4) if v[i] > omega]
    if len(below) + len(above) != 4:
        raise ValueError("vertex at the frequency")
    if len(below) == 3:                      # complement is a small tetrahedron at the top vertex
        neg = [-x for x in v]
        c = weight(-omega, neg, cumulative)
        return 0.25 - c if cumulative else c
    if len(below) == 1:
        a = below[0]
        t = {b: (omega - v[a]) / (v[b] - v[a]) for b in above}
        vol = np.prod(list(t.values()))
        dvol = 3 * vol / (omega - v[a])
        # barycentric coordinate of vertex 0 averaged over the small tetrahedron (corners: a and the cuts)
        lam = [_bary(a, a, 0.0)] + [_bary(a, b, t[b]) for b in above]
        J = vol * sum(lam) / 4
        if cumulative:
            return float(J)
        lam_cut = [_bary(a, b, t[b]) for b in above]
        return float(dvol * sum(lam_cut) / 3)
    a, b = below
    c, d = above
    # region below: prism a, b with cuts ac, ad, bc, bd  = 3 tetrahedra

    def pt(i, j):
        x = np.zeros(4)
        s = (omega - v[i]) / (v[j] - v[i])
        x[i], x[j] = 1 - s, s
        return x
    A, B = np.eye(4)[a], np.eye(4)[b]
    ac, ad, bc, bd = pt(a, c), pt(a, d), pt(b, c), pt(b, d)
    if cumulative:
        tot = 0.0
        for q in ((A, B, bc, bd), (A, ac, bc, bd), (A, ac, ad, bd)):
            tot += abs(np.linalg.det(np.array(q))) * sum(p[0] for p in q) / 4
        return float(tot)
    # cross section ac, ad, bd, bc (planar quadrilateral): delta weight = integral over it / |gradient|
    # area measured so that volume derivative is reproduced: split in two triangles; the flux of each is
    # d(volume)/d(omega) of the cone, computed in barycentric coordinates
    tot = 0.0
    e = np.eye(4)
    val = np.array(v)
    for q in ((ac, ad, bd), (ac, bd, bc)):
        q = np.array(q)
        # 3 * volume of the pyramid from a vertex p is distance * area -> area per unit gradient
        p = e[int(np.argmax(abs(val - omega)))]
        vol = abs(np.linalg.det(np.vstack([p, q])))
        dist = abs(val @ p - omega)
        tot += 3 * vol / dist * q[:, 0].mean()
    return float(tot)


def _bary(i, j, s):
    """coordinate of vertex 0 at the point a fraction s from i to j"""
    return (1 - s) * (i == 0) + s * (j == 0)


def _relative():
    """24 tetrahedra around a point for each of the four main diagonals (built, not copied)"""
    import itertools
    out = []
    diags = [((0, 0, 0), (1, 1, 1)), ((1, 0, 0), (0, 1, 1)), ((0, 1, 0), (1, 0, 1)), ((0, 0, 1), (1, 1, 0))]
    for s, t in diags:
        step = np.array(t) - np.array(s)
        tets = []
        for perm in itertools.permutations(range(3)):
            p = np.array(s)
            path = [p]
            for ax in perm:
                p = p.copy()
                p[ax] += step[ax]
                path.append(p)
            tets.append(path)
        rel = []
        for tet in tets:
            for k in range(4):
                o = tet[k]
                rel.append([(np.zeros(3, int)).tolist()] + [(tet[m] - o).tolist() for m in range(4) if m != k])
        out.append(rel)
    return out


RELATIVE = _relative()
