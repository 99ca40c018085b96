"""C20: obligations on the heat-capacity matrix and the occupation functions, generated from their Python source."""
import time

import sympy as sp

from . import pysym as P

HC = "phono3py.phonon.heat_capacity_matrix"
FU = "phono3py.phonon.func"
T, KB, CUT = sp.Symbol("T", positive=True), sp.Symbol("kb", positive=True), sp.Symbol("cutoff", positive=True)


class Pos(sp.Function):
    positive = True

    def _eval_is_positive(self):
        return True

    def _eval_is_real(self):
        return True


class freq(Pos):
    pass


def run(tier):
    out = []

    def ob(name, f):
        t = time.time()
        try:
            ok, det = f()
        except P.Unsupported as e:
            ok, det = False, f"outside the verifier's reach: {e}"
        out.append((name, bool(ok), det, "z3 nlsat" if "continuous" not in name else "sympy limit", round(time.time() - t, 3)))
    P.CACHE.clear()
    n = sp.Symbol("n", integer=True, positive=True)
    i, j = sp.Symbol("i", integer=True), sp.Symbol("j", integer=True)
    nm = "mode_cv_matrix: "
    try:
        ps = P.paths(lambda: P.function(HC, "mode_cv_matrix")(P.S(T), P.A(freq, (n,)), cutoff=P.S(CUT)), limit=16)
    except P.Unsupported as e:
        return [(nm + "within the verifier's reach", False, str(e), "unsupported", 0)]
    x, y = freq(i), freq(j)
    a = x / KB / T
    cv = KB * a ** 2 * sp.exp(a) / (sp.exp(a) - 1) ** 2
    pre = [x > 0, y > 0, T > 0, KB > 0, CUT > 0]
    res = []
    for cs, r in ps:
        if isinstance(r, P.Raised) or not isinstance(r, P.A) or len(r.shape) != 2:
            return [(nm + "returns a matrix", False, str(r)[:300], "execution", 0)]
        if not r.put:
            out.append((nm + "every element is written", False, str(cs), "execution", 0))
            continue
        k, v = r.put[-1]
        sb = list(zip(k, (i, j)))
        res.append(([c.subs(sb, simultaneous=True) for c in cs], v.subs(sb, simultaneous=True), [P.Loop.bounds.get(q) for q in k], r.shape))
    for q, (cs, v, bd, sh) in enumerate(res):
        ob(f"{nm}path {q}: the loop covers every pair of bands", lambda: (all(b == n for b in bd) and [P.term(s) for s in sh] == [n, n], f"{bd} {sh}"))
        ob(f"{nm}path {q}: element is positive", lambda: P.prove(pre + cs, v > 0))
        d = [sp.Not(sp.Eq(x, y)), sp.Abs(x - y) >= CUT]
        ob(f"{nm}path {q}: diagonal element is the mode heat capacity",
           lambda: diag(pre, cs, v, x, y, cv, j, i))
        ob(f"{nm}path {q}: element of a pair further apart than the tolerance is symmetric",
           lambda: symm(pre + d, res, cs, v, i, j))
        ob(f"{nm}path {q}: element is continuous where the frequencies become degenerate", lambda: limit(pre, cs, v, x, y, cv))
        ob(f"{nm}path {q}: element within the tolerance is the mode heat capacity of one of the two",
           lambda: within(pre, cs, v, x, y, cv))
    # ---- occupation
    w, s2 = sp.Symbol("x", positive=True), sp.Symbol("s", positive=True)
    k2 = sp.Symbol("thztoev", positive=True)

    def straight(f):
        r = P.paths(f, limit=2)
        if len(r) != 1:
            raise P.Unsupported("branches")
        return P.term(r[0][1])
    base = [w > 0, T > 0, KB > 0, k2 > 0]
    N = lambda z: straight(lambda: P.function(FU, "bose_einstein")(P.S(z), P.S(T)))  # noqa: E731
    ob("bose_einstein: n (exp(x) - 1) = 1", lambda: P.equal(base, N(w) * (sp.exp(k2 * w / (KB * T)) - 1), sp.Integer(1)))
    ob("bose_einstein: positive", lambda: P.prove(base, N(w) > 0))
    ob("bose_einstein: n(-x) = -(n(x) + 1)", lambda: P.equal(base, N(-w), -(N(w) + 1)))
    w2 = sp.Symbol("y", positive=True)
    ob("bose_einstein: falls with frequency", lambda: P.prove(base + [w2 > w], N(w) > N(w2)))
    fac = sp.Symbol("hbar", positive=True) * sp.Symbol("ev", positive=True) / (2 * sp.pi * sp.Symbol("thz", positive=True)) / \
        sp.Symbol("amu", positive=True) / sp.Symbol("angstrom", positive=True) ** 2
    ob("sigma_squared: (n + 1/2) hbar / omega", lambda: P.equal(
        base, straight(lambda: P.function(FU, "sigma_squared")(P.S(w), P.S(T))), (N(w) + sp.Rational(1, 2)) / w * fac))
    g = lambda z: straight(lambda: P.function(FU, "gaussian")(P.S(z), P.S(s2)))  # noqa: E731
    v = sp.Symbol("v", real=True)
    ob("gaussian: even", lambda: (sp.simplify(g(v) - g(-v)) == 0, str(g(v))))
    ob("gaussian: unit weight (limit of sums)", lambda: (sp.simplify(sp.integrate(g(v), (v, -sp.oo, sp.oo)) - 1) == 0, str(g(v))))
    ob("gaussian: variance is sigma squared", lambda: (sp.simplify(sp.integrate(g(v) * v ** 2, (v, -sp.oo, sp.oo)) - s2 ** 2) == 0, str(g(v))))
    return out


def diag(pre, cs, v, x, y, cv, j, i):
    """under i = j"""
    c2 = [c.subs(j, i) if hasattr(c, "subs") else c for c in cs]
    if any(c in (False, sp.false) for c in c2) or dead([x > 0] + pre[2:] + [c for c in c2 if c not in (True, sp.true)]):
        return True, "path not taken"
    return P.equal([x > 0] + pre[2:], v.subs(j, i), cv)


def symm(pre, res, cs, v, i, j):
    """the element (j, i) is the same on every path that it can take"""
    if dead(pre + cs):
        return True, "path not taken"
    sw = {i: j, j: i}
    for cs2, v2, _, _ in res:
        c2 = [c.subs(sw, simultaneous=True) if hasattr(c, "subs") else c for c in cs2]
        w2 = v2.subs(sw, simultaneous=True)
        if dead(pre + cs + c2):
            continue
        r = P.equal(pre + cs + c2, v, w2)
        if not r[0]:
            return r
    return True, ""


def dead(conds):
    """the conditions contradict each other"""
    return P.prove(conds, sp.false)[0]


def limit(pre, cs, v, x, y, cv):
    if dead(pre + cs + [sp.Abs(x - y) >= CUT]):
        return True, "path within the tolerance"
    X, D = sp.Symbol("X", positive=True), sp.Symbol("D", positive=True)
    u = sp.Symbol("u", positive=True)
    # dimensionless: x = u kb T
    w = sp.powsimp(sp.simplify(v.subs({x: u * KB * T, y: (u + D) * KB * T})))
    lim = sp.limit(w, D, 0)
    lim2 = sp.limit(w.subs(D, -D), D, 0)
    ref = sp.simplify(cv.subs(x, u * KB * T))
    ok = all(sp.simplify((q - ref).rewrite(sp.exp)) == 0 for q in (lim, lim2))
    return ok, f"limit {lim}"[:300]


def within(pre, cs, v, x, y, cv):
    c = pre + cs + [sp.Abs(x - y) < CUT]
    if dead(c):
        return True, "path outside the tolerance"
    r = P.equal(c, v, cv)
    return r if r[0] else P.equal(c, v, cv.subs(x, y))


FUNCTIONS = {"phono3py/phonon/heat_capacity_matrix.py:mode_cv_matrix": run, "phono3py/phonon/func.py:bose_einstein": run,
             "phono3py/phonon/func.py:sigma_squared": run, "phono3py/phonon/func.py:gaussian": run}
