"""C06: the weight of the linear tetrahedron method (c/tetrahedron_method.c), for all real vertex values and frequencies.

Specification: with f the linear interpolation of the values a0..a3 at the corners of a tetrahedron of volume 1 and
l0 its barycentric coordinate of the first corner,
    J(w) = integral of l0 over the part f < w,       I(w) = dJ/dw,       weight = (sum over the 24 tetrahedra) / 6.
On the set B of corners below w, J is a rational function R_B of w, a0..a3 (`reference`): cones and prisms cut off at
the corners.  thm_get_integration_weight is executed on its own source on every feasible path for a generic
tetrahedron (loop invariant: the accumulator is the sum of the contributions so far); on each path the contribution
is R_B, resp. dR_B/dw, as an identity of rational functions.  Lemmas about R_B give the statements of the property.

Frequencies closer than 1e-10 to a vertex are outside the precondition (the code cuts off there); a contribution to
J may be dropped where the volume V(w) below w in the tetrahedron is less than 1e-10 (then J < 1e-10, too), one to I
where dV/dw (value span) / 3 is less than 1e-10 (then I < 3e-10 / span).
"""
import itertools
import multiprocessing as mp
import time
from fractions import Fraction

import sympy as sp
import z3

from . import cfront
from .cfront import Node, Unsupported
from .pathex import Ex, Infeasible, Ptr, Stop, explore

F = "tetrahedron_method.c"
FN = "thm_get_integration_weight"
W = sp.Symbol("w", real=True)
A = sp.symbols("a0:4", real=True)
K = sp.QQ.frac_field(W, *A)
EPS = Fraction(1e-10)
SETS = [frozenset(s) for r in range(5) for s in itertools.combinations(range(4), r)]


# ------------------------------------------------------------------ specification
def cut(i, j, w=W, a=A):
    """point of the edge i-j where f = w, in barycentric coordinates"""
    t = (w - a[i]) / (a[j] - a[i])
    p = [sp.Integer(0)] * 4
    p[i], p[j] = 1 - t, t
    return p


def corner(i):
    return [sp.Integer(k == i) for k in range(4)]


def simplices(B):
    """simplices filling the part f < w"""
    B, T = sorted(B), [i for i in range(4) if i not in B]
    if len(B) == 1:
        a = B[0]
        return [[corner(a)] + [cut(a, t) for t in T]]
    a, b = B
    c, d = T
    return [[corner(a), corner(b), cut(b, c), cut(b, d)], [corner(a), cut(a, c), cut(b, c), cut(b, d)],
            [corner(a), cut(a, c), cut(a, d), cut(b, d)]]


def moments(S):
    """volume and integral of l0 over simplices (the whole tetrahedron has volume 1)"""
    vol = mom = sp.Integer(0)
    for s in S:
        v = orient(s)
        vol += v
        mom += v * sum(p[0] for p in s) / 4
    return vol, mom


def orient(s):
    """signed volume, positive for the orders used here (lemma: not negative)"""
    d = sp.Matrix(s).det()
    # sign of the orientation: the determinant with all cuts moved to their upper corner or lower corner
    m = sp.Matrix([[sp.Integer(0) if x == 0 else x for x in p] for p in s])
    val = {W: sp.Rational(3, 2)}
    below = SIGN[0]
    for i in range(4):
        val[A[i]] = sp.Rational(i, 7) if i in below else 2 + sp.Rational(i, 7)
    return d if m.xreplace(val).det() > 0 else -d


SIGN = [None]


def reference(B):
    """(volume fraction below, J) as rational functions"""
    if len(B) == 0:
        return sp.Integer(0), sp.Integer(0)
    if len(B) == 4:
        return sp.Integer(1), sp.Rational(1, 4)
    if len(B) == 3:
        neg = {W: -W, **{a: -a for a in A}}
        SIGN[0] = frozenset(range(4)) - B
        v, m = moments(simplices(SIGN[0]))
        v, m = v.xreplace(neg), m.xreplace(neg)
        return 1 - v, sp.Rational(1, 4) - m
    SIGN[0] = B
    return moments(simplices(B))


def spline(B):
    """the same J from the divided difference of (v - w)_+^4 / ... with the first value taken twice (Hermite-Genocchi)"""
    e = sp.Symbol("e")
    knots = list(A) + [A[0] + e]
    tot = sp.Integer(0)
    for i, x in enumerate(knots):
        if (i if i < 4 else 0) in B:
            den = sp.Integer(1)
            for j, y in enumerate(knots):
                if j != i:
                    den *= (y - x)
            tot += (W - x) ** 4 / den
    f = sp.together(tot)
    n, d = sp.fraction(f)
    n, d = sp.Poly(sp.expand(n), e), sp.Poly(sp.expand(d), e)
    while n.nth(0) == 0 and d.nth(0) == 0:
        n, d = sp.Poly(sp.cancel(n.as_expr() / e), e), sp.Poly(sp.cancel(d.as_expr() / e), e)
    return sp.Rational(1, 4) * n.nth(0) / d.nth(0)


def field(e):
    return K.from_sympy(sp.sympify(e))


REF = {}


def refs():
    if not REF:
        for B in SETS:
            v, m = reference(B)
            v, m = field(v), field(m)
            REF[B] = (v, m, m.diff(K.gens[0]))
    return REF


# ------------------------------------------------------------------ lemmas about the specification
def setfacts(s, B):
    z = {x: z3.Real(str(x)) for x in (W,) + tuple(A)}
    for i in range(4):
        s.add(z[A[i]] < z[W] if i in B else z[A[i]] > z[W])
    return z


def zpoly(p, z):
    r = z3.RealVal(0)
    for mon, c in p.terms():
        t = z3.RealVal(str(c))
        for g, k in zip((W,) + tuple(A), mon):
            for _ in range(k):
                t = t * z[g]
        r = r + t
    return r


def shifted(p, B):
    """polynomial with a_i = w - x_i^2-like shifts: a_i = w - y_i (i in B) or w + y_i, y_i > 0"""
    y = sp.symbols("y0:4", positive=True)
    m = {A[i]: (W - y[i] if i in B else W + y[i]) for i in range(4)}
    return sp.Poly(sp.expand(p.as_expr().xreplace(m)), W, *y), y


def nonneg(f, B):
    """f >= 0 for all values with exactly the corners B below w"""
    sign = 1
    out = []
    for p in (f.numer, f.denom):
        q, y = shifted(p, B)
        cs = q.coeffs()
        if all(c >= 0 for c in cs):
            out.append(1)
        elif all(c <= 0 for c in cs):
            out.append(-1)
        else:
            out.append(0)
    if 0 not in out:
        return out[0] * out[1] > 0 or f.numer == 0, str(f)
    # denominators are products of differences: decide with the solver
    s = z3.Solver()
    s.set("timeout", 60000)
    y = sp.symbols("y0:4", positive=True)
    z = {v: z3.Real(str(v)) for v in (W,) + tuple(y)}
    n, _ = shifted(f.numer, B)
    d, _ = shifted(f.denom, B)

    def zp(q):
        r = z3.RealVal(0)
        for mon, c in q.terms():
            t = z3.RealVal(str(c))
            for g, k in zip(q.gens, mon):
                for _ in range(k):
                    t = t * z[g]
            r = r + t
        return r
    for v in y:
        s.add(z[v] > 0)
    s.add(zp(n) * zp(d) < 0)
    r = s.check()
    return r == z3.unsat, str(r)


def lemmas(sets=SETS):
    R = refs()
    out = []
    t0 = [time.time()]

    def ob(name, ok, det="", kind="sympy"):
        out.append((name, bool(ok), str(det)[:400] if not ok else "", kind, round(time.time() - t0[0], 2)))
        t0[0] = time.time()

    q = K.from_sympy(sp.Rational(1, 4))
    for B in sets:
        nm = "corners below the frequency: " + ("none" if not B else ",".join(map(str, sorted(B))))
        v, m, d = R[B]
        ob(f"lemma: J is the divided-difference (B-spline) form of the integral ({nm})", field(spline(B)) == m, m)
        for what, f in (("J >= 0", m), ("J <= 1/4", q - m), ("I >= 0", d), ("J <= volume below", v - m), ("volume below <= 1", K.one - v),
                        ("I <= derivative of the volume below", v.diff(K.gens[0]) - d)):
            ok, det = nonneg(f, B)
            ob(f"lemma: {what} ({nm})", ok, det, "z3/sympy")
        for i in B:
            C = B - {i}
            # continuity at the corner i: R_B and R_{B - i} agree at w = a_i
            ok = same_at(m, R[C][1], i)
            ob(f"lemma: J is continuous at corner {i} ({nm})", ok)
        for p in itertools.permutations((1, 2, 3)):
            perm = (0,) + p
            ren = {A[i]: A[perm[i]] for i in range(4)}
            C = frozenset(perm[i] for i in B)
            ob(f"lemma: independent of the order of the other corners {p} ({nm})", field(m.as_expr().xreplace(ren)) == R[C][1])
    return out


def same_at(f, g, i):
    m = {A[i]: W}
    d = (f - g)
    n = sp.expand(d.numer.as_expr().xreplace(m))
    k = sp.expand(d.denom.as_expr().xreplace(m))
    return n == 0 and k != 0


# ------------------------------------------------------------------ the code
def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, Node):
            yield x
            st += [v for v in x.__dict__.values() if isinstance(v, (Node, list, tuple))]
        elif isinstance(x, (list, tuple)):
            st += [v for v in x if isinstance(v, (Node, list, tuple))]


def strip(e):
    while isinstance(e, Node) and e.k == "cast":
        e = e.x
    return e


def written(body):
    ids = set()
    for x in nodes(body):
        e = None
        if x.k == "assign":
            e = strip(x.l)
        elif x.k == "un" and x.op in ("++", "--"):
            e = strip(x.x)
        if e is not None and e.k == "var":
            ids.add(e.id)
    return ids


ZMEMO, LMEMO = {}, {}


class E6(Ex):
    """reals; branches are first decided by linear arithmetic over the linear conditions"""

    def zc(self, c):
        if c not in ZMEMO:
            ZMEMO[c] = super().zc(c)
        return ZMEMO[c]

    def linear(self, c):
        if c not in LMEMO:
            LMEMO[c] = self.linear_(c)
        return LMEMO[c]

    def linear_(self, c):
        return not any(isinstance(x, sp.Pow) or (isinstance(x, sp.Mul) and len(x.free_symbols) > 1) for x in sp.preorder_traversal(c))

    def possible(self, c, ms=400):
        lin = [x for x in self.facts + self.conds if self.linear(x)]
        s = z3.Solver()
        for x in lin + ([c] if self.linear(c) else []):
            s.add(self.zc(x))
        return s.check() != z3.unsat


def loop24(phase):
    """loop over the 24 tetrahedra: one generic pass, or the state after it"""
    def rule(ex, s, env, f):
        if s.k != "for" or getattr(ex, "inside", False) or getattr(ex, "acc", None) is not None:
            return False
        c = strip(s.cond) if s.cond is not None else None
        if not (isinstance(c, Node) and c.k == "bin" and c.op in ("<", "<=", "!=") and strip(c.l).k == "var" and strip(c.r).k == "int"):
            return False
        inc = strip(s.inc)
        up = (inc.k == "un" and inc.op == "++") or (inc.k == "assign" and inc.op == "+=" and strip(inc.r).k == "int" and strip(inc.r).v == 1)
        n = strip(c.r).v + (c.op == "<=")
        if n != 24 or not up:
            return False
        ex.st(s.init, env, f)
        iv = env[strip(c.l).id][0]
        if ex.mem[iv][0] != 0:
            return False
        w = written(s.body) - {strip(c.l).id}
        params = {p[2] for p in f.params}
        acc = [i for i in w if i in env and i not in params and len(ex.mem[env[i][0]]) == 1 and ex.mem[env[i][0]][0] is not None]
        if len(acc) != 1:
            raise Unsupported("the loop over the tetrahedra has one accumulator")
        ab = env[acc[0]][0]
        ex.acc = ab
        start = ex.mem[ab][0]
        if phase == "after":
            ex.S = sp.Symbol("S", real=True)
            ex.mem[ab][0] = ex.val(start) + ex.S
            for i in w - set(acc):
                if i in env and i not in params:
                    ex.mem[env[i][0]][0] = None
            ex.mem[iv][0] = 24
            return True
        ex.S = sp.Symbol("S", real=True)
        ex.mem[ab][0] = ex.S
        ex.I = sp.Symbol("i", integer=True)
        ex.mem[iv][0] = ex.I
        snap = {b: list(c) for b, c in ex.mem.items()}
        ex.inside = True
        ex.st(s.body, env, f)
        for b, c in snap.items():
            if b not in (ab,) and any(x is not None and (x is not y and x != y) for x, y in zip(c, ex.mem[b])):
                raise Unsupported("the loop over the tetrahedra changes " + b.split("#")[0])
        ex.delta = ex.mem[ab][0] - ex.S
        raise Stop()
    return rule


class Loops(dict):
    def __init__(self, rule):
        super().__init__()
        self.rule = rule

    def get(self, name, d=None):
        return self.rule


def make(phase, ch):
    def run(ex):
        ex.loops = Loops(loop24(phase))
        b = ex.block(96, "tetrahedra_omegas", 0)

        def row(ex, o):
            d = sp.expand(sp.sympify(o) - 4 * getattr(ex, "I", sp.nan))
            if not (d.is_Integer and 0 <= d < 4):
                raise Unsupported(f"element {o} of the tetrahedra in pass i")
            return A[int(d)]
        ex.generic[b] = row
        for a in A:
            e = sp.Rational(EPS.numerator, EPS.denominator)
            ex.facts.append(sp.Or(a - W >= e, W - a >= e))
        unit, f = PROG.find(F, FN)
        ex.ret = ex.run(f, [W, Ptr(b, 0), ord(ch)])
    run.new = lambda prog, dec: E6(prog, real=True, decisions=dec)
    return run


def weight(ch):
    """obligations for one of the two weights"""
    unit = PROG.find(F, FN)[0]
    R = refs()
    out = []
    t0 = time.time()
    name = f"{FN}({ch})"
    try:
        res = explore(PROG, unit, make("after", ch), 50)
        ends = [ex for ex, st in res if st == "end"]
        if len(ends) != 1 or not hasattr(ends[0], "S"):
            raise Unsupported("the loop over the 24 tetrahedra is not of the expected form")
        ex = ends[0]
        al = sp.diff(sp.expand(ex.ret), ex.S)
        out.append((f"{name}: the result is a multiple of the sum over the 24 tetrahedra", al.is_number and sp.expand(ex.ret - al * ex.S) == 0, str(ex.ret), "post", 0))
        res = explore(PROG, unit, make("body", ch), 1500)
    except Unsupported as e:
        return [(f"{name}: within the verifier's reach", False, str(e), "unsupported", round(time.time() - t0, 2))]
    live, memo = 0, {}
    seen = {}
    for k, (ex, st) in enumerate(res):
        for n, ok, det, kind in ex.obls:
            out.append((f"{name}: {n} (path {k})", ok, det, kind, 0))
        if st == "infeasible":
            continue
        if not hasattr(ex, "delta"):
            out.append((f"{name}: the path reaches the end of the loop body (path {k})", False, "", "post", 0))
            continue
        # the set of corners below the frequency on this path (all that are possible)
        lin = [x for x in ex.facts + ex.conds if ex.linear(x)]
        for B in SETS:
            s = z3.Solver()
            for x in lin + [(A[i] < W if i in B else A[i] > W) for i in range(4)]:
                s.add(ex.zc(x))
            if s.check() == z3.unsat:
                continue
            live += 1
            key = (ex.delta, B)
            if key not in memo:
                memo[key] = field(al * ex.delta) == R[B][1 if ch == "J" else 2] / 6
            ok = memo[key]
            det = ""
            if not ok and field(ex.delta) == 0:
                # dropped: volume below, or its derivative times the span of the values / 3, under the cut-off
                for c in ex.conds:
                    if isinstance(c, sp.StrictLessThan) and not c.rhs.free_symbols and c.rhs <= EPS:
                        x = field(c.lhs)
                        if ch == "J":
                            ok = ok or x == R[B][0]
                        else:
                            ok = ok or any(x * 3 == R[B][0].diff(K.gens[0]) * field(A[i] - A[j]) for j in B for i in range(4) if i not in B)
            if not ok:
                det = f"corners below: {sorted(B)}; order decided: {[str(c) for c in ex.conds][:9]}; contribution {ex.delta}"
            nm = f"{name}: contribution of a tetrahedron is the integral of the first barycentric coordinate" if ch == "J" else f"{name}: contribution of a tetrahedron is the frequency derivative of its cumulative weight"
            seen.setdefault((B), []).append(k)
            out.append((f"{nm} (corners below {''.join(map(str, sorted(B))) or 'none'}, path {k})", ok, det[:600], "post", 0))
        # divisors
        for conds, d in getattr(ex, "dens", []):
            key = ("den", d)
            if key not in memo:
                s = z3.Solver()
                d0 = sp.sympify(d)
                if ex.linear(d0):
                    for x in lin:
                        s.add(ex.zc(x))
                    s.add(ex.z(d0) == 0)
                    ok = s.check() == z3.unsat
                    memo[key] = None if ok else False
                else:
                    ok = any(isinstance(c, sp.Not) and isinstance(c.args[0], sp.StrictLessThan) and c.args[0].lhs == d0 and c.args[0].rhs > 0 or
                             isinstance(c, sp.GreaterThan) and c.lhs == d0 and c.rhs > 0 for c in conds)
                if not ok:
                    out.append((f"{name}: divisor is not zero (path {k})", False, str(d), "div0", 0))
            elif memo[key] is False:
                out.append((f"{name}: divisor is not zero (path {k})", False, str(d), "div0", 0))
    out.append((f"{name}: every set of corners below the frequency is met", set(seen) == set(SETS), str(sorted(map(sorted, seen))), "vacuity", round(time.time() - t0, 2)))
    return out


PROG = None


def run(tier):
    global PROG
    PROG = cfront.Program()
    refs()
    with mp.get_context("fork").Pool(8) as pool:
        rs = [pool.apply_async(weight, ("J",)), pool.apply_async(weight, ("I",))] + [pool.apply_async(lemmas, ([B],)) for B in SETS]
        out = []
        for n, r in zip(["J", "I"] + [f"lemmas {sorted(B)}" for B in SETS], rs):
            try:
                out += r.get(timeout=500 if tier == "quick" else 1800)
            except mp.TimeoutError:
                out.append((f"{n}: decided within the time limit", False, "time limit", "unsupported", 0))
        pool.terminate()
    return out


FUNCTIONS = {f"c/{F}:{n}": None for n in (FN, "get_integration_weight", "sort_omegas", "_J", "_I", "_n", "_g", "_f")}
