"""C02: the Smith normal form of c/snf3x3.c, function by function, for all integer 3x3 matrices.

Relation between the state before and after a function on (A, P, Q):
    equiv:  there are integer matrices U, V with det U, det V in {1, -1} and  A' = U A V^T,  P' = U P,  Q' = V Q
It is transitive (products), and with P = Q = 1 at the start of snf3x3 it gives A' = P' A Q'^T.
Every function under contract is executed on its own source on every feasible path; at the call of another
function under contract the caller sees the callee's contract: the relation from the last cut is discharged, then
A, P, Q are arbitrary matrices with the callee's postcondition.  U and V are read off from the final P and Q, which
are linear in the initial ones.
"""
import multiprocessing as mp
import os
import time

import sympy as sp

from . import cfront
from .cfront import Unsupported
from .pathex import Brk, Cont, Ex, Infeasible, Ptr, Stop, explore

F = "snf3x3.c"
M = lambda b: sp.Matrix(3, 3, b)  # noqa: E731


def mat(ex, b):
    c = ex.mem[b]
    if any(x is None for x in c):
        raise Unsupported("matrix is not initialised")
    return M([sp.sympify(ex.norm(x)) for x in c])


def put(ex, b, m):
    ex.mem[b] = [int(x) if sp.sympify(x).is_Integer else x for x in list(m)]


def zero(ex, m):
    return all(ex.norm(x) == 0 for x in m)


class Seg:
    """relation of the current (A, P, Q) to the state at the last cut"""

    def __init__(self, ex, A, P, Q=None):
        self.ex, self.A, self.P, self.Q = ex, A, P, Q

    def start(self, sA=None, name="a", fixed=True):
        """arbitrary state; sA: pattern of A (None = unknown, else the value)"""
        ex = self.ex
        sA = sA or [None] * 9
        self.A0 = M([ex.fresh(f"{name}{i // 3}{i % 3}") if x is None else x for i, x in enumerate(sA)])
        put(ex, self.A, self.A0)
        ex.facts.append(sp.Not(sp.Eq(self.A0.det(), 0, evaluate=False)))
        for n in ("P", "Q"):
            b = getattr(self, n)
            if b is not None and fixed:
                m = M([ex.fresh(f"{n.lower()}{i // 3}{i % 3}") for i in range(9)])
                put(ex, b, m)
                setattr(self, n + "0", m)
                d = m.det()
                ex.facts.append(sp.Or(sp.Eq(d, 1, evaluate=False), sp.Eq(d, -1, evaluate=False)))
            elif b is not None:
                setattr(self, n + "0", None)

    def left(self, b, m0, what):
        """W with current = W m0"""
        ex = self.ex
        m = mat(ex, b)
        if m0 is None:
            W = m
        else:
            W = M([sp.diff(sp.expand(m[i, 0]), m0[j, 0]) for i in range(3) for j in range(3)])
            ex.ob(f"{what}: rows of the transformation are combined in the same way in all columns", zero(ex, m - W * m0), str(m)[:300])
        d = ex.norm(sp.expand(W.det()))
        ex.ob(f"{what}: unimodular", d in (1, -1), f"det = {d}")
        return W

    def close(self, what, extra=None):
        """discharge the relation to the last cut; extra: block holding A transposed"""
        ex = self.ex
        W = self.left(self.P, self.P0, what + ": P")
        Z = self.left(self.Q, self.Q0, what + ": Q") if self.Q is not None else sp.eye(3)
        A = mat(ex, self.A)
        A0 = M([sp.sympify(ex.norm(x)) for x in self.A0])
        d = (A if not extra else A.T) - W * A0 * Z.T
        ex.ob(f"{what}: A' = U A V^T with the same U and V as in P' = U P, Q' = V Q", zero(ex, d), str(A)[:300])
        return A

    def cut(self, what, sA, transposed=False):
        """callee's contract: relation so far discharged, then arbitrary state with pattern sA (in the orientation of the call)"""
        self.close(what, transposed)
        # everything known so far is about the state before the call
        self.ex.facts, self.ex.conds, self.ex.rules, self.ex.exact, self.ex.divs, self.ex.rem = [], [], [], [], {}, {}
        self.start(sA if not transposed else None)
        if transposed:
            m = [self.ex.fresh(f"a{i % 3}{i // 3}") if x is None else x for i, x in enumerate(sA)]
            put(self.ex, self.A, M(m))
            self.A0 = M(m).T
            self.ex.facts.append(sp.Not(sp.Eq(self.A0.det(), 0, evaluate=False)))


def isz(ex, x):
    x = ex.norm(x)
    return x == 0 or (not isinstance(x, int) and ex.holds(sp.Eq(x, 0, evaluate=False), 4000)[0])


def ne0(x):
    return sp.Not(sp.Eq(x, 0, evaluate=False))


# ------------------------------------------------------------------ contracts used at calls
def c_egcd(ex, args):
    """extended_gcd(ret, a, b): b != 0; a = r qa, b = r qb, s qa + t qb = 1 (so r = a s + b t), r != 0, r > 0 or r = b"""
    ret, a, b = args
    a, b = ex.norm(ex.val(a)), ex.norm(ex.val(b))
    if isinstance(b, int) and b == 0:
        ex.ob("extended_gcd: second number is not zero", False, "", "requires")
        raise Infeasible()
    ex.need("extended_gcd: second number is not zero", ne0(b), "requires")
    k = None if isinstance(a, int) else ex.quot(b, a)
    if k is not None and ex.holds(ne0(a))[0]:
        sg = 1 if ex.choice() else -1
        t = ex.fresh("t")
        r, s = ex.norm(sg * a), ex.norm(sg - t * k)
        ex.facts.append(sp.Or(r > 0, sp.Eq(r, b, evaluate=False)))
        ex.conds.append(sp.Or(r > 0, sp.Eq(r, b, evaluate=False)))
        if not ex.possible(sp.true):
            raise Infeasible()
    else:
        if isinstance(a, int) or not a.is_Symbol or sp.sympify(b).has(a):
            raise Unsupported(f"extended_gcd of {a}, {b}")
        r, s, t, qa, qb = [ex.fresh(x) for x in ("r", "s", "t", "u", "w")]
        ex.facts += [ne0(r), sp.Or(r > 0, sp.Eq(r, r * qb, evaluate=False)), sp.Eq(s * qa + t * qb, 1, evaluate=False)]
        ex.define(a, r * qa)
        if sp.sympify(b).is_Symbol:
            ex.define(b, r * qb)
        else:
            ex.facts.append(sp.Eq(b, r * qb, evaluate=False))
            ex.exact.append((b, r, qb))
        ex.rules.append((s, qa, t, qb))
    for i, v in enumerate((r, s, t)):
        ex.store(Ptr(ret.b, ret.o + i), v)
    return 0


def whole(ex, p):
    if not isinstance(p, Ptr) or p.o != 0 or len(ex.mem[p.b]) != 9:
        raise Unsupported("part of a matrix is passed")
    return p.b


def c_rowop(pattern, pre):
    """first_column / second_column on (X, Y): rows of X and Y are combined in the same unimodular way"""
    def h(ex, args):
        g = ex.seg
        X, Y = whole(ex, args[0]), whole(ex, args[1])
        if X != g.A or Y not in (g.P, g.Q):
            raise Unsupported("row operation on other matrices")
        m = mat(ex, X)
        for i in pre:
            ex.ob(f"call of the column elimination: element {i} is zero as required", isz(ex, m[i]), str(m), "requires")
        g.cut("at the call of the column elimination", pattern, transposed=(Y == g.Q))
        piv = {3: 0, 7: 4}[3 if pattern[3] == 0 and not pre else 7]
        ex.facts.append(ne0(ex.mem[X][piv]))
        return 0
    return h


COL1 = [None, None, None, 0, None, None, 0, None, None]
COL2 = [None, 0, 0, 0, None, None, 0, 0, None]
BLOCK = [None, 0, 0, 0, None, None, 0, None, None]
DIAG = [None, 0, 0, 0, None, 0, 0, 0, None]
PRE2 = (1, 2, 3, 6)


def c_equiv(name, patterns, diag_in=False, positive=False, sort=False):
    """functions on (A, P, Q); patterns: {return value: pattern of A} (None: no value)"""
    def h(ex, args):
        g = ex.seg
        bs = [whole(ex, a) for a in args]
        if bs != [g.A, g.P] and bs != [g.A, g.P, g.Q]:
            raise Unsupported("called on other matrices")
        m = mat(ex, g.A)
        if diag_in:
            ex.ob(f"{name}: matrix is diagonal at the call", all(isz(ex, m[i, j]) for i in range(3) for j in range(3) if i != j), str(m), "requires")
        if diag_in == "+":
            for i in range(3):
                ex.need(f"{name}: diagonal is positive at the call", sp.sympify(m[i, i]) > 0, "requires")
        if name == "second":
            for i in PRE2:
                ex.ob(f"second: element {i} is zero at the call", isz(ex, m[i]), str(m), "requires")
        keys = list(patterns)
        r = keys[0] if len(keys) == 1 or ex.choice() else keys[1]
        g.cut(f"at the call of {name}", patterns[r])
        d = [ex.mem[g.A][i] for i in (0, 4, 8)]
        if r == 1 and name == "first":
            ex.facts.append(ne0(d[0]))
        if patterns[r] is DIAG:
            ex.facts += [ne0(x) for x in d]
        if positive:
            ex.facts += [x > 0 for x in d]
        if sort:
            ex.facts += [d[0] <= d[1], d[1] <= d[2]]
        if name == "finalize":
            ex.facts += [sp.Eq(g.P0.det(), 1, evaluate=False)]
        return r
    return h


# ------------------------------------------------------------------ functions under contract
def setup(ex, fn, pattern=None, q=True):
    A, P = ex.block(9, "A"), ex.block(9, "P")
    Q = ex.block(9, "Q") if q else None
    ex.seg = Seg(ex, A, P, Q)
    ex.seg.start(pattern)
    return [Ptr(A, 0), Ptr(P, 0)] + ([Ptr(Q, 0)] if q else [])


def fn_of(ex, name):
    u, f = ex.prog.find(F, name)
    if f is None or f.body is None:
        raise Missing(name)
    ex.unit = u
    return f


class Missing(Exception):
    pass


def g_column(which):
    name = ("first_column", "second_column")[which]

    def go(ex):
        ex.handlers = {"extended_gcd": c_egcd}
        a = setup(ex, name, [None, BLOCK][which], q=False)
        ex.run(fn_of(ex, name), a)
        A = ex.seg.close(name)
        for i in ((3, 6), (1, 2, 3, 6, 7))[which]:
            ex.ob(f"{name}: element {i} is zero afterwards", isz(ex, A[i]), str(A))
        ex.need(f"{name}: pivot is not zero", ne0(A[(0, 4)[which]]))
    return go


def g_first(ex):
    ex.handlers = {"extended_gcd": c_egcd, "first_column": c_rowop(COL1, ())}
    r = ex.run(fn_of(ex, "first"), setup(ex, "first"))
    A = ex.seg.close("first")
    if r != 0:
        ex.ob("first: returns 0 or 1", r == 1, str(r))
        for i in (1, 2, 3, 6):
            ex.ob(f"first: after success element {i} is zero", isz(ex, A[i]), str(A))
        ex.need("first: pivot is not zero", ne0(A[0]))


def g_second(ex):
    ex.handlers = {"extended_gcd": c_egcd, "second_column": c_rowop(COL2, PRE2)}
    r = ex.run(fn_of(ex, "second"), setup(ex, "second", BLOCK))
    A = ex.seg.close("second")
    if r != 0:
        ex.ob("second: returns 0 or 1", r == 1, str(r))
        for i in (1, 2, 3, 5, 6, 7):
            ex.ob(f"second: after success element {i} is zero", isz(ex, A[i]), str(A))


def diag(ex, A, name):
    for i in (1, 2, 3, 5, 6, 7):
        ex.ob(f"{name}: element {i} is zero afterwards", isz(ex, A[i]), str(A))


def g_positive(ex):
    a = setup(ex, "make_diagA_positive", DIAG)
    ex.run(fn_of(ex, "make_diagA_positive"), a[:2])
    A = ex.seg.close("make_diagA_positive")
    diag(ex, A, "make_diagA_positive")
    for i in range(3):
        ex.need(f"make_diagA_positive: element {i} is positive", A[i, i] > 0)


def g_sort(ex):
    a = setup(ex, "finalize_sort", DIAG)
    ex.facts += [ex.mem[a[0].b][i] > 0 for i in (0, 4, 8)]
    ex.run(fn_of(ex, "finalize_sort"), a)
    A = ex.seg.close("finalize_sort")
    diag(ex, A, "finalize_sort")
    for i in range(3):
        ex.need("finalize_sort: diagonal stays positive", A[i, i] > 0)
    for i in range(2):
        ex.need("finalize_sort: diagonal is sorted", A[i, i] <= A[i + 1, i + 1])


def g_finalize(ex):
    ex.handlers = {"extended_gcd": c_egcd,
                   "make_diagA_positive": c_equiv("make_diagA_positive", {None: DIAG}, True, positive=True),
                   "finalize_sort": c_equiv("finalize_sort", {None: DIAG}, "+", positive=True, sort=True)}
    ex.run(fn_of(ex, "finalize"), setup(ex, "finalize", DIAG))
    A = ex.seg.close("finalize")
    diag(ex, A, "finalize")
    for i in range(3):
        ex.need(f"finalize: element {i} of the diagonal is positive", A[i, i] > 0)
    d = ex.norm(sp.expand(mat(ex, ex.seg.P).det()))
    ex.need("finalize: determinant of P is 1", sp.Eq(d, 1, evaluate=False))


def loop_any(ex, s, env, f):
    """loop of snf3x3: arbitrary iteration; the relation to the start holds after every iteration"""
    g = ex.seg
    b = ex.more
    if s.k != "for":
        return False
    g.close("snf3x3: before the loop")
    g.start()
    check = generic(ex, s, env, [g.A, g.P, g.Q])
    if ex.choice():
        try:
            ex.st(s.body, env, f)
        except Brk:
            return True
        except Cont:
            pass
        check()
        g.close("snf3x3: after an iteration")
        raise Stop()
    return True


def g_snf(ex):
    A, P, Q = ex.block(9, "A"), ex.block(9, "P"), ex.block(9, "Q")
    g = ex.seg = Seg(ex, A, P, Q)
    g.start(fixed=False)
    ex.handlers = {"first": c_equiv("first", {1: BLOCK, 0: None}), "second": c_equiv("second", {1: DIAG, 0: BLOCK}),
                   "finalize": c_equiv("finalize", {None: DIAG}, True, positive=True)}
    ex.loops = {"snf3x3": loop_any}
    r = ex.run(fn_of(ex, "snf3x3"), [Ptr(A, 0), Ptr(P, 0), Ptr(Q, 0)])
    if r == 0:
        return
    # Q is returned transposed: D = P A Q
    put(ex, Q, mat(ex, Q).T)
    m = g.close("snf3x3: D = P A Q")
    diag(ex, m, "snf3x3")
    for i in range(3):
        ex.need("snf3x3: diagonal is positive", m[i, i] > 0)
    ex.need("snf3x3: determinant of P is 1", sp.Eq(ex.norm(sp.expand(mat(ex, P).det())), 1, evaluate=False))


def g_grg(ex):
    """recgrid_get_snf3x3: refuses singular matrices, decomposes a copy, returns the diagonal"""
    u, f = ex.prog.find("recgrid.c", "recgrid_get_snf3x3")
    if f is None:
        raise Missing("recgrid_get_snf3x3")
    ex.unit = u
    A, P, Q, D = [ex.block(9, x) for x in "APQ"] + [ex.block(3, "D_diag")]
    A0 = M([ex.fresh(f"a{i // 3}{i % 3}") for i in range(9)])
    put(ex, A, A0)
    seen = []

    def snf(ex, args):
        b = [whole(ex, x) for x in args]
        ex.ob("recgrid_get_snf3x3: the given matrix is decomposed", zero(ex, mat(ex, b[0]) - A0) and b[0] != A, str(mat(ex, b[0])), "requires")
        ex.ob("recgrid_get_snf3x3: transformations are returned in P and Q", b[1:] == [P, Q], str(b), "requires")
        ex.need("recgrid_get_snf3x3: matrix is not singular when it is decomposed", ne0(sp.expand(A0.det())), "requires")
        r = 1 if ex.choice() else 0
        d = [ex.fresh("d") for _ in range(3)]
        put(ex, b[0], sp.diag(*d) if r else M([ex.fresh("x") for _ in range(9)]))
        seen.append((r, d))
        return r
    ex.handlers = {"snf3x3": snf}
    r = ex.run(f, [Ptr(D, 0), Ptr(P, 0), Ptr(Q, 0), Ptr(A, 0)])
    ex.ob("recgrid_get_snf3x3: the given matrix is not changed", zero(ex, mat(ex, A) - A0), "", "frame")
    if not seen:
        ex.need("recgrid_get_snf3x3: only singular matrices are refused", sp.Eq(sp.expand(A0.det()), 0, evaluate=False))
        ex.ob("recgrid_get_snf3x3: a refused matrix gives 0", r == 0, str(r))
    else:
        ex.ob("recgrid_get_snf3x3: reports whether the decomposition succeeded", r == seen[0][0], str(r))
        if seen[0][0]:
            ex.ob("recgrid_get_snf3x3: returns the diagonal", [sp.sympify(x) for x in ex.mem[D]] == seen[0][1], str(ex.mem[D]))


def assigned(n, out):
    """ids of the variables a statement assigns directly"""
    if isinstance(n, (list, tuple)):
        for x in n:
            assigned(x, out)
    elif isinstance(n, cfront.Node):
        if n.k == "assign" or (n.k == "un" and n.op in ("++", "--", "&")):
            x = n.l if n.k == "assign" else n.x
            while x.k == "cast":
                x = x.x
            if x.k == "var":
                out.add(x.id)
        for v in vars(n).values():
            if isinstance(v, (cfront.Node, list, tuple)):
                assigned(v, out)
    return out


def generic(ex, s, env, keep):
    """arbitrary iteration: scalars assigned in the loop are unknown; returns a check that nothing else is changed"""
    ids = assigned(s, set())
    for i in ids:
        if i in env and len(ex.mem[env[i][0]]) == 1:
            ex.mem[env[i][0]] = [ex.fresh("i")]
    skip = {env[i][0] for i in ids if i in env} | set(keep)
    old = {b: list(c) for b, c in ex.mem.items() if b not in skip}

    def check():
        for b, c in old.items():
            if ex.mem[b] != c:
                raise Unsupported(f"loop changes {b.split('#')[0]}, which its invariant does not describe")
    return check


def egcd_loop(ex, s, env, f):
    blocks = {n: b for n, b in ((k, v[0]) for k, v in env.items())}
    v = [b for b, _ in [(x[0], 0) for x in env.values()] if len(ex.mem[b]) == 6]
    if len(v) != 1 or s.k != "for":
        return False
    v = v[0]
    a, b = ex.ab
    c = ex.mem[v]
    inv0 = invariant(c, a, b, 1)
    for n, e in inv0:
        ex.ob(f"extended_gcd: invariant holds before the loop: {n}", ex.norm(e) == 0, str(e), "invariant")
    ex.need("extended_gcd: invariant holds before the loop: divisor", ne0(c[1]), "invariant")
    new = [ex.fresh(f"v{i}") for i in range(6)]
    sg = ex.fresh("sign")
    ex.mem[v] = list(new)
    # equations of the invariant as substitutions: v0 and v1 are combinations of a and b
    ex.define(new[0], a * new[2] + b * new[4])
    ex.define(new[1], a * new[3] + b * new[5])
    ex.ideal = [sg ** 2 - 1, new[2] * new[5] - new[3] * new[4] - sg]
    head = sp.Or(sp.And(sp.Eq(new[0], a, evaluate=False), sp.Eq(new[1], b, evaluate=False)),
                 sp.And(sp.Or(sp.Eq(new[0], b, evaluate=False), new[0] > 0), new[1] >= 0))
    ex.facts += [ne0(new[1]), head, sp.Or(sp.Eq(sg, 1, evaluate=False), sp.Eq(sg, -1, evaluate=False))]
    old1 = new[1]
    check = generic(ex, s, env, [v])
    try:
        ex.st(s.body, env, f)
    except Brk:
        ex.sg, ex.v = sg, v
        return True
    except Cont:
        pass
    check()
    c = ex.mem[v]
    for n, e in invariant(c, a, b, -sg):
        ex.ob(f"extended_gcd: invariant is kept: {n}", member(ex, e), str(e), "invariant")
    ex.need("extended_gcd: invariant is kept: divisor", ne0(c[1]), "invariant")
    ex.need("extended_gcd: the remainder is not negative and smaller than the divisor", sp.And(c[1] >= 0, sp.Or(c[1] < old1, c[1] < -old1)), "invariant")
    ex.need("extended_gcd: invariant is kept: sign", sp.Or(sp.Eq(c[0], b, evaluate=False), c[0] > 0), "invariant")
    raise Stop()


def invariant(c, a, b, sg):
    return [("first number is a combination of a and b", c[0] - a * c[2] - b * c[4]), ("second number is a combination of a and b", c[1] - a * c[3] - b * c[5]),
            ("determinant", c[2] * c[5] - c[3] * c[4] - sg)]


def member(ex, e):
    e = sp.expand(sp.sympify(e).xreplace(ex.sub))
    if e == 0:
        return True
    eqs = [f.lhs - f.rhs for f in ex.facts + ex.conds if isinstance(f, sp.Eq)]
    G = [g for g in (sp.expand(x.xreplace(ex.sub)) for x in ex.ideal + eqs) if g != 0]
    gens = sorted(set().union(*[x.free_symbols for x in G + [e]]), key=str)
    return sp.groebner(G, *gens, order="grevlex").contains(e)


def g_egcd(ex):
    a, b = ex.fresh("a"), ex.fresh("b")
    ex.ab = (a, b)
    ex.facts.append(ne0(b))
    ex.loops = {"extended_gcd": egcd_loop}
    out = ex.block(3, "retvals")
    ex.v = None
    ex.run(fn_of(ex, "extended_gcd"), [Ptr(out, 0), a, b])
    if ex.v is None:
        raise Unsupported("loop of extended_gcd is not of the expected form")
    c, sg = ex.mem[ex.v], ex.sg
    r, s, t = [ex.norm(x) for x in ex.mem[out]]
    ex.ob("extended_gcd: r = a s + b t", member(ex, r - a * s - b * t), str((r, s, t)))
    # cofactors: the previous row of the table, up to the sign of the determinant (now -sg)
    qa, qb = -sg * c[5], sg * c[3]
    ex.ideal.append(sp.expand(sp.sympify(c[1]).xreplace(ex.sub)))  # the loop ended: second number is zero
    ex.need("extended_gcd: the loop ends when the second number is zero", sp.Eq(c[1], 0, evaluate=False))
    ex.ob("extended_gcd: r divides a", member(ex, a - r * qa), str(r))
    ex.ob("extended_gcd: r divides b", member(ex, b - r * qb), str(r))
    ex.ob("extended_gcd: cofactors are coprime with s, t", member(ex, s * qa + t * qb - 1), str((s, t)))
    ex.need("extended_gcd: r is positive or the second number", sp.Or(sp.sympify(r) > 0, sp.Eq(sp.sympify(r), b, evaluate=False)))
    ex.need("extended_gcd: r is not zero", ne0(r))


GOALS = {"extended_gcd": g_egcd, "first_column": g_column(0), "second_column": g_column(1), "first": g_first, "second": g_second,
         "make_diagA_positive": g_positive, "finalize_sort": g_sort, "finalize": g_finalize, "snf3x3": g_snf, "recgrid_get_snf3x3": g_grg}
PROG = None


def program():
    return cfront.Program()


def one(name):
    t = time.time()
    try:
        res = explore(PROG, PROG.find(F, "snf3x3")[0], GOALS[name])
    except Missing as e:
        return [(f"{name}: function {e} under contract exists", False, "not found in the sources", "unsupported", 0)]
    except Unsupported as e:
        return [(f"{name}: within the verifier's reach", False, str(e), "unsupported", round(time.time() - t, 2))]
    out, live = [], 0
    for k, (ex, st) in enumerate(res):
        live += st != "infeasible"
        for n, ok, det, kind in ex.obls:
            out.append((f"{n} (path {k})", ok, det, kind, 0))
    out.append((f"{name}: some path is feasible", live > 0, "", "vacuity", round(time.time() - t, 2)))
    return out


def run(tier):
    global PROG
    PROG = program()
    with mp.get_context("fork").Pool(8) as pool:
        rs = [(n, pool.apply_async(one, (n,))) for n in GOALS]
        out = []
        for n, r in rs:
            try:
                out += r.get(timeout=400 if tier == "quick" else 1800)
            except mp.TimeoutError:
                out.append((f"{n}: decided within the time limit", False, "time limit", "unsupported", 0))
        pool.terminate()
    return out


FUNCTIONS = {f"c/{'recgrid.c' if n.startswith('recgrid') else F}:{n}": GOALS[n] for n in GOALS}
