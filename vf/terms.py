"""Hash-consed terms over mathematical integers and reals.

Numeric terms are polynomials with rational coefficients over atoms (variables,
applications, if-then-else, 1/x, C division and remainder, finite sums); two
numeric terms that are equal as polynomials over the same atoms are the same
object.  Finite sums are put in a canonical form (one monomial each, factors not
depending on the bound variables pulled out, nested sums merged, independent
groups of bound variables separated, bound variables renamed canonically).
"""
from fractions import Fraction
from itertools import permutations
import math


class TermError(Exception):
    pass


_atoms = {}
_atom_list = []
_polys = {}
_bools = {}


def reset():
    """Forget everything (between independent verification runs)."""
    global ZERO, ONE, TRUE, FALSE
    for d in (_atoms, _polys, _bools):
        d.clear()
    _atom_list.clear()
    _subst_memo.clear()
    _init_consts()


class Atom:
    __slots__ = ("id", "op", "args", "sort", "fv")

    def __repr__(self):
        return atom_str(self)


class Poly:
    __slots__ = ("items", "id", "fv", "isint")

    def __repr__(self):
        return poly_str(self)

    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __neg__(self):
        return scale(self, -1)

    def __truediv__(self, o):
        return rdiv(self, lift(o))

    def __rtruediv__(self, o):
        return rdiv(lift(o), self)

    def __pow__(self, k):
        r = ONE
        for _ in range(k):
            r = mul(r, self)
        return r

    # comparisons build Bool terms
    def __lt__(self, o):
        return lt(self, lift(o))

    def __le__(self, o):
        return le(self, lift(o))

    def __gt__(self, o):
        return lt(lift(o), self)

    def __ge__(self, o):
        return le(lift(o), self)

    def eq(self, o):
        return eq(self, lift(o))


class Bool:
    __slots__ = ("op", "args", "id", "fv")

    def __repr__(self):
        return bool_str(self)

    def __and__(self, o):
        return conj(self, o)

    def __or__(self, o):
        return disj(self, o)

    def __invert__(self):
        return neg(self)


EMPTY = frozenset()


# ------------------------------------------------------------- construction
def mkatom(op, args, sort):
    key = (op, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.op, a.args, a.sort = op, args, sort
        a.id = len(_atom_list)
        _atom_list.append(a)
        if op == "var":
            a.fv = frozenset([a])
        else:
            a.fv = _fv_of(op, args)
        _atoms[key] = a
    return a


def _fv_of(op, args):
    if op == "sum":
        bs, g, body = args
        s = set(g.fv) | set(body.fv)
        for b, lo, hi in bs:
            s |= lo.fv
            s |= hi.fv
        s -= {b for b, _, _ in bs}
        return frozenset(s)
    s = EMPTY
    for x in args:
        if isinstance(x, (Poly, Bool)):
            s = s | x.fv
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Poly, Bool)):
                    s = s | y.fv
    return s


def mkpoly(d):
    """d: dict mono->coef (coef may be int or Fraction)"""
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=_mkey))
    p = _polys.get(items)
    if p is None:
        p = Poly()
        p.items = items
        p.id = len(_polys)
        s = EMPTY
        ii = True
        for m, c in items:
            if ii and (c.denominator != 1):
                ii = False
            for a, e in m:
                s = s | a.fv
                if a.sort != "int":
                    ii = False
        p.fv = s
        p.isint = ii
        _polys[items] = p
    return p


def _mkey(it):
    return tuple((a.id, e) for a, e in it[0])


def const(c):
    c = Fraction(c)
    return mkpoly({(): c}) if c else ZERO


def num(x):
    """exact rational of a decimal literal; simple multiples of pi get one common value"""
    f = Fraction(x)
    for k in (Fraction(1, 2), Fraction(1), Fraction(2), Fraction(4), Fraction(1, 4)):
        if f and abs(abs(f) / (k * PI) - 1) < Fraction(1, 10 ** 14):
            return const(k * PI * (1 if f > 0 else -1))
    return const(f)


PI = Fraction("3.14159265358979323846264338327950288")


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return P(x)
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    return const(x)


def P(atom):
    return mkpoly({((atom, 1),): Fraction(1)})


def var(name, sort="int"):
    return P(mkatom("var", (name,), sort))


_fresh = [0]


def fresh(prefix="v", sort="int"):
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}", sort)


def the_atom(p):
    """the single atom a poly consists of, or None"""
    if len(p.items) == 1:
        m, c = p.items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def is_const(p):
    return len(p.items) == 0 or (len(p.items) == 1 and p.items[0][0] == ())


def cval(p):
    if not p.items:
        return Fraction(0)
    if len(p.items) == 1 and p.items[0][0] == ():
        return p.items[0][1]
    return None


def add(a, b):
    if not a.items:
        return b
    if not b.items:
        return a
    d = dict(a.items)
    for m, c in b.items:
        d[m] = d.get(m, 0) + c
    return mkpoly(d)


def addn(ps):
    d = {}
    for p in ps:
        for m, c in p.items:
            d[m] = d.get(m, 0) + c
    return mkpoly(d)


def scale(a, k):
    k = Fraction(k)
    if k == 1:
        return a
    return mkpoly({m: c * k for m, c in a.items})


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, scale(b, -1))


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # idempotent indicator atoms: ite(c,1,0)^k = ite(c,1,0)
    out = []
    for a, e in d.items():
        if e > 1 and a.op == "ite" and is_ind(a):
            e = 1
        if e:
            out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out)


def is_ind(a):
    return a.op == "ite" and a.args[1] is ONE and a.args[2] is ZERO


MAXMONO = 6000


def mul(a, b):
    if not a.items or not b.items:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    n = len(a.items) * len(b.items)
    if n >= 16 and a is b and all(any(x.op == "sum" and len(x.args[0]) > 1 for x, _ in m) for m, _ in a.items):
        # square of a long sum of sums: kept as one symbol
        return square(a)
    if n > MAXMONO:
        raise TermError("polynomial too large")
    d = {}
    for m1, c1 in a.items:
        for m2, c2 in b.items:
            m = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d)


def inv(p):
    c = cval(p)
    if c is not None:
        if c == 0:
            # division by literal zero: opaque
            return P(mkatom("inv", (p,), "real"))
        return const(1 / c)
    # 1/(k*monomial) -> product of inverses
    if len(p.items) == 1:
        m, c = p.items[0]
        r = const(1 / c)
        for a, e in m:
            if a.op == "inv":
                f = a.args[0]
            elif a.op == "sqrt":
                f = P(mkatom("inv", (P(a),), "real"))
            else:
                f = P(mkatom("inv", (P(a),), "real"))
            for _ in range(e):
                r = mul(r, f)
        return r
    # common factors: 1/(a*x + a*y) = 1/a * 1/(x + y)
    com = dict(p.items[0][0])
    for m, _ in p.items[1:]:
        d = dict(m)
        com = {a: min(e, d[a]) for a, e in com.items() if a in d}
        if not com:
            break
    if com:
        mono = ONE
        for a, e in com.items():
            for _ in range(e):
                mono = mul(mono, P(a))
        rest = ZERO
        for m, c in p.items:
            t = const(c)
            for a, e in m:
                for _ in range(e - com.get(a, 0)):
                    t = mul(t, P(a))
            rest = add(rest, t)
        return mul(inv(mono), inv(rest))
    # normalise leading coefficient
    c = p.items[0][1]
    q = scale(p, 1 / c)
    return mul(const(1 / c), P(mkatom("inv", (q,), "real")))


def rdiv(a, b):
    return mul(a, inv(b))


def square(a):
    if len(a.items) < 2:
        return mul(a, a)
    return P(mkatom("app", ("sq", (a if a.items[0][1] > 0 else scale(a, -1),)), "real"))


def app(name, args, sort="real"):
    if name == "sq":
        return square(args[0])
    return P(mkatom("app", (name, tuple(args)), sort))


def func(name, x):
    """real function of one argument with the few folds we need"""
    c = cval(x)
    if name == "sqrt":
        if c is not None and c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    if name in ("exp", "cos", "cosh") and c == 0:
        return ONE
    if name in ("sin", "sinh", "tan") and c == 0:
        return ZERO
    if name == "cos" and _neg_lead(x):
        x = scale(x, -1)
    if name == "sin" and _neg_lead(x):
        return scale(app("sin", (scale(x, -1),)), -1)
    if name == "sinh" and _neg_lead(x):
        return scale(app("sinh", (scale(x, -1),)), -1)
    if name == "fabs":
        if c is not None:
            return const(abs(c))
        return ite(lt(x, ZERO), scale(x, -1), x)
    return app(name, (x,))


def _neg_lead(x):
    # canonical sign: compare by the smallest monomial key
    return bool(x.items) and x.items[0][1] < 0


# ------------------------------------------------------------- booleans
def mkbool(op, args):
    key = (op, args)
    b = _bools.get(key)
    if b is None:
        b = Bool()
        b.op, b.args = op, args
        b.id = len(_bools)
        s = EMPTY
        for x in args:
            if isinstance(x, (Poly, Bool)):
                s = s | x.fv
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (Poly, Bool)):
                        s = s | y.fv
        if op == "exists":
            s = (args[1].fv | args[0][1].fv | args[0][2].fv) - {args[0][0]}
        b.fv = s
        _bools[key] = b
    return b


def bconst(x):
    return TRUE if x else FALSE


def _norm_rel(p):
    """scale to canonical positive factor (keeps the sign of the relation)"""
    if not p.items:
        return p
    if p.isint:
        g = 0
        for m, c in p.items:
            g = math.gcd(g, int(c))
        if g > 1:
            # only the non constant part may be divided with care for le
            return scale(p, Fraction(1, g))
        return p
    c = abs(p.items[-1][1]) if p.items[-1][0] else abs(p.items[0][1])
    return scale(p, 1 / c)


def _ite_const_lift(p):
    """p = k*ite(c,a,b)+d with constant a,b -> (c, value if c, value if not c)"""
    at = None
    k = d = Fraction(0)
    for m, c in p.items:
        if m == ():
            d = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite" and at is None:
            at, k = m[0][0], c
        else:
            return None
    if at is None:
        return None
    c, a, b = at.args
    if cval(a) is None and cval(b) is None:
        return None
    return c, add(scale(a, k), const(d)), add(scale(b, k), const(d))


def le0(p):
    c = cval(p)
    if c is not None:
        return bconst(c <= 0)
    l = _ite_const_lift(p)
    if l:
        return bite(l[0], le0(l[1]), le0(l[2]))
    if p.isint:
        g = 0
        k = Fraction(0)
        for m, cc in p.items:
            if m == ():
                k = cc
            else:
                g = math.gcd(g, int(cc))
        if g > 1:
            # g*q + k <= 0  <=>  q + ceil(k/g) <= 0
            d = {m: cc / g for m, cc in p.items if m != ()}
            d[()] = Fraction(math.ceil(k / g))
            p = mkpoly(d)
        return mkbool("le", (p,))
    return mkbool("le", (_norm_rel(p),))


def lt0(p):
    if p.isint:
        return le0(add(p, ONE))
    c = cval(p)
    if c is not None:
        return bconst(c < 0)
    l = _ite_const_lift(p)
    if l:
        return bite(l[0], lt0(l[1]), lt0(l[2]))
    return mkbool("lt", (_norm_rel(p),))


def eq0(p):
    c = cval(p)
    if c is not None:
        return bconst(c == 0)
    l = _ite_const_lift(p)
    if l:
        return bite(l[0], eq0(l[1]), eq0(l[2]))
    if p.items[-1][1] < 0:
        p = scale(p, -1)
    if p.isint:
        g = 0
        k = 0
        for m, cc in p.items:
            if m == ():
                k = int(cc)
            else:
                g = math.gcd(g, int(cc))
        if g > 1 and k % g:
            return FALSE
        if g > 1:
            p = scale(p, Fraction(1, g))
    else:
        p = scale(p, 1 / abs(p.items[-1][1]))
    return mkbool("eq", (p,))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def eq(a, b):
    return eq0(sub(lift(a), lift(b)))


def ne(a, b):
    return neg(eq(a, b))


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        return lt0(scale(b.args[0], -1))
    if b.op == "lt":
        return le0(scale(b.args[0], -1))
    if b.op == "and":
        return disj(*[neg(x) for x in b.args])
    if b.op == "or":
        return conj(*[neg(x) for x in b.args])
    return mkbool("not", (b,))


def conj(*bs):
    out = {}
    st = list(bs)
    while st:
        b = st.pop()
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        if b.op == "and":
            st.extend(b.args)
        else:
            out[b.id] = b
    for b in out.values():
        if neg(b).id in out and out.get(neg(b).id) is neg(b):
            return FALSE
    if not out:
        return TRUE
    # absorption: a & (a | x) -> a ; a & (~a | x) -> a & x
    changed = True
    while changed:
        changed = False
        for k, b in list(out.items()):
            if b.op == "or":
                if any(x.id in out for x in b.args):
                    del out[k]
                    changed = True
                    continue
                na = [x for x in b.args if neg(x).id not in out]
                if len(na) < len(b.args):
                    del out[k]
                    nb = disj(*na)
                    if nb is FALSE:
                        return FALSE
                    if nb.op == "and":
                        return conj(*out.values(), nb)
                    if nb is not TRUE:
                        out[nb.id] = nb
                    changed = True
    xs = tuple(out[k] for k in sorted(out))
    if len(xs) == 1:
        return xs[0]
    return mkbool("and", xs)


def disj(*bs):
    out = {}
    st = list(bs)
    while st:
        b = st.pop()
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        if b.op == "or":
            st.extend(b.args)
        else:
            out[b.id] = b
    for b in out.values():
        nb = neg(b)
        if nb.op == "and":
            # ~b = x&y ; covered if handled below
            pass
        if out.get(nb.id) is nb:
            return TRUE
    if not out:
        return FALSE
    changed = True
    while changed:
        changed = False
        for k, b in list(out.items()):
            if b.op == "and":
                if any(x.id in out for x in b.args):
                    del out[k]
                    changed = True
                    continue
                na = [x for x in b.args if neg(x).id not in out]
                if len(na) < len(b.args):
                    del out[k]
                    nb = conj(*na)
                    if nb is TRUE:
                        return TRUE
                    if nb.op == "or":
                        return disj(*out.values(), nb)
                    if nb is not FALSE:
                        out[nb.id] = nb
                    changed = True
    xs = tuple(out[k] for k in sorted(out))
    if len(xs) == 1:
        return xs[0]
    return mkbool("or", xs)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return disj(conj(c, a), conj(neg(c), b))


def bvar(name):
    return mkbool("bvar", (name,))


def bapp(name, args):
    return mkbool("bapp", (name, tuple(args)))


def conjuncts(b):
    if b.op == "and":
        return b.args
    if b is TRUE:
        return ()
    return (b,)


# ------------------------------------------------------------- ite
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not" or (c.op == "or"):
        return ite(neg(c), b, a)
    if c.op in ("le", "lt"):
        n = neg(c)
        if n.id < c.id:
            return ite(n, b, a)
    # extract the common part
    da, db = dict(a.items), dict(b.items)
    common = {m: k for m, k in a.items if db.get(m) == k}
    if common:
        cp = mkpoly(common)
        a2, b2 = sub(a, cp), sub(b, cp)
        return add(cp, ite(c, a2, b2))
    # nested same condition
    aa, ab = the_atom(a), the_atom(b)
    if aa is not None and aa.op == "ite" and aa.args[0] is c:
        return ite(c, aa.args[1], b)
    if ab is not None and ab.op == "ite" and ab.args[0] is c:
        return ite(c, a, ab.args[2])
    if aa is not None and aa.op == "ite" and aa.args[2] is b:
        return ite(conj(c, aa.args[0]), aa.args[1], b)
    if aa is not None and aa.op == "ite" and aa.args[1] is b:
        return ite(conj(c, neg(aa.args[0])), aa.args[2], b)
    if ab is not None and ab.op == "ite" and ab.args[1] is a:
        return ite(disj(c, ab.args[0]), a, ab.args[2])
    if ab is not None and ab.op == "ite" and ab.args[2] is a:
        return ite(disj(c, neg(ab.args[0])), a, ab.args[1])
    sort = "int" if (a.isint and b.isint) else "real"
    # pull a common constant factor / sign out when the other branch is zero
    if not b.items and a.items:
        # every monomial separately keeps sums canonical
        if len(a.items) > 1:
            return addn([ite(c, mkpoly({m: k}), ZERO) for m, k in a.items])
        m, k = a.items[0]
        # k * m * ind(c): indicator form keeps products canonical
        ind = P(mkatom("ite", (c, ONE, ZERO), "int"))
        return mul(mkpoly({m: k}), ind)
    if not a.items and b.items:
        return ite(neg_force(c), b, a) if False else _ite_zero_then(c, b)
    return P(mkatom("ite", (c, a, b), sort))


def _ite_zero_then(c, b):
    # ite(c,0,b) = b - b*ind(c)   -- keep as indicator of the negation instead
    n = neg(c)
    if n.op in ("or", "not"):
        ind = sub(ONE, P(mkatom("ite", (c, ONE, ZERO), "int")))
        return mul(b, ind)
    if n.op in ("le", "lt") and c.id < n.id:
        ind = sub(ONE, P(mkatom("ite", (c, ONE, ZERO), "int")))
        return mul(b, ind)
    ind = P(mkatom("ite", (n, ONE, ZERO), "int"))
    return mul(b, ind)


def indicator(c):
    return ite(c, ONE, ZERO)


# ------------------------------------------------------------- div / mod (C semantics)
def split_multiple(a, d):
    """a = q*d + r with q,r polys, taking into q every monomial of a divisible by d
    (d a single monomial)"""
    if len(d.items) != 1:
        # polynomial divisor: try exact polynomial multiples of whole d
        return _split_poly(a, d)
    dm, dc = d.items[0]
    q, r = {}, {}
    for m, c in a.items:
        rest = mono_div(m, dm)
        if rest is not None and (Fraction(c) / dc).denominator == 1:
            q[rest] = q.get(rest, 0) + Fraction(c) / dc
        else:
            if dm == () and c.denominator == 1 and dc.denominator == 1 and m == ():
                k = int(c) // int(dc)
                if k:
                    q[()] = q.get((), 0) + k
                c = c - k * dc
                if c:
                    r[m] = c
            else:
                r[m] = c
    return mkpoly(q), mkpoly(r)


def _split_poly(a, d):
    # leading monomial division (one variable order)
    q = ZERO
    r = a
    lm, lc = max(d.items, key=lambda it: (sum(e for _, e in it[0]), _mkey(it)))
    rem = {}
    guard = 0
    work = dict(r.items)
    while work and guard < 200:
        guard += 1
        hit = None
        for m in list(work):
            rest = mono_div(m, lm)
            if rest is not None and (work[m] / lc).denominator == 1:
                hit = (m, rest)
                break
        if hit is None:
            break
        m, rest = hit
        k = work[m] / lc
        t = mkpoly({rest: k})
        q = add(q, t)
        work = dict(sub(mkpoly(work), mul(t, d)).items)
    return q, mkpoly(work)


def mono_div(m, dm):
    d = dict(m)
    for a, e in dm:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def cdiv_atom(a, b):
    return P(mkatom("div", (a, b), "int"))


def cmod_atom(a, b):
    return P(mkatom("mod", (a, b), "int"))


# ------------------------------------------------------------- substitution
_subst_memo = {}


def subst(t, m):
    """m: dict Atom(var) -> Poly"""
    if not m:
        return t
    key = tuple(sorted((a.id, p.id) for a, p in m.items()))
    memo = _subst_memo.setdefault(key, {})
    if len(_subst_memo) > 4000:
        _subst_memo.clear()
        memo = _subst_memo.setdefault(key, {})
    ks = frozenset(m)
    return _subst(t, m, ks, memo)


def _subst(t, m, ks, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, ks, memo) for x in t)
    if not isinstance(t, (Poly, Bool)):
        return t
    if not (t.fv & ks):
        return t
    k = (0 if isinstance(t, Poly) else 1, t.id)
    r = memo.get(k)
    if r is not None:
        return r
    if isinstance(t, Poly):
        parts = []
        for mono, c in t.items:
            r = const(c)
            for a, e in mono:
                x = _subst_atom(a, m, ks, memo)
                for _ in range(e):
                    r = mul(r, x)
            parts.append(r)
        r = addn(parts)
    else:
        r = rebuild_bool(t, lambda x: _subst(x, m, ks, memo))
    memo[k] = r
    return r


def rebuild_bool(t, f):
    op = t.op
    if op == "le":
        return le0(f(t.args[0]))
    if op == "lt":
        return lt0(f(t.args[0]))
    if op == "eq":
        return eq0(f(t.args[0]))
    if op == "not":
        return neg(f(t.args[0]))
    if op == "and":
        return conj(*[f(x) for x in t.args])
    if op == "or":
        return disj(*[f(x) for x in t.args])
    if op == "bapp":
        return bapp(t.args[0], tuple(f(x) for x in t.args[1]))
    if op == "exists":
        (b, lo, hi), g = t.args
        return mkexists((b, f(lo), f(hi)), f(g))
    return t


def mkexists(binder, g):
    return mkbool("exists", (binder, g)) if g is not FALSE else FALSE


def _subst_atom(a, m, ks, memo):
    if a in m:
        return m[a]
    if not (a.fv & ks):
        return P(a)
    f = lambda x: _subst(x, m, ks, memo)
    return rebuild_atom(a, f)


def rebuild_atom(a, f):
    op = a.op
    if op == "app":
        nm, args = a.args
        na = tuple(f(x) for x in args)
        if nm in ("sqrt", "exp", "cos", "sin", "sinh", "cosh") and len(na) == 1:
            return func(nm, na[0])
        return app(nm, na, a.sort)
    if op == "ite":
        return ite(f(a.args[0]), f(a.args[1]), f(a.args[2]))
    if op == "inv":
        return inv(f(a.args[0]))
    if op == "div":
        return cdiv(f(a.args[0]), f(a.args[1]))
    if op == "mod":
        return cmod(f(a.args[0]), f(a.args[1]))
    if op == "fti":
        return fti(f(a.args[0]))
    if op == "sum":
        bs, g, body = a.args
        return mksum([(b, f(lo), f(hi)) for b, lo, hi in bs], f(g), f(body))
    return P(a)


def cdiv(a, b):
    """C integer division; exact folds only (range based folds are the engine's job)"""
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0:
        q = abs(int(ca)) // abs(int(cb))
        return const(q if (ca >= 0) == (cb > 0) else -q)
    if cb == 1:
        return a
    if not a.items:
        return ZERO
    if cb is None or cb != 0:
        q, r = split_multiple(a, b)
        if not r.items:
            return q
    return cdiv_atom(a, b)


def cmod(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0:
        q = abs(int(ca)) // abs(int(cb))
        q = q if (ca >= 0) == (cb > 0) else -q
        return const(ca - q * cb)
    if cb == 1:
        return ZERO
    if not a.items:
        return ZERO
    q, r = split_multiple(a, b)
    if not r.items:
        return ZERO
    return cmod_atom(a, b)


def fti(p):
    if p.isint:
        return p
    return P(mkatom("fti", (p,), "int"))


# ------------------------------------------------------------- finite sums
def bvname(k):
    return mkatom("var", (f"#{k}",), "int")


def _max_bv(fv):
    m = -1
    for a in fv:
        n = a.args[0]
        if n[0] == "#":
            m = max(m, int(n[1:]))
    return m


_height_memo = {}


def _height(t):
    """1 + largest canonical bound variable index used anywhere inside (bound or free)"""
    return _h(t)


def _h(t):
    if isinstance(t, Poly):
        k = ("p", t.items)
        r = _height_memo.get(k)
        if r is None:
            r = 0
            for m, c in t.items:
                for a, e in m:
                    r = max(r, _h(a))
            _height_memo[k] = r
        return r
    if isinstance(t, Bool):
        r = 0
        for x in t.args:
            if isinstance(x, (Poly, Bool, tuple)):
                r = max(r, _h(x))
        return r
    if isinstance(t, tuple):
        r = 0
        for x in t:
            if isinstance(x, (Poly, Bool, tuple, Atom)):
                r = max(r, _h(x))
        return r
    if isinstance(t, Atom):
        if t.op == "var":
            n = t.args[0]
            return int(n[1:]) + 1 if n[0] == "#" else 0
        r = 0
        for x in t.args:
            if isinstance(x, (Poly, Bool, tuple, Atom)):
                r = max(r, _h(x))
        return r
    return 0


def mksum(binders, guard, body):
    """Sum over binders [(Atom var, lo, hi)] (lo <= v < hi) with guard, of body.
    Later binders' ranges may depend on earlier ones."""
    if guard is FALSE or not body.items:
        return ZERO
    if not binders:
        return ite(guard, body, ZERO)
    bs = [(b if isinstance(b, Atom) else the_atom(b), lift(lo), lift(hi)) for b, lo, hi in binders]
    # empty / single ranges
    for k, (b, lo, hi) in enumerate(bs):
        n = cval(sub(hi, lo))
        if n is not None and n <= 0:
            return ZERO
        if n == 1:
            rest = bs[:k] + [(c, subst(l, {b: lo}), subst(h, {b: lo})) for c, l, h in bs[k + 1:]]
            return mksum(rest, subst(guard, {b: lo}), subst(body, {b: lo}))
    out = []
    for m, c in body.items:
        out.append(scale(_sum_mono(bs, guard, m), c))
    return addn(out)


def _open(s):
    """open a sum atom with fresh bound variables"""
    bs, g, body = s.args
    ren = {}
    nbs = []
    for b, lo, hi in bs:
        f = the_atom(fresh("k"))
        nbs.append((f, subst(lo, ren), subst(hi, ren)))
        ren[b] = P(f)
    return nbs, subst(g, ren), subst(body, ren)


def _sum_mono(bs, guard, m):
    bvs = frozenset(b for b, _, _ in bs)
    # 1. indicator atoms -> guard ; nested sums -> merged binders
    while True:
        hit = False
        for k, (a, e) in enumerate(m):
            if not (a.fv & bvs):
                continue
            if a.op == "ite":
                c, x, y = a.args
                rest = m[:k] + m[k + 1:]
                if is_ind(a):
                    guard = conj(guard, c)
                    if guard is FALSE:
                        return ZERO
                    m = rest
                    hit = True
                    break
                if e == 1:
                    r = mkpoly({rest: Fraction(1)})
                    return add(mksum(bs, conj(guard, c), mul(r, x)),
                               mksum(bs, conj(guard, neg(c)), mul(r, y)))
            elif a.op == "sum" and e == 1:
                nbs, g, body = _open(a)
                rest = mkpoly({m[:k] + m[k + 1:]: Fraction(1)})
                return mksum(bs + nbs, conj(guard, g), mul(rest, body))
        if not hit:
            break
    # 2. equality guards eliminate binders
    for c in conjuncts(guard):
        if c.op == "eq":
            p = c.args[0]
            for k, (b, lo, hi) in enumerate(bs):
                if b in p.fv:
                    sol = solve_linear(p, b)
                    if sol is None:
                        continue
                    # ranges of later binders may mention b; earlier ones may not be used in sol if they come later
                    later = {x for x, _, _ in bs[k + 1:]}
                    if sol.fv & later:
                        # allowed when no range of binders between depends badly: reorder if independent
                        ok = True
                        for x, l2, h2 in bs[k + 1:]:
                            if b in l2.fv or b in h2.fv:
                                ok = False
                        if not ok:
                            continue
                    rest_g = conj(*[x for x in conjuncts(guard) if x is not c])
                    rest_g = conj(rest_g, le(lo, sol), lt(sol, hi))
                    mm = {b: sol}
                    nbs = bs[:k] + [(x, subst(l2, mm), subst(h2, mm)) for x, l2, h2 in bs[k + 1:]]
                    return mksum(nbs, subst(rest_g, mm), subst(mkpoly({m: Fraction(1)}), mm))
    # all but one value of a short range excluded
    for k, (b, lo, hi) in enumerate(bs):
        l, h = cval(lo), cval(hi)
        if l is None or h is None or not 1 < h - l <= 8:
            continue
        left = set(range(int(l), int(h)))
        for c in conjuncts(guard):
            if c.op == "not" and c.args[0].op == "eq" and c.fv == frozenset((b,)):
                sol = solve_linear(c.args[0].args[0], b)
                if sol is not None and cval(sol) is not None:
                    left.discard(int(cval(sol)))
        if not left:
            return ZERO
        if len(left) == 1:
            mm = {b: const(left.pop())}
            nbs = bs[:k] + [(x, subst(l2, mm), subst(h2, mm)) for x, l2, h2 in bs[k + 1:]]
            return mksum(nbs, subst(guard, mm), subst(mkpoly({m: Fraction(1)}), mm))
    # 3. pull out what does not depend on the binders
    outside = [(a, e) for a, e in m if not (a.fv & bvs)]
    inside = [(a, e) for a, e in m if a.fv & bvs]
    gout = [c for c in conjuncts(guard) if not (c.fv & bvs)]
    gin = [c for c in conjuncts(guard) if c.fv & bvs]
    # 4. connected components of binders
    comp = {b: b for b, _, _ in bs}

    def find(x):
        while comp[x] is not x:
            x = comp[x]
        return x

    def union(xs):
        xs = list(xs)
        for y in xs[1:]:
            comp[find(xs[0])] = find(y)

    for a, e in inside:
        union(a.fv & bvs)
    for c in gin:
        union(c.fv & bvs)
    for b, lo, hi in bs:
        union([b] + list((lo.fv | hi.fv) & bvs))
    groups = {}
    for t in bs:
        groups.setdefault(find(t[0]), []).append(t)
    res = mkpoly({tuple(outside): Fraction(1)})
    for root, gb in groups.items():
        gs = frozenset(t[0] for t in gb)
        mm = tuple((a, e) for a, e in inside if a.fv & gs)
        gg = conj(*[c for c in gin if c.fv & gs])
        if not mm and gg is TRUE and len(gb) == 1:
            b, lo, hi = gb[0]
            n = sub(hi, lo)
            # sum of 1 over lo..hi-1 ; exact only for hi>=lo
            if cval(n) is not None:
                res = mul(res, n)
            else:
                res = mul(res, ite(le(ZERO, n), n, ZERO) if _needs_nonneg(n) else n)
            continue
        res = mul(res, _canon_sum(gb, gg, mkpoly({mm: Fraction(1)})))
    return ite(conj(*gout), res, ZERO) if gout else res


def expand_short(t, limit=4):
    """write sums over constant ranges out"""
    def fn(a, go):
        if a.op != "sum":
            return None
        bs, g, body = a.args
        for k, (b, lo, hi) in enumerate(bs):
            l, h = cval(lo), cval(hi)
            if l is not None and h is not None and h - l <= limit:
                out = []
                for v in range(int(l), int(h)):
                    mm = {b: const(v)}
                    nbs = bs[:k] + tuple((x, subst(l2, mm), subst(h2, mm)) for x, l2, h2 in bs[k + 1:])
                    out.append(rewrite(mksum(nbs, subst(g, mm), subst(body, mm)), fn))
                return addn(out)
        return None
    return rewrite(t, fn)


NONNEG = set()   # atoms known to be >= 0 (registered by contracts: sizes)


def _needs_nonneg(n):
    for m, c in n.items:
        if c < 0:
            return True
        for a, e in m:
            if a not in NONNEG:
                return True
    return False


def solve_linear(p, v):
    """p = 0 solved for variable v (coefficient must be +-1 and v must not occur elsewhere)"""
    co = None
    rest = {}
    for m, c in p.items:
        if m == ((v, 1),):
            co = c
        else:
            for a, e in m:
                if v in a.fv:
                    return None
            rest[m] = c
    if co not in (1, -1):
        return None
    return scale(mkpoly(rest), -1 / co)


def _canon_sum(gb, guard, body):
    own = {b: fresh("k") for b, _, _ in gb if b.args[0][0] == "#"}
    if own:
        # the binders' own canonical names must not influence the numbering
        guard, body = subst(guard, own), subst(body, own)
        gb = [(the_atom(own[b]) if b in own else b, subst(lo, own), subst(hi, own)) for b, lo, hi in gb]
    base = max([_h(guard), _h(body)] + [max(_h(lo), _h(hi)) for _, lo, hi in gb])
    n = len(gb)
    # order constraints from dependent ranges
    idx = {t[0]: k for k, t in enumerate(gb)}
    deps = [{idx[x] for x in (lo.fv | hi.fv) if x in idx} for _, lo, hi in gb]
    # signature to cut the number of permutations
    sig = []
    for k, (b, lo, hi) in enumerate(gb):
        occ = []
        ren1 = {x: P(mkatom("var", ("?",), "int")) if x is b else P(mkatom("var", ("??",), "int")) for x, _, _ in gb}
        s = (subst(lo, ren1).id, subst(hi, ren1).id, subst_light(body, ren1), subst_light(guard, ren1))
        sig.append(s)
    order0 = sorted(range(n), key=lambda k: sig[k])
    # candidates: permutations inside equal-signature classes
    classes = []
    for k in order0:
        if classes and sig[classes[-1][0]] == sig[k]:
            classes[-1].append(k)
        else:
            classes.append([k])
    cands = [[]]
    for cl in classes:
        ps = list(permutations(cl)) if len(cl) <= 4 else [tuple(cl)]
        cands = [c + list(p) for c in cands for p in ps]
        if len(cands) > 200:
            cands = cands[:200]
    best = None
    for perm in cands:
        # respect dependencies: stable topological order
        perm2, done, todo = [], set(), list(perm)
        while todo:
            for k in todo:
                if deps[k] <= done:
                    perm2.append(k)
                    done.add(k)
                    todo.remove(k)
                    break
            else:
                raise TermError("cyclic ranges")
        ren = {gb[k][0]: P(bvname(base + pos)) for pos, k in enumerate(perm2)}
        nb = subst(body, ren)
        ng = subst(guard, ren)
        rng = tuple((bvname(base + pos), subst(gb[k][1], ren), subst(gb[k][2], ren)) for pos, k in enumerate(perm2))
        key = (nb.id, ng.id, tuple((l.id, h.id) for _, l, h in rng))
        if best is None or key < best[0]:
            best = (key, rng, ng, nb)
    _, rng, ng, nb = best
    sort = "int" if nb.isint else "real"
    return P(mkatom("sum", (rng, ng, nb), sort))


def subst_light(t, ren):
    return subst(t, ren).id


# ------------------------------------------------------------- generic traversal
def atoms_in(t, acc=None, seen=None):
    """all atoms, including nested ones"""
    if acc is None:
        acc, seen = {}, set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Poly):
            if ("p", x.id) in seen:
                continue
            seen.add(("p", x.id))
            for m, c in x.items:
                for a, e in m:
                    st.append(a)
        elif isinstance(x, Bool):
            if ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            st.extend(y for y in x.args if isinstance(y, (Poly, Bool, tuple, Atom)))
        elif isinstance(x, Atom):
            if x.id in acc:
                continue
            acc[x.id] = x
            st.extend(y for y in x.args if isinstance(y, (Poly, Bool, tuple)))
    return acc


def rewrite(t, fn, memo=None):
    """bottom-up rewrite: fn(atom) -> Poly or None (None = rebuild)"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, Poly):
            k = ("p", x.id)
            if k in memo:
                return memo[k]
            parts = []
            for m, c in x.items:
                r = const(c)
                for a, e in m:
                    y = goa(a)
                    for _ in range(e):
                        r = mul(r, y)
                parts.append(r)
            r = addn(parts)
            memo[k] = r
            return r
        if isinstance(x, Bool):
            k = ("b", x.id)
            if k in memo:
                return memo[k]
            r = rebuild_bool(x, go)
            memo[k] = r
            return r
        return x

    def goa(a):
        k = ("a", a.id)
        if k in memo:
            return memo[k]
        r = fn(a, go)
        if r is None:
            r = rebuild_atom(a, go) if a.op != "var" else P(a)
        memo[k] = r
        return r

    return go(t)


def simp_under(t, cond):
    """replace conditions known from the conjuncts of cond"""
    known = {}
    for c in conjuncts(cond):
        known[c] = TRUE
        known[neg(c)] = FALSE
    if not known:
        return t

    memo = {}

    def gob(b):
        if b in known:
            return known[b]
        if b.op in ("and", "or", "not"):
            return rebuild_bool(b, gob)
        if b.op in ("le", "lt", "eq") and any(a.op == "ite" for a in atoms_in(b).values()):
            b = rebuild_bool(b, lambda p: rewrite(p, fn, memo))
            return known.get(b, b)
        return b

    def fn(a, go):
        if a.op == "ite":
            c = gob(a.args[0])
            return ite(c, go(a.args[1]), go(a.args[2]))
        if a.op == "sum":
            bs, g, body = a.args
            return mksum(bs, gob(g), go(body)) if True else None
        return None

    if isinstance(t, Bool):
        return gob(t)
    return rewrite(t, fn, memo)


# ------------------------------------------------------------- printing
def atom_str(a):
    if a.op == "var":
        return a.args[0]
    if a.op == "app":
        return f"{a.args[0]}({', '.join(map(str, a.args[1]))})"
    if a.op == "ite":
        return f"({a.args[0]} ? {a.args[1]} : {a.args[2]})"
    if a.op == "inv":
        return f"1/({a.args[0]})"
    if a.op == "div":
        return f"({a.args[0]} div {a.args[1]})"
    if a.op == "mod":
        return f"({a.args[0]} mod {a.args[1]})"
    if a.op == "fti":
        return f"trunc({a.args[0]})"
    if a.op == "sum":
        bs, g, body = a.args
        r = ", ".join(f"{lo}<={b}<{hi}" for b, lo, hi in bs)
        return f"SUM[{r}{'' if g is TRUE else ' | ' + str(g)}]({body})"
    return f"{a.op}{a.args}"


def poly_str(p):
    if not p.items:
        return "0"
    out = []
    for m, c in p.items:
        ms = "*".join(atom_str(a) + (f"^{e}" if e > 1 else "") for a, e in m)
        if not ms:
            out.append(str(c) if c.denominator < 10**6 else repr(float(c)))
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append("-" + ms)
        else:
            out.append((str(c) if c.denominator < 10**6 else repr(float(c))) + "*" + ms)
    return " + ".join(out).replace("+ -", "- ")


def bool_str(b):
    if b.op == "true":
        return "true"
    if b.op == "false":
        return "false"
    if b.op == "le":
        return f"{b.args[0]} <= 0"
    if b.op == "lt":
        return f"{b.args[0]} < 0"
    if b.op == "eq":
        return f"{b.args[0]} == 0"
    if b.op == "not":
        return f"!({b.args[0]})"
    if b.op == "and":
        return "(" + " && ".join(map(str, b.args)) + ")"
    if b.op == "or":
        return "(" + " || ".join(map(str, b.args)) + ")"
    if b.op == "bvar":
        return b.args[0]
    if b.op == "bapp":
        return f"{b.args[0]}({', '.join(map(str, b.args[1]))})"
    return f"{b.op}{b.args}"


def _init_consts():
    global ZERO, ONE, TRUE, FALSE
    ZERO = mkpoly({})
    ONE = mkpoly({(): Fraction(1)})
    TRUE = mkbool("true", ())
    FALSE = mkbool("false", ())


_init_consts()


# ------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def ev(t, env, funcs=None, bind=None):
    """concrete evaluation. env: name->number for variables, funcs: name->callable for
    applications."""
    bind = bind or {}

    def pe(p):
        s = 0
        for m, c in p.items:
            r = c.numerator if c.denominator == 1 else c.numerator / c.denominator
            # evaluate indicators first so that guarded factors are never evaluated
            ms = sorted(m, key=lambda x: 0 if x[0].op == "ite" else 1)
            for a, e in ms:
                v = ae(a)
                if v == 0:
                    r = 0
                    break
                r = r * v ** e
            s = s + r
        return s

    def ae(a):
        op = a.op
        if op == "var":
            if a in bind:
                return bind[a]
            if a.args[0] in env:
                return env[a.args[0]]
            raise EvalError("unbound " + a.args[0])
        if op == "app":
            nm, args = a.args
            vs = [pe(x) if isinstance(x, Poly) else be(x) for x in args]
            if nm == "sq":
                return vs[0] * vs[0]
            f = (funcs or {}).get(nm) or getattr(math, nm, None)
            if f is None:
                raise EvalError("no function " + nm)
            return f(*vs)
        if op == "ite":
            return pe(a.args[1]) if be(a.args[0]) else pe(a.args[2])
        if op == "inv":
            return 1.0 / pe(a.args[0])
        if op == "div":
            x, y = pe(a.args[0]), pe(a.args[1])
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y > 0) else -q
        if op == "mod":
            x, y = pe(a.args[0]), pe(a.args[1])
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y > 0) else -q
            return x - q * y
        if op == "fti":
            return int(pe(a.args[0]))
        if op == "sum":
            bs, g, body = a.args
            tot = [0]

            def rec(k):
                if k == len(bs):
                    if be(g):
                        tot[0] = tot[0] + pe(body)
                    return
                b, lo, hi = bs[k]
                for v in range(int(pe(lo)), int(pe(hi))):
                    bind[b] = v
                    rec(k + 1)
                bind.pop(b, None)

            save = {b: bind[b] for b, _, _ in bs if b in bind}
            rec(0)
            bind.update(save)
            return tot[0]
        raise EvalError(op)

    def be(b):
        op = b.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "le":
            return pe(b.args[0]) <= 0
        if op == "lt":
            return pe(b.args[0]) < 0
        if op == "eq":
            return pe(b.args[0]) == 0
        if op == "not":
            return not be(b.args[0])
        if op == "and":
            return all(be(x) for x in b.args)
        if op == "or":
            return any(be(x) for x in b.args)
        if op == "bapp":
            f = (funcs or {}).get(b.args[0])
            return bool(f(*[pe(x) for x in b.args[1]]))
        if op == "bvar":
            return env[b.args[0]]
        raise EvalError(op)

    return pe(t) if isinstance(t, Poly) else be(t)
