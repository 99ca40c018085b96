"""Discharging obligations: polynomial identity, then z3 (and cvc5 as a second opinion)."""
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import terms as T
from .terms import Poly, Bool, Atom

STATS = {"z3_calls": 0, "z3_time": 0.0, "quick": 0, "poly": 0, "cvc5_calls": 0, "cvc5_time": 0.0}


class Facts:
    """facts about the contents of arrays: region/app name -> fn(args) -> [Bool]"""

    def __init__(self):
        self.elem = {}
        self.injective = {}
        self.extra = []      # fn(list of atoms) -> [Bool]

    def add_elem(self, name, fn):
        self.elem.setdefault(name, []).append(fn)


class Z:
    """translation of terms to z3"""

    def __init__(self, facts=None):
        self.cache = {}
        self.facts = facts
        self.axioms = []
        self.done = set()
        self.fnc = {}
        self.pending = []
        self.counts = {}

    def poly(self, p, want_real=None):
        real = (not p.isint) if want_real is None else want_real
        k = ("p", p.id, real)
        r = self.cache.get(k)
        if r is not None:
            return r
        tot = []
        for m, c in p.items:
            fs = []
            for a, e in m:
                x = self.atom(a)
                if real and a.sort == "int":
                    x = z3.ToReal(x)
                fs += [x] * e
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(str(c)) if real else z3.IntVal(int(c)))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            tot.append(t)
        if not tot:
            r = z3.RealVal(0) if real else z3.IntVal(0)
        else:
            r = z3.Sum(tot) if len(tot) > 1 else tot[0]
        self.cache[k] = r
        return r

    def srt(self, s):
        return z3.IntSort() if s == "int" else z3.RealSort()

    def atom(self, a):
        k = ("a", a.id)
        r = self.cache.get(k)
        if r is not None:
            return r
        op = a.op
        if op == "var":
            r = z3.Const(a.args[0], self.srt(a.sort))
        elif op == "app":
            nm, args = a.args
            zs = []
            ss = []
            for x in args:
                if isinstance(x, Poly):
                    zx = self.poly(x)
                    zs.append(zx)
                    ss.append("i" if zx.sort() == z3.IntSort() else "r")
                else:
                    zs.append(self.bool(x))
                    ss.append("b")
            fn = f"{nm}/{''.join(ss)}"
            if not zs:
                r = z3.Const(fn, self.srt(a.sort))
            else:
                f = z3.Function(fn, *[z.sort() for z in zs], self.srt(a.sort))
                r = f(*zs)
            self.cache[k] = r
            self._app_axioms(a, nm, args, r)
        elif op == "ite":
            c = self.bool(a.args[0])
            real = a.sort != "int"
            r = z3.If(c, self.poly(a.args[1], real), self.poly(a.args[2], real))
        elif op == "inv":
            r = z3.Real(f"inv!{a.id}")
            self.cache[k] = r
            x = self.poly(a.args[0], True)
            self.axioms.append(z3.Implies(x != 0, x * r == 1))
        elif op in ("div", "mod"):
            x, y = a.args
            q, m = z3.Int(f"cdiv!{x.id}!{y.id}"), z3.Int(f"cmod!{x.id}!{y.id}")
            r = q if op == "div" else m
            if (x.id, y.id) not in self.done:
                self.done.add((x.id, y.id))
                zx, zy = self.poly(x), self.poly(y)
                self.axioms.append(z3.Implies(zy != 0, z3.And(
                    zx == zy * q + m,
                    z3.Implies(z3.And(zx >= 0, zy > 0), z3.And(q >= 0, m >= 0, m < zy)),
                    z3.Implies(z3.And(zx <= 0, zy > 0), z3.And(q <= 0, m <= 0, m > -zy)),
                    z3.Implies(zy < 0, z3.And(m < -zy, m > zy)))))
        elif op == "fti":
            r = z3.Int(f"fti!{a.id}")
            x = self.poly(a.args[0], True)
            self.axioms.append(z3.Implies(x >= 0, z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1)))
            self.axioms.append(z3.Implies(x <= 0, z3.And(z3.ToReal(r) >= x, x > z3.ToReal(r) - 1)))
        elif op == "sum":
            r = z3.Const(f"sum!{a.id}", self.srt(a.sort))
            self.cache[k] = r
            self._count_axioms(a, r)
        else:
            raise T.TermError(op)
        self.cache[k] = r
        return r

    def _count_axioms(self, a, r):
        """counting sums  C(h) = #{lo <= k < h : G(k)}:  0 <= C(h), C(h) <= h - lo, and
        for h1 <= h2: C(h1) <= C(h2), strictly if G holds at some h1 < h2"""
        bs, g, body = a.args
        if body is not T.ONE or len(bs) != 1:
            return
        b, lo, hi = bs[0]
        zl, zh = self.poly(lo), self.poly(hi)
        self.axioms.append(z3.And(r >= 0, z3.If(zh >= zl, r <= zh - zl, r == 0)))
        key = (b, lo.id, g.id)
        for hi2, r2 in self.counts.get(key, []):
            z2 = self.poly(hi2)
            for x, zx, rx, y, zy, ry in ((hi, zh, r, hi2, z2, r2), (hi2, z2, r2, hi, zh, r)):
                gx = self.bool(T.subst(g, {b: x}))
                self.axioms.append(z3.Implies(zx <= zy, rx <= ry))
                self.axioms.append(z3.Implies(z3.And(zl <= zx, zx < zy, gx), rx + 1 <= ry))
        self.counts.setdefault(key, []).append((hi, r))

    def _app_axioms(self, a, nm, args, r):
        if nm == "sqrt":
            x = self.poly(args[0], True)
            self.axioms.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        elif nm == "exp":
            self.axioms.append(r > 0)
        elif nm in ("cos", "sin"):
            self.axioms.append(z3.And(r >= -1, r <= 1))
        if self.facts and nm in self.facts.elem and nest_depth(a, nm) <= 2:
            for fn in self.facts.elem[nm]:
                for b in fn(*args):
                    self.axioms.append(self.bool(b))

    def bool(self, b):
        k = ("b", b.id)
        r = self.cache.get(k)
        if r is not None:
            return r
        op = b.op
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op in ("le", "lt", "eq"):
            p = b.args[0]
            # split sides to keep z3 terms readable
            x = self.poly(p)
            r = x <= 0 if op == "le" else (x < 0 if op == "lt" else x == 0)
        elif op == "not":
            r = z3.Not(self.bool(b.args[0]))
        elif op == "and":
            r = z3.And(*[self.bool(x) for x in b.args])
        elif op == "or":
            r = z3.Or(*[self.bool(x) for x in b.args])
        elif op == "bvar":
            r = z3.Bool(b.args[0])
        elif op == "bapp":
            nm, args = b.args
            zs = [self.poly(x) if isinstance(x, Poly) else self.bool(x) for x in args]
            r = z3.Function("B" + nm, *[z.sort() for z in zs], z3.BoolSort())(*zs)
        elif op == "exists":
            (v, lo, hi), g = b.args
            x = z3.Int(v.args[0])
            r = z3.Exists([x], z3.And(self.poly(lo) <= x, x < self.poly(hi), self.bool(g)))
        else:
            raise T.TermError(op)
        self.cache[k] = r
        return r


def relevant(hyps, goal, maxrounds=3):
    """cone of influence of the goal in the hypotheses (shared atoms)"""
    def keyset(b):
        return frozenset(a for a in T.atoms_in(b))

    ks = [(h, keyset(h)) for h in hyps]
    cur = set(keyset(goal))
    chosen = []
    left = ks
    for _ in range(maxrounds):
        nxt, hit = [], False
        for h, s in left:
            if not s or (s & cur):
                chosen.append((h, s))
                hit = True
            else:
                nxt.append((h, s))
        for h, s in chosen:
            cur |= s
        left = nxt
        if not hit:
            break
    return [h for h, _ in chosen]


class Prover:
    def __init__(self, facts=None, timeout_ms=4000):
        self.facts = facts or Facts()
        self.timeout = timeout_ms
        self.memo = {}
        self.splits = 0

    def quick(self, hyps, goal):
        """syntactic: hypothesis list contains goal, or one/two facts imply a <= goal"""
        if goal is T.TRUE:
            return True
        hs = set()
        st = list(hyps)
        les = []
        while st:
            h = st.pop()
            if h.op == "and":
                st.extend(h.args)
                continue
            hs.add(h)
            if h is T.FALSE:
                return True
            if h.op == "le":
                les.append(h.args[0])
            elif h.op == "lt":
                les.append(h.args[0])
            elif h.op == "eq":
                les.append(h.args[0])
                les.append(T.scale(h.args[0], -1))
        if goal in hs:
            return True
        if goal.op == "or":
            return any(self.quick(hyps, g) for g in goal.args)
        if goal.op == "and":
            return all(self.quick(hyps, g) for g in goal.args)
        if goal.op == "le":
            p = goal.args[0]
            if _nonpos(p):
                return True
            for q in les:
                d = T.sub(p, q)
                if _nonpos(d):
                    return True
            if len(les) <= 40:
                for i, q in enumerate(les):
                    d = T.sub(p, q)
                    if len(d.items) > len(p.items) + 1:
                        continue
                    for q2 in les[i + 1:]:
                        if _nonpos(T.sub(d, q2)):
                            return True
        return False

    def prove(self, hyps, goal, timeout=None, elem=True):
        if goal is T.TRUE:
            return True
        key = (tuple(sorted({h.id for h in hyps})), goal.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        if self.quick(hyps, goal):
            STATS["quick"] += 1
            self.memo[key] = True
            return True
        r = self.check(hyps, T.neg(goal), timeout) == "unsat"
        self.memo[key] = r
        return r

    def check(self, hyps, goal, timeout=None, want_model=False):
        """satisfiability of hyps & goal"""
        z = Z(self.facts)
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        hy = relevant(hyps, goal)
        fs = [z.bool(goal)] + [z.bool(h) for h in hy]
        n = 0
        while n < len(z.axioms):
            n = len(z.axioms)
            if n > 4000:
                break
            # axioms may have introduced new axioms
            for f in self.facts.extra:
                pass
        for f in fs + z.axioms:
            s.add(f)
        t = time.time()
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t
        if want_model and r == z3.sat:
            return "sat", s.model(), z
        return str(r) if not want_model else (str(r), None, z)

    def equal(self, hyps, a, b, timeout=None):
        """a == b under hyps.  Polynomial identity first; then sums over the same
        ranges are merged and the summands compared pointwise; then z3."""
        if a is b:
            STATS["poly"] += 1
            return True
        self.splits = 0
        d = T.sub(a, b)
        return self.zero(hyps, d, timeout, 0)

    def zero(self, hyps, d, timeout=None, depth=0):
        if not d.items:
            STATS["poly"] += 1
            return True
        # known conditions
        d2 = T.simp_under(d, T.conj(*hyps)) if hyps else d
        if not d2.items:
            STATS["poly"] += 1
            return True
        d = d2
        d2 = clear_inv(d)
        if d2 is not None and not d2.items:
            STATS["poly"] += 1
            return True
        if depth == 0:
            d2 = T.expand_short(d)
            if d2 is not d:
                return self.zero(hyps, d2, timeout, depth)
        # group: monomials with sums
        groups = {}
        parts = {}
        plain = {}
        for m, c in d.items:
            ss = [(k, a) for k, (a, e) in enumerate(m) if a.op == "sum" and e == 1]
            if len(ss) >= 1:
                # merge all sum factors of this monomial into one big sum
                rest = tuple(x for k, x in enumerate(m) if k not in {k for k, _ in ss})
                bs, g, body = [], T.TRUE, T.mkpoly({rest: c})
                for _, a in ss:
                    nb, ng, nbody = T._open(a)
                    bs += nb
                    g = T.conj(g, ng)
                    body = T.mul(body, nbody)
                key = self._rkey(bs)
                groups.setdefault(key, []).append((bs, g, body))
                parts.setdefault((key, frozenset(rest)), []).append((bs, g, body))
            else:
                plain[m] = c
        ok = True
        if groups and depth < 3:
            if len(parts) > len(groups):
                # terms with different other factors usually cancel separately
                good = True
                for key, gl in parts.items():
                    if len(gl) == 1 or not self._merge_group(hyps, gl, min(timeout or 2000, 2000), 2):
                        good = False
                        break
                if good:
                    return self.zero(hyps, T.mkpoly(plain), timeout, depth + 1)
            for key, gl in groups.items():
                if len(gl) == 1:
                    # a single sum: body must vanish pointwise
                    bs, g, body = gl[0]
                    if not self._pointwise(hyps, bs, g, body, timeout, depth):
                        ok = False
                        break
                    continue
                # align binders of all members on the first by permutation search
                if not self._merge_group(hyps, gl, timeout, depth):
                    ok = False
                    break
            if ok:
                return self.zero(hyps, T.mkpoly(plain), timeout, depth + 1)
        cs = split_conds(d)
        if cs and self.splits < 400:
            c = cs[0]
            self.splits += 1
            for h in (c, T.neg(c)):
                if self.refuted(hyps, h):
                    continue
                d3 = T.simp_under(d, h)
                if d3 is d:
                    return self.prove(hyps, T.eq0(d), timeout)
                if not self.zero(list(hyps) + [h], d3, timeout, depth):
                    return False
            return True
        return self.prove(hyps, T.eq0(d), timeout)

    def refuted(self, hyps, h):
        return self.prove(hyps, T.neg(h), 500)

    def _rkey(self, bs):
        inner = {b: k for k, (b, _, _) in enumerate(bs)}
        ks = []
        for b, lo, hi in bs:
            # dependent ranges: abstract
            ren = {x: T.var("?", "int") for x in inner}
            ks.append((T.subst(lo, ren).id, T.subst(hi, ren).id))
        return tuple(sorted(ks))

    def _merge_group(self, hyps, gl, timeout, depth):
        from itertools import permutations
        bs0, g0, body0 = gl[0]
        n = len(bs0)
        if n > 5:
            perms = [tuple(range(n))]
        else:
            perms = list(permutations(range(n)))
        # backtracking over members; try canonical alignment first
        def ranges_match(bs, perm):
            ren = {bs[perm[k]][0]: T.P(bs0[k][0]) for k in range(n)}
            for k in range(n):
                b, lo, hi = bs[perm[k]]
                if T.subst(lo, ren) is not bs0[k][1] or T.subst(hi, ren) is not bs0[k][2]:
                    return None
            return ren

        def rec(i, acc):
            if i == len(gl):
                return self._pointwise(hyps, bs0, T.TRUE, acc, timeout, depth)
            bs, g, body = gl[i]
            for perm in perms:
                ren = ranges_match(bs, perm)
                if ren is None:
                    continue
                t = T.ite(T.subst(g, ren), T.subst(body, ren), T.ZERO)
                if rec(i + 1, T.add(acc, t)):
                    return True
            return False

        if len(perms) ** (len(gl) - 1) > 800:
            perms = perms[:2]
        return rec(1, T.ite(g0, body0, T.ZERO))

    def _pointwise(self, hyps, bs, g, body, timeout, depth):
        rng = [T.conj(T.le(lo, T.P(b)), T.lt(T.P(b), hi)) for b, lo, hi in bs]
        return self.zero(list(hyps) + rng + list(T.conjuncts(g)), body, timeout, depth + 1)


def split_conds(d):
    """conditions of if-then-else terms in d that do not mention bound variables,
    most frequent first"""
    cnt = {}
    for a in T.atoms_in(d).values():
        if a.op == "ite":
            for c in T.conjuncts(a.args[0]):
                if c.op == "or":
                    continue
                if any(x.op == "var" and x.args[0].startswith("#") for x in T.atoms_in(c).values()):
                    continue
                cnt[c] = cnt.get(c, 0) + 1
    return sorted(cnt, key=lambda c: (-cnt[c], len(T.atoms_in(c)), c.id))


def _nonpos(p):
    for m, c in p.items:
        if m == ():
            if c > 0:
                return False
            continue
        if c > 0:
            return False
        for a, e in m:
            if e % 2 and a not in T.NONNEG:
                return False
    return True


def clear_inv(d, limit=2000):
    """multiply by the denominators; valid where they are non-zero (None if too large).
    0 only if d is identically zero as a rational function."""
    mx = {}
    for m, c in d.items:
        for a, e in m:
            if a.op == "inv":
                mx[a] = max(mx.get(a, 0), e)
    if not mx:
        return None
    try:
        out = T.ZERO
        for m, c in d.items:
            r = T.const(c)
            have = {a: e for a, e in m if a.op == "inv"}
            rest = tuple((a, e) for a, e in m if a.op != "inv")
            r = T.mul(r, T.mkpoly({rest: Fraction(1)}))
            for a, e in mx.items():
                for _ in range(e - have.get(a, 0)):
                    r = T.mul(r, a.args[0])
                    if len(r.items) > limit:
                        return None
            out = T.add(out, r)
        return out
    except T.TermError:
        return None


_nd = {}


def nest_depth(a, nm):
    """how deeply applications of nm are nested in a (axioms are instantiated to depth 2)"""
    k = (a.id, nm)
    if k not in _nd:
        d = 0
        for x in a.args[1]:
            d = max([d] + [nest_depth(b, nm) for b in T.atoms_in(x).values() if b.op == "app" and b.args[0] == nm])
        _nd[k] = d + 1
    return _nd[k]
