"""Path-wise symbolic execution of small C functions (clang's AST, re-read on every run).

Memory is a set of blocks of cells at concrete indices; values are concrete numbers or polynomials / rational
functions over named unknowns (sympy terms).  A branch on a symbolic condition forks: the function
is executed again from its start with the other decision, so every feasible path is executed (z3 prunes the
infeasible ones; a path is kept when z3 does not decide).  Calls are executed (callee inlined) unless a
contract handler is given, in which case the caller sees the contract only.  Loops with concrete bounds
are executed; other loops need a rule given by the caller of the engine (invariant).

Equations that define an unknown are applied as substitutions; Bezout relations s q + t w = 1 are kept as a
Groebner basis (their leading terms are coprime), so `norm` decides identities modulo them.
"""
import os
from fractions import Fraction

import sympy as sp
import z3

from .cfront import Unsupported


BOOL = (sp.core.relational.Relational, sp.Not, sp.And, sp.Or)


class Infeasible(Exception):
    pass


class Stop(Exception):
    """path ends here (e.g. after the invariant of a loop is re-established)"""


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Jump(Exception):
    def __init__(self, label):
        self.label = label


class Ptr:
    __slots__ = ("b", "o")

    def __init__(self, b, o):
        self.b, self.o = b, o


def cells(t):
    return cells(t.a) * (t.n if isinstance(t.n, int) else _bad(t)) if t.k == "arr" else 1


def _bad(t):
    raise Unsupported(f"size of {t}")


def num(x):
    return isinstance(x, (int, Fraction))


class Ex:
    """one path"""

    def __init__(self, prog, real=False, decisions=()):
        self.prog, self.real = prog, real
        self.dec, self.k, self.more = list(decisions), 0, []
        self.old = len(self.dec)  # obligations met before the last given decision belong to an earlier path
        self.zmemo, self.zver = {}, None
        self.mem, self.n = {}, 0
        self.facts, self.sub, self.rules, self.exact, self.rem = [], {}, [], [], {}
        self.handlers, self.loops, self.obls = {}, {}, []
        self.generic = {}  # read-only arrays of which one generic row is known: block -> value at a (symbolic) offset
        self.conds = []
        self.fnstack = []
        self.steps = 0
        self.choices = []

    # ---------------- terms
    def fresh(self, name, integer=True):
        self.n += 1
        return sp.Symbol(f"{name}_{self.n}", integer=True) if integer and not self.real else sp.Symbol(f"{name}_{self.n}", real=True)

    def norm(self, e):
        if num(e):
            return e
        if self.sub:
            e = e.xreplace(self.sub)
        if self.real:
            return e if not e.is_Number else e
        e = sp.expand(e)
        if self.rules and not e.is_number:
            lead = [x for s, q, t, w in self.rules for x in (s, q)]
            if e.has(*lead):
                gens = [s for s, _, _, _ in self.rules] + [q for _, q, _, _ in self.rules]
                gens = gens + sorted((e.free_symbols | {x for r in self.rules for y in r for x in sp.sympify(y).free_symbols}) - set(gens), key=str)
                G = [s * q + t * w - 1 for s, q, t, w in self.rules]
                e = sp.expand(sp.reduced(e, G, *gens, order="lex")[1])
        if e.is_Integer:
            return int(e)
        return e

    def define(self, s, e):
        """unknown s is e"""
        m = {s: e}
        self.sub = {a: sp.expand(b.xreplace(m)) for a, b in self.sub.items()}
        self.sub[s] = sp.sympify(e)

    # ---------------- z3
    def zvar(self, s):
        return z3.Real(str(s)) if self.real else z3.Int(str(s))

    def z(self, e):
        e = sp.sympify(e)
        if e.is_Integer:
            return z3.RealVal(int(e)) if self.real else z3.IntVal(int(e))
        if e.is_Rational:
            return z3.RealVal(str(e))
        if e.is_Symbol:
            return self.zvar(e)
        if e.is_Add or e.is_Mul:
            r = self.z(e.args[0])
            for x in e.args[1:]:
                r = r + self.z(x) if e.is_Add else r * self.z(x)
            return r
        if e.is_Pow and e.exp.is_Integer:
            r = z3.RealVal(1) if self.real else z3.IntVal(1)
            b = self.z(e.base)
            for _ in range(abs(int(e.exp))):
                r = r * b
            return r if e.exp > 0 else 1 / r
        raise Unsupported(f"term {e}")

    def zc(self, c):
        if c in (True, sp.true):
            return z3.BoolVal(True)
        if c in (False, sp.false):
            return z3.BoolVal(False)
        if isinstance(c, sp.Not):
            return z3.Not(self.zc(c.args[0]))
        if isinstance(c, sp.And):
            return z3.And(*[self.zc(x) for x in c.args])
        if isinstance(c, sp.Or):
            return z3.Or(*[self.zc(x) for x in c.args])
        a, b = self.z(self.norm(c.lhs)), self.z(self.norm(c.rhs))
        return {sp.Eq: lambda: a == b, sp.Ne: lambda: a != b, sp.StrictLessThan: lambda: a < b, sp.LessThan: lambda: a <= b,
                sp.StrictGreaterThan: lambda: a > b, sp.GreaterThan: lambda: a >= b}[type(c)]()

    def solver(self, ms):
        s = z3.Solver()
        s.set("timeout", ms)
        ver = (len(self.sub), len(self.rules))
        if ver != self.zver:
            self.zver, self.zmemo = ver, {}
        for f in self.facts + self.conds:
            if f not in self.zmemo:
                self.zmemo[f] = self.zc(f)
            s.add(self.zmemo[f])
        for a, b, c, d in self.rules:
            s.add(self.z(self.norm_sub(a)) * self.z(self.norm_sub(b)) + self.z(self.norm_sub(c)) * self.z(self.norm_sub(d)) == 1)
        return s

    def norm_sub(self, e):
        e = sp.sympify(e)
        return e.xreplace(self.sub) if self.sub else e

    def holds(self, c, ms=3000):
        """(proved, detail) under the facts and conditions of the path"""
        if c in (True, sp.true):
            return True, ""
        s = self.solver(ms)
        s.add(z3.Not(self.zc(c)))
        r = s.check()
        return r == z3.unsat, "" if r == z3.unsat else (str(s.model())[:400] if r == z3.sat else "unknown")

    def possible(self, c, ms=400):
        s = self.solver(ms)
        s.add(self.zc(c))
        return s.check() != z3.unsat

    def assume(self, c):
        if c in (True, sp.true):
            return
        if c in (False, sp.false):
            raise Infeasible()
        if isinstance(c, sp.Eq) and c.rhs == 0 and c.lhs.is_Symbol and not self.real:
            s = c.lhs
            self.define(s, sp.Integer(0))
            if s in self.rem:
                a, b, q = self.rem[s]
                a0 = self.norm(a)
                if not num(a0) and a0.is_Symbol and not sp.sympify(self.norm(b)).has(a0) and a0 != q:
                    self.define(a0, sp.sympify(self.norm(q * b)))
                else:
                    self.exact.append((a, b, q))
            return
        self.conds.append(c)

    def decide(self, c):
        """fork on the condition"""
        if self.k < len(self.dec):
            v = self.dec[self.k]
            self.k += 1
            self.assume(c if v else sp.Not(c))
            return v
        a, b = self.possible(c), self.possible(sp.Not(c))
        if not a and not b:
            raise Infeasible()
        v = a
        if a and b:
            self.more.append(self.dec[:self.k] + [False])
        self.dec.append(v)
        self.k += 1
        self.assume(c if v else sp.Not(c))
        return v

    def choice(self):
        """fork without condition"""
        if self.k < len(self.dec):
            v = self.dec[self.k]
        else:
            self.more.append(self.dec[:self.k] + [False])
            self.dec.append(True)
            v = True
        self.k += 1
        return v

    def rel(self, op, a, b):
        if num(a) and num(b):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if self.real:
            a, b = self.norm(a), self.norm(b)
            a, b = sp.sympify(sp.Rational(a.numerator, a.denominator) if isinstance(a, Fraction) else a), sp.sympify(
                sp.Rational(b.numerator, b.denominator) if isinstance(b, Fraction) else b)
            c = {"==": sp.Eq, "!=": sp.Ne, "<": sp.StrictLessThan, "<=": sp.LessThan, ">": sp.StrictGreaterThan, ">=": sp.GreaterThan}[op](a, b)
            return bool(c) if c in (sp.true, sp.false) else c
        d = self.norm(a - b)
        if num(d):
            return self.rel(op, d, 0)
        neg = op == "!="
        if op in ("==", "!=") and sp.sympify(-d).is_Symbol:
            d = -d
        c = {"==": sp.Eq, "!=": sp.Eq, "<": sp.StrictLessThan, "<=": sp.LessThan, ">": sp.StrictGreaterThan, ">=": sp.GreaterThan}[op](d, 0, evaluate=False)
        return sp.Not(c, evaluate=False) if neg else c

    def truth(self, v):
        if isinstance(v, bool) or num(v):
            return bool(v)
        if isinstance(v, BOOL):
            if isinstance(v, sp.Not):
                return not self.truth(v.args[0])
            return self.decide(v)
        v = self.norm(v)
        if num(v):
            return bool(v)
        return not self.truth(self.rel("==", v, 0))

    # ---------------- obligations
    def ob(self, name, ok, det="", kind="post"):
        if self.k >= self.old:
            self.obls.append((name, bool(ok), det if not ok else "", kind))

    def need(self, name, c, kind="post", ms=4000):
        if self.k < self.old:
            return
        ok, det = self.holds(c, ms)
        self.ob(name, ok, f"{c}: {det}" if not ok else "", kind)

    # ---------------- memory
    def block(self, n, name, init=None):
        self.n += 1
        b = f"{name}#{self.n}"
        self.mem[b] = [init] * n
        return b

    def load(self, p):
        if p.b in self.generic:
            return self.generic[p.b](self, p.o)
        c = self.mem[p.b]
        if not 0 <= p.o < len(c):
            self.ob(f"access inside {p.b.split('#')[0]}", False, f"index {p.o}", "bounds")
            raise Infeasible()
        if c[p.o] is None:
            self.ob(f"{p.b.split('#')[0]} is initialised before it is read", False, f"cell {p.o}", "uninit")
            raise Infeasible()
        return c[p.o]

    def store(self, p, v):
        if p.b in self.generic:
            self.ob(f"{p.b.split('#')[0]} is not written", False, f"index {p.o}", "frame")
            raise Infeasible()
        c = self.mem[p.b]
        if not 0 <= p.o < len(c):
            self.ob(f"access inside {p.b.split('#')[0]}", False, f"index {p.o}", "bounds")
            raise Infeasible()
        c[p.o] = v

    # ---------------- expressions
    def lval(self, e, env):
        if e.k == "cast":
            return self.lval(e.x, env)
        if e.k == "var":
            if e.id not in env:
                raise Unsupported(f"variable {e.name}")
            return Ptr(env[e.id][0], 0), env[e.id][1]
        if e.k == "sub":
            i = self.norm(self.ev(e.i, env))
            p, t = self.base(e.b, env)
            if not isinstance(i, int) and p.b not in self.generic:
                raise Unsupported(f"symbolic index {i} line {e.line}")
            return Ptr(p.b, p.o + i * cells(t)), t
        if e.k == "un" and e.op == "*":
            return self.base(e.x, env)
        raise Unsupported(f"lvalue {e.k} line {e.line}")

    def base(self, e, env):
        """pointer value of e and the type it points to"""
        while e.k == "cast":
            e = e.x
        t = e.t
        if t.k == "arr":
            p, t2 = self.lval(e, env)
            return p, t2.a if t2.k == "arr" else t.a
        if t.k == "ptr":
            v = self.ev(e, env)
            if not isinstance(v, Ptr):
                raise Unsupported(f"pointer {e} line {e.line}")
            return v, t.a
        raise Unsupported(f"base {e.k} line {e.line}")

    def div(self, a, b, what):
        a, b = self.norm(a), self.norm(b)
        if self.real:
            return None
        if num(b) and b == 0:
            self.ob("divisor is not zero", False, what, "div0")
            raise Infeasible()
        if not num(b):
            self.need(f"divisor is not zero ({what})", sp.Not(sp.Eq(b, 0, evaluate=False)), "div0")
        if num(a) and num(b):
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q, a - q * b
        if num(a) and a == 0:
            return 0, 0
        q = self.quot(a, b)
        if q is not None:
            return q, 0
        for x, y, q in self.exact:
            if self.norm(y - b) == 0:
                if self.norm(x - a) == 0:
                    return self.norm(q), 0
                if self.norm(x + a) == 0:
                    return self.norm(-q), 0
        key = (sp.sympify(a), sp.sympify(b))
        for (x, y), v in self.__dict__.setdefault("divs", {}).items():
            if self.norm(x - a) == 0 and self.norm(y - b) == 0:
                return v
        q, r = self.fresh("q"), self.fresh("m")
        ab = sp.sympify(b)
        self.facts += [sp.Eq(key[0], q * ab + r, evaluate=False),
                       sp.Or(sp.And(r < ab, -r < ab), sp.And(r < -ab, -r < -ab)),
                       sp.Or(sp.Eq(r, 0, evaluate=False), sp.And(r > 0, key[0] > 0), sp.And(r < 0, key[0] < 0))]
        self.rem[r] = (key[0], ab, q)
        self.divs[key] = (q, r)
        return q, r

    def quot(self, a, b):
        """a / b when b divides a as a polynomial"""
        a, b = sp.sympify(a), sp.sympify(b)
        if b in (1, -1):
            return self.norm(a * b)
        if a.is_number:
            return None
        try:
            q, r = sp.div(a, b, *sorted(a.free_symbols | b.free_symbols, key=str), domain="ZZ")
        except Exception:
            return None
        return self.norm(q) if r == 0 else None

    def ev(self, e, env):
        k = e.k
        if k == "int":
            return e.v
        if k == "float":
            return Fraction(e.v)
        if k == "cast":
            if e.ck == "ArrayToPointerDecay":
                p, t = self.lval(e.x, env)
                return p
            if e.ck == "FunctionToPointerDecay":
                return self.ev(e.x, env)
            return self.ev(e.x, env)
        if k == "var" and e.dk == "FunctionDecl":
            return e.name
        if k in ("var", "sub") or (k == "un" and e.op == "*"):
            p, t = self.lval(e, env)
            if t.k == "arr":
                return p
            v = self.load(p)
            return v if isinstance(v, (Ptr, str)) else self.norm(v)
        if k == "bin":
            op = e.op
            if op == "&&":
                return self.truth(self.ev(e.l, env)) and self.truth(self.ev(e.r, env))
            if op == "||":
                return self.truth(self.ev(e.l, env)) or self.truth(self.ev(e.r, env))
            a, b = self.ev(e.l, env), self.ev(e.r, env)
            if op == ",":
                return b
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if op in "+-" and isinstance(a, Ptr) and isinstance(b, int):
                    w = cells(e.l.t.a) if e.l.t.k in ("ptr", "arr") else 1
                    return Ptr(a.b, a.o + (b if op == "+" else -b) * w)
                raise Unsupported(f"pointer arithmetic line {e.line}")
            a, b = self.val(a), self.val(b)
            if op in ("+", "-", "*"):
                return self.norm(a + b if op == "+" else a - b if op == "-" else a * b)
            if op == "/" and e.t.k == "real":
                if num(a) and num(b):
                    return Fraction(a) / Fraction(b)
                self.__dict__.setdefault("dens", []).append((list(self.conds), b))
                return self.norm(self.sy(a) / self.sy(b))
            if op in ("/", "%"):
                q, r = self.div(a, b, f"line {e.line}")
                return q if op == "/" else r
            if op in ("==", "!=", "<", "<=", ">", ">="):
                return self.rel(op, a, b)
            raise Unsupported(f"operator {op} line {e.line}")
        if k == "un":
            if e.op == "-":
                return self.norm(-self.val(self.ev(e.x, env)))
            if e.op == "+":
                return self.ev(e.x, env)
            if e.op == "!":
                return not self.truth(self.ev(e.x, env))
            if e.op in ("++", "--"):
                p, t = self.lval(e.x, env)
                v = self.load(p)
                w = v + (1 if e.op == "++" else -1) if not isinstance(v, Ptr) else None
                if w is None:
                    raise Unsupported("pointer increment")
                self.store(p, w)
                return v if e.post else w
            if e.op == "&":
                return self.lval(e.x, env)[0]
            raise Unsupported(f"unary {e.op} line {e.line}")
        if k == "assign":
            v = self.ev(e.r, env)
            p, t = self.lval(e.l, env)
            if e.op != "=":
                o, v = self.val(self.load(p)), self.val(v)
                op = e.op[0]
                if op == "/" and t.k == "real":
                    self.__dict__.setdefault("dens", []).append((list(self.conds), v))
                    v = self.norm(self.sy(o) / self.sy(v)) if not (num(o) and num(v)) else Fraction(o) / Fraction(v)
                elif op in "/%":
                    v = self.div(o, v, f"line {e.line}")[0 if op == "/" else 1]
                else:
                    v = self.norm(o + v if op == "+" else o - v if op == "-" else o * v if op == "*" else _bad(op))
            elif not isinstance(v, (Ptr, str)):
                v = self.val(v)
            self.store(p, v)
            return v
        if k == "cond":
            return self.ev(e.a if self.truth(self.ev(e.c, env)) else e.b, env)
        if k == "call":
            nm = self.ev(e.f, env)
            if not isinstance(nm, str):
                raise Unsupported(f"call through a pointer line {e.line}")
            return self.call(nm, [self.ev(a, env) for a in e.args], e.line)
        if k == "sizeof":
            return 8 * cells(e.ty)
        raise Unsupported(f"expression {k} line {e.line}")

    def sy(self, a):
        return sp.Rational(a.numerator, a.denominator) if isinstance(a, Fraction) else sp.sympify(a)

    def val(self, v):
        """number from a truth value; fractions inside terms"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, BOOL):
            return 1 if self.truth(v) else 0
        if isinstance(v, Fraction):
            return sp.Rational(v.numerator, v.denominator) if v.denominator != 1 else int(v)
        if isinstance(v, Ptr):
            raise Unsupported("pointer used as a number")
        return v

    def call(self, nm, args, line=0):
        h = self.handlers.get(nm)
        if h is not None and (not self.fnstack or self.fnstack[-1] != nm or len(self.fnstack) > 1):
            return h(self, args)
        if nm in ("fabs",) and self.real:
            a = self.val(args[0])
            return a if self.truth(self.rel(">=", a, 0)) else -a
        u, f = self.prog.lookup(self.unit, nm)
        if f is None or f.body is None:
            if nm in ("assert", "__assert_fail", "printf", "fprintf"):
                return 0
            raise Unsupported(f"call of {nm} line {line}")
        return self.run(f, args)

    def run(self, f, args):
        if len(self.fnstack) > 40:
            raise Unsupported("recursion")
        env = {}
        for (nm, t, i, c), a in zip(f.params, args):
            b = self.block(1, nm)
            if not isinstance(a, (Ptr, str)):
                a = self.val(a)
            self.mem[b][0] = a
            env[i] = (b, t if t.k != "arr" else _ptr(t))
        self.fnstack.append(f.name)
        try:
            self.block_run([f.body], env, f)
            return 0
        except Ret as r:
            return r.v
        finally:
            self.fnstack.pop()

    # ---------------- statements
    def block_run(self, xs, env, f):
        i = 0
        while i < len(xs):
            try:
                self.st(xs[i], env, f)
                i += 1
            except Jump as j:
                for k, s in enumerate(xs):
                    if s.k == "label" and s.id == j.label:
                        i = k
                        break
                else:
                    raise

    def st(self, s, env, f):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported("too many steps on one path")
        k = s.k
        if k == "block":
            self.block_run(s.xs, env, f)
        elif k == "decl":
            for v in s.vs:
                b = self.block(cells(v.t), v.name)
                env[v.id] = (b, v.t)
                if v.static:
                    raise Unsupported("static variable")
                if v.init is not None:
                    if v.init.k == "init":
                        self.fill(b, 0, v.t, v.init, env)
                    else:
                        x = self.ev(v.init, env)
                        self.mem[b][0] = x if isinstance(x, (Ptr, str)) else self.val(x)
        elif k == "expr":
            self.ev(s.x, env)
        elif k == "if":
            if self.truth(self.ev(s.c, env)):
                self.st(s.a, env, f)
            elif s.b is not None:
                self.st(s.b, env, f)
        elif k in ("for", "while", "do"):
            r = self.loops.get(f.name)
            if r is not None and r(self, s, env, f):
                return
            self.loop(s, env, f)
        elif k == "return":
            v = self.ev(s.x, env) if s.x is not None else None
            raise Ret(v if v is None or isinstance(v, Ptr) else self.val(v))
        elif k == "break":
            raise Brk()
        elif k == "continue":
            raise Cont()
        elif k == "goto":
            raise Jump(s.label)
        elif k == "label":
            self.st(s.s, env, f)
        elif k == "null":
            pass
        elif k == "switch":
            v = self.norm(self.ev(s.c, env))
            xs = s.body.xs if s.body.k == "block" else [s.body]
            on = None
            flat = []
            for x in xs:
                while x.k in ("case", "default"):
                    flat.append(("c", x.v if x.k == "case" else None))
                    x = x.s
                flat.append(("s", x))
            for pas in (0, 1):
                for n, (t, x) in enumerate(flat):
                    if t == "c" and ((pas == 0 and x is not None and self.truth(self.rel("==", v, self.ev(x, env)))) or (pas == 1 and x is None)):
                        on = n
                        break
                if on is not None:
                    break
            if on is not None:
                try:
                    for t, x in flat[on:]:
                        if t == "s":
                            self.st(x, env, f)
                except Brk:
                    pass
        else:
            raise Unsupported(f"statement {k} line {s.line}")

    def fill(self, b, o, t, n, env):
        if t.k == "arr":
            w = cells(t.a)
            for i in range(t.n):
                if i < len(n.xs):
                    if n.xs[i].k == "init":
                        self.fill(b, o + i * w, t.a, n.xs[i], env)
                    else:
                        self.mem[b][o + i * w] = self.val(self.ev(n.xs[i], env))
                else:
                    for c in range(w):
                        self.mem[b][o + i * w + c] = 0
        else:
            raise Unsupported("initialiser")

    def loop(self, s, env, f):
        if s.k == "for" and s.init is not None:
            self.st(s.init, env, f)
        first = True
        while True:
            c = s.cond if s.k == "for" else s.c
            if not (s.k == "do" and first) and c is not None and not self.truth(self.ev(c, env)):
                break
            first = False
            try:
                self.st(s.body, env, f)
            except Brk:
                break
            except Cont:
                pass
            if s.k == "for" and s.inc is not None:
                self.ev(s.inc, env)


def _ptr(t):
    from .cfront import CType
    return CType("ptr", t.a)


def explore(prog, unit, make, limit=3000):
    """make(ex) runs one path; returns [(Ex, status)]; obligations are in Ex.obls"""
    todo, out, bad = [[]], [], 0
    while todo:
        if len(out) > limit:
            raise Unsupported("too many paths")
        ex = make.new(prog, todo.pop()) if hasattr(make, "new") else Ex(prog, decisions=todo.pop())
        ex.unit = unit
        try:
            make(ex)
            st = "end"
        except Infeasible:
            st = "infeasible"
        except Stop:
            st = "cut"
        todo += ex.more
        out.append((ex, st))
        bad += any(not o[1] for o in ex.obls)
        if bad >= 3:
            break
    return out
