"""Verification conditions from /repo's Python functions.

A function is taken from its source file on every run (ast of the file; annotations and docstrings are
dropped, imported names are resolved as below) and executed on symbolic values: scalars are terms over
the reals (machine arithmetic treated as mathematical), arrays are maps from symbolic indices to terms of symbolic
size.  A branch on a symbolic condition forks the execution; every path is explored.  A loop over the
indices of an array is executed once for one arbitrary index (rule for a loop whose iterations write
only their own cell and read none of the cells written): the engine refuses a loop that reads what it
writes.  Imported constants become positive unknowns, imported functions are executed from their own source.

The obligations are then discharged by z3 (nonlinear real arithmetic), with the exponential
replaced by a fresh positive unknown per argument: exp(a + k b) = E_a E_b^k, E_a > 1 iff a > 0,
E_a < E_b iff a < b.
"""
import ast
import builtins
import os
import sys

import sympy as sp
import z3

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = None


class Unsupported(Exception):
    pass


def site():
    global SITE
    if SITE is None:
        import glob
        g = glob.glob("/opt/venv/lib/python3*/site-packages")
        SITE = g[0] if g else ""
    return SITE


def term(x):
    if isinstance(x, S):
        return x.e
    if isinstance(x, bool):
        raise Unsupported("truth value used as a number")
    if isinstance(x, (int,)):
        return sp.Integer(x)
    if isinstance(x, float):
        return sp.Rational(repr(x))
    if isinstance(x, sp.Basic):
        return x
    raise Unsupported(f"value of type {type(x).__name__}")


class Fork:
    """decisions of the current path"""
    todo, taken, conds = [], [], []
    k = 0

    @classmethod
    def decide(cls, c):
        if c in (True, sp.true):
            return True
        if c in (False, sp.false):
            return False
        for d in cls.conds:
            if d == c:
                return True
            if d == sp.Not(c):
                return False
        if cls.k < len(cls.taken):
            v = cls.taken[cls.k]
        else:
            v = True
            cls.todo.append(cls.taken[:cls.k] + [False])
            cls.taken.append(True)
        cls.k += 1
        cls.conds.append(c if v else sp.Not(c))
        return v


def paths(fn, pre=(), limit=64):
    """[(conditions, result)] of fn over all branches; `pre` holds on every path"""
    out = []
    Fork.todo = [[]]
    while Fork.todo:
        if len(out) >= limit:
            raise Unsupported("too many paths")
        Fork.taken, Fork.conds, Fork.k = Fork.todo.pop(), list(pre), 0
        try:
            r = fn()
        except Raised as e:
            r = e
        out.append((list(Fork.conds), r))
    return out


class Raised(Exception):
    """the executed function raises on this path"""


class B:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return Fork.decide(self.c)

    def __and__(self, o):
        return B(sp.And(self.c, o.c))

    def __or__(self, o):
        return B(sp.Or(self.c, o.c))

    def __invert__(self):
        return B(sp.Not(self.c))


def lift(f):
    def g(a, b=None):
        if isinstance(b, A):
            return b.map2(lambda y: f(term(a), y))
        return S(f(term(a), term(b)))
    return g


class S:
    """symbolic scalar"""
    def __init__(self, e):
        self.e = sp.sympify(e)

    def _op(self, o, f):
        if isinstance(o, A):
            return A(lambda *i: f(self.e, o.at(*i)), o.shape)
        import numpy as np
        if isinstance(o, np.ndarray):
            return np.array([self._op(y, f) for y in o.ravel()], dtype=object).reshape(o.shape)
        return S(f(self.e, term(o)))

    def __add__(s, o): return s._op(o, lambda a, b: a + b)
    def __radd__(s, o): return s._op(o, lambda a, b: b + a)
    def __sub__(s, o): return s._op(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._op(o, lambda a, b: b - a)
    def __mul__(s, o): return s._op(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._op(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._op(o, lambda a, b: a / b)
    def __rtruediv__(s, o): return s._op(o, lambda a, b: b / a)
    def __pow__(s, o): return s._op(o, lambda a, b: a ** b)
    def __rpow__(s, o): return s._op(o, lambda a, b: b ** a)
    def __neg__(s): return S(-s.e)
    def __pos__(s): return s
    def __abs__(s): return S(sp.Abs(s.e))
    def __lt__(s, o): return B(s.e < term(o))
    def __le__(s, o): return B(s.e <= term(o))
    def __gt__(s, o): return B(s.e > term(o))
    def __ge__(s, o): return B(s.e >= term(o))
    def __eq__(s, o): return B(sp.Eq(s.e, term(o)))
    def __ne__(s, o): return B(sp.Ne(s.e, term(o)))
    def __hash__(s): return hash(s.e)
    def __bool__(s): return Fork.decide(sp.Ne(s.e, 0))
    def exp(s): return S(sp.exp(s.e))
    def sqrt(s): return S(sp.sqrt(s.e))
    def sinh(s): return S((sp.exp(s.e) - sp.exp(-s.e)) / 2)
    def cosh(s): return S((sp.exp(s.e) + sp.exp(-s.e)) / 2)
    def tanh(s): return S((sp.exp(s.e) - sp.exp(-s.e)) / (sp.exp(s.e) + sp.exp(-s.e)))
    def expm1(s): return S(sp.exp(s.e) - 1)
    def conjugate(s): return s
    def __float__(s): raise Unsupported("float() of an unknown")
    def __int__(s): raise Unsupported("int() of an unknown")
    __index__ = __int__


class A:
    """symbolic array: shape of terms, cells as a function of the index terms; written cells are kept apart"""
    def __init__(self, f, shape):
        self.f, self.shape, self.put = f, tuple(shape), []

    @property
    def size(self):
        return S(sp.Mul(*[term(x) for x in self.shape]))

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *i):
        if self.put:
            raise Unsupported("array is read after it has been written in a loop")
        return term(self.f(*[term(x) for x in i]))

    def __getitem__(self, i):
        i = i if isinstance(i, tuple) else (i,)
        if len(i) != len(self.shape) or any(isinstance(x, slice) for x in i):
            raise Unsupported("slice of a symbolic array")
        return S(self.at(*i))

    def __setitem__(self, i, v):
        i = i if isinstance(i, tuple) else (i,)
        i = [term(x) for x in i]
        if len(i) != len(self.shape):
            raise Unsupported("slice of a symbolic array")
        if any(not (x.is_Symbol and x in Loop.open) for x in i) or len(set(i)) < len(i):
            raise Unsupported("a loop writes a cell that is not its own")
        self.put.append((i, term(v)))

    def cell(self, *i):
        """value after the loops, under the conditions of the path"""
        if not self.put:
            return term(self.f(*i))
        k, v = self.put[-1]
        return v.subs(list(zip(k, i)), simultaneous=True)

    def _op(self, o, f):
        if isinstance(o, A):
            if len(o.shape) != len(self.shape):
                raise Unsupported("broadcasting of symbolic arrays")
            return A(lambda *i: f(self.at(*i), o.at(*i)), self.shape)
        t = term(o)
        return A(lambda *i: f(self.at(*i), t), self.shape)

    def _u(self, f):
        return A(lambda *i: f(self.at(*i)), self.shape)

    def __add__(s, o): return s._op(o, lambda a, b: a + b)
    def __radd__(s, o): return s._op(o, lambda a, b: b + a)
    def __sub__(s, o): return s._op(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._op(o, lambda a, b: b - a)
    def __mul__(s, o): return s._op(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._op(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._op(o, lambda a, b: a / b)
    def __rtruediv__(s, o): return s._op(o, lambda a, b: b / a)
    def __pow__(s, o): return s._op(o, lambda a, b: a ** b)
    def __neg__(s): return s._u(lambda a: -a)
    def __abs__(s): return s._u(sp.Abs)
    def copy(s): return A(s.at, s.shape)

    def __iter__(self):
        if len(self.shape) != 1:
            raise Unsupported("iteration over a symbolic matrix")
        for i in Loop.over(self.shape[0]):
            yield self[i]

    def __bool__(self):
        raise Unsupported("truth value of an array")


class Loop:
    n = 0
    open = set()
    bounds = {}

    @classmethod
    def over(cls, n):
        """one arbitrary iteration 0 <= i < n"""
        cls.n += 1
        i = sp.Symbol(f"i{cls.n}", integer=True, nonnegative=True)
        cls.bounds[i] = term(n)
        cls.open.add(i)
        yield S(i)
        cls.open.discard(i)


def u(name, f):
    import numpy as np

    def g(x, *a, **k):
        if a or k:
            raise Unsupported(f"np.{name} with options")
        if isinstance(x, S):
            return S(f(x.e))
        if isinstance(x, A):
            return x._u(f)
        if isinstance(x, (list, tuple, np.ndarray)):
            x = np.asarray(x, dtype=object)
            return np.array([S(f(term(y))) for y in x.ravel()], dtype=object).reshape(x.shape)
        return S(f(term(x)))
    return g


class NP:
    """the numpy functions the executed code may call"""
    pi = S(sp.pi)
    newaxis = None
    double = float64 = "double"
    exp = staticmethod(u("exp", sp.exp))
    expm1 = staticmethod(u("expm1", lambda a: sp.exp(a) - 1))
    sqrt = staticmethod(u("sqrt", sp.sqrt))
    abs = absolute = fabs = staticmethod(u("abs", sp.Abs))
    sinh = staticmethod(u("sinh", lambda a: (sp.exp(a) - sp.exp(-a)) / 2))
    cosh = staticmethod(u("cosh", lambda a: (sp.exp(a) + sp.exp(-a)) / 2))
    tanh = staticmethod(u("tanh", lambda a: (sp.exp(a) - sp.exp(-a)) / (sp.exp(a) + sp.exp(-a))))
    square = staticmethod(u("square", lambda a: a ** 2))

    @staticmethod
    def seterr(**k):
        return {}

    @staticmethod
    def zeros(shape, dtype=None, order=None):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        return A(lambda *i: sp.Integer(0), shape)
    empty = zeros

    @staticmethod
    def zeros_like(a, dtype=None, order=None):
        return A(lambda *i: sp.Integer(0), a.shape)
    empty_like = zeros_like

    @staticmethod
    def ndindex(*shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        import contextlib  # noqa: F401

        def go(s):
            if not s:
                yield ()
                return
            for i in Loop.over(s[0]):
                for r in go(s[1:]):
                    yield (i,) + r
        return go(list(shape))

    @staticmethod
    def array(x, dtype=None, order=None):
        import numpy as np
        if isinstance(x, A):
            return x.copy()
        return np.array(x, dtype=object)
    asarray = array

    def __getattr__(self, n):
        raise Unsupported(f"np.{n}")


class Units:
    def __getattr__(self, n):
        return S(sp.Symbol(n.lower(), positive=True))


def b_len(x):
    return S(term(x.shape[0])) if isinstance(x, A) else builtins.len(x)


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    if len(a) == 1 or (len(a) == 2 and isinstance(a[0], int) and a[0] == 0):
        return Loop.over(a[-1])
    raise Unsupported("range with symbolic start")


def b_enumerate(x, start=0):
    if isinstance(x, A):
        if len(x.shape) != 1 or start:
            raise Unsupported("enumerate")
        return ((i, x[i]) for i in Loop.over(x.shape[0]))
    return builtins.enumerate(x, start)


class Lazy:
    """imported function: executed from its own source when called"""
    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def __call__(self, *a, **k):
        return function(self.mod, self.name)(*a, **k)

    def __getattr__(self, n):
        raise Unsupported(f"{self.mod}.{self.name}.{n}")


CACHE = {}


def source(mod):
    rel = mod.replace(".", "/")
    for root in (REPO, site()):
        for p in (rel + ".py", rel + "/__init__.py"):
            if os.path.exists(os.path.join(root, p)):
                return os.path.join(root, p)
    raise Unsupported(f"no source for {mod}")


def module(mod):
    if mod in CACHE:
        return CACHE[mod]
    path = source(mod)
    tree = ast.parse(open(path).read())
    ns = {"__name__": mod, "len": b_len, "range": b_range, "enumerate": b_enumerate, "print": lambda *a, **k: None,
          "abs": lambda x: abs(x), "__builtins__": builtins}
    keep = []
    for st in tree.body:
        if isinstance(st, ast.ImportFrom):
            for al in st.names:
                if st.module and st.module.startswith("phonopy.") and "units" in st.module and al.name != "get_physical_units":
                    ns[al.asname or al.name] = S(sp.Symbol(al.name.lower(), positive=True))
                elif al.name == "get_physical_units":
                    ns[al.asname or al.name] = lambda: Units()
                elif st.module and st.module != "__future__":
                    ns[al.asname or al.name] = Lazy(st.module, al.name)
        elif isinstance(st, ast.Import):
            for al in st.names:
                if al.name == "numpy":
                    ns[al.asname or al.name] = NP()
        elif isinstance(st, ast.FunctionDef):
            st.returns = None
            for a in st.args.args + st.args.kwonlyargs + st.args.posonlyargs:
                a.annotation = None
            st.decorator_list = []
            keep.append(st)
        elif isinstance(st, ast.Assign):
            keep.append(st)
    for st in keep:
        try:
            exec(compile(ast.Module([st], []), path, "exec"), ns)
        except Exception:
            if isinstance(st, ast.FunctionDef):
                raise
    CACHE[mod] = ns
    return ns


def function(mod, name):
    ns = module(mod)
    if name not in ns:
        raise Unsupported(f"{mod} has no {name}")
    return ns[name]


# ------------------------------------------------------------------ z3
class Ctx:
    """translation of a set of terms and conditions into one z3 problem"""
    def __init__(self, exprs):
        self.vars, self.base, self.E, self.facts = {}, {}, {}, []
        for e in exprs:
            for x in e.atoms(sp.exp):
                for rest, c in self.split(x.args[0]).items():
                    g = self.base.get(rest)
                    self.base[rest] = abs(c) if g is None else sp.gcd(g, abs(c))
        for rest, g in self.base.items():
            v = z3.Real(f"E{len(self.E)}")
            self.E[rest] = v
        ks = list(self.E)
        for r in ks:
            a = self.z(r)
            self.facts += [self.E[r] > 0, (a > 0) == (self.E[r] > 1), (a == 0) == (self.E[r] == 1)]
        for i, r in enumerate(ks):
            for q in ks[:i]:
                if self.base[r] == self.base[q]:
                    a, b = self.z(r), self.z(q)
                    self.facts += [(a > b) == (self.E[r] > self.E[q]), (a == b) == (self.E[r] == self.E[q])]

    @staticmethod
    def split(arg):
        d = {}
        for t in sp.Add.make_args(sp.expand(arg)):
            c, r = t.as_coeff_Mul()
            if not c.is_Rational:
                raise Unsupported(f"exponent {arg}")
            d[r] = d.get(r, 0) + c
        return {r: c for r, c in d.items() if c != 0}

    def z(self, e):
        if e is sp.pi:
            return self.var(e, z3.And(z3.Real("pi") > z3.RealVal("3.14"), z3.Real("pi") < z3.RealVal("3.15")))
        if e.is_Rational:
            return z3.RealVal(str(e))
        if e.is_Symbol or (isinstance(e, sp.Function) and not isinstance(e, (sp.exp, sp.Abs))):
            return self.var(e, None)
        if e.is_Add or e.is_Mul:
            a = [self.z(x) for x in e.args]
            r = a[0]
            for x in a[1:]:
                r = r + x if e.is_Add else r * x
            return r
        if isinstance(e, sp.exp):
            r = z3.RealVal(1)
            for rest, c in self.split(e.args[0]).items():
                k = int(c / self.base[rest])
                p = z3.RealVal(1)
                for _ in range(abs(k)):
                    p = p * self.E[rest]
                r = r * p if k > 0 else r / p
            return r
        if e.is_Pow and e.exp.is_Integer:
            b, r = self.z(e.base), z3.RealVal(1)
            for _ in range(abs(int(e.exp))):
                r = r * b
            return r if e.exp > 0 else 1 / r
        if e.is_Pow and e.exp in (sp.Rational(1, 2), -sp.Rational(1, 2)):
            v = self.var(sp.sqrt(e.base), None)
            b = self.z(e.base)
            self.facts += [v >= 0, v * v == b]
            return v if e.exp > 0 else 1 / v
        if isinstance(e, sp.Abs):
            a = self.z(e.args[0])
            return z3.If(a >= 0, a, -a)
        raise Unsupported(f"term {type(e).__name__}: {str(e)[:80]}")

    def var(self, e, fact):
        if e not in self.vars:
            self.vars[e] = z3.Real("pi") if e is sp.pi else z3.Real("v_" + str(e))
            if fact is not None:
                self.facts.append(fact)
            if getattr(e, "is_positive", False) or getattr(e.func, "positive", False):
                self.facts.append(self.vars[e] > 0)
            elif getattr(e, "is_nonnegative", False):
                self.facts.append(self.vars[e] >= 0)
        return self.vars[e]

    def c(self, c):
        if c in (True, sp.true):
            return z3.BoolVal(True)
        if c in (False, sp.false):
            return z3.BoolVal(False)
        if isinstance(c, sp.Not):
            return z3.Not(self.c(c.args[0]))
        if isinstance(c, sp.And):
            return z3.And(*[self.c(x) for x in c.args])
        if isinstance(c, sp.Or):
            return z3.Or(*[self.c(x) for x in c.args])
        a, b = [self.z(x) for x in c.args]
        return {sp.Eq: lambda: a == b, sp.Ne: lambda: a != b, sp.StrictLessThan: lambda: a < b, sp.LessThan: lambda: a <= b,
                sp.StrictGreaterThan: lambda: a > b, sp.GreaterThan: lambda: a >= b}[type(c)]()


def prove(conds, goal, ms=20000):
    """(ok, detail): conds imply the sympy relation goal"""
    def red(g):
        if isinstance(g, (sp.Eq, sp.Ne, sp.StrictLessThan, sp.LessThan, sp.StrictGreaterThan, sp.GreaterThan)):
            return g
        return g
    goal = red(goal)
    if goal in (True, sp.true):
        return True, ""
    try:
        terms = [x for c in list(conds) + [goal] for x in (c.args if not isinstance(c, (sp.And, sp.Or, sp.Not)) else [c])]
        cx = Ctx([t for t in terms if hasattr(t, "atoms")])
        s = z3.Solver()
        s.set("timeout", ms)
        hyp = [cx.c(c) for c in conds]
        g = cx.c(goal)
        s.add(*cx.facts, *hyp, z3.Not(g))
        r = s.check()
    except Unsupported as e:
        return False, f"unsupported: {e}"
    if r == z3.unsat:
        return True, ""
    return False, f"{r}: {str(s.model())[:600] if r == z3.sat else s.reason_unknown()}"


def equal(conds, a, b, ms=20000):
    """a == b as an identity: the numerator of the difference vanishes and the denominators do not"""
    d = sp.together(sp.expand(sp.powsimp(a - b), power_exp=True) if False else a - b)
    num, den = sp.fraction(d)
    ok, det = prove(conds, sp.Eq(sp.expand(num, power_exp=False), 0), ms)
    if not ok:
        return ok, "difference is not zero; " + det
    return prove(conds, sp.Ne(den, 0), ms)
