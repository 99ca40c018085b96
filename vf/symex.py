"""Verification-condition generation for the C functions (see DESIGN.md, "engine").

A function is executed once on symbolic inputs.  Conditionals are merged under
guards; a loop with a symbolic trip count is executed once for an arbitrary
iteration and its effect is generalised over all iterations (map writes,
accumulations, counters, filter lists, first-match searches).  Each
generalisation is justified by obligations (iterations do not touch each other's
cells) that are discharged by the prover; anything outside these patterns raises
Unsupported and is reported as an undischarged obligation of the function.
"""
import re
from fractions import Fraction

from . import terms as T
from .cfront import Node, CType, INT, REAL, CPLX, VOID, CHAR, Unsupported
from .terms import Poly, Bool, Atom, ZERO, ONE, TRUE, FALSE
from .prover import Prover, Facts


class SplitRequest(Exception):
    def __init__(self, site, part, factor, fine):
        self.site, self.part, self.factor, self.fine = site, part, factor, fine


class ShapeRequest(Exception):
    def __init__(self, site, shape):
        self.site, self.shape = site, shape


class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return f"Cx({self.re}, {self.im})"


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off):
        self.r, self.off = r, off

    def __repr__(self):
        return f"&{self.r.name}[{self.off}]"


class Null:
    def __repr__(self):
        return "NULL"


class FnPtr:
    def __init__(self, name):
        self.name = name


class SPtr:
    """pointer to a struct object"""

    def __init__(self, obj):
        self.obj = obj


class StructObj:
    def __init__(self, fields, name="struct"):
        self.fields = fields
        self.name = name


class Undef:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"undef({self.name})"


class IteV:
    """guarded choice between non-numeric values"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Deferred:
    """value of a scalar after a loop, computed only when read"""

    def __init__(self, fn):
        self.fn = fn


NULL = Null()


class Region:
    _n = 0

    def __init__(self, name, sort, shape, kind, site=None, init=None):
        Region._n += 1
        self.name, self.sort, self.kind, self.site, self.init = name, sort, kind, site, init
        self.set_shape(shape)
        self.uid = Region._n

    def set_shape(self, shape):
        self.shape = [T.lift(s) for s in shape]
        st = [ONE]
        for s in reversed(self.shape[1:]):
            st.insert(0, T.mul(s, st[0]))
        self.strides = st if self.shape else []

    def __repr__(self):
        return f"Region({self.name}{self.shape})"


class Base:
    """chain base: initial contents"""

    def __init__(self, kind, region):
        self.kind, self.r = kind, region      # init | undef | zero | havoc


class OldBase:
    def __init__(self, region, pre, lid, cells=None):
        self.r, self.pre, self.lid = region, pre, lid
        self.cells = cells      # the only cells the loop writes (None: not known)


def const_cell(ds):
    c = tuple(T.cval(d) for d in ds)
    return None if None in c else tuple(int(x) for x in c)


def not_in(ds, cells):
    """the cell is none of these, whatever the values of its symbolic digits"""
    d = [T.cval(x) for x in ds]
    return all(any(x is not None and int(x) != y for x, y in zip(d, c)) for c in cells)


class Entry:
    """W: cells[digits] := value ; A: cells[digits] += value ; for all binders, guard"""
    __slots__ = ("kind", "binders", "guard", "digits", "value", "line")

    def __init__(self, kind, binders, guard, digits, value, line):
        self.kind, self.binders, self.guard, self.digits, self.value, self.line = kind, binders, guard, digits, value, line

    def __repr__(self):
        b = ",".join(f"{lo}<={v}<{hi}" for v, lo, hi in self.binders)
        return f"{self.kind}[{b}|{self.guard}] ({', '.join(map(str, self.digits))}) <- {self.value}"

    def with_(self, **kw):
        d = dict(kind=self.kind, binders=self.binders, guard=self.guard, digits=self.digits,
                 value=self.value, line=self.line)
        d.update(kw)
        return Entry(**d)


class ListEntry:
    """filter list: for all binders in lexicographic order with guard, the rows
    start+rank of the region hold `comps` (row digit first, then component digits)"""
    __slots__ = ("binders", "guard", "start", "comps", "count", "line", "rank")

    def __init__(self, binders, guard, start, comps, line, rank=None):
        self.binders, self.guard, self.start, self.comps, self.line = binders, guard, start, comps, line
        self.count = T.mksum(binders, guard, ONE)
        self.rank = rank

    def __repr__(self):
        b = ",".join(f"{lo}<={v}<{hi}" for v, lo, hi in self.binders)
        return f"L[{b}|{self.guard}] from {self.start}: {self.comps}"


class State:
    __slots__ = ("env", "mem")

    def __init__(self, env, mem):
        self.env, self.mem = env, mem

    def copy(self):
        return State(dict(self.env), dict(self.mem))


class Obligation:
    def __init__(self, name, ok, detail="", kind="safety", line=0, how=""):
        self.name, self.ok, self.detail, self.kind, self.line, self.how = name, ok, detail, kind, line, how

    def __repr__(self):
        return f"{'ok  ' if self.ok else 'FAIL'} {self.kind}: {self.name} {'' if self.ok else self.detail}"


def bytes_of(t):
    if t.k == "int":
        return 8
    if t.k == "real":
        return 8
    if t.k == "complex":
        return 16
    if t.k == "char":
        return 1
    if t.k == "ptr":
        return 8
    if t.k == "arr":
        return t.n * bytes_of(t.a)
    raise Unsupported(f"sizeof {t}")


def scalars_of(t):
    if t.k in ("int", "real", "char", "ptr"):
        return 1
    if t.k == "complex":
        return 2
    if t.k == "arr":
        if t.n is None:
            raise Unsupported("array of unknown size")
        return t.n * scalars_of(t.a)
    if t.k == "void":
        return 1
    raise Unsupported(f"scalars of {t}")


def base_of(t):
    while t.k in ("arr", "ptr"):
        t = t.a
    return t


def dims_of(t):
    d = []
    while t.k == "arr":
        d.append(t.n)
        t = t.a
    if t.k == "complex":
        d.append(2)
    return d


def assigned_vars(n, acc=None):
    if acc is None:
        acc = {}
    if isinstance(n, Node):
        if n.k == "assign" and n.l.k == "var":
            acc[n.l.id] = (n.l.name, n.l.t)
        if n.k == "un" and n.op in ("++", "--") and n.x.k == "var":
            acc[n.x.id] = (n.x.name, n.x.t)
        for v in n.__dict__.values():
            if isinstance(v, (Node, list)):
                assigned_vars(v, acc)
    elif isinstance(n, list):
        for x in n:
            assigned_vars(x, acc)
    return acc


def addr_taken(n, acc=None):
    if acc is None:
        acc = set()
    if isinstance(n, Node):
        if n.k == "un" and n.op == "&" and n.x.k == "var":
            acc.add(n.x.id)
        for v in n.__dict__.values():
            if isinstance(v, (Node, list)):
                addr_taken(v, acc)
    elif isinstance(n, list):
        for x in n:
            addr_taken(x, acc)
    return acc


class Engine:
    MAX_UNROLL = 130

    def __init__(self, program, contracts=None, facts=None, prover=None, opts=None):
        self.P = program
        self.contracts = contracts or {}
        self.facts = facts or Facts()
        self.prover = prover or Prover(self.facts)
        self.splits = {}        # loop site -> list of dims (Poly)
        self.shapes = {}        # malloc site -> shape
        self.wcells = {}
        self.wsets = {}         # loop site -> {region name}
        self.opts = opts or {}
        self.used_contracts = set()
        self.inlined = set()
        self.extracted = set()

    # ------------------------------------------------------------ running
    def run(self, file, fname, setup, maxrestart=60):
        """setup(engine) -> (args list, hyps, state mem additions). Returns (state, ret)."""
        unit, fn = self.P.find(file, fname)
        if fn is None:
            raise Unsupported(f"function {fname} not found")
        for _ in range(maxrestart):
            self.obls = []
            self.hyps = []
            self.binfo = {}
            self.depth = 0
            self.lid = 0
            self.regs = {}
            self.lists = {}
            self.mallocs = {}
            self.frames = []
            self.mem0 = {}
            self.par_depth = 0
            self.retry_names = {}
            self.indeterminate = {}
            args, hyps = setup(self)
            self.hyps = list(hyps)
            st = State({}, dict(self.mem0))
            self.callpath = [fname]
            try:
                ret, st = self.call_body(unit, fn, args, st)
                return st, ret
            except SplitRequest as e:
                self.apply_split(e)
            except ShapeRequest as e:
                self.shapes[e.site] = e.shape
        raise Unsupported("too many restarts")

    def apply_split(self, e):
        cur = self.splits.get(e.site)
        if cur is None:
            raise Unsupported("split of unknown loop")
        p = e.part
        dims = list(cur)
        hi = dims[p]
        if e.fine:
            # part p of size hi -> (hi/factor, factor)
            q, r = T.split_multiple(hi, e.factor)
            if r.items:
                raise Unsupported(f"loop bound {hi} is not a multiple of {e.factor}")
            dims[p:p + 1] = [q, e.factor]
        self.splits[e.site] = dims

    def region(self, name, sort, shape, kind="param", init="init"):
        r = Region(name, sort, shape, kind, init=init)
        self.regs[name] = r
        self.mem0[r] = (Base(init, r),)
        return Ptr(r, ZERO)

    def size(self, name, lo=1):
        v = T.var(name, "int")
        T.NONNEG.add(T.the_atom(v))
        return v

    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal, kind, line=0, detail=""):
        ok = goal if isinstance(goal, bool) else self.prove(goal)
        self.obls.append(Obligation(f"{self.callpath[-1]}:{line}: {name}", ok,
                                    detail or (str(goal)[:300] if not isinstance(goal, bool) else ""),
                                    kind, line))
        return ok

    def prove(self, b, extra=()):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        return self.prover.prove(list(self.hyps) + list(extra), b)

    def decide(self, b):
        if b is TRUE or b is FALSE:
            return b
        if self.prove(b):
            return TRUE
        if self.prove(T.neg(b)):
            return FALSE
        return b

    # bounds by interval substitution of binders
    def upper(self, p, depth=0):
        """an upper bound of p in terms without loop binders, or None"""
        for a in sorted(p.fv, key=lambda a: -a.id):
            if a in self.binfo:
                lo, hi = self.binfo[a][2], self.binfo[a][3]
                c, rest = linear_coef(p, a)
                if c is None:
                    return None
                if self.nonneg(c):
                    p2 = rest + c * (hi - ONE)
                elif self.nonneg(T.scale(c, -1)):
                    p2 = rest + c * lo
                else:
                    return None
                return self.upper(p2, depth + 1) if depth < 12 else None
        return p

    def nonneg(self, p):
        from .prover import _nonpos
        if _nonpos(T.scale(p, -1)):
            return True
        return self.prover.quick(self.hyps, T.le0(T.scale(p, -1)))

    def prove_lt(self, a, b):
        """a < b (integers)"""
        g = T.lt(a, b)
        if g is TRUE:
            return True
        if g is FALSE:
            return False
        if self.prover.quick(self.hyps, g):
            return True
        u = self.upper(T.sub(a, b))
        if u is not None and (self.prover.quick(self.hyps, T.lt(u, ZERO))):
            return True
        return self.prove(g)

    def prove_ge0(self, a):
        if self.nonneg(a):
            return True
        u = self.upper(T.scale(a, -1))
        if u is not None and self.prover.quick(self.hyps, T.le0(u)):
            return True
        return self.prove(T.le0(T.scale(a, -1)))

    # ------------------------------------------------------------ division
    def cdiv(self, a, b, which):
        f = T.cdiv if which == "/" else T.cmod
        r = f(a, b)
        at = T.the_atom(r)
        if at is None or at.op not in ("div", "mod"):
            if at is None and any(x.op in ("div", "mod") and x.args == (a, b) for m, c in r.items for x, e in m):
                pass
            else:
                return r
        q, rem = T.split_multiple(a, b)
        ca = self.prove_ge0(rem) and self.prove_lt(rem, b)
        if ca and (not q.items or self.prove_ge0(q) or self.prove(T.le0(T.scale(a, -1)))):
            return q if which == "/" else rem
        if ca:
            # truncation towards zero of a = b q + rem, 0 <= rem < b
            c = T.conj(T.lt(a, ZERO), T.ne(rem, ZERO))
            return T.ite(c, q + ONE, q) if which == "/" else T.ite(c, rem - b, rem)
        # try to split a loop variable
        self.try_split(rem, b)
        return r

    def try_split(self, p, d):
        """p contains a loop binder v (coefficient 1) ranging over a multiple of d"""
        for m, c in p.items:
            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0] in self.binfo:
                a = m[0][0]
                site, part, lo, hi, splittable = self.binfo[a]
                if not splittable or lo.items:
                    continue
                if hi is d:
                    continue
                q, r = T.split_multiple(hi, d)
                if not r.items and q is not ONE:
                    raise SplitRequest(site, part, d, True)

    # ------------------------------------------------------------ memory
    def digits(self, ptr, line, n=None, what="access"):
        """split the flat offset into index digits; emits the bounds obligation"""
        r = ptr.r
        off = ptr.off
        if not r.shape:
            return ()
        if (r.kind == "malloc" or r.kind == "local" and r.site is not None) and self.need_reshape(r, off):
            pass
        ds = []
        rest = off
        for s in r.strides[:-1]:
            q, rest = T.split_multiple(rest, s)
            ds.append(q)
        ds.append(rest)
        ds = self.fix_digits(r, ds)
        ok = True
        for k, (d, s) in enumerate(zip(ds, r.shape)):
            if not (self.prove_ge0(d) and self.prove_lt(d, s)):
                ok = False
        if not ok:
            for k, (d, s) in enumerate(zip(ds, r.shape)):
                if not self.prove_lt(d, s):
                    for s2 in r.strides[:-1]:
                        self.try_split(d, s2)
                    self.try_split(d, s)
        self.oblige(f"{what} of {r.name} inside its bounds", ok, "bounds", line,
                    f"index ({', '.join(map(str, ds))}) shape ({', '.join(map(str, r.shape))}) offset {off}")
        return tuple(ds)

    def fix_digits(self, r, ds):
        """normalise a negative or too large lower digit when a constant carry shows"""
        ds = list(ds)
        for k in range(len(ds) - 1, 0, -1):
            s = r.shape[k]
            if self.prove_ge0(ds[k]) and self.prove_lt(ds[k], s):
                continue
            if not self.prove_ge0(ds[k]):
                d2 = T.add(ds[k], s)
                if self.prove_ge0(d2) and self.prove_lt(d2, s):
                    ds[k] = d2
                    ds[k - 1] = T.sub(ds[k - 1], ONE)
                    continue
            d2 = T.sub(ds[k], s)
            if self.prove_ge0(d2) and self.prove_lt(d2, s):
                ds[k] = d2
                ds[k - 1] = T.add(ds[k - 1], ONE)
        return ds

    def need_reshape(self, r, off):
        """infer the shape of a malloc'ed block from the strides of an access"""
        N = ONE
        for s in r.shape:
            N = T.mul(N, s)
        strides = set()
        for a in off.fv:
            if a in self.binfo or True:
                c, _ = linear_coef(off, a)
                if c is None or not c.items:
                    continue
                if a in T.NONNEG and a not in self.binfo:
                    continue
                strides.add(c)
        # opaque integer atoms (rank, list components) also have strides
        for m, c in off.items:
            for a, e in m:
                if a.op in ("app", "div", "mod") and e == 1:
                    cc, _ = linear_coef_atom(off, a)
                    if cc is not None and cc.items:
                        strides.add(cc)
        cur = list(r.strides)
        new = [s for s in strides if s not in cur and s is not ONE]
        if not new:
            return False
        for s in new:
            # place s in the chain
            full = [N] + cur
            placed = False
            for k in range(len(full) - 1):
                q1, r1 = T.split_multiple(full[k], s)
                q2, r2 = T.split_multiple(s, full[k + 1])
                if not r1.items and not r2.items and q1 is not ONE and q2 is not ONE:
                    full.insert(k + 1, s)
                    placed = True
                    break
            if placed:
                shape = []
                for k in range(len(full) - 1):
                    q, _ = T.split_multiple(full[k], full[k + 1])
                    shape.append(q)
                raise ShapeRequest(r.site, shape)
        return False

    def read_cell(self, st, r, ds, line=0):
        chain = st.mem.get(r)
        if chain is None:
            raise Unsupported(f"region {r.name} not live")
        return self.read_chain(chain, r, tuple(ds))

    def read_chain(self, chain, r, ds):
        acc = ZERO
        k = len(chain) - 1
        while True:
            e = chain[k]
            if isinstance(e, Base):
                return T.add(acc, self.base_value(e, ds))
            if isinstance(e, OldBase):
                if e.cells is not None and not_in(ds, e.cells):
                    return T.add(acc, self.read_chain(e.pre, r, ds))
                return T.add(acc, T.app(f"old!{e.lid}!{r.name}!{r.uid}", ds, r.sort))
            k -= 1
            if isinstance(e, ListEntry):
                v = self.read_list(e, r, ds)
                if v is None:
                    continue
                if isinstance(v, tuple):
                    c, v = v
                    return T.add(acc, T.ite(c, v, self.read_chain(chain[:k + 1], r, ds)))
                return T.add(acc, v)
            m = self.match(e, ds)
            if m is None:
                continue
            cond, sub, free = m
            if e.kind == "A":
                val = T.subst(e.value, sub)
                if free:
                    acc = T.add(acc, T.mksum(free, cond, val))
                else:
                    acc = T.add(acc, T.ite(cond, val, ZERO))
                continue
            val = T.subst(e.value, sub)
            if free:
                fv = {b for b, _, _ in free}
                if val.fv & fv:
                    # unique solution? not established
                    raise Unsupported(f"write with undetermined index in {r.name} (line {e.line})")
                cond = T.le(ONE, T.mksum(free, cond, ONE))
                cond = self.decide(cond)
            if cond is TRUE:
                return T.add(acc, val)
            if cond is FALSE:
                continue
            self.hyps.append(T.neg(cond))
            try:
                rest = self.read_chain(chain[:k + 1], r, ds)
            finally:
                self.hyps.pop()
            return T.add(acc, T.ite(cond, val, rest))

    def base_value(self, b, ds):
        if b.kind == "init":
            return self.init_value(b.r, ds)
        if b.kind == "zero":
            return ZERO
        return T.app(f"undef!{b.r.name}", ds, b.r.sort)

    def init_value(self, r, ds):
        if r.init_fn if hasattr(r, "init_fn") else None:
            return r.init_fn(*ds)
        return T.app(r.name, ds, r.sort)

    def match(self, e, ds):
        """unify the entry's digits with ds -> (cond, subst, free binders) or None"""
        bvs = {b for b, _, _ in e.binders}
        sub = {}
        conds = []
        todo = list(zip(e.digits, ds))
        # quick rejection on constants
        for x, y in todo:
            if x is y:
                continue
            if not x.fv and not y.fv and T.cval(x) is not None and T.cval(y) is not None:
                return None
        progress = True
        while todo and progress:
            progress = False
            rest = []
            for x, y in todo:
                x = T.subst(x, sub)
                un = [b for b in x.fv if b in bvs and b not in sub]
                if not un:
                    c = T.eq(x, y)
                    if c is FALSE:
                        return None
                    if c is not TRUE:
                        conds.append(c)
                    progress = True
                    continue
                solved = False
                if len(un) > 1:
                    rx = self.radix(x, y, e, un)
                    if rx is not None:
                        for b, d in rx:
                            sub[b] = d
                        progress = True
                        continue
                for b in un:
                    s = T.solve_linear(T.sub(x, y), b)
                    if s is not None and not (s.fv & (bvs - set(sub))):
                        sub[b] = s
                        solved = True
                        break
                if not solved:
                    r = self.solve_inj(x, y, un, sub)
                    if r is not None:
                        conds.extend(r)
                        solved = True
                if solved:
                    progress = True
                else:
                    rest.append((x, y))
            todo = rest
        # substitution may be chained
        for x, y in todo:
            conds.append(T.eq(T.subst(x, sub), y))
        for b in list(sub):
            sub[b] = T.subst(sub[b], {k: v for k, v in sub.items() if k is not b})
        free = []
        for b, lo, hi in e.binders:
            lo2, hi2 = T.subst(lo, sub), T.subst(hi, sub)
            if b in sub:
                conds.append(T.le(lo2, sub[b]))
                conds.append(T.lt(sub[b], hi2))
            else:
                free.append((b, lo2, hi2))
        if free:
            # fresh names for the free binders
            ren = {}
            nf = []
            for b, lo, hi in free:
                f = T.the_atom(T.fresh("f"))
                nf.append((f, T.subst(lo, ren), T.subst(hi, ren)))
                ren[b] = T.P(f)
            sub = {b: T.subst(s, ren) for b, s in sub.items()}
            sub.update(ren)
            conds = [T.subst(c, ren) for c in conds]
            free = nf
        conds += [T.subst(c, sub) for c in T.conjuncts(e.guard)] if e.guard is not TRUE else []
        if e.guard is FALSE:
            return None
        out = []
        fv = {b for b, _, _ in free}
        for c in conds:
            if c is TRUE:
                continue
            if c is FALSE:
                return None
            if c.fv & fv:
                out.append(c)
                continue
            c = self.decide(c)
            if c is FALSE:
                return None
            out.append(c)
        cond = T.conj(*out)
        if cond is FALSE:
            return None
        return cond, sub, free

    def radix(self, x, y, e, un):
        """x = sum c_k b_k with mixed-radix coefficients: y determines every b_k"""
        rng = {b: (lo, hi) for b, lo, hi in e.binders}
        cs = []
        for m, c in x.items:
            if len(m) != 1 or m[0][1] != 1 or m[0][0] not in rng or m[0][0] not in un:
                return None
            lo, hi = rng[m[0][0]]
            h = T.cval(hi)
            if lo.items or h is None:
                return None
            cs.append((c, m[0][0], h))
        cs.sort(key=lambda t: -t[0])
        if cs[-1][0] != 1:
            return None
        for (c1, _, _), (c2, _, h2) in zip(cs, cs[1:]):
            if c2 * h2 > c1:
                return None
        out = []
        rest = y
        v = T.cval(y)
        for c, b, h in cs[:-1]:
            if v is not None:
                q = v // c
                v -= q * c
                out.append((b, T.const(q)))
                continue
            q, rest = T.split_multiple(rest, T.const(c))
            if not (self.prove_ge0(rest) and self.prove_lt(rest, T.const(c))):
                self.try_split(rest, T.const(c))
                return None
            out.append((b, q))
        out.append((cs[-1][1], T.const(v) if v is not None else rest))
        return out

    def solve_inj(self, x, y, un, sub):
        """x contains unsolved binders inside an application known to be injective"""
        ax = T.the_atom(x)
        if ax is None:
            return None
        if ax.op == "app":
            nm = ax.args[0]
            ay = T.the_atom(y)
            if nm in self.facts.injective or nm.startswith("rank!"):
                spec = self.facts.injective.get(nm)
                if ay is not None and ay.op == "app" and ay.args[0] == nm:
                    conds = []
                    for p, q in zip(ax.args[1], ay.args[1]):
                        p = T.subst(p, sub)
                        b = T.the_atom(p)
                        if b is not None and b in un and b not in sub:
                            sub[b] = q
                        else:
                            conds.append(T.eq(p, q))
                    return conds
                if callable(spec):
                    # inverse function: spec(args, y) -> (arg index, value) with condition x(value)==y
                    r = spec(ax.args[1], y)
                    if r is None:
                        return None
                    pos, val, extra = r
                    b = T.the_atom(ax.args[1][pos])
                    if b is None or b not in un:
                        return None
                    sub[b] = val
                    return list(extra)
        return None

    def read_list(self, e, r, ds):
        """read row ds[0] of a filter list; ds[0] must be a rank term of this list"""
        a = T.the_atom(T.sub(ds[0], e.start))
        if a is not None and a.op == "app" and a.args[0] == "rank!" + e.rank:
            vals = a.args[1]
            sub = {b: v for (b, _, _), v in zip(e.binders, vals)}
            key = tuple(ds[1:])
            for comp, val in e.comps:
                if all(T.eq(x, y) is TRUE for x, y in zip(comp, key)):
                    return T.subst(val, sub)
            return None
        raise Unsupported(f"row {ds[0]} of a filter list in {r.name}")

    def write_cell(self, st, r, ds, val, line, kind="W"):
        if self.par_depth and r.kind != "malloc":
            pass
        if kind == "A" and not val.items:
            return
        st.mem[r] = st.mem[r] + (Entry(kind, (), TRUE, tuple(ds), val, line),)

    # ------------------------------------------------------------ load / store
    def load(self, st, ptr, t, line):
        if isinstance(ptr, IteV):
            ptr = self.choose(ptr)
        if isinstance(ptr, (Null, Undef)):
            self.oblige("pointer is valid", False, "bounds", line, repr(ptr))
            raise Unsupported("null or undefined pointer dereference")
        if t.k == "struct":
            raise Unsupported("struct load")
        if not isinstance(ptr, Ptr):
            raise Unsupported(f"load through {ptr}")
        if t.k == "complex":
            d = self.digits(ptr, line)
            d2 = self.digits(Ptr(ptr.r, T.add(ptr.off, ONE)), line)
            return Cx(self.read_cell(st, ptr.r, d, line), self.read_cell(st, ptr.r, d2, line))
        if t.k == "ptr":
            d = self.digits(ptr, line)
            key = tuple(T.cval(x) for x in d)
            tab = st.mem.get(("ptrs", ptr.r))
            if tab is None or None in key or key not in tab:
                return Undef(f"{ptr.r.name}{key}")
            return tab[key]
        d = self.digits(ptr, line)
        return self.read_cell(st, ptr.r, d, line)

    def store(self, st, ptr, t, val, line, acc=None):
        if isinstance(ptr, IteV):
            ptr = self.choose(ptr)
        if isinstance(ptr, (Null, Undef)):
            self.oblige("pointer is valid", False, "bounds", line, repr(ptr))
            raise Unsupported("null or undefined pointer write")
        if t.k == "ptr":
            d = self.digits(ptr, line)
            key = tuple(T.cval(x) for x in d)
            if None in key:
                raise Unsupported("store of a pointer at a symbolic index")
            tab = dict(st.mem.get(("ptrs", ptr.r)) or {})
            tab[key] = val
            st.mem[("ptrs", ptr.r)] = tab
            return
        if t.k == "complex":
            d = self.digits(ptr, line, what="write")
            d2 = self.digits(Ptr(ptr.r, T.add(ptr.off, ONE)), line, what="write")
            val = self.tocx(val)
            if acc is not None:
                self.write_cell(st, ptr.r, d, acc.re, line, "A")
                self.write_cell(st, ptr.r, d2, acc.im, line, "A")
            else:
                self.write_cell(st, ptr.r, d, val.re, line)
                self.write_cell(st, ptr.r, d2, val.im, line)
            return
        d = self.digits(ptr, line, what="write")
        if ptr.r.kind == "const":
            self.oblige(f"{ptr.r.name} is not modified", False, "frame", line)
        if acc is not None:
            self.write_cell(st, ptr.r, d, self.num(acc), line, "A")
            return
        v = self.num(val)
        # x = x + e  written out
        if any(a.op in ("app", "sum", "ite") for m, c in v.items for a, e in m):
            try:
                old = self.read_cell(st, ptr.r, d, line)
            except Unsupported:
                old = None
            if old is not None and old.items and not T.cval(old) is not None:
                diff = T.sub(v, old)
                names = [a for a in T.atoms_in(old).values() if a.op == "app" and a.args[0].startswith("old!")]
                if names and not any(a.id in T.atoms_in(diff) for a in names):
                    self.write_cell(st, ptr.r, d, diff, line, "A")
                    return
        self.write_cell(st, ptr.r, d, v, line)

    def choose(self, v):
        while isinstance(v, (IteV, Deferred)):
            if isinstance(v, Deferred):
                v = v.fn()
                continue
            c = self.decide(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                raise Unsupported("choice between pointers under an undetermined condition")
        return v

    def num(self, v):
        if isinstance(v, Deferred):
            v = v.fn()
        if isinstance(v, Bool):
            return T.indicator(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, Cx):
            if not v.im.items:
                return v.re
            raise Unsupported("complex used as real")
        if isinstance(v, Undef):
            return T.app("undef!" + v.name, (), "real")
        if isinstance(v, Null):
            return ZERO
        raise Unsupported(f"number expected, got {v}")

    def tocx(self, v):
        if isinstance(v, Deferred):
            v = v.fn()
        if isinstance(v, Cx):
            return v
        if isinstance(v, Undef):
            return Cx(T.app("undef!" + v.name + ".re", (), "real"), T.app("undef!" + v.name + ".im", (), "real"))
        return Cx(self.num(v), ZERO)

    def truth(self, v):
        if isinstance(v, Deferred):
            v = v.fn()
        if isinstance(v, Bool):
            return v
        if isinstance(v, (Ptr, SPtr, FnPtr)):
            return TRUE
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, IteV):
            return T.bite(v.c, self.truth(v.a), self.truth(v.b))
        return T.neg(T.eq0(self.num(v)))

    # ------------------------------------------------------------ expressions
    def lval(self, n, st):
        """-> ('var', id) or ('mem', Ptr, type) or ('field', obj, name)"""
        while n.k == "cast" and n.ck in ("NoOp", "LValueToRValue", "BitCast"):
            n = n.x
        if n.k == "var":
            v = st.env.get(n.id)
            if isinstance(v, tuple) and v and v[0] == "cell":
                return ("mem", v[1], n.t)
            return ("var", n.id)
        if n.k == "sub":
            b, i = n.b, n.i
            bv = self.ev(b, st)
            iv = self.ev(i, st)
            if isinstance(iv, (Ptr,)):
                bv, iv = iv, bv
            return ("mem", self.padd(bv, self.num(iv), n.t), n.t)
        if n.k == "un" and n.op == "*":
            return ("mem", self.ev(n.x, st), n.t)
        if n.k == "member":
            o = self.ev(n.x, st)
            if isinstance(o, IteV):
                o = self.choose(o)
            if isinstance(o, SPtr):
                o = o.obj
            if isinstance(o, StructObj):
                return ("field", o, n.f)
            raise Unsupported(f"member of {o}")
        raise Unsupported(f"lvalue {n.k} line {n.line}")

    def padd(self, p, i, elem):
        if isinstance(p, Deferred):
            p = p.fn()
        if isinstance(p, IteV):
            return IteV(p.c, self.padd(p.a, i, elem), self.padd(p.b, i, elem))
        if isinstance(p, Null) and i is ZERO:
            return p
        if not isinstance(p, Ptr):
            if isinstance(p, Null):
                return Undef("null+offset")
            raise Unsupported(f"pointer arithmetic on {p}")
        return Ptr(p.r, T.add(p.off, T.scale(i, scalars_of(elem))))

    def ev(self, n, st):
        k = n.k
        if k == "int":
            return T.const(n.v)
        if k == "float":
            return T.num(n.v)
        if k == "imag":
            return Cx(ZERO, self.num(self.ev(n.v, st)))
        if k == "var":
            if n.dk == "FunctionDecl":
                return FnPtr(n.name)
            if n.id in st.env:
                v = st.env[n.id]
                if isinstance(v, tuple) and v[0] == "cell":
                    if n.t.k == "arr":
                        return v[1]
                    return self.load(st, v[1], n.t, n.line)
                if isinstance(v, Deferred):
                    v = v.fn()
                    st.env[n.id] = v
                if isinstance(v, Undef):
                    return v
                return v
            return self.global_value(n, st)
        if k == "cast":
            return self.ev_cast(n, st)
        if k in ("sub", "member"):
            lv = self.lval(n, st)
            return self.load_lv(lv, n, st)
        if k == "un":
            return self.ev_un(n, st)
        if k == "bin":
            return self.ev_bin(n, st)
        if k == "assign":
            return self.ev_assign(n, st)
        if k == "cond":
            c = self.decide(self.truth(self.ev(n.c, st)))
            if c is TRUE:
                return self.ev(n.a, st)
            if c is FALSE:
                return self.ev(n.b, st)
            self.hyps.append(c)
            a = self.ev(n.a, st)
            self.hyps[-1] = T.neg(c)
            b = self.ev(n.b, st)
            self.hyps.pop()
            return self.vite(c, a, b)
        if k == "sizeof":
            return T.const(bytes_of(n.ty))
        if k == "call":
            return self.ev_call(n, st)
        if k == "str":
            return Undef("string")
        raise Unsupported(f"expression {k} line {n.line}")

    def load_lv(self, lv, n, st):
        if lv[0] == "var":
            return st.env[lv[1]]
        if lv[0] == "field":
            v = lv[1].fields.get(lv[2])
            if v is None:
                raise Unsupported(f"field {lv[2]}")
            return v
        ptr, t = lv[1], lv[2]
        if t.k == "arr":
            return ptr           # decays
        if t.k == "struct":
            raise Unsupported("struct value")
        return self.load(st, ptr, t, n.line)

    def global_value(self, n, st):
        for u in self.P.units.values():
            if n.name in u.globals and u is self.unit:
                t, init = u.globals[n.name]
                if t.k == "arr":
                    key = f"glob!{n.name}"
                    if key not in self.regs:
                        r = Region(key, "int" if base_of(t).k in ("int", "char") else "real", dims_of(t), "const")
                        self.regs[key] = r
                        vals = {}
                        self.flatten_init(init, t, (), vals)
                        r.init_fn = lambda *ds, vals=vals, r=r: self.table(r, vals, ds)
                    r = self.regs[key]
                    if r not in st.mem:
                        st.mem[r] = (Base("init", r),)
                    return Ptr(r, ZERO)
                if init is not None:
                    return self.ev(init, st)
        raise Unsupported(f"variable {n.name} line {n.line}")

    def table(self, r, vals, ds):
        key = tuple(T.cval(d) for d in ds)
        if None not in key:
            return vals.get(tuple(int(x) for x in key), ZERO)
        return T.app(r.name, ds, r.sort)

    def flatten_init(self, init, t, pre, vals):
        if t.k == "arr":
            if init.k != "init":
                raise Unsupported("array initialiser")
            for i, x in enumerate(init.xs):
                self.flatten_init(x, t.a, pre + (i,), vals)
        else:
            vals[pre] = self.num(self.ev(init, State({}, {})))

    def ev_cast(self, n, st):
        ck = n.ck
        if ck in ("LValueToRValue", "NoOp", "ToVoid", "BuiltinFnToFnPtr", "FunctionToPointerDecay", "ArrayToPointerDecay"):
            return self.ev(n.x, st)
        v = self.ev(n.x, st)
        if ck == "BitCast":
            if isinstance(v, tuple) and v[0] == "malloc":
                return self.do_malloc(v, n.t, st)
            return v
        if ck == "NullToPointer":
            return NULL
        if ck in ("IntegralToFloating", "IntegralCast", "FloatingCast"):
            if isinstance(v, (Bool,)):
                return self.num(v)
            return v
        if ck == "FloatingToIntegral":
            return T.fti(self.num(v))
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return self.truth(v)
        if ck in ("FloatingRealToComplex", "IntegralRealToComplex", "FloatingComplexCast"):
            return self.tocx(v)
        if ck == "FloatingComplexToReal":
            return self.tocx(v).re
        raise Unsupported(f"cast {ck}")

    def do_malloc(self, v, t, st):
        _, nbytes, line, node = v
        if t.k != "ptr":
            raise Unsupported("malloc cast")
        if t.a.k == "struct":
            raise Unsupported("malloc of struct")
        b = base_of(t.a)
        if t.a.k == "ptr":
            b = CType("ptr", VOID)
        bs = bytes_of(b)
        ncell = T.scale(nbytes, Fraction(scalars_of(b), bs))
        if any(c.denominator != 1 for m, c in ncell.items):
            self.oblige("allocation size is a whole number of elements", False, "bounds", line)
            raise Unsupported("malloc size")
        site = tuple(self.callpath) + (node,)
        nm = f"heap@{self.callpath[-1]}:{line}"
        shape = self.shapes.get(site)
        if shape is None:
            tail = dims_of(t.a) if t.a.k in ("arr", "complex") else []
            q = ncell
            for d in tail:
                q = T.scale(q, Fraction(1, d))
            shape = [q] + tail if all(c.denominator == 1 for m, c in q.items) else [ncell]
        r = Region(nm, "int" if b.k in ("int", "char") else "real", shape, "malloc", site=site)
        st.mem[r] = (Base("undef", r),)
        self.mallocs[r] = line
        return Ptr(r, ZERO)

    def ev_un(self, n, st):
        op = n.op
        if op == "&":
            lv = self.lval(n.x, st)
            if lv[0] == "mem":
                return lv[1]
            if lv[0] == "field":
                v = lv[1].fields[lv[2]]
                if isinstance(v, StructObj):
                    return SPtr(v)
                raise Unsupported("address of field")
            v = st.env.get(lv[1])
            if isinstance(v, StructObj):
                return SPtr(v)
            raise Unsupported(f"address of scalar line {n.line}")
        if op == "*":
            v = self.ev(n.x, st)
            if isinstance(v, FnPtr):
                return v
            if isinstance(v, SPtr):
                return v.obj
            if n.t.k == "arr":
                return v
            return self.load(st, v, n.t, n.line)
        if op in ("++", "--"):
            old = self.ev(n.x, st)
            d = ONE if op == "++" else T.const(-1)
            if isinstance(old, Ptr):
                new = self.padd(old, d, n.x.t.a)
            else:
                new = T.add(self.num(old), d)
            self.assign_to(n.x, new, st, acc=None if isinstance(old, Ptr) else d)
            return old if n.post else new
        v = self.ev(n.x, st)
        if op == "-":
            if isinstance(v, Cx):
                return Cx(-v.re, -v.im)
            return T.scale(self.num(v), -1)
        if op == "+":
            return v
        if op == "!":
            return T.neg(self.truth(v))
        if op in ("__real", "__real__"):
            return self.tocx(v).re
        if op in ("__imag", "__imag__"):
            return self.tocx(v).im
        if op == "__extension__":
            return v
        raise Unsupported(f"unary {op}")

    def ev_bin(self, n, st):
        op = n.op
        if op in ("&&", "||"):
            a = self.truth(self.ev(n.l, st))
            a = self.decide(a) if a is not TRUE and a is not FALSE else a
            if op == "&&":
                if a is FALSE:
                    return FALSE
                self.hyps.append(a)
                b = self.truth(self.ev(n.r, st))
                self.hyps.pop()
                return T.conj(a, b)
            if a is TRUE:
                return TRUE
            self.hyps.append(T.neg(a))
            b = self.truth(self.ev(n.r, st))
            self.hyps.pop()
            return T.disj(a, b)
        if op == ",":
            self.ev(n.l, st)
            return self.ev(n.r, st)
        a, b = self.ev(n.l, st), self.ev(n.r, st)
        return self.arith(op, a, b, n)

    def arith(self, op, a, b, n):
        if isinstance(a, Deferred):
            a = a.fn()
        if isinstance(b, Deferred):
            b = b.fn()
        if isinstance(a, (Ptr, Null, IteV, SPtr)) or isinstance(b, (Ptr, Null, SPtr, IteV)):
            if op == "+":
                if isinstance(a, (Ptr, IteV)):
                    return self.padd(a, self.num(b), n.l.t.a)
                return self.padd(b, self.num(a), n.r.t.a)
            if op == "-" and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return self.padd(a, T.scale(self.num(b), -1), n.l.t.a)
            if op in ("==", "!="):
                if isinstance(a, Null) or isinstance(b, Null):
                    r = T.neg(self.truth(b if isinstance(a, Null) else a))
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                    r = T.eq(a.off, b.off)
                else:
                    raise Unsupported("pointer comparison")
                return r if op == "==" else T.neg(r)
            raise Unsupported(f"pointer {op} line {n.line}")
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = self.tocx(a), self.tocx(b)
            if op == "+":
                return Cx(a.re + b.re, a.im + b.im)
            if op == "-":
                return Cx(a.re - b.re, a.im - b.im)
            if op == "*":
                return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
            if op == "/":
                if not b.im.items:
                    return Cx(a.re / b.re, a.im / b.re)
                d = b.re * b.re + b.im * b.im
                return Cx((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)
            raise Unsupported(f"complex {op}")
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(a, Bool) and isinstance(b, Bool) and op in ("==", "!="):
                r = T.bite(a, b, T.neg(b))
                return r if op == "==" else T.neg(r)
            a, b = self.num(a), self.num(b)
            return {"==": lambda: T.eq(a, b), "!=": lambda: T.ne(a, b), "<": lambda: T.lt(a, b),
                    "<=": lambda: T.le(a, b), ">": lambda: T.lt(b, a), ">=": lambda: T.le(b, a)}[op]()
        a, b = self.num(a), self.num(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in ("/", "%"):
            if n.t.k in ("int", "char") and n.l.t.k in ("int", "char") and n.r.t.k in ("int", "char"):
                if not self.prove(T.ne(b, ZERO)):
                    self.oblige("integer divisor is not zero", False, "div0", n.line, str(b))
                return self.cdiv(a, b, op)
            return T.rdiv(a, b)
        if op == "<<" and T.cval(b) is not None:
            return T.scale(a, 2 ** int(T.cval(b)))
        if op in ("&", "|", "^", ">>", "<<"):
            ca, cb = T.cval(a), T.cval(b)
            if ca is not None and cb is not None:
                ca, cb = int(ca), int(cb)
                return T.const({"&": ca & cb, "|": ca | cb, "^": ca ^ cb, ">>": ca >> cb, "<<": ca << cb}[op])
        raise Unsupported(f"operator {op} line {n.line}")

    def ev_assign(self, n, st):
        op = n.op
        if op == "=":
            v = self.ev(n.r, st)
            if n.l.t.k == "struct":
                raise Unsupported("struct assignment")
            if isinstance(v, tuple) and v[0] == "malloc":
                v = self.do_malloc(v, n.l.t, st)
            self.assign_to(n.l, v, st)
            return v
        bop = op[:-1]
        rv = self.ev(n.r, st)
        lv = self.lval(n.l, st)
        if bop in ("+", "-") and lv[0] == "mem" and lv[2].k in ("real", "int", "complex", "char"):
            if lv[2].k == "complex":
                r = self.tocx(rv)
                acc = r if bop == "+" else Cx(-r.re, -r.im)
            else:
                r = self.num(rv)
                acc = r if bop == "+" else -r
            self.store(st, lv[1], lv[2], None, n.line, acc=acc)
            return Undef("compound")
        old = self.load_lv(lv, n.l, st)
        if isinstance(old, Deferred):
            old = old.fn()
        fake = Node("bin", n.line, op=bop, l=n.l, r=n.r, t=n.t)
        v = self.arith(bop, old, rv, fake)
        self.assign_lv(lv, v, st, n.line)
        return v

    def assign_to(self, ln, v, st, acc=None):
        lv = self.lval(ln, st)
        if acc is not None and lv[0] == "mem" and lv[2].k != "ptr":
            self.store(st, lv[1], lv[2], None, ln.line, acc=acc)
            return
        self.assign_lv(lv, v, st, ln.line)

    def assign_lv(self, lv, v, st, line):
        if lv[0] == "var":
            if isinstance(v, Bool):
                v = self.num(v)
            t = self.vtypes.get(lv[1])
            if t is not None and t.k == "complex":
                v = self.tocx(v)
            elif t is not None and t.k == "int" and isinstance(v, Poly) and not v.isint:
                v = T.fti(v)
            st.env[lv[1]] = v
        elif lv[0] == "mem":
            self.store(st, lv[1], lv[2], v, line)
        else:
            obj = lv[1]
            if isinstance(v, Bool):
                v = self.num(v)
            key = ("sobj", id(obj))
            obj.fields[lv[2]] = v      # only straight-line use is supported
            if self.hyps_in_branch():
                raise Unsupported("struct field assignment under a condition")

    def hyps_in_branch(self):
        return self.branch_depth > 0

    # ------------------------------------------------------------ calls
    INTR = {"sqrt", "exp", "sin", "cos", "sinh", "cosh", "fabs", "tan"}

    def ev_call(self, n, st):
        f = n.f
        if f.k == "var" and f.dk == "FunctionDecl":
            name = f.name
        else:
            fv = self.ev(f, st)
            if isinstance(fv, IteV):
                fv = self.choose(fv)
            if not isinstance(fv, FnPtr):
                raise Unsupported(f"call through {fv}")
            name = fv.name
        if name == "malloc":
            return ("malloc", self.num(self.ev(n.args[0], st)), n.line, n.line)
        args = [self.ev(a, st) for a in n.args]
        if name == "free":
            p = args[0]
            if isinstance(p, IteV):
                try:
                    p = self.choose(p)
                except Unsupported:
                    return Undef("free")
            if isinstance(p, Ptr):
                self.oblige(f"free of {p.r.name}: start of a live block",
                            p.r.kind == "malloc" and not p.off.items and p.r in st.mem, "bounds", n.line)
                st.mem.pop(p.r, None)
            return Undef("free")
        if name in self.INTR:
            return T.func(name, self.num(args[0]))
        if name in ("creal", "cimag"):
            c = self.tocx(args[0])
            return c.re if name == "creal" else c.im
        if name == "conj":
            c = self.tocx(args[0])
            return Cx(c.re, -c.im)
        if name in ("__builtin_complex",):
            return Cx(self.num(args[0]), self.num(args[1]))
        if name in ("printf", "fprintf", "fflush", "warning_print", "puts"):
            return Undef("io")
        if name == "memcpy":
            return self.do_memcpy(args, n, st)
        if name in ("abs", "labs", "llabs"):
            x = self.num(args[0])
            return T.ite(T.lt(x, ZERO), -x, x)
        if name == "pow":
            e = T.cval(self.num(args[1]))
            if e is not None and e.denominator == 1 and e >= 0:
                return self.num(args[0]) ** int(e)
        if name in self.contracts:
            self.used_contracts.add(name)
            c = self.contracts[name]
            return c.apply(self, st, args, n)
        u, fn = self.P.lookup(self.unit, name)
        if fn is None:
            raise Unsupported(f"call of unknown function {name} line {n.line}")
        if len(self.callpath) > 14:
            raise Unsupported("inline depth")
        ret, st2 = self.call_body(u, fn, args, st)
        st.mem.clear()
        st.mem.update(st2.mem)
        return ret

    def do_memcpy(self, args, n, st):
        dst, src, nb = args
        dst, src = self.choose(dst) if isinstance(dst, IteV) else dst, self.choose(src) if isinstance(src, IteV) else src
        nb = self.num(nb)
        cells = T.scale(nb, Fraction(1, 8))
        c = T.cval(cells)
        if c is not None and c <= 64:
            for i in range(int(c)):
                d = self.digits(Ptr(dst.r, dst.off + i), n.line, what="write")
                s = self.digits(Ptr(src.r, src.off + i), n.line)
                self.write_cell(st, dst.r, d, self.read_cell(st, src.r, s), n.line)
            return Undef("memcpy")
        # symbolic: a loop  for k: dst[k] = src[k]; complex pairs if even
        two = [i for i in cells.items if (i[1] / 2).denominator != 1] == []
        hi = T.scale(cells, Fraction(1, 2)) if two else cells
        site = tuple(self.callpath) + (n.line, "memcpy", id(n))
        parts = self.splits.get(site)
        prod = ONE
        for p in parts or ():
            prod = T.mul(prod, p)
        if parts is None or prod is not hi:
            parts = self.splits[site] = [hi]
        bs, v = [], ZERO
        for pi, d in enumerate(parts):
            k = self.new_binder("m", ZERO, d, site, pi)
            bs.append((k, ZERO, d))
            v = T.add(T.mul(v, d), T.P(k))
        nh = len(self.hyps)
        self.hyps += [g for k, l, h in bs for g in (T.le(l, T.P(k)), T.lt(T.P(k), h))]
        for c2 in ([0, 1] if two else [0]):
            o = T.add(T.scale(v, 2 if two else 1), T.const(c2))
            d = self.digits(Ptr(dst.r, dst.off + o), n.line, what="write")
            s = self.digits(Ptr(src.r, src.off + o), n.line)
            x = self.read_cell(st, src.r, s)
            st.mem[dst.r] = st.mem[dst.r] + (Entry("W", tuple(bs), TRUE, d, x, n.line),)
        del self.hyps[nh:]
        return Undef("memcpy")

    def new_binder(self, name, lo, hi, site=None, part=0):
        a = T.the_atom(T.fresh(name))
        self.binfo[a] = (site, part, lo, hi, site is not None)
        return a

    def call_body(self, unit, fn, args, st):
        if fn.body is None:
            raise Unsupported(f"{fn.name}: {fn.err}")
        self.inlined.add(fn.name)
        self.extracted.add((fn.file, fn.name, fn.line))
        saved = (getattr(self, "unit", None), getattr(self, "vtypes", None), getattr(self, "fnode", None),
                 getattr(self, "branch_depth", 0), getattr(self, "names", None))
        self.unit, self.fnode, self.branch_depth = unit, fn, 0
        self.vtypes = {}
        self.names = {}
        self.callpath.append(fn.name) if self.callpath[-1] != fn.name or len(self.callpath) > 1 else None
        taken = addr_taken(fn.body)
        env = {}
        st2 = State(env, dict(st.mem))
        for (pn, pt, pid, pc), a in zip(fn.params, args):
            self.vtypes[pid] = pt
            self.names[pn] = pid
            if pt.k == "int" and isinstance(a, Bool):
                a = self.num(a)
            if pt.k == "real" and isinstance(a, Bool):
                a = self.num(a)
            if pid in taken and pt.k not in ("struct", "arr"):
                r = Region(f"{pn}", "int" if pt.k in ("int", "char") else "real", [2] if pt.k == "complex" else [1], "local")
                st2.mem[r] = (Base("undef", r),)
                env[pid] = ("cell", Ptr(r, ZERO))
                self.store(st2, Ptr(r, ZERO), pt, a, fn.line)
            else:
                env[pid] = a
        self.taken = taken
        try:
            outs = self.exec(fn.body, st2)
            rets = []
            for o in outs:
                if o[0] == "next":
                    rets.append((o[1], o[2], None))
                elif o[0] == "return":
                    rets.append((o[1], o[2], o[3]))
                else:
                    raise Unsupported(f"{o[0]} out of function {fn.name}")
            ret = None
            if fn.ret.k != "void":
                vals = [(c, v) for c, s, v in rets if v is not None]
                if not vals:
                    ret = Undef("no return")
                else:
                    ret = vals[-1][1]
                    for c, v in reversed(vals[:-1]):
                        ret = self.vite(c, v, ret)
            m = self.merge([(c, State({}, s.mem)) for c, s, _ in rets])
            return ret, State(dict(st.env), m.mem)
        finally:
            if len(self.callpath) > 1:
                self.callpath.pop()
            self.unit, self.vtypes, self.fnode, self.branch_depth, self.names = saved

    # ------------------------------------------------------------ merging
    def vite(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Deferred):
            a = a.fn()
        if isinstance(b, Deferred):
            b = b.fn()
        if isinstance(a, Undef) or isinstance(b, Undef):
            if isinstance(a, Undef) and isinstance(b, Undef):
                return a
            # undefined on one path: keep a marked choice
            if isinstance(a, (Poly, Bool)) or isinstance(b, (Poly, Bool)):
                return T.ite(c, self.num(a), self.num(b))
            if isinstance(a, Cx) or isinstance(b, Cx):
                a, b = self.tocx(a), self.tocx(b)
                return Cx(T.ite(c, a.re, b.re), T.ite(c, a.im, b.im))
            return IteV(c, a, b)
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = self.tocx(a), self.tocx(b)
            return Cx(T.ite(c, a.re, b.re), T.ite(c, a.im, b.im))
        if isinstance(a, (Poly, Bool)) and isinstance(b, (Poly, Bool)):
            if isinstance(a, Bool) and isinstance(b, Bool):
                return T.bite(c, a, b)
            return T.ite(c, self.num(a), self.num(b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            return Ptr(a.r, T.ite(c, a.off, b.off))
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        if isinstance(a, tuple) and a == b:
            return a
        return IteV(c, a, b)

    def merge(self, outs):
        """outs: [(cond, State)] mutually exclusive"""
        outs = [(c, s) for c, s in outs if c is not FALSE]
        if len(outs) == 1:
            return outs[0][1]
        env = {}
        keys = set()
        for c, s in outs:
            keys |= set(s.env)
        for k in keys:
            vals = [(c, s.env[k]) for c, s in outs if k in s.env]
            if len(vals) < len(outs):
                continue      # out of scope in some branch
            v = vals[-1][1]
            for c, x in reversed(vals[:-1]):
                v = self.vite(c, x, v)
            env[k] = v
        mem = {}
        regs = []
        seen = set()
        for c, s in outs:
            for r in s.mem:
                if r not in seen:
                    seen.add(r)
                    regs.append(r)
        for r in regs:
            if isinstance(r, tuple):       # pointer tables
                tabs = [(c, s.mem.get(r, {})) for c, s in outs]
                ks = set()
                for _, t in tabs:
                    ks |= set(t)
                out = {}
                for kk in ks:
                    v = tabs[-1][1].get(kk, Undef("ptr"))
                    for c, t in reversed(tabs[:-1]):
                        v = self.vite(c, t.get(kk, Undef("ptr")), v)
                    out[kk] = v
                mem[r] = out
                continue
            chains = [(c, s.mem[r]) for c, s in outs if r in s.mem]
            if len(chains) == 1:
                mem[r] = chains[0][1]
                continue
            if len(chains) < len(outs) and r.kind == "malloc":
                # freed on some paths
                pass
            first = chains[0][1]
            n = min(len(ch) for _, ch in chains)
            p = 0
            while p < n and all(ch[p] is first[p] for _, ch in chains):
                p += 1
            new = list(first[:p])
            for c, ch in chains:
                for e in ch[p:]:
                    if isinstance(e, Entry):
                        new.append(e.with_(guard=T.conj(c, e.guard)))
                    elif isinstance(e, ListEntry):
                        new.append(ListEntry(e.binders, T.conj(c, e.guard), e.start, e.comps, e.line, e.rank) if c is not TRUE else e)
                        if c is not TRUE:
                            raise Unsupported("filter list under a condition")
                    elif p == 0:
                        raise Unsupported("different bases at a merge")
                    else:
                        raise Unsupported("base in the middle of a chain")
            mem[r] = tuple(new)
        return State(env, mem)

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        """-> list of outcomes (kind, cond, state, extra)"""
        k = n.k
        if k == "block":
            return self.exec_block(n.xs, st)
        if k == "decl":
            for v in n.vs:
                self.do_decl(v, st)
            return [("next", TRUE, st, None)]
        if k == "expr":
            self.ev(n.x, st)
            return [("next", TRUE, st, None)]
        if k == "null":
            return [("next", TRUE, st, None)]
        if k == "if":
            return self.exec_if(n, st)
        if k == "for":
            return self.exec_for(n, st, None)
        if k == "omp":
            if n.d in ("OMPParallelForDirective", "OMPForDirective", "OMPParallelForSimdDirective", "OMPSimdDirective"):
                return self.exec_for(n.body, st, n.clauses if n.d != "OMPSimdDirective" else None)
            raise Unsupported(f"OpenMP directive {n.d}")
        if k in ("while", "do"):
            return self.exec_while(n, st)
        if k == "return":
            v = self.ev(n.x, st) if n.x is not None else None
            if isinstance(v, Bool):
                v = self.num(v)
            if self.fnode.ret.k == "int" and isinstance(v, Poly) and not v.isint:
                v = T.fti(v)
            return [("return", TRUE, st, v)]
        if k == "break":
            return [("break", TRUE, st, None)]
        if k == "continue":
            return [("continue", TRUE, st, None)]
        if k == "goto":
            return [("goto", TRUE, st, n.label)]
        if k == "label":
            return self.exec_block([n], st)
        if k == "switch":
            return self.exec_switch(n, st)
        raise Unsupported(f"statement {k} line {n.line}")

    def do_decl(self, v, st):
        t = v.t
        self.vtypes[v.id] = t
        self.names[v.name] = v.id
        if v.static and v.init is None:
            raise Unsupported("static local")
        if t.k == "arr":
            b = base_of(t)
            kind = "ptr" if _arr_elem(t).k == "ptr" else b.k
            if kind == "struct":
                raise Unsupported("array of structs")
            site = tuple(self.callpath) + (v.line, v.name, id(v)) if v.init is None and kind not in ("ptr", "complex") else None
            r = Region(v.name, "int" if kind in ("int", "char") else "real",
                       self.shapes.get(site) or [d for d in _arr_dims(t)] + ([2] if kind == "complex" else []), "local", site=site)
            if v.init is not None and v.init.k == "init":
                st.mem[r] = (Base("zero", r),)
                vals = {}
                self.flat_init(v.init, t, (), vals, st)
                for key, val in vals.items():
                    if kind == "ptr":
                        tab = dict(st.mem.get(("ptrs", r)) or {})
                        tab[tuple(Fraction(x) for x in key)] = val
                        st.mem[("ptrs", r)] = tab
                    elif kind == "complex":
                        c = self.tocx(val)
                        self.write_cell(st, r, [T.const(x) for x in key] + [ZERO], c.re, v.line)
                        self.write_cell(st, r, [T.const(x) for x in key] + [ONE], c.im, v.line)
                    else:
                        self.write_cell(st, r, [T.const(x) for x in key], self.num(val), v.line)
            else:
                st.mem[r] = (Base("undef", r),)
            st.env[v.id] = Ptr(r, ZERO)
            return
        if t.k == "struct":
            st.env[v.id] = StructObj({}, v.name)
            return
        if v.id in self.taken:
            r = Region(v.name, "int" if t.k in ("int", "char") else "real", [2] if t.k == "complex" else [1], "local")
            st.mem[r] = (Base("undef", r),)
            st.env[v.id] = ("cell", Ptr(r, ZERO))
            if v.init is not None:
                x = self.ev(v.init, st)
                if isinstance(x, tuple) and x[0] == "malloc":
                    x = self.do_malloc(x, t, st)
                self.store(st, Ptr(r, ZERO), t, x, v.line)
            return
        if v.init is not None:
            x = self.ev(v.init, st)
            if isinstance(x, tuple) and x and x[0] == "malloc":
                x = self.do_malloc(x, t, st)
            if isinstance(x, Bool):
                x = self.num(x)
            if t.k == "complex":
                x = self.tocx(x)
            if t.k == "int" and isinstance(x, Poly) and not x.isint:
                x = T.fti(x)
            st.env[v.id] = x
        else:
            st.env[v.id] = Undef(v.name)

    def flat_init(self, init, t, pre, vals, st):
        if t.k == "arr":
            if init.k != "init":
                raise Unsupported("array initialiser")
            for i, x in enumerate(init.xs):
                self.flat_init(x, t.a, pre + (i,), vals, st)
        else:
            vals[pre] = self.ev(init, st)

    def exec_block(self, xs, st):
        scope_env = set(st.env)
        outs = []
        cur = (TRUE, st)
        pend = []
        nh = len(self.hyps)
        for s in xs:
            if s.k == "label":
                hit = [o for o in pend if o[3] == s.id]
                pend = [o for o in pend if o[3] != s.id]
                if hit:
                    alts = ([cur] if cur is not None else []) + [(o[1], o[2]) for o in hit]
                    cond = T.disj(*[c for c, _ in alts])
                    m = self.merge(alts) if len(alts) > 1 else alts[0][1]
                    cur = (cond, m)
                    del self.hyps[nh:]
                    if cond is not TRUE:
                        self.hyps.append(cond)
                s = s.s
            if cur is None:
                continue
            c0, st0 = cur
            res = self.exec(s, st0)
            nxt = None
            for kind, c, s2, ex in res:
                cc = T.conj(c0, c)
                if cc is FALSE:
                    continue
                if kind == "next":
                    nxt = (cc, s2, c)
                elif kind == "goto":
                    pend.append((kind, cc, s2, ex))
                else:
                    outs.append((kind, cc, s2, ex))
            if nxt is None:
                cur = None
            else:
                cur = (nxt[0], nxt[1])
                if nxt[2] is not TRUE:
                    self.hyps.append(nxt[2])
        del self.hyps[nh:]
        outs += pend
        if cur is not None:
            outs.append(("next", cur[0], cur[1], None))
        return outs

    def exec_if(self, n, st):
        c = self.decide(self.truth(self.ev(n.c, st)))
        if c is TRUE:
            return self.exec(n.a, st)
        if c is FALSE:
            return self.exec(n.b, st) if n.b is not None else [("next", TRUE, st, None)]
        s1, s2 = st, st.copy()
        s1 = st.copy()
        self.branch_depth += 1
        self.hyps.append(c)
        o1 = self.exec(n.a, s1)
        self.hyps[-1] = T.neg(c)
        o2 = self.exec(n.b, s2) if n.b is not None else [("next", TRUE, s2, None)]
        self.hyps.pop()
        self.branch_depth -= 1
        outs = [(k, T.conj(c, cc), s, x) for k, cc, s, x in o1] + \
               [(k, T.conj(T.neg(c), cc), s, x) for k, cc, s, x in o2]
        return self.collect(outs)

    def collect(self, outs):
        """merge all 'next' outcomes into one"""
        nx = [(c, s) for k, c, s, x in outs if k == "next" and c is not FALSE]
        rest = [o for o in outs if o[0] != "next" and o[1] is not FALSE]
        if nx:
            cond = T.disj(*[c for c, _ in nx])
            rest.append(("next", cond, self.merge(nx), None))
        return rest

    def exec_switch(self, n, st):
        v = self.num(self.ev(n.c, st))
        body = n.body.xs if n.body.k == "block" else [n.body]
        # flatten labels
        flat = []
        for s in body:
            while s.k in ("case", "default"):
                flat.append(s)
                s = s.s
            flat.append(s)
        starts = []
        for i, s in enumerate(flat):
            if s.k == "case":
                starts.append((i, T.eq(v, self.num(self.ev(s.v, st)))))
        dflt = [i for i, s in enumerate(flat) if s.k == "default"]
        alts = list(starts)
        none = T.conj(*[T.neg(c) for _, c in starts])
        alts.append((dflt[0] if dflt else len(flat), none))
        outs = []
        self.branch_depth += 1
        for i, c in alts:
            c = self.decide(c)
            if c is FALSE:
                continue
            s2 = st.copy()
            self.hyps.append(c)
            res = self.exec_block([s for s in flat[i:] if s.k not in ("case", "default")], s2)
            self.hyps.pop()
            for k, cc, s, x in res:
                outs.append(("next" if k == "break" else k, T.conj(c, cc), s, x))
            if c is TRUE:
                break
        self.branch_depth -= 1
        return self.collect(outs)

    # ------------------------------------------------------------ loops
    def loop_header(self, n, st):
        """-> (var id, lo, hi, step) for a canonical counting loop; lo<=v<hi in steps of 1,
        or None"""
        init = n.init
        vid = None
        if init is None:
            pass
        elif init.k == "decl" and len(init.vs) == 1 and init.vs[0].init is not None:
            self.do_decl(init.vs[0], st)
            vid = init.vs[0].id
        elif init.k == "decl":
            for v in init.vs:
                self.do_decl(v, st)
        elif init.k == "expr":
            x = init.x
            self.ev(x, st)
            if x.k == "assign" and x.op == "=" and x.l.k == "var":
                vid = x.l.id
        cond, inc = n.cond, n.inc
        if cond is None or inc is None:
            return None
        step = None
        iv = None
        i = inc
        while i.k == "cast":
            i = i.x
        if i.k == "un" and i.op in ("++", "--") and i.x.k == "var":
            step = 1 if i.op == "++" else -1
            iv = i.x.id
        elif i.k == "assign" and i.op in ("+=", "-=") and i.l.k == "var":
            s = T.cval(self.num(self.ev(i.r, st)))
            if s is not None:
                step = int(s) if i.op == "+=" else -int(s)
                iv = i.l.id
        if step not in (1, -1) or iv is None:
            return None
        if vid is None:
            vid = iv
        if vid != iv:
            return None
        c = cond
        while c.k == "cast":
            c = c.x
        if c.k != "bin" or c.op not in ("<", "<=", ">", ">=", "!="):
            return None

        def strip(e):
            while e.k == "cast" and e.ck in ("LValueToRValue", "IntegralCast", "NoOp"):
                e = e.x
            return e

        l, r = strip(c.l), strip(c.r)
        op = c.op
        if l.k == "var" and l.id == vid:
            bound = c.r
        elif r.k == "var" and r.id == vid:
            bound = c.l
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        else:
            return None
        av = assigned_vars(n.body)
        for v in vars_in(bound):
            if v in av or v == vid:
                return None
        lo = st.env.get(vid)
        if isinstance(lo, Deferred):
            lo = lo.fn()
        if not isinstance(lo, Poly):
            return None
        if vid in av:
            return None
        b = self.num(self.ev(bound, st))
        if op == "!=":
            op = "<" if step == 1 else ">"
            # assume v reaches the bound: requires lo<=bound
            if not self.prove(T.le(lo, b) if step == 1 else T.le(b, lo)):
                return None
        if step == 1 and op in ("<", "<="):
            hi = b if op == "<" else T.add(b, ONE)
            return vid, lo, hi, 1
        if step == -1 and op in (">", ">="):
            low = T.add(b, ONE) if op == ">" else b
            return vid, low, T.add(lo, ONE), -1
        return None

    def exec_for(self, n, st, clauses):
        h = self.loop_header(n, st)
        if h is None:
            if clauses is not None:
                raise Unsupported("parallel loop header")
            return self.unroll_while(n, st)
        vid, lo, hi, step = h
        trip = T.cval(T.sub(hi, lo))
        if trip is not None and clauses is None:
            if trip <= 0:
                return [("next", TRUE, st, None)]
            if trip <= self.MAX_UNROLL and trip * nest_size(n.body) <= self.opts.get("unroll_total", 1 << 30):
                return self.unroll(n, st, vid, lo, int(trip), step)
        return self.sym_for(n, st, vid, lo, hi, step, clauses)

    def unroll(self, n, st, vid, lo, trip, step):
        outs = []
        cur = (TRUE, st)
        nh = len(self.hyps)
        for i in range(trip):
            s = cur[1]
            s.env[vid] = T.add(lo, T.const(i if step == 1 else trip - 1 - i))
            res = self.exec(n.body, s)
            nx = []
            for k, c, s2, x in res:
                cc = T.conj(cur[0], c)
                if cc is FALSE:
                    continue
                if k in ("next", "continue"):
                    nx.append((c, s2))
                elif k == "break":
                    outs.append(("next", cc, s2, None))
                else:
                    outs.append((k, cc, s2, x))
            if not nx:
                cur = None
                break
            cond = T.disj(*[c for c, _ in nx])
            cur = (T.conj(cur[0], cond), self.merge(nx) if len(nx) > 1 else nx[0][1])
            if cond is not TRUE:
                self.hyps.append(cond)
        del self.hyps[nh:]
        if cur is not None:
            cur[1].env[vid] = T.add(lo, T.const(trip if step == 1 else -1))
            outs.append(("next", cur[0], cur[1], None))
        return self.collect(outs)

    def unroll_while(self, n, st):
        """loops whose condition evaluates to a constant each time"""
        outs = []
        cur = (TRUE, st)
        nh = len(self.hyps)
        isdo = n.k == "do"
        cond_n = n.cond if n.k == "for" else n.c
        for it in range(400):
            s = cur[1]
            if not (isdo and it == 0):
                c = TRUE if cond_n is None else self.decide(self.truth(self.ev(cond_n, s)))
                if c is FALSE:
                    break
                if c is not TRUE:
                    raise Unsupported(f"loop with undetermined condition line {n.line}: {c}")
            res = self.exec(n.body, s)
            nx = []
            for k, cc, s2, x in res:
                c2 = T.conj(cur[0], cc)
                if c2 is FALSE:
                    continue
                if k in ("next", "continue"):
                    nx.append((cc, s2))
                elif k == "break":
                    outs.append(("next", c2, s2, None))
                else:
                    outs.append((k, c2, s2, x))
            if not nx:
                cur = None
                break
            cd = T.disj(*[c for c, _ in nx])
            cur = (T.conj(cur[0], cd), self.merge(nx) if len(nx) > 1 else nx[0][1])
            if cd is not TRUE:
                self.hyps.append(cd)
            if n.k == "for" and n.inc is not None:
                self.ev(n.inc, cur[1])
        else:
            raise Unsupported(f"loop does not terminate in unrolling, line {n.line}")
        del self.hyps[nh:]
        if cur is not None:
            outs.append(("next", cur[0], cur[1], None))
        return self.collect(outs)

    def exec_while(self, n, st):
        return self.unroll_while(n, st)

    # -- symbolic loop
    def sym_for(self, n, st, vid, lo, hi, step, clauses):
        site = tuple(self.callpath) + (n.line, n.k, id(n))
        # loop over the rows of a filter list?
        dom = self.list_domain(lo, hi)
        parts = self.splits.get(site)
        tri = TRUE
        if dom is None and lo.items and self.opts.get("triangular") and self.prove(T.le(ZERO, lo)):
            # iterations below the lower bound do nothing
            tri, lo0, lo = lo, lo, ZERO
        if dom is None:
            if parts is None:
                parts = self.splits[site] = [T.sub(hi, lo)]
            if len(parts) == 1:
                k = self.new_binder("i", lo, hi, site if not lo.items else None, 0)
                if not lo.items:
                    self.binfo[k] = (site, 0, lo, hi, True)
                binders = [(k, lo, hi)]
                v = T.P(k)
            else:
                prod = ONE
                for p in parts:
                    prod = T.mul(prod, p)
                if prod is not T.sub(hi, lo) or lo.items:
                    self.splits[site] = [T.sub(hi, lo)]
                    return self.sym_for(n, st, vid, lo if tri is TRUE else lo0, hi, step, clauses)
                binders = []
                v = ZERO
                for pi, d in enumerate(parts):
                    k = self.new_binder("i", ZERO, d, site, pi)
                    binders.append((k, ZERO, d))
                    v = T.add(T.mul(v, d), T.P(k))
            guard0 = TRUE if tri is TRUE else T.le(tri, v)
            it_id = tuple(T.P(b) for b, _, _ in binders)
        else:
            le, binders, guard0, v = dom
            it_id = tuple(T.P(b) for b, _, _ in binders)
        assigned = dict(assigned_vars(n.body))
        assigned.pop(vid, None)
        private = set()
        reds = set()
        if clauses is not None:
            for nm in clauses["private"] + clauses["lastprivate"] + clauses["firstprivate"]:
                if nm in self.names:
                    private.add(self.names[nm])
            for op, nm in clauses["reduction"]:
                if nm in self.names:
                    reds.add(self.names[nm])
        # variables declared inside the body are not in st.env yet
        shared = {x for x in assigned if x in st.env and not (isinstance(st.env[x], tuple))}
        cells_assigned = {x for x in assigned if x in st.env and isinstance(st.env[x], tuple)}
        self.lid += 1
        lid = self.lid
        wkey = (site, "w")
        nh = len(self.hyps)
        rng = [g for b, l, h in binders for g in (T.le(l, T.P(b)), T.lt(T.P(b), h))]
        if dom is not None:
            rng += self.rank_facts
        nobl = len(self.obls)
        live = [r for r in st.mem if isinstance(r, Region)]
        order = {r: i for i, r in enumerate(live)}
        ctrs, mono = {}, {}
        if guard0 is TRUE and self.is_plain(binders):
            rank = ZERO
            for b, l, h in binders:
                rank = T.add(T.mul(rank, T.sub(h, l)), T.sub(T.P(b), l))
            if step == -1:
                rank = T.sub(T.sub(T.sub(hi, lo), ONE), rank)
            for x in shared:
                if x in private or assigned[x][1].k != "int":
                    continue
                e = self.counter_inc(n.body, x, st, set(assigned) | {vid})
                p0 = st.env[x]
                if isinstance(p0, Deferred):
                    p0 = p0.fn()
                if e is not None and isinstance(p0, Poly) and e.items:
                    ctrs[x] = (e, T.add(p0, T.mul(e, rank)), p0)
                elif isinstance(p0, Poly):
                    mx = self.counter_inc(n.body, x, st, set(assigned) | {vid}, maximum=True)
                    if mx is not None:
                        mono[x] = (p0, mx)
        for attempt in range(12):
            del self.obls[nobl:]
            wset = self.wsets.setdefault(wkey, set())
            wcells = self.wcells.setdefault(wkey, {})
            s2 = st.copy()
            olds = {}
            for r in live:
                if (order[r]) in wset:
                    s2.mem[r] = (OldBase(r, st.mem[r], lid, wcells.get(order[r])),)
            for x in shared:
                nm, t = assigned[x]
                if x in private:
                    s2.env[x] = Undef(nm)
                    continue
                if x in ctrs:
                    s2.env[x] = ctrs[x][1]
                    continue
                if t.k in ("int", "real", "char"):
                    o = T.var(f"olds!{lid}!{nm}", "int" if t.k in ("int", "char") else "real")
                    s2.env[x] = o
                    olds[x] = (T.the_atom(o),)
                    if x in mono:
                        p0, mx = mono[x]
                        self.binfo[T.the_atom(o)] = (None, 0, p0, T.add(T.add(p0, T.mul(mx, rank)), ONE), False)
                elif t.k == "complex":
                    a, b = T.var(f"olds!{lid}!{nm}.re", "real"), T.var(f"olds!{lid}!{nm}.im", "real")
                    s2.env[x] = Cx(a, b)
                    olds[x] = (T.the_atom(a), T.the_atom(b))
                else:
                    s2.env[x] = Undef(nm)
            for x in private:
                if x in s2.env and isinstance(s2.env[x], Ptr) and s2.env[x].r.kind == "local":
                    r = s2.env[x].r
                    s2.mem[r] = (Base("undef", r),)
            s2.env[vid] = v
            self.hyps += rng + ([guard0] if guard0 is not TRUE else [])
            self.branch_depth += 1
            if clauses is not None:
                self.par_depth += 1
            try:
                outs = self.exec(n.body, s2)
            finally:
                if clauses is not None:
                    self.par_depth -= 1
                self.branch_depth -= 1
                hyps_in = list(self.hyps)
                del self.hyps[nh:]
            nxt = [(c, s) for k, c, s, x in outs if k in ("next", "continue")]
            other = [o for o in outs if o[0] not in ("next", "continue") and o[1] is not FALSE]
            changed = set()
            for _, s in nxt + [(o[1], o[2]) for o in other]:
                for r in live:
                    if r in s.mem and order[r] not in wset:
                        if s.mem[r] is not st.mem[r] and len(s.mem[r]) != len(st.mem[r]):
                            changed.add(order[r])
            # private arrays are not shared state
            for x in private:
                if x in st.env and isinstance(st.env[x], Ptr) and st.env[x].r in order:
                    changed.discard(order[st.env[x].r])
            grown = False
            for _, s in nxt + [(o[1], o[2]) for o in other]:
                for r in live:
                    if r not in s.mem or not (order[r] in wset or order[r] in changed):
                        continue
                    ch = s.mem[r]
                    if order[r] in wset:
                        es = ch[1:] if isinstance(ch[0], OldBase) and ch[0].lid == lid else None
                    else:
                        b = st.mem[r]
                        es = ch[len(b):] if len(ch) > len(b) and all(x is y for x, y in zip(ch, b)) else () if ch is b else None
                    cs = None
                    if es is not None and all(type(e) is Entry for e in es):
                        cs = [const_cell(e.digits) for e in es]
                    had = wcells.get(order[r], set() if order[r] not in wset else wcells.get(order[r]))
                    if order[r] in wset and order[r] not in wcells:
                        continue
                    if cs is None or None in cs:
                        new = None
                    else:
                        new = None if had is None else frozenset(had) | frozenset(cs)
                    if order[r] not in wcells or new != wcells[order[r]]:
                        if wcells.get(order[r], 0) is not None:
                            wcells[order[r]] = new
                            grown = True
            if changed or grown:
                wset |= changed
                continue
            break
        else:
            raise Unsupported("write set does not stabilise")
        if other:
            return self.search_loop(n, st, vid, lo, hi, step, binders, guard0, v, nxt, other, shared, assigned,
                                    olds, wset, live, order, lid, rng, clauses)
        body = self.merge(nxt)
        return self.generalise(n, st, body, vid, lo, hi, step, binders, guard0, v, shared, assigned, olds,
                               wset, live, order, lid, rng, clauses, private, reds, ctrs)

    def counter_inc(self, n, x, st, assigned, maximum=False):
        """increment of x by one execution of n when it is unconditional and constant;
        with maximum: an upper bound of the increment when x is only ever increased"""
        if n is None or x not in assigned_vars(n):
            return ZERO
        k = n.k
        rec = lambda s, asg=assigned: self.counter_inc(s, x, st, asg, maximum)
        if k == "block":
            tot = ZERO
            for i, s in enumerate(n.xs):
                e = rec(s)
                if e is None:
                    return None
                tot = T.add(tot, e)
                if not maximum and has_jump(s) and any(x in assigned_vars(q) for q in n.xs[i + 1:]):
                    return None
            return tot
        if k == "if" and maximum:
            a, b = rec(n.a), rec(n.b)
            if a is None or b is None:
                return None
            return T.add(a, b)
        if k == "label":
            return rec(n.s)
        if k == "expr":
            e = n.x
            while e.k == "cast":
                e = e.x
            if e.k == "un" and e.op in ("++", "--") and e.x.k == "var" and e.x.id == x:
                if maximum and e.op == "--":
                    return None
                return ONE if e.op == "++" else T.const(-1)
            if e.k == "assign" and e.op in ("+=", "-=") and e.l.k == "var" and e.l.id == x:
                if vars_in(e.r) & assigned or has_mem(e.r):
                    return None
                v = self.ev(e.r, st)
                if isinstance(v, Poly):
                    v = v if e.op == "+=" else T.scale(v, -1)
                    if maximum and not self.nonneg(v):
                        return None
                    return v
            return None
        if k == "for":
            if x in assigned_vars([n.init, n.cond, n.inc]) or (has_break(n.body) and not maximum):
                return None
            names = set()
            for q in (n.init, n.cond):
                names |= vars_in(q)
            iv = set(assigned_vars([n.init, n.inc]))
            for q in ([n.init] if n.init is not None and n.init.k == "decl" else []):
                iv |= {d.id for d in q.vs}
            if (names - iv) & assigned or has_mem(n.cond):
                return None
            inner = rec(n.body, assigned | iv)
            if inner is None:
                return None
            s2 = st.copy()
            sv = dict(self.vtypes), dict(self.names)
            try:
                h = self.loop_header(n, s2)
            finally:
                self.vtypes, self.names = sv
            if h is None:
                return None
            d = T.sub(h[2], h[1])
            if not self.prove_ge0(d):
                return None
            return T.mul(inner, d)
        return None

    def list_domain(self, lo, hi):
        """hi - lo is the length of a filter list: iterate over its domain instead"""
        if lo.items:
            return None
        for key, le in self.lists.items():
            if le.start.items:
                continue
            if hi is le.count:
                ren = {}
                binders = []
                for b, l, h in le.binders:
                    k = self.new_binder("g", T.subst(l, ren), T.subst(h, ren))
                    binders.append((k, T.subst(l, ren), T.subst(h, ren)))
                    ren[b] = T.P(k)
                v = T.app("rank!" + le.rank, tuple(T.P(b) for b, _, _ in binders), "int")
                T.NONNEG.add(T.the_atom(v))
                # rank of a member is below the count, and below the size of the domain
                self.rank_facts = [T.le(ZERO, v), T.lt(v, hi)]
                if self.is_plain(binders):
                    prod = ONE
                    for b, l, h in binders:
                        prod = T.mul(prod, T.sub(h, l))
                    self.rank_facts.append(T.lt(v, prod))
                return le, binders, T.subst(le.guard, ren), v
        return None

    def generalise(self, n, st, body, vid, lo, hi, step, binders, guard0, v, shared, assigned, olds,
                   wset, live, order, lid, rng, clauses, private, reds, ctrs):
        bat = frozenset(b for b, _, _ in binders)
        hy = list(rng) + ([guard0] if guard0 is not TRUE else [])
        allold = {a for t in olds.values() for a in t}
        env_new = dict(st.env)
        # ---- scalars
        incr = {}
        closed = {}           # old placeholder atom -> Poly
        counters = {}
        after = {}

        def parts_of(val):
            if isinstance(val, Cx):
                return [val.re, val.im]
            return [self.num(val)]

        searches = []
        for x in shared:
            nm, t = assigned[x]
            val = body.env.get(x)
            if val is None:
                continue
            if isinstance(val, Deferred):
                val = val.fn()
            par_ok = clauses is None or x in private or x in reds or x == vid
            if clauses is not None:
                self.oblige(f"variable {nm} assigned in the parallel loop is private or a reduction",
                            par_ok, "race", n.line)
            if x in ctrs:
                e, start, p0 = ctrs[x]
                if T.sub(self.num(val), start) is not e:
                    raise Unsupported(f"counter {nm} line {n.line}")
                tot = T.mul(e, T.sub(hi, lo))
                if not self.prove_ge0(T.sub(hi, lo)):
                    tot = T.ite(T.le(lo, hi), tot, ZERO)
                env_new[x] = T.add(p0, tot)
                if clauses is not None and x not in reds:
                    self.oblige(f"{nm} is not carried between parallel iterations", False, "race", n.line)
                continue
            if x not in olds:
                # pointers or private scalars: value of the last iteration
                after[x] = Undef(nm) if (clauses is not None or not isinstance(val, (Poly, Cx))) else val
                continue
            ps = parts_of(val)
            isold = False
            for a, p in zip(olds[x], ps):
                o = T.P(a)
                d = T.sub(p, o)
                if p is o:
                    closed[a] = ("same",)
                    isold = True
                elif not any(q in allold for q in d.fv) and a in p.fv:
                    incr[a] = d
                    isold = True
                elif a in p.fv or (p.fv & allold):
                    incr.setdefault("complex", []).append((x, a, p))
                    isold = True
            if not isold:
                after[x] = val if clauses is None else Undef(nm)
            else:
                after[x] = None
            if clauses is not None and isold and x not in reds and closed.get(olds[x][0]) != ("same",):
                self.oblige(f"{nm} is not carried between parallel iterations", False, "race", n.line)
        # value at the start of iteration (binders) of an accumulator
        pre = {}
        for x, ats in olds.items():
            pv = st.env[x]
            if isinstance(pv, Deferred):
                pv = pv.fn()
            if isinstance(pv, Undef):
                pp = [T.app("undef!" + pv.name, (), "real")] * len(ats)
            else:
                pp = parts_of(pv)
            for a, p in zip(ats, pp):
                pre[a] = p
        at_start = {}
        totals = {}
        for a in allold:
            if closed.get(a) == ("same",):
                at_start[a] = pre[a]
                totals[a] = pre[a]
            elif a in incr:
                e = incr[a]
                totals[a] = T.add(pre[a], T.mksum(binders, guard0, e))
                if not (e.fv & bat) and guard0 is TRUE and self.is_plain(binders):
                    pass
                elif self.is_plain(binders):
                    at_start[a] = T.add(pre[a], self.partial_sum(binders, guard0, e, step))
                if not (e.fv & bat) and guard0 is TRUE and len(binders) >= 1 and self.is_plain(binders):
                    # constant increment: closed form
                    rank = ZERO
                    for b, l, h in binders:
                        rank = T.add(T.mul(rank, T.sub(h, l)), T.sub(T.P(b), l))
                    if step == -1:
                        rank = T.sub(T.sub(T.sub(hi, lo), ONE), rank)
                    at_start[a] = T.add(pre[a], T.mul(e, rank))
                    tot = T.mul(e, T.sub(hi, lo))
                    if not self.prove_ge0(T.sub(hi, lo)):
                        tot = T.ite(T.le(lo, hi), tot, ZERO)
                    totals[a] = T.add(pre[a], tot)
        # ---- carried scalars that are not accumulators
        dead = set()
        for x, a, p in incr.pop("complex", []):
            r = self.carried(n, x, a, p, binders, guard0, lo, hi, pre, allold, hy, body, assigned, bat)
            if r is None:
                # no closed form: usable only if nothing reads the carried value (checked
                # below); afterwards the variable is indeterminate
                dead.add(x)
                self.indeterminate[f"{assigned[x][0]}@{n.line}"] = str(p)[:300]
                totals[a] = T.app(f"undef!{assigned[x][0]}@{n.line}", (), "real")
                continue
            totals[a] = r
        # ---- memory
        mem_new = dict(st.mem)
        for r in live:
            if r not in body.mem:
                mem_new.pop(r, None)         # freed inside the loop
                continue
        entries = {}
        for r in live:
            if order[r] in wset and r in body.mem:
                ch = body.mem[r]
                if not isinstance(ch[0], OldBase) and not (isinstance(ch[0], Base)):
                    raise Unsupported("chain base")
                es = list(ch[1:])
                if es:
                    entries[r] = es
        # heap blocks allocated in the loop must be freed in it
        for r in body.mem:
            if isinstance(r, Region) and r not in order and r.kind == "malloc":
                self.oblige(f"{r.name} allocated in the loop is freed", False, "leak", n.line)
        # old cells
        memo = {}
        def resolve(t, r_es):
            def fnr(a, go):
                if a.op == "app" and a.args[0].startswith(f"old!{lid}!"):
                    key = a.id
                    if key in memo:
                        return memo[key]
                    uid = int(a.args[0].split("!")[-1])
                    reg = [q for q in live if q.uid == uid][0]
                    ds = tuple(go(x) for x in a.args[1])
                    self.hyps += hy
                    try:
                        for e in entries.get(reg, []):
                            if not self.disjoint_cell(e, ds, binders, guard0):
                                if self.scratch_ok(reg):
                                    return T.app(f"undef!{reg.name}", ds, reg.sort)
                                raise Unsupported(f"cell {reg.name}{list(ds)} read in the loop at line {n.line} "
                                                  f"may be written by another iteration (line {e.line})")
                        val = self.read_chain(st.mem[reg], reg, ds)
                    finally:
                        del self.hyps[-len(hy):]
                    memo[key] = val
                    return val
                return None
            return T.rewrite(t, fnr)

        def hasold(t):
            return any(a.op == "app" and a.args[0].startswith(f"old!{lid}!") for a in T.atoms_in(t).values())

        # filter lists
        for r in list(entries):
            es = entries[r]
            lst = self.detect_list(n, r, es, olds, incr, binders, guard0, allold)
            if lst is not None:
                entries[r] = []
                le = lst
                if hasold(le.guard) or any(hasold(v) for _, v in le.comps):
                    keep_old, entries[r] = entries.pop(r), []
                    le.guard = resolve(le.guard, None)
                    le.comps = [(c, resolve(v, None)) for c, v in le.comps]
                    memo.clear()
                    le.count = T.mksum(le.binders, le.guard, ONE)
                le.start = T.subst(le.start, {a: pre[a] for a in pre})
                le.rank = self.rank_key(le)
                mem_new[r] = st.mem[r] + (le,)
                self.lists[le.rank] = le
                del entries[r]
        # increments that read old cells
        for a in list(incr):
            if isinstance(incr[a], Poly) and hasold(incr[a]):
                e = incr[a] = resolve(incr[a], None)
                memo.clear()
                totals[a] = T.add(pre[a], T.mksum(binders, guard0, e))
                if self.is_plain(binders):
                    at_start[a] = T.add(pre[a], self.partial_sum(binders, guard0, e, step))
        # replace scalar placeholders
        sub = {}
        for a in allold:
            if a in at_start:
                sub[a] = at_start[a]
        def fixs(t):
            t2 = T.subst(t, sub) if sub else t
            return t2
        need = set()
        for r, es in entries.items():
            out = []
            for e in es:
                if isinstance(e, ListEntry):
                    raise Unsupported("filter list inside a loop")
                e = e.with_(guard=fixs(e.guard), digits=tuple(fixs(d) for d in e.digits), value=fixs(e.value),
                            binders=tuple((b, fixs(l), fixs(h)) for b, l, h in e.binders))
                for t in (e.guard, e.value) + e.digits:
                    need |= (t.fv & allold)
                out.append(e)
            entries[r] = out
        if need:
            # running value of an accumulator used inside the loop: partial sum
            raise Unsupported(f"running value of {[a.args[0] for a in need]} used in the loop, line {n.line} {self.indeterminate}")
        for r, es in entries.items():
            # x = old + e at the same cell, seen only now
            out = []
            for e in es:
                if e.kind == "W" and hasold(e.value):
                    o = T.app(f"old!{lid}!{r.name}!{r.uid}", e.digits, r.sort)
                    d = T.sub(e.value, o)
                    if not any(a.op == "app" and a.args[0] == f"old!{lid}!{r.name}!{r.uid}" for a in T.atoms_in(d).values()) \
                            and not out:
                        e = e.with_(kind="A", value=d)
                out.append(e)
            entries[r] = out
        for r in list(entries):
            out = []
            for e in entries[r]:
                g, val, ds, bs = e.guard, e.value, e.digits, e.binders
                if hasold(g) or hasold(val) or any(hasold(d) for d in ds) or any(hasold(l) or hasold(h) for _, l, h in bs):
                    self.hyps += [x for b, l, h in bs for x in (T.le(l, T.P(b)), T.lt(T.P(b), h))]
                    nbh = 2 * len(bs)
                    try:
                        g = resolve(g, None)
                        ds = tuple(resolve(d, None) for d in ds)
                        bs = tuple((b, resolve(l, None), resolve(h, None)) for b, l, h in bs)
                        if g is not TRUE:      # the value only matters where the guard holds
                            memo.clear()
                            self.hyps.append(g)
                            nbh += 1
                        val = resolve(val, None)
                    finally:
                        if nbh:
                            del self.hyps[-nbh:]
                    memo.clear()
                out.append(e.with_(guard=g, value=val, digits=ds, binders=bs))
            entries[r] = out
        # totals / after values may mention old cells
        for a in list(totals):
            if hasold(totals[a]):
                totals[a] = resolve(totals[a], None)
        # cross-iteration disjointness
        for r, es in entries.items():
            scratch = False
            for i1 in range(len(es)):
                for i2 in range(i1, len(es)):
                    e1, e2 = es[i1], es[i2]
                    both_a = e1.kind == "A" and e2.kind == "A"
                    if both_a and clauses is None:
                        continue
                    if self.disjoint(e1, e2, binders, guard0, hy):
                        if clauses is not None:
                            self.oblige(f"parallel iterations use different cells of {r.name}", True, "race", n.line)
                        continue
                    if clauses is not None:
                        self.oblige(f"parallel iterations use different cells of {r.name}", False, "race", n.line,
                                    f"{e1} / {e2}")
                    if not both_a:
                        if i1 == i2 and e1.kind == "W" and not (e1.value.fv & bat) and self.is_const_write(e1):
                            continue        # same constant written by every iteration that writes
                        if clauses is None and e1.kind == "W" and e2.kind == "W" and not self.scratch_ok(r) \
                                and self.same_value(e1, e2, binders, guard0, hy):
                            continue        # overlapping writes of equal values
                        scratch = True
            if scratch:
                if not self.scratch_ok(r):
                    if all(e.kind == "W" and T.cval(e.value) is not None and e.value is es[0].value for e in es):
                        scratch = False
                    elif self.last_writer(es, binders, bat, guard0):
                        es2 = []
                        lastsub = {b: T.sub(h, ONE) if step == 1 else l for b, l, h in reversed(binders)}
                        for e in es:
                            es2.append(e.with_(guard=T.conj(T.subst(e.guard, lastsub), *[T.lt(l, h) for _, l, h in binders]),
                                               digits=tuple(T.subst(d, lastsub) for d in e.digits),
                                               value=T.subst(e.value, lastsub)))
                        mem_new[r] = st.mem[r] + tuple(es2)
                        continue
                    else:
                        raise Unsupported(f"iterations overwrite each other's cells of {r.name}, line {n.line}: {es[0]}")
            if scratch:
                cells = {const_cell(e.digits) for e in es}
                if None in cells:
                    mem_new[r] = (Base("havoc", r),)
                else:
                    mem_new[r] = st.mem[r] + tuple(
                        Entry("W", (), TRUE, tuple(T.const(x) for x in c), T.app(f"undef!{r.name}", tuple(T.const(x) for x in c), r.sort), n.line)
                        for c in sorted(cells))
                continue
            gen = []
            for e in es:
                gen.append(e.with_(binders=tuple(binders) + tuple(e.binders), guard=T.conj(guard0, e.guard)))
            mem_new[r] = st.mem[r] + tuple(gen)
        # ---- scalars after the loop
        for x in shared:
            if x not in after:
                continue
            val = after[x]
            nm, t = assigned[x]
            if val is None:
                ats = olds[x]
                if x in dead:
                    env_new[x] = Undef(assigned[x][0])
                    continue
                vs = [totals[a] for a in ats]
                env_new[x] = Cx(*vs) if len(vs) == 2 else vs[0]
            elif isinstance(val, Undef):
                env_new[x] = val
            else:
                env_new[x] = Deferred(lambda val=val, nm=nm, x=x: self.last_value(
                    val, st.env[x], binders, guard0, lo, hi, step, sub, allold, hasold, nm))
        lastv = hi if step == 1 else T.sub(lo, ONE)
        first = lo if step == 1 else T.sub(hi, ONE)
        if self.prove(T.le(lo, hi)):
            env_new[vid] = lastv
        else:
            env_new[vid] = T.ite(T.le(lo, hi), lastv, first)
        for x in private:
            if x in env_new and not isinstance(env_new[x], Ptr):
                env_new[x] = Undef("private")
        if len(binders) and guard0 is not TRUE and self.hyps and getattr(self, "listfacts", False):
            pass
        return [("next", TRUE, State(env_new, mem_new), None)]

    def partial_sum(self, binders, guard0, e, step):
        """sum of e over the iterations before the current one"""
        tot = ZERO
        for j in range(len(binders)):
            bs, ren = [], {}
            for i in range(j, len(binders)):
                b, l, h = binders[i]
                k = T.the_atom(T.fresh("p"))
                if i == j:
                    l, h = (l, T.P(b)) if step == 1 else (T.add(T.P(b), ONE), h)
                self.binfo[k] = (None, 0, l, h, False)
                ren[b] = T.P(k)
                bs.append((k, l, h))
            tot = T.add(tot, T.mksum(bs, T.subst(guard0, ren), T.subst(e, ren)))
        return tot

    def is_plain(self, binders):
        bs = {b for b, _, _ in binders}
        return not any((l.fv | h.fv) & bs for _, l, h in binders)

    def is_const_write(self, e):
        bs = {b for b, _, _ in e.binders}
        return not (e.value.fv & bs)

    def scratch_ok(self, r):
        return r.kind in ("local", "malloc")

    def last_writer(self, es, binders, bat, guard0):
        return all(e.kind == "W" and e.guard is TRUE and not any(d.fv & bat for d in e.digits) for e in es) \
            and guard0 is TRUE

    def last_value(self, val, prev, binders, guard0, lo, hi, step, sub, allold, hasold, nm):
        if guard0 is not TRUE:
            return Undef(nm)
        m = {}
        for b, l, h in binders:
            m[b] = T.sub(h, ONE) if step == 1 else l

        def f(p):
            p = T.subst(p, sub)
            if (p.fv & allold) or hasold(p):
                return T.app("undef!" + nm, (), "real")
            return T.subst(p, m)

        if isinstance(val, Cx):
            nv = Cx(f(val.re), f(val.im))
        else:
            nv = f(self.num(val))
        if self.prove(T.lt(lo, hi)):
            return nv
        return self.vite(T.lt(lo, hi), nv, prev)

    def carried(self, n, x, a, p, binders, guard0, lo, hi, pre, allold, hy, body, assigned, bat):
        """loop-carried scalar p(old).  Supported: monotone flag  old' = ite(c, const, old)."""
        at = None
        o = T.P(a)
        # p = ite(c, k, old) with k free of binders: after = ite(exists c, k, pre)
        # in polynomial form: old + ind(c)*(k - old)
        d = T.sub(p, o)
        cond, k = split_flag(d, a)
        if cond is not None and not (cond.fv & allold) and not (k.fv & bat) and not (k.fv & allold):
            ex = T.le(ONE, T.mksum(binders, T.conj(guard0, cond), ONE))
            return T.ite(ex, k, pre[a])
        return None

    # -- filter lists
    def rank_key(self, le):
        ren = {b: T.var(f"rk{i}", "int") for i, (b, _, _) in enumerate(le.binders)}
        key = (tuple((T.subst(l, ren).id, T.subst(h, ren).id) for _, l, h in le.binders), T.subst(le.guard, ren).id)
        self.rank_ids = getattr(self, "rank_ids", {})
        return str(self.rank_ids.setdefault(key, len(self.rank_ids)))

    def detect_list(self, n, r, es, olds, incr, binders, guard0, allold):
        """entries [W(old_n + const.., comps)] with counter n incremented under the same guard"""
        if all(isinstance(e, ListEntry) for e in es) and len(es) == 1:
            e = es[0]
            a = T.the_atom(e.start)
            if a in allold and a in incr and T.sub(incr[a], e.count) is ZERO:
                le = ListEntry(tuple(binders) + tuple(e.binders), T.conj(guard0, e.guard), e.start, e.comps, e.line, e.rank)
                return le
            return None
        if not all(isinstance(e, Entry) and e.kind == "W" and not e.binders for e in es):
            return None
        a = T.the_atom(es[0].digits[0]) if es[0].digits else None
        if a is None or a not in allold or a not in incr:
            return None
        g = es[0].guard
        if any(e.guard is not g or e.digits[0] is not es[0].digits[0] for e in es):
            return None
        if incr[a] is not T.indicator(g):
            return None
        comps = []
        sub = {}
        for e in es:
            # counters in closed form may appear in the values
            comps.append((e.digits[1:], e.value))
        rank = f"{r.name}#{r.uid}@{es[0].line}"
        # closed forms of other counters
        cf = {}
        for b in allold:
            if b in incr and b is not a and not (incr[b].fv & {x for x, _, _ in binders}):
                pass
        vals = []
        for c, v in comps:
            vals.append((c, v))
        return ListEntry(tuple(binders), T.conj(guard0, g), es[0].digits[0], vals, es[0].line, rank)

    # -- disjointness of iterations
    def rename(self, e, binders, guard0):
        ren = {}
        nb = []
        for b, l, h in binders:
            f = T.the_atom(T.fresh("j"))
            ren[b] = T.P(f)
            nb.append((f, T.subst(l, ren), T.subst(h, ren)))
            self.binfo[f] = (None, 0, T.subst(l, ren), T.subst(h, ren), False)
        ib = []
        for b, l, h in e.binders:
            f = T.the_atom(T.fresh("j"))
            l2, h2 = T.subst(l, ren), T.subst(h, ren)
            ren[b] = T.P(f)
            ib.append((f, l2, h2))
        e2 = Entry(e.kind, tuple(ib), T.subst(e.guard, ren), tuple(T.subst(d, ren) for d in e.digits), e.value, e.line)
        return e2, nb, T.subst(guard0, ren), ren

    def disjoint(self, e1, e2, binders, guard0, hy):
        r2, nb, g2, ren = self.rename(e2, binders, guard0)
        # freshen e1's inner binders are distinct already
        todo = list(range(len(binders)))
        eqs = {}
        # syntactic: digit determines iteration index
        det = set()
        for d1, d2 in zip(e1.digits, r2.digits):
            for bi, (b, _, _) in enumerate(binders):
                if bi in det:
                    continue
                if d1 is T.P(b) and d2 is ren[b]:
                    det.add(bi)
                else:
                    c1, rest1 = linear_coef(d1, b)
                    if c1 is not None and T.cval(c1) not in (None, 0):
                        nbk = T.the_atom(ren[b])
                        c2, rest2 = linear_coef(d2, nbk)
                        if c2 is c1 and rest1 is rest2 and not (rest1.fv & ({x for x, _, _ in e1.binders} | {x for x, _, _ in r2.binders})):
                            det.add(bi)
            a1, a2 = T.the_atom(d1), T.the_atom(d2)
            if a1 is not None and a2 is not None and a1.op == "app" and a2.op == "app" and a1.args[0] == a2.args[0] \
                    and (a1.args[0].startswith("rank!") or a1.args[0] in self.facts.injective):
                for x, y in zip(a1.args[1], a2.args[1]):
                    for bi, (b, _, _) in enumerate(binders):
                        if x is T.P(b) and y is ren[b]:
                            det.add(bi)
        if len(det) == len(binders):
            return True
        hyps = list(self.hyps) + list(hy)
        hyps += [g for b, l, h in nb for g in (T.le(l, T.P(b)), T.lt(T.P(b), h))]
        hyps += [g for b, l, h in tuple(e1.binders) + tuple(r2.binders) for g in (T.le(l, T.P(b)), T.lt(T.P(b), h))]
        hyps += [e1.guard, r2.guard, g2]
        for d1, d2 in zip(e1.digits, r2.digits):
            q = T.eq(d1, d2)
            if q is FALSE:
                return True
            hyps.append(q)
        known = set(self.hyps)
        if any(T.ne(d1, d2) in known for d1, d2 in zip(e1.digits, r2.digits)):
            return True
        same = T.conj(*[T.eq(T.P(b), ren[b]) for b, _, _ in binders])
        hyps = [h for h in hyps if h is not TRUE]
        if any(h is FALSE for h in hyps):
            return True
        return self.prover.prove(hyps, same)

    def same_value(self, e1, e2, binders, guard0, hy):
        """whenever e1 and e2 (of any two iterations) write the same cell, they write the same value"""
        r2, nb, g2, ren = self.rename(e2, binders, guard0)
        v2 = T.subst(e2.value, ren)
        hyps = list(self.hyps) + list(hy)
        hyps += [g for b, l, h in nb for g in (T.le(l, T.P(b)), T.lt(T.P(b), h))]
        hyps += [g for b, l, h in tuple(e1.binders) + tuple(r2.binders) for g in (T.le(l, T.P(b)), T.lt(T.P(b), h))]
        hyps += [e1.guard, r2.guard, g2] + [T.eq(d1, d2) for d1, d2 in zip(e1.digits, r2.digits)]
        hyps = [h for h in hyps if h is not TRUE]
        if any(h is FALSE for h in hyps):
            return True
        return self.prover.prove(hyps, T.eq(e1.value, v2), elem=False)

    def disjoint_cell(self, e, ds, binders, guard0):
        """entry e of another iteration never touches cell ds of this iteration"""
        x = Entry("W", (), TRUE, ds, ZERO, 0)
        return self.disjoint(x, e, binders, guard0, [])

    # -- loops left early
    def search_loop(self, n, st, vid, lo, hi, step, binders, guard0, v, nxt, other, shared, assigned,
                    olds, wset, live, order, lid, rng, clauses):
        """for (...) { ... if (c) {effects; break/return/goto} }: the iterations before the
        first hit must have no effect"""
        if clauses is not None:
            raise Unsupported("early exit from a parallel loop")
        if len(binders) != 1 or guard0 is not TRUE:
            raise Unsupported("early exit from a split loop")
        k = binders[0][0]
        allold = {a for t in olds.values() for a in t}
        m = self.merge(nxt) if nxt else None
        if m is not None:
            for x in olds:
                val = m.env.get(x)
                ps = [val.re, val.im] if isinstance(val, Cx) else ([val] if isinstance(val, Poly) else [None])
                for a, p in zip(olds[x], ps):
                    if p is not T.P(a):
                        # private temporaries are fine if not carried
                        if p is None or (p.fv & allold):
                            raise Unsupported(f"search loop with side effects on {assigned[x][0]}, line {n.line}")
            for r in live:
                if order[r] in wset and r in m.mem and len(m.mem[r]) > 1:
                    if not self.scratch_ok(r):
                        raise Unsupported(f"search loop writes {r.name}, line {n.line}")
        hit = T.disj(*[o[1] for o in other])
        for a in T.atoms_in(hit).values():
            if a in allold or (a.op == "app" and a.args[0].startswith(f"old!{lid}!")):
                raise Unsupported("search condition depends on previous iterations")
        key = T.app("first!", ())  # placeholder for sort
        # canonical name: the search predicate with the bound variable abstracted
        canon = T.mksum([(k, lo, hi)], hit, ONE)
        f = T.P(T.mkatom("app", ("first" if step == 1 else "last", (canon, lo, hi)), "int"))
        fnd = T.mkbool("bapp", ("found", (canon, lo, hi)))
        if not hasattr(self, "searches"):
            self.searches = []
        self.searches.append((f, fnd, k, lo, hi, hit, step))
        subk = {k: f}
        outs = []
        facts = T.conj(T.le(lo, f), T.lt(f, hi), T.subst(hit, subk))
        for kind, c, s, x in other:
            s2 = State({}, {})
            def sb(val):
                if isinstance(val, Poly):
                    return T.subst(T.subst(val, {a: self.num(st.env[y]) for y, t in olds.items() for a in t if isinstance(st.env[y], Poly)}), subk)
                if isinstance(val, Cx):
                    return Cx(T.subst(val.re, subk), T.subst(val.im, subk))
                if isinstance(val, Ptr):
                    return Ptr(val.r, T.subst(val.off, subk))
                return val
            for y, val in s.env.items():
                s2.env[y] = sb(val)
            for r, ch in s.mem.items():
                if isinstance(r, Region) and r in order and order[r] in wset:
                    es = [e.with_(guard=T.subst(e.guard, subk), digits=tuple(T.subst(d, subk) for d in e.digits),
                                  value=T.subst(e.value, subk)) for e in ch[1:]]
                    for e in es:
                        for t in (e.guard, e.value) + tuple(e.digits):
                            if any(a.op == "app" and a.args[0].startswith(f"old!{lid}!") for a in T.atoms_in(t).values()):
                                raise Unsupported("search exit reads a written array")
                    s2.mem[r] = st.mem[r] + tuple(es)
                else:
                    s2.mem[r] = ch
            kk = "next" if kind == "break" else kind
            cc = T.conj(fnd, T.subst(c, subk)) if len(other) > 1 else fnd
            outs.append((kk, cc, s2, sb(x) if x is not None and not isinstance(x, (int, str)) else x))
        # not found
        s3 = st.copy()
        s3.env[vid] = hi if step == 1 else T.sub(lo, ONE)
        for x in shared:
            if m is not None and x in m.env and x in olds:
                val = m.env[x]
                if isinstance(val, Poly) and val is not T.P(olds[x][0]):
                    s3.env[x] = Undef(assigned[x][0])
            elif x not in olds:
                s3.env[x] = Undef(assigned[x][0])
        outs.append(("next", T.neg(fnd), s3, None))
        self.add_search_facts(f, fnd, k, lo, hi, hit)
        return self.collect(outs)

    def add_search_facts(self, f, fnd, k, lo, hi, hit):
        self.hyps_global = getattr(self, "hyps_global", [])
        self.hyps.insert(0, T.disj(T.neg(fnd), T.conj(T.le(lo, f), T.lt(f, hi), T.subst(hit, {k: f}))))


def nest_size(n):
    """product of the constant trip counts of loops nested in n (rough)"""
    best = 1
    if isinstance(n, (list, tuple)):
        for x in n:
            best = max(best, nest_size(x))
        return best
    if not isinstance(n, Node):
        return 1
    mult = 1
    if n.k == "for" and n.cond is not None:
        c = n.cond
        while c.k == "cast":
            c = c.x
        if c.k == "bin" and c.op in ("<", "<=", ">", ">="):
            r = c.r
            while r.k == "cast":
                r = r.x
            if r.k == "int" or r.k == "num":
                try:
                    mult = max(1, int(r.v))
                except Exception:
                    mult = 1
    for x in vars(n).values() if hasattr(n, "__dict__") else []:
        if isinstance(x, (Node, list, tuple)):
            best = max(best, nest_size(x))
    return mult * best


def has_jump(n):
    return _has(n, ("continue", "break", "return", "goto"))


def has_break(n):
    return _has(n, ("break", "return", "goto", "continue"))


def has_mem(n):
    return _has(n, ("sub", "call", "member", "assign")) or _hasop(n)


def _hasop(n):
    if isinstance(n, Node):
        if n.k == "un" and n.op in ("*", "++", "--"):
            return True
        return any(_hasop(v) for v in n.__dict__.values() if isinstance(v, (Node, list)))
    if isinstance(n, list):
        return any(_hasop(x) for x in n)
    return False


def _has(n, ks):
    if isinstance(n, Node):
        if n.k in ks:
            return True
        return any(_has(v, ks) for v in n.__dict__.values() if isinstance(v, (Node, list)))
    if isinstance(n, list):
        return any(_has(x, ks) for x in n)
    return False


def split_flag(d, a):
    """d = ind(c)*(k - old) -> (c, k)"""
    o = T.P(a)
    cond = None
    k = {}
    for m, c in d.items:
        inds = [x for x, e in m if x.op == "ite" and T.is_ind(x)]
        if len(inds) != 1:
            return None, None
        if cond is None:
            cond = inds[0].args[0]
        elif cond is not inds[0].args[0]:
            return None, None
        rest = tuple((x, e) for x, e in m if x is not inds[0])
        k[rest] = k.get(rest, 0) + c
    if cond is None:
        return None, None
    kp = T.add(T.mkpoly(k), o)
    if a in kp.fv:
        return None, None
    return cond, kp


def _arr_dims(t):
    d = []
    while t.k == "arr":
        d.append(t.n)
        t = t.a
    return d


def _arr_elem(t):
    while t.k == "arr":
        t = t.a
    return t


def vars_in(n, acc=None):
    if acc is None:
        acc = set()
    if isinstance(n, Node):
        if n.k == "var":
            acc.add(n.id)
        for v in n.__dict__.values():
            if isinstance(v, (Node, list)):
                vars_in(v, acc)
    elif isinstance(n, list):
        for x in n:
            vars_in(x, acc)
    return acc


def linear_coef(p, a):
    """p = c*a + rest with a not in c, rest -> (c, rest) or (None, None)"""
    c, rest = {}, {}
    for m, k in p.items:
        hit = False
        for x, e in m:
            if x is a:
                if e != 1:
                    return None, None
                hit = True
            elif a in x.fv:
                return None, None
        if hit:
            mm = tuple((x, e) for x, e in m if x is not a)
            c[mm] = c.get(mm, 0) + k
        else:
            rest[m] = k
    return T.mkpoly(c), T.mkpoly(rest)


def linear_coef_atom(p, a):
    c, rest = {}, {}
    for m, k in p.items:
        hit = False
        for x, e in m:
            if x is a:
                if e != 1:
                    return None, None
                hit = True
        if hit:
            mm = tuple((x, e) for x, e in m if x is not a)
            c[mm] = c.get(mm, 0) + k
        else:
            rest[m] = k
    return T.mkpoly(c), T.mkpoly(rest)
