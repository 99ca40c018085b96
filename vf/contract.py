"""Function contracts: parameters (shapes, ranges), requires, ensures, frame.

The same contract object is used three ways:
  verify   - the body in /repo/c is executed symbolically and each ensures clause is
             proved for arbitrary sizes, indices and contents;
  apply    - at a call site, requires become obligations and ensures the effect
             (callers are checked against the contract, not the body);
  concrete - the compiled function is run on random inputs satisfying requires and
             compared with the ensures clauses evaluated numerically (replay).
"""
import itertools
import traceback

from . import terms as T
from .terms import Poly, Bool, ZERO, ONE, TRUE, FALSE
from .cfront import Unsupported
from .symex import (Engine, Ptr, SPtr, StructObj, Region, Base, Entry, Cx, NULL, Null, Obligation, Undef,
                    SplitRequest, ShapeRequest, Deferred, IteV, FnPtr)
from .prover import Prover, Facts

CONTRACTS = {}          # C function name -> contract class (modular ones)
ALL = []


class Param:
    name = None

    def __init__(self, name):
        self.name = name


class Size(Param):
    """integer >= lo"""

    def __init__(self, name, lo=1, rng=(1, 4)):
        self.name, self.lo, self.rng = name, lo, rng


class DerivedSize(Size):
    """size given by an expression of the others (e.g. num_band = 3 * num_atom)"""

    def __init__(self, name, fn):
        Size.__init__(self, name, 1)
        self.fn = fn


class ExprP(Param):
    """integer argument given by an expression of the ghosts"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class IntP(Param):
    """integer with lo <= v < hi (expressions over sizes) or unconstrained"""

    def __init__(self, name, lo=None, hi=None, values=None, rng=(-6, 7)):
        self.name, self.lo, self.hi, self.values, self.rng = name, lo, hi, values, rng


class RealP(Param):
    def __init__(self, name, lo=None, gen=None, strict=False):
        self.name, self.lo, self.gen, self.strict = name, lo, gen, strict


class Const(Param):
    """fixed value (given per case)"""

    def __init__(self, name, value, ctype="int"):
        self.name, self.value, self.ctype = name, value, ctype


class CharP(Const):
    pass


class NullP(Param):
    pass


class Arr(Param):
    def __init__(self, name, sort, shape, io="in", lo=None, hi=None, elem=None, gen=None, inj=None,
                 wrap=None, tol=None, value=None):
        """sort: int, char, real, cplx.  lo/hi: element range (expressions).
        elem: fn(s, *digits) -> [Bool]; inj: None or fn(s) -> inverse spec"""
        self.name, self.sort, self.shape, self.io = name, sort, shape, io
        self.lo, self.hi, self.elem, self.gen, self.inj, self.wrap, self.tol = lo, hi, elem, gen, inj, wrap, tol
        self.value = value      # contents given by an expression: fn(s) -> list


class Struct(Param):
    """pointer to a struct whose fields are further params"""

    def __init__(self, name, fields, by="ptr"):
        self.name, self.fields, self.by = name, fields, by    # fields: list of (fieldname, Param)


class Darray(Param):
    """const Darray*: data pointer and dims"""

    def __init__(self, arr, dims=None):
        self.name, self.arr, self.dims = arr.name + "_d", arr, dims


class Scope:
    """names visible to requires/ensures"""

    def __init__(self):
        self._v = {}
        self._arr = {}

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in self._v:
            return self._v[k]
        if k in self._arr:
            return self._arr[k]
        raise AttributeError(k)

    def expr(self, e):
        if isinstance(e, Poly):
            return e
        if isinstance(e, (int,)):
            return T.const(e)
        if isinstance(e, str):
            return T.lift(eval(e, {}, dict(self._v)))
        if callable(e):
            return T.lift(e(self))
        raise TypeError(e)


def flat_params(ps):
    for p in ps:
        if isinstance(p, Struct):
            yield from flat_params([f for _, f in p.fields])
        elif isinstance(p, Darray):
            yield p.arr
        else:
            yield p


class Contract:
    file = None
    fn = None
    props = ()
    params = []
    ghosts = []          # sizes that are not C parameters
    cases = [{}]
    opts = {}
    modular = True
    trials = 25
    tol = 1e-9
    uses = None          # names of contracts applied at calls (None = all modular)
    pure = False
    skip_concrete = False
    skip_symbolic = False

    tolerated = None    # prefix of a known finding: concrete runs go on after it
    quick = {}      # property -> indices of the cases verified in the quick tier

    def requires(self, s):
        return []

    def ensures(self, s):
        return {}

    def returns(self, s):
        return None

    def call_returns(self, s):
        """result as seen by a caller (default: the postcondition itself)"""
        return self.returns(s)

    def call_ensures(self, s):
        """effect as seen by a caller (default: the postcondition itself)"""
        return self.ensures(s)

    unconstrained = ()   # arrays with unspecified contents on return (scratch)
    scale = 1.0          # absolute floor for concrete comparisons

    def generate(self, rng, case):
        """joint generation of concrete inputs: dict name -> value"""
        return None

    def accept(self, v):
        return True

    def funcs(self, v):
        """numeric meaning of uninterpreted functions used in the contract"""
        return {}

    def concrete_check(self, v, out, ret):
        return []

    def numeric(self, v):
        """the postcondition evaluated by numpy (concrete runs only), {param: array}"""
        return None

    def derive(self, s, case):
        pass

    def facts(self, s, E):
        pass

    # ------------------------------------------------------------ verify
    def bind_symbolic(self, E, case):
        s = Scope()
        s._E = E
        hy = []
        got = {}
        for p in list(self.ghosts) + list(self.params):
            if isinstance(p, (Size, Const)) and not isinstance(p, DerivedSize):
                got[p.name] = self.bind(p, E, s, hy, case)
        for p in flat_params(self.params):
            if isinstance(p, Const) and p.name not in got:
                self.bind(p, E, s, hy, case)
        for p in list(self.ghosts) + list(self.params):
            if isinstance(p, DerivedSize):
                got[p.name] = self.bind(p, E, s, hy, case)
        for p in list(self.ghosts) + list(self.params):
            if isinstance(p, (IntP, RealP)):
                got[p.name] = self.bind(p, E, s, hy, case)
        self.derive(s, case)
        for p in self.params:
            if isinstance(p, ExprP):
                v = s._v[p.name] = T.lift(p.fn(s))
                got[p.name] = v
        args = []
        for p in self.params:
            args.append(got[p.name] if p.name in got else self.bind(p, E, s, hy, case))
        for r in self.requires(s):
            hy.append(r)
        self.facts(s, E)
        return args, hy, s

    def bind(self, p, E, s, hy, case):
        if p.name in case:
            v = case[p.name]
            if v is None:
                s._v[p.name] = None
                s._arr[p.name] = None
                return NULL
            if not isinstance(p, (Arr, Struct, Darray)):
                c = T.const(ord(v) if isinstance(v, str) else v)
                s._v[p.name] = c
                return c
        if isinstance(p, DerivedSize):
            v = T.lift(p.fn(s))
            s._v[p.name] = v
            return v
        if isinstance(p, Size):
            v = E.size(p.name)
            s._v[p.name] = v
            hy.append(T.le(T.const(p.lo), v))
            return v
        if isinstance(p, IntP):
            v = T.var(p.name, "int")
            s._v[p.name] = v
            if p.lo is not None:
                lo = s.expr(p.lo)
                hy.append(T.le(lo, v))
                if T.cval(lo) is not None and T.cval(lo) >= 0:
                    T.NONNEG.add(T.the_atom(v))
            if p.hi is not None:
                hy.append(T.lt(v, s.expr(p.hi)))
            if p.values is not None:
                hy.append(T.disj(*[T.eq(v, x) for x in p.values]))
            return v
        if isinstance(p, RealP):
            v = T.var(p.name, "real")
            s._v[p.name] = v
            if p.lo is not None:
                lo = T.lift(p.lo)
                hy.append(T.lt(lo, v) if p.strict else T.le(lo, v))
                if not p.strict and T.cval(lo) == 0 or (T.cval(lo) or 0) > 0:
                    T.NONNEG.add(T.the_atom(v))
            return v
        if isinstance(p, Const):
            v = p.value
            v = T.const(ord(v) if isinstance(v, str) else v)
            s._v[p.name] = v
            return v
        if isinstance(p, NullP):
            return NULL
        if isinstance(p, Arr):
            return self.bind_arr(p, E, s)
        if isinstance(p, Darray):
            ptr = self.bind_arr(p.arr, E, s)
            dims = Region(p.name + ".dims", "int", [20], "const")
            vals = [s.expr(d) for d in (p.dims or p.arr.shape)]
            dims.init_fn = lambda d, vals=vals: vals[int(T.cval(d))] if T.cval(d) is not None else _raise(
                Unsupported("symbolic dims index"))
            E.mem0[dims] = (Base("init", dims),)
            return SPtr(StructObj({"data": ptr, "dims": Ptr(dims, ZERO)}, p.name))
        if isinstance(p, Struct):
            fs = {}
            for fname, fp in p.fields:
                fs[fname] = self.bind(fp, E, s, hy, case)
            return SPtr(StructObj(fs, p.name))
        raise TypeError(p)

    def bind_arr(self, p, E, s):
        shape = [s.expr(e) for e in p.shape]
        sort = {"int": "int", "char": "int", "real": "real", "cplx": "real"}[p.sort]
        full = shape + ([T.const(2)] if p.sort == "cplx" else [])
        ptr = E.region(p.name, sort, full, "const" if p.io == "in" else "param")
        if p.value is not None:
            vals = [T.lift(x) for x in p.value(s)]
            ptr.r.init_fn = lambda d, vals=vals: vals[int(T.cval(d))] if T.cval(d) is not None else _raise(
                Unsupported("symbolic index into a constant table"))
        E.arr_regions[p.name] = ptr.r
        s._arr[p.name] = ArrView(E, p, sort, None, None)
        self.arr_facts(p, E, s)
        return ptr

    def arr_facts(self, p, E, s):
        nm = p.name
        if p.lo is not None or p.hi is not None:
            lo = s.expr(p.lo) if p.lo is not None else None
            hi = s.expr(p.hi) if p.hi is not None else None

            sort = "int" if p.sort in ("int", "char") else "real"

            def f(*ds, lo=lo, hi=hi, nm=nm, sort=sort):
                a = T.app(nm, ds, sort)
                out = []
                if lo is not None:
                    out.append(T.le(lo, a))
                if hi is not None:
                    out.append(T.lt(a, hi))
                return out
            E.facts.add_elem(nm, f)
        if p.elem is not None:
            E.facts.add_elem(nm, lambda *ds, p=p: list(p.elem(s, *ds)))
        if p.inj is not None:
            E.facts.injective[nm] = p.inj(s) if callable(p.inj) else p.inj

    def verify(self, program, contracts, log=None, timeout_ms=None):
        """-> list of Obligation"""
        out = []
        for ci, case in enumerate(self.cases):
            tag = ",".join(f"{k}={v}" for k, v in case.items())
            out += self.verify_case(program, contracts, case, tag)
        return out

    def obname(self, what, tag):
        return f"{self.fn}{'[' + tag + ']' if tag else ''}: {what}"

    def verify_case(self, program, contracts, case, tag):
        facts = Facts()
        E = Engine(program, facts=facts, prover=Prover(facts, self.opts.get("timeout", 4000)), opts=self.opts)
        use = {}
        for k, c in contracts.items():
            if k == self.fn:
                continue
            if self.uses is None or k in self.uses:
                if getattr(c, "optional", False):
                    u, f = program.find(c.file, c.fn)
                    if f is None or len(f.raw) != len(c.params):
                        continue
                use[k] = Applied(c)
        E.contracts = use
        SUM.E = E
        E.arr_regions = {}
        holder = {}

        def setup(E):
            E.facts.elem.clear()
            E.facts.injective.clear()
            E.facts.add_elem("bose", _bose_fact)
            E.prover.memo.clear()
            E.arr_regions = {}
            args, hy, s = self.bind_symbolic(E, case)
            holder["s"] = s
            return args, hy

        obls = []
        self.engine = E
        try:
            # vacuity: the precondition must be satisfiable
            st, ret = E.run(self.file, self.fn, setup)
        except (Unsupported, T.TermError, RecursionError) as e:
            o = Obligation(self.obname("within the verifier's reach", tag), False, str(e), "unsupported")
            return list(getattr(E, "obls", [])) and [o] or [o]
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, ZeroDivisionError) as e:
            o = Obligation(self.obname("within the verifier's reach", tag), False,
                           "engine: " + "".join(traceback.format_exception_only(e)).strip() + " @ " +
                           traceback.format_tb(e.__traceback__)[-1].strip().replace("\n", " "), "unsupported")
            return [o]
        s = holder["s"]
        for o in E.obls:
            o.name = self.obname(o.name, tag)
            obls.append(o)
        # vacuity
        sat = E.prover.check(E.hyps, TRUE)
        obls.append(Obligation(self.obname("precondition is satisfiable", tag), sat != "unsat", sat, "vacuity"))
        # postconditions
        try:
            obls += self.check_post(E, s, st, ret, tag, case)
        except (Unsupported, T.TermError, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
            obls.append(Obligation(self.obname("postcondition within the verifier's reach", tag), False,
                                   f"{type(e).__name__}: {e}", "unsupported"))
        # leaks
        for r in st.mem:
            if isinstance(r, Region) and r.kind == "malloc":
                obls.append(Obligation(self.obname(f"{r.name} is freed", tag), False, "", "leak"))
        self.extracted = E.extracted
        self.used = E.used_contracts
        return obls

    def check_post(self, E, s, st, ret, tag, case):
        obls = []
        ens = self.ensures(s)
        for p in flat_params(self.params):
            if not isinstance(p, Arr) or case.get(p.name, 0) is None:
                continue
            r = E.arr_regions[p.name]
            chain = st.mem.get(r, ())
            if p.name not in ens:
                ok = len(chain) == 1
                obls.append(Obligation(self.obname(f"{p.name} is left unchanged", tag), ok,
                                       "" if ok else repr(chain[1])[:300], "frame"))
                continue
            specs = ens[p.name]
            if not isinstance(specs, list):
                specs = [("value of %s" % p.name, specs, None)]
            for what, fn, cond in specs:
                shape = [s.expr(e) for e in p.shape]
                ds = [T.fresh("d") for _ in shape]
                hy = []
                for d, n in zip(ds, shape):
                    if T.cval(n) == 1:
                        continue
                    hy += [T.le(ZERO, d), T.lt(d, n)]
                ds = [ZERO if T.cval(n) == 1 else d for d, n in zip(ds, shape)]
                small = [i for i, n in enumerate(shape) if T.cval(n) is not None and T.cval(n) <= 4]
                combos = itertools.product(*[range(int(T.cval(shape[i]))) for i in small])
                bad = None
                n_ok = 0
                for combo in combos:
                    dd = list(ds)
                    for i, c in zip(small, combo):
                        dd[i] = T.const(c)
                    hyp = list(hy)
                    for i in small:
                        hyp = [T.subst(h, {T.the_atom(ds[i]): T.const(combo[small.index(i)])}) if T.the_atom(ds[i]) else h for h in hyp]
                    hyp = [h for h in hyp if h is not TRUE]
                    nh = len(E.hyps)
                    E.hyps += hyp
                    try:
                        if cond is not None:
                            E.hyps.append(cond(*dd))
                        exp = fn(*dd)
                        if p.sort == "cplx":
                            gots = [E.read_cell(st, r, dd + [ZERO]), E.read_cell(st, r, dd + [ONE])]
                            exps = list(exp) if isinstance(exp, tuple) else [exp.re, exp.im]
                        else:
                            gots = [E.read_cell(st, r, dd)]
                            exps = [T.lift(exp)]
                        for g, e in zip(gots, exps):
                            n_ok += 1
                            if not E.prover.equal(E.hyps, g, e, self.opts.get("timeout")):
                                bad = (dd, g, e)
                    finally:
                        del E.hyps[nh:]
                    if bad:
                        break
                obls.append(Obligation(self.obname(what, tag), bad is None,
                                       "" if bad is None else f"at {bad[0]}: code gives {str(bad[1])[:600]} ; contract says {str(bad[2])[:600]}",
                                       "post"))
        rs = self.returns(s)
        if rs is not None:
            if isinstance(ret, Deferred):
                ret = ret.fn()
            specs = rs if isinstance(rs, list) else [("result", rs)]
            for what, e in specs:
                if callable(e):
                    e = e(ret)
                if isinstance(e, Bool):
                    ok = E.prove(e)
                    obls.append(Obligation(self.obname(what, tag), ok, str(e)[:400], "post"))
                elif isinstance(e, tuple) or isinstance(e, Cx):
                    c = E.tocx(ret)
                    e = (e.re, e.im) if isinstance(e, Cx) else e
                    ok = E.prover.equal(E.hyps, c.re, T.lift(e[0])) and E.prover.equal(E.hyps, c.im, T.lift(e[1]))
                    obls.append(Obligation(self.obname(what, tag), ok, f"{ret} vs {e}"[:800], "post"))
                else:
                    ok = E.prover.equal(E.hyps, E.num(ret), T.lift(e), self.opts.get("timeout"))
                    obls.append(Obligation(self.obname(what, tag), ok, "" if ok else f"code gives {str(ret)[:600]} ; contract says {str(e)[:600]}", "post"))
        return obls

    # ------------------------------------------------------------ apply
    def apply_at(self, E, st, args, node):
        s = Scope()
        s._E = E
        line = node.line
        self.bind_actuals(E, st, args, s, line)
        self.derive(s, None)
        for r in self.requires(s):
            E.oblige(f"precondition of {self.fn}", r, "requires", line)
        ens = self.call_ensures(s)
        new = []
        for p in flat_params(self.params):
            if not isinstance(p, Arr) or p.name not in ens:
                continue
            view = s._arr[p.name]
            if view is None:
                continue
            specs = ens[p.name]
            if isinstance(specs, list):
                raise Unsupported(f"contract of {self.fn} has no functional form for {p.name}")
            shape = [s.expr(e) for e in p.shape]
            cshape = shape + ([T.const(2)] if p.sort == "cplx" else [])
            bs = []
            ds = []
            nh = len(E.hyps)
            small = []
            for n in shape:
                c = T.cval(n)
                if c is not None and c <= 4:
                    small.append(range(int(c)))
                    ds.append(None)
                else:
                    k = E.new_binder("c", ZERO, n)
                    bs.append((k, ZERO, n))
                    ds.append(T.P(k))
                    E.hyps += [T.le(ZERO, T.P(k)), T.lt(T.P(k), n)]
            try:
                for combo in itertools.product(*small):
                    it = iter(combo)
                    dd = [T.const(next(it)) if d is None else d for d in ds]
                    val = specs(*dd)
                    vals = (list(val) if isinstance(val, tuple) else [val.re, val.im]) if p.sort == "cplx" else [T.lift(val)]
                    for c, v in enumerate(vals):
                        full = dd + ([T.const(c)] if p.sort == "cplx" else [])
                        ptr = view.cell_ptr(full)
                        rd = E.digits(ptr, line, what=f"write by {self.fn}")
                        new.append((ptr.r, Entry("W", tuple(bs), TRUE, rd, v, line)))
            finally:
                del E.hyps[nh:]
        for r, e in new:
            if r.kind == "const":
                E.oblige(f"{r.name} is not modified", False, "frame", line)
            st.mem[r] = st.mem[r] + (e,)
        rs = self.call_returns(s)
        if rs is None:
            return Undef("void")
        if isinstance(rs, tuple):
            return Cx(*rs)
        return rs

    def bind_actuals(self, E, st, args, s, line):
        if len(args) != len(self.params):
            raise Unsupported(f"call of {self.fn} with {len(args)} arguments")
        snap = dict(st.mem)
        for p, a in zip(self.params, args):
            self.bind_actual(E, snap, p, a, s, line)

    def bind_actual(self, E, mem, p, a, s, line):
        if isinstance(a, (IteV, Deferred)):
            a = E.choose(a) if not isinstance(a, Deferred) else a.fn()
        if isinstance(p, (Size, IntP, RealP)):
            v = E.num(a)
            s._v[p.name] = v
            if isinstance(p, Size):
                E.oblige(f"precondition of {self.fn}: {p.name} >= {p.lo}", T.le(T.const(p.lo), v), "requires", line)
            if isinstance(p, IntP):
                if p.lo is not None:
                    E.oblige(f"precondition of {self.fn}: {p.name} in range", T.le(s.expr(p.lo), v), "requires", line)
                if p.hi is not None:
                    E.oblige(f"precondition of {self.fn}: {p.name} in range", T.lt(v, s.expr(p.hi)), "requires", line)
            if isinstance(p, RealP) and p.lo is not None:
                E.oblige(f"precondition of {self.fn}: {p.name} in range",
                         T.lt(T.lift(p.lo), v) if p.strict else T.le(T.lift(p.lo), v), "requires", line)
            return
        if isinstance(p, Const):
            v = E.num(a)
            s._v[p.name] = v
            return
        if isinstance(p, Arr):
            if isinstance(a, Null):
                s._arr[p.name] = None
                s._v[p.name] = None
                return
            s._arr[p.name] = ArrView(E, p, None, a, mem, s, line, self.fn)
            if isinstance(a, Ptr) and not a.off.items and len(a.r.shape) == len(p.shape) + (p.sort == "cplx"):
                for e, d in zip(p.shape, a.r.shape):
                    if isinstance(e, str) and e not in s._v and e.isidentifier():
                        s._v[e] = d
            return
        if isinstance(p, Struct):
            if not isinstance(a, SPtr):
                raise Unsupported("struct argument")
            for fname, fp in p.fields:
                self.bind_actual(E, mem, fp, a.obj.fields[fname], s, line)
            return
        if isinstance(p, Darray):
            self.bind_actual(E, mem, p.arr, a.obj.fields["data"], s, line)
            return
        if isinstance(p, NullP):
            return
        raise Unsupported(f"parameter {p.name}")


def _raise(e):
    raise e


def _bose_fact(x, t):
    b = T.app("bose", (x, t))
    return [T.disj(T.le(x, ZERO), T.lt(t, ZERO), T.le(ZERO, b))]


class Applied:
    def __init__(self, cls):
        self.cls = cls

    def apply(self, E, st, args, node):
        return self.cls().apply_at(E, st, args, node)


class ArrView:
    """array accessor used by requires/ensures"""

    def __init__(self, E, p, sort, ptr, mem, scope=None, line=0, fn=""):
        self.E, self.p, self.sort, self.ptr, self.mem, self.scope, self.line, self.fn = E, p, sort, ptr, mem, scope, line, fn

    def strides(self):
        shape = [self.scope.expr(e) for e in self.p.shape] + ([T.const(2)] if self.p.sort == "cplx" else [])
        st = [ONE]
        for x in reversed(shape[1:]):
            st.insert(0, T.mul(x, st[0]))
        return st

    def whole(self, name):
        """at a call: the argument must be the start of the caller's constant array `name`"""
        if self.ptr is not None and not (self.ptr.r.name == name and self.ptr.r.kind == "const" and not self.ptr.off.items):
            raise Unsupported(f"{self.p.name} of {self.fn} is not the whole array {name}")

    def cell_ptr(self, full):
        off = self.ptr.off
        for d, st in zip(full, self.strides()):
            off = T.add(off, T.mul(d, st))
        return Ptr(self.ptr.r, off)

    def raw(self, full):
        if self.ptr is None:
            return T.app(self.p.name, full, self.sort)
        p = self.cell_ptr(full)
        ds = self.E.digits(p, self.line, what=f"read by {self.fn}")
        chain = self.mem.get(p.r)
        if chain is None:
            raise Unsupported(f"{p.r.name} not live")
        return self.E.read_chain(chain, p.r, ds)

    def __call__(self, *ds):
        ds = [T.lift(d) for d in ds]
        if self.p.sort == "cplx":
            return Cx(self.raw(tuple(ds) + (ZERO,)), self.raw(tuple(ds) + (ONE,)))
        return self.raw(tuple(ds))


def SUM(ranges, body, guard=None):
    """Sum over fresh indices: ranges = list of (lo, hi) or hi; body(i,...) -> Poly;
    guard(i,...) -> Bool.  The indices' ranges are known while body is built."""
    bs = []
    vs = []
    E = SUM.E
    nh = len(E.hyps) if E is not None else 0
    for r in ranges:
        lo, hi = r if isinstance(r, tuple) else (0, r)
        k = T.the_atom(T.fresh("s"))
        lo, hi = T.lift(lo), T.lift(hi)
        bs.append((k, lo, hi))
        vs.append(T.P(k))
        if E is not None:
            E.binfo[k] = (None, 0, lo, hi, False)
            E.hyps += [T.le(lo, T.P(k)), T.lt(T.P(k), hi)]
    try:
        g = guard(*vs) if guard is not None else TRUE
        if E is not None and g is not TRUE:
            E.hyps.append(g)
        b = body(*vs)
    finally:
        if E is not None:
            del E.hyps[nh:]
    if isinstance(b, Cx):
        return Cx(T.mksum(bs, g, b.re), T.mksum(bs, g, b.im))
    return T.mksum(bs, g, T.lift(b))


SUM.E = None


def register(cls):
    ALL.append(cls)
    if cls.modular:
        CONTRACTS[cls.fn] = cls
    return cls


# complex helpers for specifications
def cmul(a, b):
    return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)


def cadd(a, b):
    return Cx(a.re + b.re, a.im + b.im)


def cconj(a):
    return Cx(a.re, -a.im)


def cscale(a, k):
    return Cx(a.re * k, a.im * k)


def abs2(a):
    return a.re * a.re + a.im * a.im
