"""Run the compiled function on inputs satisfying its precondition and evaluate the
contract on the result (replay of violations; bounded cross-check of the engine)."""
import math
import os
import pickle
import re
import select
import struct
import subprocess
import sys
import time

import numpy as np

from . import terms as T
from .terms import Poly, Bool
from .cfront import Unsupported
from .contract import (Size, IntP, RealP, Const, NullP, Arr, DerivedSize, ExprP, Struct, Darray, Scope, Contract, SUM, flat_params)
from .symex import Cx
from . import build

DT = {"int64": np.int64, "int32": np.int32, "double": np.float64, "char": np.int8}


def ctype_of(raw):
    """-> ('int64'|'int32'|'double'|'char'|'complex'|'ptr:<base>'|'struct:<name>'...)"""
    q = re.sub(r"\b(const|volatile|restrict|struct)\b", " ", raw)
    ptr = "*" in q or "[" in q
    b = re.match(r"\s*([A-Za-z_][\w ]*)", q).group(1).strip()
    if "omplex" in b:
        k = "complex"
    elif b in ("double",):
        k = "double"
    elif b in ("char", "signed char", "unsigned char", "_Bool"):
        k = "char"
    elif b in ("int", "unsigned int", "int32_t"):
        k = "int32"
    elif b in ("long", "unsigned long", "int64_t", "uint64_t", "size_t", "long long"):
        k = "int64"
    elif b == "void":
        k = "void"
    else:
        k = "struct:" + b
    return ("ptr", k) if ptr else ("val", k)


class CrashError(Exception):
    pass


class Worker:
    def __init__(self, threads=4, asan=True, tsan=False):
        env = dict(os.environ)
        asan = asan and not tsan
        if tsan:
            lib = subprocess.run(["gcc", "-print-file-name=libtsan.so"], capture_output=True, text=True).stdout.strip()
            env["LD_PRELOAD"] = lib
            env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
        if asan:
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
            env["LD_PRELOAD"] = lib
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1073741824:malloc_fill_byte=255:"
                               "detect_odr_violation=0:allocator_may_return_null=0:max_allocation_size_mb=2000")
        env["OMP_NUM_THREADS"] = str(threads)
        env["OPENBLAS_NUM_THREADS"] = "1"
        self.err = open(os.path.join(build.scratch(), f"worker{id(self)}.err"), "w+b")
        self.p = subprocess.Popen([sys.executable, "-S", os.path.join(os.path.dirname(__file__), "worker.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)

    def _read(self, n, end):
        b = b""
        fd = self.p.stdout.fileno()
        while len(b) < n:
            r, _, _ = select.select([fd], [], [], max(0.01, end - time.time()))
            if not r:
                self.p.kill()
                raise CrashError("no result within the time limit (does not terminate?)")
            c = os.read(fd, n - len(b))
            if not c:
                self.p.wait()
                self.err.seek(0)
                e = self.err.read().decode(errors="replace")
                raise CrashError(f"process ended with status {self.p.returncode}\n{e[-3500:]}")
            b += c
        return b

    def call(self, req, timeout=60):
        b = pickle.dumps(req)
        try:
            self.p.stdin.write(struct.pack("<Q", len(b)) + b)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + timeout
        h = self._read(8, end)
        return pickle.loads(self._read(struct.unpack("<Q", h)[0], end))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
        self.err.close()


def np_bose(x, t):
    if t <= 0:
        return 0.0
    a = 47.992398658977166 * x / t
    if a == 0:
        return math.inf
    if a > 700:
        return 0.0
    return 1.0 / (math.exp(a) - 1)


FUNCS = {"bose": np_bose}


class Vals(dict):
    __getattr__ = dict.__getitem__


class ConcreteScope(Scope):
    pass


class CView:
    def __init__(self, p):
        self.p = p

    def raw(self, full):
        return T.app(self.p.name, tuple(full), "int" if self.p.sort in ("int", "char") else "real")

    def __call__(self, *ds):
        ds = tuple(T.lift(d) for d in ds)
        if self.p.sort == "cplx":
            return Cx(self.raw(ds + (T.ZERO,)), self.raw(ds + (T.ONE,)))
        return self.raw(ds)


class Trial:
    """one concrete input of a contract"""

    def __init__(self, c, rng, case):
        self.c, self.case = c, case
        self.v = Vals()
        s = self.s = ConcreteScope()
        self.env = {}
        allp = list(c.ghosts) + list(flat_params(c.params))
        pre = c.generate(rng, case) or {}
        for p in allp:
            if p.name in case:
                v = case[p.name]
                s._v[p.name] = None if v is None else T.const(ord(v) if isinstance(v, str) else v)
                if v is None:
                    s._arr[p.name] = None
                self.v[p.name] = v
            elif isinstance(p, DerivedSize):
                continue
            elif isinstance(p, Size):
                v = int(pre.get(p.name, rng.integers(max(p.lo, p.rng[0]), p.rng[1] + 1)))
                self.v[p.name] = v
                s._v[p.name] = T.const(v)
            elif isinstance(p, Const):
                self.v[p.name] = p.value
                s._v[p.name] = T.const(ord(p.value) if isinstance(p.value, str) else p.value)
        for p in allp:
            if isinstance(p, DerivedSize) and p.name not in case:
                s._v[p.name] = T.lift(p.fn(s))
                self.v[p.name] = self.i(s._v[p.name])
        for p in allp:
            if p.name in case:
                continue
            if isinstance(p, IntP):
                if p.name in pre:
                    v = int(pre[p.name])
                elif p.values is not None:
                    v = int(rng.choice(p.values))
                elif p.lo is not None or p.hi is not None:
                    lo = self.i(s.expr(p.lo)) if p.lo is not None else p.rng[0]
                    hi = self.i(s.expr(p.hi)) if p.hi is not None else max(p.rng[1], lo + 1)
                    v = int(rng.integers(lo, hi))
                else:
                    v = int(rng.integers(p.rng[0], p.rng[1]))
                self.v[p.name] = v
                s._v[p.name] = T.const(v)
            elif isinstance(p, RealP):
                if p.name in pre:
                    v = float(pre[p.name])
                elif p.gen is not None:
                    v = float(p.gen(rng))
                else:
                    v = float(rng.uniform(p.lo, p.lo + 3)) if p.lo is not None else float(rng.normal())
                self.v[p.name] = v
                s._v[p.name] = T.var(p.name, "real")
                self.env[p.name] = v
        c.derive(s, case)
        for p in allp:
            if isinstance(p, ExprP):
                s._v[p.name] = T.lift(p.fn(s))
                self.v[p.name] = self.i(s._v[p.name])
        for k, x in s._v.items():
            if k not in self.v:
                self.v[k] = self.i(x) if isinstance(x, Poly) and T.cval(x) is not None else x
        for p in flat_params(c.params):
            if not isinstance(p, Arr) or case.get(p.name, 0) is None:
                continue
            shape = [self.i(s.expr(e)) for e in p.shape]
            if p.name in pre:
                a = np.asarray(pre[p.name])
            elif p.value is not None:
                a = np.array([self.i(T.lift(x)) for x in p.value(s)])
            elif p.gen is not None:
                a = np.asarray(p.gen(rng, self.v, shape))
            elif p.sort in ("int", "char"):
                lo = self.i(s.expr(p.lo)) if p.lo is not None else -3
                hi = self.i(s.expr(p.hi)) if p.hi is not None else lo + 7
                if p.inj is not None:
                    n = int(np.prod(shape))
                    a = rng.permutation(n).reshape(shape)
                else:
                    a = rng.integers(lo, hi, size=shape)
            elif p.sort == "cplx":
                a = rng.normal(size=shape) + 1j * rng.normal(size=shape)
            else:
                a = rng.normal(size=shape)
                if p.lo is not None:
                    a = self.f(s.expr(p.lo)) + abs(a)
            dt = {"int": np.int64, "char": np.int8, "real": float, "cplx": complex}[p.sort]
            a = np.ascontiguousarray(a, dtype=dt).reshape(shape)
            self.v[p.name] = a
            s._arr[p.name] = CView(p)
        self.funcs = dict(FUNCS)
        self.funcs.update(c.funcs(self.v))
        for p in flat_params(c.params):
            if isinstance(p, Arr) and case.get(p.name, 0) is not None:
                self.funcs[p.name] = self.getter(p, self.v[p.name])

    @staticmethod
    def getter(p, a):
        if p.sort == "cplx":
            def g(*ds):
                z = a[tuple(int(d) for d in ds[:-1])]
                return float(z.imag if int(ds[-1]) else z.real)
        elif p.sort in ("int", "char"):
            def g(*ds):
                for d in ds:
                    if d < 0:
                        raise IndexError("negative index")
                return int(a[tuple(int(d) for d in ds)])
        else:
            def g(*ds):
                for d in ds:
                    if d < 0:
                        raise IndexError("negative index")
                return float(a[tuple(int(d) for d in ds)])
        return g

    def i(self, p):
        c = T.cval(p)
        return int(c if c is not None else T.ev(p, self.env, self.funcs if hasattr(self, "funcs") else {}))

    def f(self, p):
        return float(T.ev(p, self.env, {}))

    def ok(self):
        return all(T.ev(r, self.env, self.funcs) for r in self.c.requires(self.s)) and self.c.accept(self.v)

    # -- the call
    def request(self, unit, f, so):
        bufs = {}
        self.bt = {}
        args = []
        if len(f.raw) != len(self.c.params):
            raise Unsupported(f"{f.name} takes {len(f.raw)} parameters, contract has {len(self.c.params)}")
        for p, raw in zip(self.c.params, f.raw):
            args.append(self.arg(p, ctype_of(raw), bufs, unit))
        kind, k = ctype_of(f.rawret)
        return {"so": so, "fn": f.name, "bufs": bufs, "args": args, "ret": "ptr" if kind == "ptr" else k}

    def buf(self, name, a, k, bufs):
        if k == "complex":
            a = np.ascontiguousarray(a, dtype=complex)
            dt = complex
        elif k == "void":
            dt = a.dtype
        else:
            dt = DT[k]
            if a.dtype.kind == "c":
                a = np.ascontiguousarray(a).view(float)
            a = np.ascontiguousarray(a, dtype=dt)
        bufs[name] = a.tobytes()
        self.bt[name] = dt
        return ("buf", name)

    def arg(self, p, ct, bufs, unit):
        kind, k = ct
        if isinstance(p, NullP) or self.case.get(p.name, 0) is None:
            return ("null",)
        if isinstance(p, Arr):
            return self.buf(p.name, self.v[p.name], k, bufs)
        if isinstance(p, (Size, IntP, RealP, Const, ExprP)):
            v = self.v[p.name]
            if isinstance(v, str):
                v = ord(v)
            return ("val", k, float(v) if k == "double" else int(v))
        name = k.split(":", 1)[1]
        fields = unit.structs_raw[name]
        if isinstance(p, Darray):
            out = []
            for fn, raw in fields:
                fk = ctype_of(raw)
                if fn == "dims":
                    out.append((fn, [fk[1], 20], [self.i(self.s.expr(d)) for d in (p.dims or p.arr.shape)]))
                else:
                    out.append((fn, "ptr", self.arg(p.arr, fk, bufs, unit)))
            return ("struct", out)
        if isinstance(p, Struct):
            by = dict(p.fields)
            out = []
            for fn, raw in fields:
                fp = by.get(fn)
                m = re.match(r"^\s*(?:const )?\s*(\w[\w ]*?)\s*((?:\[\d+\])+)$", raw)
                if m:      # array member
                    n = int(np.prod([int(x) for x in re.findall(r"\d+", m.group(2))]))
                    fk = ctype_of(m.group(1))[1]
                    val = None
                    if fp is not None:
                        val = [x.item() for x in np.asarray(self.v[fp.name]).ravel()]
                    out.append((fn, [fk, n], val))
                else:
                    fk = ctype_of(raw)
                    if fp is None:
                        out.append((fn, "ptr" if fk[0] == "ptr" else fk[1], None))
                    else:
                        out.append((fn, "ptr" if fk[0] == "ptr" else fk[1], self.arg(fp, fk, bufs, unit)))
            return ("struct", out)
        raise Unsupported(f"argument {p.name}")

    def outputs(self, res):
        out = {}
        for p in flat_params(self.c.params):
            if isinstance(p, Arr) and p.name in res["bufs"]:
                a = np.frombuffer(res["bufs"][p.name], dtype=self.bt[p.name])
                a = a.view(complex) if p.sort == "cplx" and a.dtype == np.float64 else a
                out[p.name] = a.reshape(self.v[p.name].shape)
        return out

    # -- judging
    def judge(self, out, ret):
        c, s = self.c, self.s
        SUM.E = None
        fails = []
        ens = c.ensures(s)
        fast = c.numeric(self.v) or {}
        for p in flat_params(c.params):
            if not isinstance(p, Arr) or p.name not in out:
                continue
            a, a0 = out[p.name], self.v[p.name]
            if p.name not in ens:
                if p.name in c.unconstrained:
                    continue
                if a.tobytes() != np.ascontiguousarray(a0, dtype=a.dtype).tobytes():
                    fails.append((f"{p.name} is left unchanged", f"{p.name} was modified"))
                continue
            specs = ens[p.name]
            if p.name in fast:
                want = np.asarray(fast[p.name])
                b = self.mismatch(p, list(a.ravel()), list(want.ravel()))
                if b is not None:
                    what = specs[0][0] if isinstance(specs, list) else "value of " + p.name
                    fails.append((what, f"{p.name}{list(int(x) for x in np.unravel_index(b, a.shape))} = {a.ravel()[b]!r}, "
                                  f"contract requires {want.ravel()[b]!r}"))
                continue
            if not isinstance(specs, list):
                specs = [("value of " + p.name, specs, None)]
            ds = [T.var(f"D{i}", "int") for i in range(a.ndim)]
            for what, fn, cond in specs:
                cb = cond(*ds) if cond is not None else None
                cells = []
                for idx in np.ndindex(*a.shape):
                    env = dict(self.env)
                    env.update({f"D{i}": x for i, x in enumerate(idx)})
                    if cb is not None and not T.ev(cb, env, self.funcs):
                        continue
                    cells.append((idx, env))
                if not cells:
                    continue
                e = fn(*ds)
                es = (list(e) if isinstance(e, tuple) else [e.re, e.im]) if p.sort == "cplx" else [T.lift(e)]
                want = []
                for idx, env in cells:
                    vs = [T.ev(x, env, self.funcs) for x in es]
                    want.append(complex(*vs) if p.sort == "cplx" else vs[0])
                got = [a[idx] for idx, _ in cells]
                b = self.mismatch(p, got, want)
                if b is not None:
                    fails.append((what, f"{p.name}{list(cells[b][0])} = {got[b]!r}, contract requires {want[b]!r}"))
        rs = c.returns(s)
        if rs is not None:
            if isinstance(rs, list):
                rt = T.const(int(ret)) if isinstance(ret, int) else T.var("RET", "real")
                env = dict(self.env)
                env["RET"] = ret
                for what, e in rs:
                    if callable(e):
                        e = e(rt)
                    if isinstance(e, Bool):
                        if not T.ev(e, env, self.funcs):
                            fails.append((what, f"returned {ret}"))
                    else:
                        self.cmp_ret(what, ret, e, fails)
            else:
                self.cmp_ret("result", ret, rs, fails)
        fails += c.concrete_check(self.v, out, ret) or []
        return fails

    def cmp_ret(self, what, ret, e, fails):
        if isinstance(e, (tuple, Cx)):
            e = e if isinstance(e, tuple) else (e.re, e.im)
            w = [T.ev(T.lift(x), self.env, self.funcs) for x in e]
            sc = max(abs(w[0]), abs(w[1]), 1e-300)
            if not all(abs(g - x) <= self.c.tol * (sc + 1e-12) for g, x in zip(ret, w)):
                fails.append((what, f"returned {ret}, contract requires {w}"))
            return
        w = T.ev(T.lift(e), self.env, self.funcs)
        if isinstance(ret, int):
            if ret != w:
                fails.append((what, f"returned {ret}, contract requires {w}"))
        elif not abs(ret - w) <= self.c.tol * max(abs(w), self.c.scale):
            fails.append((what, f"returned {ret}, contract requires {w}"))

    def mismatch(self, p, got, want):
        if p.sort in ("int", "char"):
            for i, (g, w) in enumerate(zip(got, want)):
                if int(g) != int(w):
                    return i
            return None
        tol = p.tol or self.c.tol
        fin = [abs(w) for w in want if math.isfinite(abs(w))]
        sc = max(fin + [self.c.scale])
        for i, (g, w) in enumerate(zip(got, want)):
            if not abs(g - w) <= tol * sc:
                if not math.isfinite(abs(w)) :
                    continue
                return i
        return None

    def dump(self):
        d = {}
        for k, v in self.v.items():
            if isinstance(v, np.ndarray):
                if v.dtype.kind == "c":
                    d[k] = {"re": v.real.tolist(), "im": v.imag.tolist()}
                else:
                    d[k] = v.tolist()
            elif isinstance(v, (int, float, str)) or v is None:
                d[k] = v
        return d


def run_contract(c, program, clib, trials, seed, budget=60.0, worker=None, threads=4, stop=1, mode="all"):
    """mode: "all" every clause; "memory" accesses and frame only; "race" ThreadSanitizer build, races only
    -> dict(n=..., nontrivial=..., failures=[{what, detail, case, trial seed, input}])"""
    u, f = program.find(c.file, c.fn)
    res = {"n": 0, "distinct": 0, "failures": [], "cases": len(c.cases), "rejected": 0, "wall": 0.0}
    if f is None:
        res["missing"] = True
        return res
    so = clib.lib(os.path.basename(u.path))
    w = worker or Worker(threads, tsan=mode == "race")
    t0 = time.time()
    seen = set()
    try:
        for k in range(trials):
            if time.time() - t0 > budget:
                break
            for ci, case in enumerate(c.cases):
                rng = np.random.default_rng([seed, ci, k])
                tr = None
                for _ in range(30):
                    x = Trial(c, rng, case)
                    if x.ok():
                        tr = x
                        break
                    res["rejected"] += 1
                if tr is None:
                    continue
                req = tr.request(u, f, so)
                seen.add(hash((ci, tuple(sorted(req["bufs"].items())))))
                res["n"] += 1
                try:
                    r = w.call(req, c.opts.get("call_timeout", 30))
                except CrashError as e:
                    if mode == "race" and "data race" not in str(e):
                        w.close()
                        w = worker = Worker(threads, tsan=True)
                        continue
                    res["failures"].append({"what": "concurrent iterations touch different locations" if mode == "race" else
                                            "memory safety / termination", "detail": str(e), "case": case, "key": [seed, ci, k],
                                            "input": tr.dump()})
                    w.close()
                    w = worker = Worker(threads, tsan=mode == "race")
                    if len(res["failures"]) >= stop:
                        return res
                    continue
                if mode == "race":
                    continue
                fails = tr.judge(tr.outputs(r), r["ret"])
                if mode == "memory":
                    fails = [x for x in fails if x[0].endswith("is left unchanged")]
                if fails and c.tolerated and fails[0][0].startswith(c.tolerated):
                    if any(x["what"] == fails[0][0] for x in res["failures"]):
                        continue
                    res["failures"].append({"what": fails[0][0], "detail": "", "case": case, "key": [seed, ci, k], "input": tr.dump()})
                    continue
                if fails:
                    res["failures"].append({"what": fails[0][0], "detail": "; ".join(x[1] for x in fails), "case": case,
                                            "key": [seed, ci, k], "input": tr.dump()})
                    if len(res["failures"]) >= stop:
                        return res
    finally:
        res["distinct"] = len(seen)
        res["wall"] = round(time.time() - t0, 2)
        res["worker"] = w
        if worker is None:
            w.close()
    return res
