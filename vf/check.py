"""Check one property: python3-vt -m vf.check Cxx

1. every contract that carries the property is verified against /repo's current C
   sources (symbolic execution + Poly/SMT discharge, all sizes, all iterations);
2. the compiled functions are run on inputs satisfying the precondition and the
   contract is evaluated on the result (bounded; gives the failing input);
3. runtime contracts on the Python API (bounded), where the property has some.

exit 0: nothing failed.  exit 1 + VIOLATION line: a contract failed.
"""
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import re
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from vf import extra  # noqa: E402

VENV = "/opt/venv/bin/python"
RACE_KINDS = {"race", "unsupported", "vacuity"}
SAFE_KINDS = {"bounds", "div0", "uninit", "frame", "leak", "unsupported", "vacuity", "requires", "safety"}

TRUSTED = [
    "clang 18 parser (AST of the C sources) and gcc (the compiled replay)",
    "vf/cfront.py, vf/symex.py (C semantics: strongest postcondition by symbolic execution with loop summaries)",
    "vf/terms.py (polynomial/sum normal form), vf/prover.py with z3 as back end",
    "the meaning written in vf/contracts/*.py",
]
ASSUME = [
    "double arithmetic is treated as real arithmetic (no rounding, no overflow, no NaN inputs)",
    "int64_t/int arithmetic is treated as mathematical (no wrap-around)",
    "array arguments of one call do not alias each other, and have the stated shapes",
    "division by a non-zero real (guarded divisions are checked concretely only)",
    "malloc returns a fresh block (never NULL)",
    "libm functions (exp, cos, sin, sqrt, ...) are functions of their arguments; only the listed algebraic facts about them are used",
    "OpenMP: iterations of a `parallel for` are executed exactly once each; private/reduction clauses as specified",
]


def load_contracts():
    from . import contract as C
    import vf.contracts as pk
    for m in pkgutil.iter_modules(pk.__path__):
        importlib.import_module("vf.contracts." + m.name)
    return C


def relevant(prop, kind):
    if prop == "C16":
        return kind in RACE_KINDS
    if prop == "C17":
        return kind in SAFE_KINDS
    return True


def quick_cases(cls, prop):
    if prop in cls.quick:
        return cls.quick[prop]
    if prop in ("C16", "C17"):
        return cls.quick.get("safety", [0])
    return cls.quick.get("*", range(len(cls.cases)))


G = {}


def job_sym(arg):
    i, ci = arg
    C = G["C"]
    cls = C.ALL[i]
    t = time.time()
    c = cls()
    case = cls.cases[ci]
    from . import prover
    st0 = dict(prover.STATS)
    tag = ",".join(f"{k}={v}" for k, v in case.items())
    try:
        obs = c.verify_case(G["P"], C.CONTRACTS, case, tag)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        obs = [C.Obligation(c.obname("within the verifier's reach", tag), False,
                            f"engine {type(e).__name__}: {e} @ {tb.filename}:{tb.lineno}", "unsupported")]
    from . import prover
    st = {k: prover.STATS[k] - st0[k] for k in st0}
    return ("sym", i, ci, [(o.name, bool(o.ok), str(o.detail)[:3000], o.kind, o.line) for o in obs],
            {"t": time.time() - t, "extracted": [f"{x[0]}:{x[1]}" for x in getattr(c, "extracted", [])],
             "used": sorted(str(x) for x in getattr(c, "used", [])), **st})


def job_con(arg):
    i, seed, trials, budget = arg
    from . import concrete
    C = G["C"]
    cls = C.ALL[i]
    c = cls()
    try:
        r = concrete.run_contract(c, G["P"], G["L"], trials, seed, budget, mode=G["mode"])
    except Exception as e:
        r = {"n": 0, "distinct": 0, "failures": [], "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}
    r.pop("worker", None)
    return ("con", i, r)


def run_job(j):
    return job_sym(j[1]) if j[0] == "sym" else job_con(j[1])


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "known"]


def py_checks(prop):
    """Python-API modules for a property: vf/py/*.py that mention it in PROPS"""
    d = os.path.join(ROOT, "vf", "py")
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not f.endswith(".py") or f.startswith("_"):
            continue
        m = re.search(r"^PROPS\s*=\s*(\(.*?\)|\[.*?\])", open(os.path.join(d, f)).read(), re.M | re.S)
        if m and prop in eval(m.group(1)):
            out.append(f[:-3])
    return out


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    limit = 780 if tier == "quick" else 7200
    end = t0 + limit
    from . import build, cfront
    fails_in, fails_no = [], []
    con = {"n": 0, "distinct": 0, "failures": 0}
    perf = []
    obls = []
    C = load_contracts()
    meta = {}
    sel = [i for i, c in enumerate(C.ALL) if prop in c.props]
    built = True
    # ---- Python part first (asynchronously)
    pymods = py_checks(prop)
    pyp = []
    try:
        if pymods:
            ext = build.pyext()
            for m in pymods:
                out = os.path.join(build.scratch(), f"py_{m}.json")
                env = dict(os.environ, VERIF_EXT=ext, VERIF_REPO=build.REPO, OMP_NUM_THREADS="4", OPENBLAS_NUM_THREADS="1",
                           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_SCRATCH=build.scratch(),
                           MALLOC_PERTURB_="85")
                budget = (120 if tier == "quick" else 900)
                p = subprocess.Popen([VENV, os.path.join(ROOT, "vf", "pyrun.py"), m, prop, str(seed), tier, str(budget), out],
                                     env=env, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), cwd=build.scratch())
                pyp.append((m, p, out))
    except build.BuildError as e:
        built = False
        fails_no.append(("build of the extension modules", str(e), "build"))
    xp = None
    if prop in extra.MODULES:
        out = os.path.join(build.scratch(), "extra.json")
        xp = (subprocess.Popen([sys.executable, "-m", "vf.extra", prop, tier, out], env=dict(os.environ, VERIF_REPO=build.REPO, PYTHONDONTWRITEBYTECODE="1"),
                               stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), cwd=ROOT), out)
    # ---- C contracts
    ctx = mp.get_context("fork")
    if sel:
        try:
            G["P"] = cfront.Program()
            G["mode"] = {"C16": "race", "C17": "memory"}.get(prop, "all")
            G["L"] = build.CLib(tsan=G["mode"] == "race")
            G["C"] = C
            jobs = []
            for i in sel:
                cls = C.ALL[i]
                u, f = G["P"].find(cls.file, cls.fn)
                if f is None and getattr(cls, "optional", False):
                    continue
                if f is not None and getattr(cls, "optional", False) and len(f.raw) != len(cls.params):
                    continue
                if f is None:
                    obls.append((f"{cls.fn}: function under contract exists", False, "not found in the sources", "unsupported", 0))
                    continue
                if not cls.skip_symbolic:
                    for ci in (quick_cases(cls, prop) if tier == "quick" else range(len(cls.cases))):
                        jobs.append(("sym", (i, ci), getattr(cls, "cost", 5)))
                if not cls.skip_concrete:
                    G["L"].lib(os.path.basename(u.path))
                    trials = cls.trials if tier == "quick" else cls.trials * 20
                    jobs.append(("con", (i, seed, trials, 60 if tier == "quick" else 600), 8))
            jobs.sort(key=lambda j: -j[2])
            with ctx.Pool(8, maxtasksperchild=4) as pool:
                rs = [(j, pool.apply_async(run_job, (j,))) for j in jobs]
                stop = end
                while rs:
                    todo = []
                    for j, r in rs:
                        if not r.ready():
                            todo.append((j, r))
                            continue
                        x = r.get()
                        if x[0] == "sym":
                            for o in x[3]:
                                obls.append(o)
                            perf.append((C.ALL[x[1]], x[2], x[4]))
                        else:
                            cls, r = C.ALL[x[1]], x[2]
                            con["n"] += r["n"]
                            con["distinct"] += r["distinct"]
                            if r.get("error"):
                                fails_no.append((f"{cls.fn}: concrete run", r["error"] + r.get("tb", ""), "unsupported"))
                            for f in r["failures"]:
                                con["failures"] += 1
                                if not (getattr(cls, "tolerated", None) and f["what"].startswith(cls.tolerated)):
                                    stop = min(stop, time.time() + 60)
                                fails_in.append({"contract": cls.__name__, "fn": cls.fn, "what": f["what"], "detail": f["detail"],
                                                 "case": f["case"], "key": f["key"], "input": f["input"], "kind": "c"})
                    rs = todo
                    if rs and time.time() > stop:
                        for j, r in rs:
                            cls = C.ALL[j[1][0]]
                            if j[0] == "sym":
                                obls.append((f"{cls.fn}: decided within the time limit", False, "time limit", "unsupported", 0))
                        break
                    if rs:
                        time.sleep(0.05)
                pool.terminate()
        except build.BuildError as e:
            fails_no.append(("build of the C sources", str(e), "build"))
        except cfront.Unsupported as e:
            fails_no.append(("reading the C sources", str(e), "unsupported"))
    obls = [o for o in obls if relevant(prop, o[3])]
    # ---- extra engines (Python source contracts, polynomial engine)
    efns = {}
    if xp is not None:
        try:
            xp[0].wait(max(5, end + 60 - time.time()))
        except subprocess.TimeoutExpired:
            xp[0].kill()
        if os.path.exists(xp[1]):
            d = json.load(open(xp[1]))
            obls += [tuple(o) for o in d["obligations"]]
            efns = d["functions"]
        else:
            obls.append((f"{extra.MODULES[prop]}: decided", False, open(xp[1] + ".err").read()[-1500:], "unsupported", 0))
    # ---- collect python
    py = []
    for m, p, out in pyp:
        try:
            p.wait(max(5, end + 60 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
        if os.path.exists(out):
            for r in json.load(open(out)):
                py.append(r)
                if r.get("error"):
                    fails_no.append((f"runtime contract {r['check']}", r["error"], "unsupported"))
                for f in r["failures"]:
                    fails_in.append({"contract": r["check"], "module": m, "what": f["what"], "detail": f["detail"], "key": f.get("key"),
                                     "input": f.get("input"), "kind": "py"})
        else:
            err = open(out + ".err").read()[-3000:]
            fails_in.append({"contract": m, "module": m, "what": "runtime contracts run to completion", "key": None, "input": None, "kind": "py",
                             "detail": f"interpreter ended with status {p.returncode}\n{err}"})
    bad = [o for o in obls if not o[1]]
    if any(not C.ALL[i].skip_symbolic for i in sel) and not any(o[1] for o in obls) and not bad and xp is None:
        fails_no.append(("at least one obligation is generated", "no obligations", "unsupported"))
    # ---- known findings
    kn = known_findings(prop)
    shown = set()

    def is_known(name, detail):
        for k in kn:
            if re.search(k["match"], name) and re.search(k.get("detail", ""), detail or "", re.S):
                if k["text"] not in shown:
                    shown.add(k["text"])
                    print(f"KNOWN-FINDING: property={prop} {k['text']}")
                return True
        return False
    bad = [o for o in bad if not is_known(o[0], o[2])]
    fails_in = [f for f in fails_in if not is_known(f"{f.get('fn') or f['contract']}: {f['what']}", f["detail"])]
    for k in kn:
        if k["text"] not in shown and k.get("always"):
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    # ---- verdict
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join("evidence", "replay", f"{prop}.json")
    viol = 0
    if fails_in:
        viol = len(fails_in)
        json.dump({"property": prop, "failures": fails_in, "failed_obligations": [list(o) for o in bad]},
                  open(os.path.join(ROOT, rpath), "w"), indent=1, default=str)
        f = fails_in[0]
        print(f"{f.get('fn') or f['contract']}: {f['what']}: {str(f['detail'])[:600]}")
        for o in bad[:5]:
            print(f"failed obligation: {o[0]} ({o[3]}) {o[2][:300]}")
        print(f"VIOLATION property={prop} replay={rpath}")
    elif bad or fails_no:
        viol = len(bad) + len(fails_no)
        json.dump({"property": prop, "failures": [], "failed_obligations": [list(o) for o in bad],
                   "other": [list(x) for x in fails_no]}, open(os.path.join(ROOT, rpath), "w"), indent=1, default=str)
        for o in bad[:8]:
            print(f"failed obligation: {o[0]} ({o[3]}) {o[2][:300]}")
        for x in fails_no[:8]:
            print(f"not decided: {x[0]} {x[1][:600]}")
        print(f"VIOLATION property={prop} replay={rpath} no-failing-input-found")
    ev = evidence(C, prop, tier, seed, sel, obls, perf, con, py, viol, time.time() - t0, efns)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    c = ev["coverage"]
    print(f"{prop} {tier}: {c.get('discharged', 0)}/{c.get('obligations', 0)} obligations, "
          f"{con['n']} concrete runs, {sum(r['n'] for r in py)} API runs, {ev['wall_s']} s")
    sys.stdout.flush()
    return 1 if viol else 0


def evidence(C, prop, tier, seed, sel, obls, perf, con, py, viol, wall, efns):
    from . import levels
    kinds = {}
    for o in obls:
        k = kinds.setdefault(o[3], [0, 0])
        k[0] += 1
        k[1] += o[1]
    fns = {}
    for cls, ci, st in perf:
        d = fns.setdefault(f"c/{cls.file}:{cls.fn}", {"contract": cls.__name__, "cases": 0, "seconds": 0.0, "inlined": set(), "callee_contracts": set()})
        d["cases"] += 1
        d["seconds"] = round(d["seconds"] + st["t"], 2)
        d["inlined"] |= set(st["extracted"])
        d["callee_contracts"] |= set(st["used"])
    for d in fns.values():
        d["inlined"] = sorted(d["inlined"])
        d["callee_contracts"] = sorted(d["callee_contracts"])
    for k, m in efns.items():
        fns[k] = {"contract": f"vf/{m}.py", "inlined": [], "callee_contracts": []}
    samples = ([o[0] for o in obls if o[1] and o[3] == "post"] or [o[0] for o in obls if o[1]])[:6]
    level = levels.LEVEL.get(prop, ("proof", ""))[0]
    cov = {
        "obligations": len(obls),
        "discharged": sum(1 for o in obls if o[1]),
        "checker_cmd": f"python3-vt -m vf.check {prop}",
        "trusted_base": TRUSTED,
        "obligation_kinds": {k: {"generated": v[0], "discharged": v[1]} for k, v in kinds.items()},
        "functions_under_contract": fns,
        "solver": {"by_normal_form": sum(st.get("poly", 0) + st.get("quick", 0) for _, _, st in perf),
                   "z3_queries": sum(st.get("z3_calls", 0) for _, _, st in perf),
                   "z3_seconds": round(sum(st.get("z3_time", 0.0) for _, _, st in perf), 2),
                   "total_seconds": round(sum(st["t"] for _, _, st in perf), 2), "back_end": "term normal form; z3 for the rest"},
        "bounded": {
            "note": "bounded stand-ins and replays; never counted as proved",
            "contract_runs_on_compiled_functions": con["n"], "distinct": con["distinct"],
            "api_runtime_contracts": [{k: r[k] for k in ("check", "n", "distinct", "bound") if k in r} for r in py],
        },
        "samples": samples + [str(r.get("sample"))[:400] for r in py if r.get("sample")][:4],
    }
    ev = sum(r["n"] for r in py) + con["n"]
    cov["evaluations"] = ev
    cov["distinct_nontrivial"] = con["distinct"] + sum(r.get("distinct", 0) for r in py)
    cov["rule"] = ("random inputs satisfying the precondition (sizes 1-6, all contract cases), distinct by argument bytes; "
                   "API runs: random meshes/crystals/frequencies as stated per check, distinct by description")
    cov["explanation"] = levels.LEVEL.get(prop, ("", ""))[1]
    return {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": ASSUME + levels.ASSUME.get(prop, []), "wall_s": round(wall, 2), "violations": viol}


def guarded():
    try:
        return main()
    except Exception:
        tb = traceback.format_exc()
        print(tb)
        prop = sys.argv[1]
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        rp = os.path.join("evidence", "replay", f"{prop}.json")
        json.dump({"property": prop, "failures": [], "failed_obligations": [], "other": [["check", tb]]}, open(os.path.join(ROOT, rp), "w"))
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        return 1


if __name__ == "__main__":
    sys.exit(guarded())
