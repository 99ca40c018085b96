"""Runs the runtime-contract modules vf/py/<name>.py against /repo's Python sources and
freshly built extension modules.  Executed by /opt/venv/bin/python.

argv: module property seed tier budget out.json [key]"""
import importlib.util
import json
import os
import sys
import time
import traceback

import numpy as np


def setup():
    repo = os.environ.get("VERIF_REPO", "/repo")
    ext = os.environ["VERIF_EXT"]
    sys.meta_path[:] = [f for f in sys.meta_path if "phono3py" not in repr(type(f)).lower() and "phono3py" not in repr(f).lower()
                        and "scikitbuild" not in type(f).__name__.lower() and "editable" not in repr(f).lower()]
    sys.path.insert(0, repo)
    import importlib.machinery
    import importlib.util as iu
    for m in ("_phono3py", "_recgrid", "_phononcalc"):
        path = os.path.join(ext, m + ".cpython-312-x86_64-linux-gnu.so")
        ld = importlib.machinery.ExtensionFileLoader("phono3py." + m, path)
        sp = iu.spec_from_file_location("phono3py." + m, path, loader=ld)
        mod = iu.module_from_spec(sp)
        ld.exec_module(mod)
        sys.modules["phono3py." + m] = mod
    import phono3py
    assert os.path.realpath(phono3py.__file__).startswith(os.path.realpath(repo)), phono3py.__file__
    for m in ("_phono3py", "_recgrid", "_phononcalc"):
        setattr(phono3py, m, sys.modules["phono3py." + m])


class Fail(Exception):
    pass


def need(cond, what, detail=""):
    if not cond:
        raise Fail(what, str(detail))


def close(a, b, what, tol=1e-8, scale=None, where=""):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail(what, f"{where} shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    sc = max(np.nanmax(abs(b)), 1e-12) if scale is None else scale
    d = abs(a - b)
    bad = ~(d <= tol * sc)
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Fail(what, f"{where} at {k}: got {a[k]!r}, contract requires {b[k]!r} ({int(bad.sum())} of {a.size} differ)")


def same(a, b, what, where=""):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail(what, f"{where} shape {a.shape} instead of {b.shape}")
    if not (a == b).all():
        k = tuple(int(x) for x in np.argwhere(a != b)[0])
        raise Fail(what, f"{where} at {k}: got {a[k]!r}, contract requires {b[k]!r} ({int((a != b).sum())} of {a.size} differ)")


def main():
    mod, prop, seed, tier, budget, out = sys.argv[1:7]
    key = json.loads(sys.argv[7]) if len(sys.argv) > 7 else None
    seed, budget = int(seed), float(budget)
    import warnings
    warnings.simplefilter("ignore")
    setup()
    sys.modules["pyrun"] = sys.modules["__main__"]
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "py")
    sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location("vfpy_" + mod, os.path.join(d, mod + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    checks = [(n, fn, trials, props, bound) for n, fn, trials, props, bound in m.CHECKS if prop in props]
    res = []
    if key is not None:
        checks = [c for c in checks if c[0] == key[0]]
    left = len(checks)
    t_all = time.time()
    for name, fn, trials, props, bound in checks:
        r = {"check": name, "n": 0, "distinct": 0, "failures": [], "bound": bound}
        seen = set()
        t0 = time.time()
        lim = max(5.0, (budget - (t0 - t_all)) / max(1, left))
        left -= 1
        n = trials if tier == "quick" else trials * 10
        for k in range(n) if key is None else [key[2]]:
            if time.time() - t0 > lim and k > 0:
                break
            rng = np.random.default_rng([seed if key is None else key[1], k])
            desc = {}
            try:
                fn(rng, desc)
            except Fail as e:
                r["failures"].append({"what": e.args[0], "detail": e.args[1], "key": [name, seed, k], "input": repr(desc)[:3000]})
            except Exception as e:
                r["failures"].append({"what": f"runs without {type(e).__name__}", "detail": traceback.format_exc()[-1800:],
                                      "key": [name, seed, k], "input": repr(desc)[:3000]})
            r["n"] += 1
            seen.add(repr(sorted(desc.items(), key=lambda x: x[0]))[:4000])
            r["sample"] = name + ": " + repr(desc)[:300]
            tol = getattr(m, "TOLERATED", {}).get(name)
            new = [f for f in r["failures"] if not (tol and f["what"].startswith(tol))]
            old = {f["what"]: f for f in reversed(r["failures"]) if f not in new}
            r["failures"] = new + list(old.values())
            if len(new) >= 3:
                break
        r["distinct"] = len(seen)
        r["wall"] = round(time.time() - t0, 2)
        res.append(r)
    json.dump(res, open(out + ".tmp", "w"), default=str)
    os.replace(out + ".tmp", out)
    if key is not None:
        for r in res:
            for f in r["failures"]:
                print(f["what"], f["detail"], f["input"])
        sys.exit(1 if any(r["failures"] for r in res) else 0)


if __name__ == "__main__":
    main()
