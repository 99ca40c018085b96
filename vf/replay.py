"""python3-vt -m vf.replay evidence/replay/Cxx.json : run the recorded failing inputs again"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def main():
    d = json.load(open(sys.argv[1]))
    from vf import build, cfront, check, concrete
    C = check.load_contracts()
    rc = 0
    for f in d["failures"]:
        if f["kind"] == "c":
            import numpy as np
            cls = [c for c in C.ALL if c.__name__ == f["contract"]][0]
            c = cls()
            P = cfront.Program()
            u, fn = P.find(c.file, c.fn)
            seed, ci, k = f["key"]
            rng = np.random.default_rng([seed, ci, k])
            while True:
                tr = concrete.Trial(c, rng, cls.cases[ci])
                if tr.ok():
                    break
            race = d["property"] == "C16"
            w = concrete.Worker(tsan=race)
            try:
                r = w.call(tr.request(u, fn, build.CLib(tsan=race).lib(os.path.basename(u.path))))
                fails = [] if race else tr.judge(tr.outputs(r), r["ret"])
            except concrete.CrashError as e:
                fails = [("memory safety / termination", str(e))]
            w.close()
            print(cls.fn, "case", cls.cases[ci], "->", fails or "contract holds")
            rc |= bool(fails)
        elif f.get("key"):
            env = dict(os.environ, VERIF_EXT=build.pyext(), VERIF_REPO=build.REPO, OMP_NUM_THREADS="4", MALLOC_PERTURB_="85",
                       PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_SCRATCH=build.scratch())
            p = subprocess.run([check.VENV, os.path.join(ROOT, "vf", "pyrun.py"), f["module"], d["property"], str(f["key"][1]), "quick", "60",
                                os.path.join(build.scratch(), "r.json"), json.dumps(f["key"])], env=env, cwd=build.scratch())
            rc |= p.returncode != 0
    for o in d.get("failed_obligations", []):
        print("failed obligation:", o[0], o[3], o[2][:500])
    return rc


if __name__ == "__main__":
    sys.exit(main())
