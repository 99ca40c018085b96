"""Builds from /repo's current sources into a scratch directory.

clib(file)  - one shared object per C file, every function (static ones too) visible,
              AddressSanitizer on, for calling single functions;
pyext()     - the three extension modules, for the Python API.
"""
import atexit
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
CDEF = ["-DNO_INCLUDE_LAPACKE", "-DTHM_EPSILON=1e-10", "-DNDEBUG"]
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".scratch")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="b", dir=base)
        me = os.getpid()

        def clean(p=_scratch):
            if os.getpid() == me:
                shutil.rmtree(p, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600, **kw)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(cmd)[:300]}\n{r.stderr[-3000:]}")
    return r.stdout


class BuildError(Exception):
    pass


class CLib:
    """objects compiled once with ASAN; one .so per C file with its statics globalised"""

    def __init__(self, repo=None, asan=True, tsan=False):
        self.repo = repo or REPO
        self.tsan = tsan
        asan = asan and not tsan
        self.dir = os.path.join(scratch(), "c_tsan" if tsan else "c_asan" if asan else "c")
        os.makedirs(self.dir, exist_ok=True)
        self.asan = asan
        cdir = os.path.join(self.repo, "c")
        self.files = sorted(f for f in os.listdir(cdir) if f.endswith(".c"))
        flags = ["-O1", "-g", "-fPIC", "-fopenmp", "-w", "-fkeep-static-functions", "-fno-inline", "-fno-ipa-cp", "-fno-ipa-sra",
                 "-fno-ipa-pure-const", "-fno-ipa-icf", "-fno-ipa-reference", "-fno-ipa-ra", "-fno-ipa-modref", "-fno-optimize-sibling-calls", *CDEF]
        if asan:
            flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        if tsan:
            flags += ["-fsanitize=thread", "-fno-omit-frame-pointer"]
            sh(["gcc", "-O1", "-g", "-fPIC", "-w", "-c", os.path.join(os.path.dirname(os.path.abspath(__file__)), "rt", "gomp_shim.c"),
                "-o", os.path.join(self.dir, "shim.o")])
        self.flags = flags

        def cc(f):
            sh(["gcc", *flags, "-I", cdir, "-c", os.path.join(cdir, f), "-o", os.path.join(self.dir, f + ".o")])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cc, self.files))
        self.so = {}

    def lib(self, file):
        if file in self.so:
            return self.so[file]
        o = os.path.join(self.dir, file + ".o")
        g = os.path.join(self.dir, file + ".g.o")
        syms = []
        for ln in sh(["nm", o]).splitlines():
            p = ln.split()
            if len(p) == 3 and p[1] == "t" and "." not in p[2]:
                syms.append(p[2])
        cmd = ["objcopy"] + [f"--globalize-symbol={s}" for s in syms] + [o, g]
        sh(cmd)
        so = os.path.join(self.dir, file + ".so")
        objs = [g] + [os.path.join(self.dir, f + ".o") for f in self.files if f != file]
        if self.tsan:
            sh(["gcc", "-shared", "-fsanitize=thread", "-Wl,-Bsymbolic", "-o", so, *objs, os.path.join(self.dir, "shim.o"), "-lm", "-lpthread"])
        else:
            sh(["gcc", "-shared", "-fopenmp", "-Wl,-Bsymbolic"] + (["-fsanitize=address"] if self.asan else []) + ["-o", so, *objs, "-lm"])
        self.so[file] = so
        return so


def pyext(repo=None):
    """directory with freshly built _phono3py/_recgrid/_phononcalc"""
    repo = repo or REPO
    d = os.path.join(scratch(), "ext")
    if os.path.exists(os.path.join(d, "ok")):
        return d
    os.makedirs(d, exist_ok=True)
    NB = "/opt/venv/lib/python3.12/site-packages/nanobind"
    inc = ["-I" + NB + "/include", "-I" + NB + "/ext/robin_map/include", "-I/usr/include/python3.12", "-I" + repo + "/c"]
    base = ["-O2", "-fPIC", "-w"]
    cxx = base + ["-std=c++17", "-fvisibility=hidden", "-fno-strict-aliasing", "-DNDEBUG"] + inc
    mods = ["_phono3py", "_recgrid", "_phononcalc"]
    jobs = [["g++", *cxx, "-c", NB + "/src/nb_combined.cpp", "-o", d + "/nb.o"]]
    for m in mods:
        jobs.append(["g++", *cxx, "-fopenmp", *CDEF, "-c", f"{repo}/c/{m}.cpp", "-o", f"{d}/{m}.o"])
    cf = sorted(f for f in os.listdir(repo + "/c") if f.endswith(".c"))
    for f in cf:
        jobs.append(["gcc", *base, "-fopenmp", *CDEF, "-c", f"{repo}/c/{f}", "-o", f"{d}/{f}.o"])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    cobj = [f"{d}/{f}.o" for f in cf]
    link = [["g++", "-shared", "-fopenmp", "-o", f"{d}/{m}.cpython-312-x86_64-linux-gnu.so", f"{d}/{m}.o", f"{d}/nb.o", *cobj, "-lm"] for m in mods]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(sh, link))
    open(os.path.join(d, "ok"), "w").close()
    return d
