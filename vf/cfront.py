"""C front end: clang's own AST of /repo/c/*.c, re-read on every run.

Nothing is hand-copied: the functions that are verified are the nodes clang
produced from the current source with the flags the extension modules are
compiled with.  What the extraction drops: comments, the bodies of system
headers, and `const`/`restrict` qualifiers.  OpenMP pragmas are kept (the
clause text is read from the source line clang reports for the directive).
"""
import json
import os
import re
import subprocess
from fractions import Fraction

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubinc")
CFLAGS = ["-fopenmp", "-idirafter", STUB, "-DNO_INCLUDE_LAPACKE", "-DTHM_EPSILON=1e-10", "-DNDEBUG"]
CLANG = "/usr/bin/clang-18"


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class CType:
    __slots__ = ("k", "a", "n")

    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n

    def __repr__(self):
        if self.k == "ptr":
            return f"ptr({self.a})"
        if self.k == "arr":
            return f"arr[{self.n}]({self.a})"
        if self.k == "struct":
            return f"struct {self.a}"
        return self.k

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


INT, REAL, CPLX, VOID, CHAR = (CType("int"), CType("real"), CType("complex"),
                               CType("void"), CType("char"))


def parse_type(q):
    q = re.sub(r"\b(const|volatile|restrict|static|register|struct|enum|union)\b", " ", q)
    toks = re.findall(r"[A-Za-z_]\w*|\d+|[()\[\]*,.]+?", q)
    pos = 0
    base = []
    while pos < len(toks) and (re.match(r"[A-Za-z_]", toks[pos])):
        base.append(toks[pos])
        pos += 1
    b = " ".join(base)
    if "Complex" in b or "complex" in b:
        t = CPLX
    elif b in ("double", "float", "long double"):
        t = REAL
    elif b == "void":
        t = VOID
    elif b in ("char", "unsigned char", "signed char", "int8_t", "uint8_t", "_Bool"):
        t = CHAR
    elif b in ("int", "long", "unsigned", "unsigned int", "unsigned long", "int64_t", "size_t",
               "short", "long long", "unsigned long long", "int32_t", "uint32_t", "uint64_t",
               "long unsigned int", "long int"):
        t = INT
    else:
        t = CType("struct", b)

    def decl(t, pos):
        while pos < len(toks) and toks[pos] == "*":
            t = CType("ptr", t)
            pos += 1
        inner = None
        if pos < len(toks) and toks[pos] == "(" and pos + 1 < len(toks) and toks[pos + 1] in "*(":
            depth, j = 0, pos
            while True:
                if toks[j] == "(":
                    depth += 1
                elif toks[j] == ")":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            inner = (pos + 1, j)
            pos = j + 1
        dims = []
        isfn = False
        while pos < len(toks):
            if toks[pos] == "[":
                if toks[pos + 1] == "]":
                    dims.append(None)
                    pos += 2
                else:
                    dims.append(int(toks[pos + 1]))
                    pos += 3
            elif toks[pos] == "(":
                isfn = True
                break
            else:
                break
        if isfn:
            t = CType("fn", t)
        for d in reversed(dims):
            t = CType("arr", t, d)
        if inner:
            save = toks[:]
            sub = toks[inner[0]:inner[1]]
            toks[:] = sub
            t, _ = decl(t, 0)
            toks[:] = save
        return t, pos

    t, _ = decl(t, pos)
    return t


def node_type(n):
    ty = n.get("type", {})
    q = ty.get("desugaredQualType") or ty.get("qualType", "void")
    return parse_type(q)


# ---------------------------------------------------------------- nodes
class Node:
    """Expression/statement node: k = kind, other fields as attributes."""

    def __init__(self, k, line=0, **kw):
        self.k = k
        self.line = line
        self.__dict__.update(kw)

    def __repr__(self):
        d = {a: b for a, b in self.__dict__.items() if a not in ("k", "line", "t")}
        return f"{self.k}{d}"


class Func:
    def __init__(self, name, params, ret, body, file, line, static):
        self.name, self.params, self.ret, self.body = name, params, ret, body
        self.file, self.line, self.static = file, line, static

    def __repr__(self):
        return f"<fn {self.name}>"


class Unit:
    def __init__(self, path):
        self.path = path
        self.text = open(path, encoding="utf-8", errors="replace").read()
        raw = self.text.encode()
        self._nl = [i for i, c in enumerate(raw) if c == 10]
        out = subprocess.run([CLANG, "-fsyntax-only", "-Xclang", "-ast-dump=json", *CFLAGS,
                              "-I", os.path.dirname(path), path],
                             capture_output=True, timeout=120)
        if out.returncode != 0:
            raise Unsupported("clang rejected %s: %s" % (path, out.stderr.decode()[:2000]))
        self.ast = json.loads(out.stdout)
        self.funcs, self.structs, self.globals, self.enums, self.structs_raw = {}, {}, {}, {}, {}
        self._read()
        self.ast = None

    def _line(self, off):
        import bisect
        return bisect.bisect_left(self._nl, off) + 1

    def line_of(self, n):
        r = n.get("range", {}).get("begin", {})
        if "expansionLoc" in r:
            r = r["expansionLoc"]
        return self._line(r["offset"]) if "offset" in r else 0

    def _read(self):
        for d in self.ast["inner"]:
            k = d["kind"]
            if k == "RecordDecl" and d.get("completeDefinition"):
                fs = [(f["name"], node_type(f)) for f in d.get("inner", []) if f["kind"] == "FieldDecl"]
                self.structs[d.get("name") or d["id"]] = fs
                self.structs_raw[d.get("name") or d["id"]] = [
                    (f["name"], f["type"].get("desugaredQualType") or f["type"]["qualType"])
                    for f in d.get("inner", []) if f["kind"] == "FieldDecl"]
                self._last_rec = d
            elif k == "TypedefDecl":
                nm = d["name"]
                inner = d.get("inner", [])
                q = d["type"].get("desugaredQualType", d["type"]["qualType"])
                m = re.match(r"struct (\w+)", q)
                if m and m.group(1) in self.structs:
                    self.structs[nm] = self.structs[m.group(1)]
                    self.structs_raw[nm] = self.structs_raw[m.group(1)]
                elif getattr(self, "_last_rec", None) is not None and inner:
                    def find(n):
                        if n.get("decl", {}).get("id") == self._last_rec["id"]:
                            return True
                        return any(find(c) for c in n.get("inner", []) if isinstance(c, dict))
                    if find(d):
                        self.structs[nm] = self.structs[self._last_rec.get("name") or self._last_rec["id"]]
                        self.structs_raw[nm] = self.structs_raw[self._last_rec.get("name") or self._last_rec["id"]]
            elif k == "EnumDecl":
                v = 0
                for e in d.get("inner", []):
                    if e["kind"] == "EnumConstantDecl":
                        self.enums[e["name"]] = v
                        v += 1
            elif k == "VarDecl":
                init = None
                if d.get("inner"):
                    c = [x for x in d["inner"] if x.get("kind") and "Attr" not in x["kind"]]
                    if c and d.get("init"):
                        try:
                            init = self.expr(c[-1])
                        except Unsupported:
                            init = None
                self.globals[d["name"]] = (node_type(d), init)
            elif k == "FunctionDecl":
                body = None
                params = []
                raws = []
                for c in d.get("inner", []):
                    if c["kind"] == "ParmVarDecl":
                        raws.append(c["type"].get("desugaredQualType") or c["type"]["qualType"])
                        params.append((c.get("name", ""), node_type(c), c["id"],
                                       "const" in c["type"]["qualType"]))
                    elif c["kind"] == "CompoundStmt":
                        body = c
                if body is None:
                    continue
                q = d["type"]["qualType"]
                ret = parse_type(q.split("(")[0])
                if q.strip().startswith("double _Complex"):
                    ret = CPLX
                try:
                    b = self.stmt(body)
                    err = None
                except Unsupported as e:
                    b, err = None, str(e)
                f = Func(d["name"], params, ret, b, self.path, self.line_of(d),
                         d.get("storageClass") == "static")
                f.err = err
                f.raw = raws
                f.rawret = q.split("(")[0].strip()
                self.funcs[d["name"]] = f

    # -- expressions
    def kids(self, n):
        return [c for c in n.get("inner", []) if isinstance(c, dict)]

    def expr(self, n):
        k = n["kind"]
        L = self.line_of(n)
        ks = self.kids(n)
        if k in ("ParenExpr", "ConstantExpr", "ExprWithCleanups", "FullExpr"):
            return self.expr(ks[0])
        t = node_type(n)
        if k == "IntegerLiteral":
            return Node("int", L, v=int(n["value"]), t=INT)
        if k == "CharacterLiteral":
            return Node("int", L, v=int(n["value"]), t=INT)
        if k == "FloatingLiteral":
            return Node("float", L, v=Fraction(repr(float(n["value"]))), t=REAL)
        if k == "ImaginaryLiteral":
            return Node("imag", L, v=self.expr(ks[0]), t=CPLX)
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            if rd["kind"] == "EnumConstantDecl":
                return Node("int", L, v=self.enums[rd["name"]], t=INT)
            return Node("var", L, name=rd["name"], id=rd["id"], dk=rd["kind"], t=t)
        if k == "ImplicitCastExpr" or k == "CStyleCastExpr":
            ck = n.get("castKind")
            x = self.expr(ks[0])
            if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "BitCast",
                      "ArrayToPointerDecay", "ToVoid", "BuiltinFnToFnPtr", "IntegralCast",
                      "IntegralToBoolean", "NullToPointer", "FloatingCast",
                      "IntegralToFloating", "FloatingToIntegral",
                      "FloatingRealToComplex", "FloatingComplexCast", "IntegralRealToComplex",
                      "FloatingComplexToReal", "PointerToBoolean", "PointerToIntegral",
                      "FloatingToBoolean"):
                return Node("cast", L, ck=ck, x=x, t=t)
            raise Unsupported(f"cast {ck} line {L}")
        if k == "BinaryOperator":
            op = n["opcode"]
            a, b = self.expr(ks[0]), self.expr(ks[1])
            if op == "=":
                return Node("assign", L, op="=", l=a, r=b, t=t)
            return Node("bin", L, op=op, l=a, r=b, t=t)
        if k == "CompoundAssignOperator":
            return Node("assign", L, op=n["opcode"], l=self.expr(ks[0]), r=self.expr(ks[1]), t=t)
        if k == "UnaryOperator":
            return Node("un", L, op=n["opcode"], x=self.expr(ks[0]), post=n.get("isPostfix", False), t=t)
        if k == "ArraySubscriptExpr":
            return Node("sub", L, b=self.expr(ks[0]), i=self.expr(ks[1]), t=t)
        if k == "MemberExpr":
            return Node("member", L, x=self.expr(ks[0]), f=n["name"], arrow=n.get("isArrow", False), t=t)
        if k == "CallExpr":
            f = self.expr(ks[0])
            while f.k == "cast":
                f = f.x
            return Node("call", L, f=f, args=[self.expr(c) for c in ks[1:]], t=t)
        if k == "ConditionalOperator":
            return Node("cond", L, c=self.expr(ks[0]), a=self.expr(ks[1]), b=self.expr(ks[2]), t=t)
        if k == "UnaryExprOrTypeTraitExpr":
            at = n.get("argType")
            if at:
                ty = parse_type(at.get("desugaredQualType") or at["qualType"])
            else:
                ty = node_type(ks[0])
            return Node("sizeof", L, ty=ty, t=INT)
        if k == "InitListExpr":
            return Node("init", L, xs=[self.expr(c) for c in ks if c.get("kind") != "ImplicitValueInitExpr"], t=t)
        if k == "ImplicitValueInitExpr":
            return Node("int", L, v=0, t=INT)
        if k == "StringLiteral":
            return Node("str", L, v=n.get("value", ""), t=t)
        raise Unsupported(f"expression {k} line {L}")

    # -- statements
    def stmt(self, n):
        if not n or "kind" not in n:
            return Node("null")
        k = n["kind"]
        L = self.line_of(n)
        ks = self.kids(n)
        if k == "CompoundStmt":
            return Node("block", L, xs=[self.stmt(c) for c in ks])
        if k == "DeclStmt":
            out = []
            for d in ks:
                if d["kind"] == "VarDecl":
                    init = None
                    c = [x for x in self.kids(d) if "Attr" not in x["kind"]]
                    if d.get("init") and c:
                        init = self.expr(c[-1])
                    out.append(Node("vardecl", L, name=d["name"], id=d["id"], t=node_type(d), init=init,
                                    static=d.get("storageClass") == "static"))
                elif d["kind"] in ("RecordDecl", "TypedefDecl", "EnumDecl"):
                    continue
                else:
                    raise Unsupported(f"decl {d['kind']} line {L}")
            return Node("decl", L, vs=out)
        if k == "IfStmt":
            ks2 = ks
            c = self.expr(ks2[0])
            a = self.stmt(ks2[1])
            b = self.stmt(ks2[2]) if len(ks2) > 2 else None
            return Node("if", L, c=c, a=a, b=b)
        if k == "ForStmt":
            # inner: init, condvar, cond, inc, body
            raw = n["inner"]
            init = self.stmt(raw[0]) if raw[0] else None
            cond = self.expr(raw[2]) if raw[2] else None
            inc = self.expr(raw[3]) if raw[3] else None
            body = self.stmt(raw[4])
            return Node("for", L, init=init, cond=cond, inc=inc, body=body)
        if k == "WhileStmt":
            return Node("while", L, c=self.expr(ks[0]), body=self.stmt(ks[-1]))
        if k == "DoStmt":
            return Node("do", L, c=self.expr(ks[1]), body=self.stmt(ks[0]))
        if k == "ReturnStmt":
            return Node("return", L, x=self.expr(ks[0]) if ks else None)
        if k == "BreakStmt":
            return Node("break", L)
        if k == "ContinueStmt":
            return Node("continue", L)
        if k == "NullStmt":
            return Node("null", L)
        if k == "GotoStmt":
            return Node("goto", L, label=n.get("targetLabelDeclId"))
        if k == "LabelStmt":
            return Node("label", L, id=n.get("declId"), name=n.get("name"), s=self.stmt(ks[0]))
        if k == "SwitchStmt":
            return Node("switch", L, c=self.expr(ks[0]), body=self.stmt(ks[-1]))
        if k == "CaseStmt":
            return Node("case", L, v=self.expr(ks[0]), s=self.stmt(ks[-1]))
        if k == "DefaultStmt":
            return Node("default", L, s=self.stmt(ks[-1]))
        if k.startswith("OMP"):
            txt = self._pragma(n)
            body = None
            for c in ks:
                if c.get("kind") == "CapturedStmt":
                    body = c
            if body is None:
                raise Unsupported(f"omp {k} line {L}")
            cd = [c for c in self.kids(body) if c["kind"] == "CapturedDecl"][0]
            st = [c for c in self.kids(cd) if c["kind"].endswith("Stmt") or c["kind"].startswith("OMP")][0]
            # nested captured
            while st["kind"] == "CapturedStmt":
                cd = [c for c in self.kids(st) if c["kind"] == "CapturedDecl"][0]
                st = [c for c in self.kids(cd) if c["kind"].endswith("Stmt")][0]
            return Node("omp", L, d=k, text=txt, clauses=parse_clauses(txt), body=self.stmt(st))
        # expression statement
        return Node("expr", L, x=self.expr(n))

    def _pragma(self, n):
        r = n["range"]["begin"]
        if "expansionLoc" in r:
            r = r["expansionLoc"]
        off = r["offset"]
        raw = self.text.encode()
        s = raw.rfind(b"\n", 0, off) + 1
        e = s
        out = b""
        while True:
            e2 = raw.find(b"\n", e)
            if e2 < 0:
                e2 = len(raw)
            ln = raw[e:e2].rstrip()
            if ln.endswith(b"\\"):
                out += ln[:-1] + b" "
                e = e2 + 1
            else:
                out += ln
                break
        return out.decode().strip()


def parse_clauses(txt):
    cl = {"private": [], "firstprivate": [], "lastprivate": [], "reduction": [], "other": []}
    for m in re.finditer(r"(\w+)\s*\(([^()]*)\)", txt):
        nm, a = m.group(1), m.group(2)
        if nm in ("private", "firstprivate", "lastprivate"):
            cl[nm] += [x.strip() for x in a.split(",") if x.strip()]
        elif nm == "reduction":
            op, vs = a.split(":")
            cl["reduction"] += [(op.strip(), v.strip()) for v in vs.split(",")]
        else:
            cl["other"].append((nm, a))
    if re.search(r"\bcritical\b|\batomic\b", txt):
        cl["other"].append(("sync", txt))
    return cl


class Program:
    """All of /repo/c."""

    def __init__(self, repo=None, files=None):
        self.repo = repo or os.environ.get("VERIF_REPO", "/repo")
        cdir = os.path.join(self.repo, "c")
        names = files or sorted(f for f in os.listdir(cdir) if f.endswith(".c"))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            units = list(ex.map(lambda f: Unit(os.path.join(cdir, f)), names))
        self.units = {u.path: u for u in units}
        self.byfile = {os.path.basename(u.path): u for u in units}
        self.ext = {}
        for u in units:
            for f in u.funcs.values():
                if not f.static:
                    self.ext[f.name] = (u, f)

    def lookup(self, unit, name):
        if name in unit.funcs:
            return unit, unit.funcs[name]
        return self.ext.get(name, (None, None))

    def find(self, file, name):
        u = self.byfile.get(file)
        if u and name in u.funcs:
            return u, u.funcs[name]
        # moved to another file?
        for u in self.units.values():
            if name in u.funcs:
                return u, u.funcs[name]
        return None, None
