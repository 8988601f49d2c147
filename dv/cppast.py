"""Front end: mechanical extraction of the functions of /repo from clang's AST.

A translation unit under dv/tu/ #includes sources/headers of /repo (and may
force template instantiations); clang-20 prints the typed AST as JSON, which is
the program text the verifier works on.  Nothing is written by hand between the
repository source and the verification conditions.
"""
import hashlib, json, os, re, subprocess, sys

REPO = os.environ.get("DV_REPO", "/repo")
CLANG = "/usr/lib/llvm-20/bin/clang++"
BASE_FLAGS = ["-std=c++20", "-w"]
INC = ["-I" + REPO, "-isystem", "/opt/vp/heir/shim", "-isystem", "/usr/lib/llvm-20/include",
       "-isystem", "/usr/include/eigen3"]
HERE = os.path.dirname(os.path.abspath(__file__))


class ExtractionError(Exception):
    pass


def gen_inc():
    d = os.path.join(REPO, "_build/gen")
    return ["-I" + d] if os.path.isdir(d) else []


def flags():
    return BASE_FLAGS + [INC[0]] + gen_inc() + INC[1:]


LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


class Func:
    __slots__ = ("node", "qname", "params", "body", "id", "mangled", "rettype", "cls", "file", "inits", "is_const",
                 "tu", "lambda_of")

    def __repr__(self):
        return "<Func %s>" % self.qname


def tyof(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


class TU:
    def __init__(self, name, filters=("mlir::heir",), extra=()):
        self.name = name
        self.path = os.path.join(HERE, "tu", name)
        self.funcs = []          # all functions with bodies
        self.by_id = {}          # decl id -> decl node
        self.def_by_mangled = {}
        self.func_by_id = {}
        self.records = {}        # id/name -> record info
        self.aliases = {}        # typedef name -> type string
        self.globals = {}        # id -> VarDecl node
        self.src = {}
        docs = []
        for f in filters:
            docs += self._dump(f, extra)
        self._cur_file = None
        for d in docs:
            self._index(d, [])
        self._link()

    def _dump(self, filt, extra):
        cmd = [CLANG] + flags() + list(extra) + ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang",
               "-ast-dump-filter=" + filt, self.path]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise ExtractionError("clang failed on %s: %s" % (self.name, p.stderr[-2000:]))
        s = p.stdout
        dec = json.JSONDecoder()
        i, out = 0, []
        n = len(s)
        while i < n:
            while i < n and s[i].isspace():
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(s, i)
            fill_lines(o, [None, None])
            out.append(o)
        return out

    # -------------------------------------------------------------- indexing
    def _index(self, n, scope):
        if not isinstance(n, dict) or "kind" not in n:
            return
        k = n["kind"]
        if "id" in n and n["id"] not in self.by_id:
            self.by_id[n["id"]] = n
        loc = n.get("loc") or {}
        f = loc.get("file") or (loc.get("expansionLoc") or {}).get("file") or (loc.get("spellingLoc") or {}).get("file")
        if f:
            self._cur_file = f
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl"):
            self._func(n, scope)
            for c in n.get("inner", []):
                self._index(c, scope + [n.get("name", "?")])
            return
        name = n.get("name")
        sub = scope
        if k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "RecordDecl",
                 "ClassTemplatePartialSpecializationDecl"):
            if name and not n.get("isInline"):
                sub = scope + [name]
            if k != "NamespaceDecl" and n.get("inner"):
                rec = {"name": name, "qname": "::".join(sub), "fields": [], "bases": n.get("bases", []), "id": n["id"]}
                for c in n["inner"]:
                    if c.get("kind") == "FieldDecl":
                        rec["fields"].append((c.get("name"), tyof(c), c))
                self.records[n["id"]] = rec
                if rec["fields"] and name:
                    self.records.setdefault(name, rec)
                    self.records.setdefault("::".join(sub), rec)
        elif k in ("TypeAliasDecl", "TypedefDecl"):
            if name:
                self.aliases.setdefault(name, tyof(n))
                self.aliases["::".join(scope + [name])] = tyof(n)
        elif k == "VarDecl":
            self.globals[n["id"]] = n
        for c in n.get("inner", []):
            self._index(c, sub)

    def _func(self, n, scope):
        inner = n.get("inner", [])
        body = None
        for c in inner:
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                body = c
        f = Func()
        f.node = n
        f.qname = "::".join(scope + [n.get("name", "?")])
        prev = self.func_by_id.get(n.get("previousDecl"))
        if prev is not None and n.get("kind") != "FunctionDecl":
            # a member defined outside its class
            f.qname = prev.qname
            scope = prev.qname.split("::")[:-1]
        f.params = [c for c in inner if c.get("kind") == "ParmVarDecl"]
        f.body = body
        f.id = n["id"]
        f.mangled = n.get("mangledName") or n["id"]
        f.cls = scope[-1] if scope else None
        f.file = self._cur_file
        f.inits = [c for c in inner if c.get("kind") == "CXXCtorInitializer"]
        f.tu = self
        f.lambda_of = None
        q = n.get("type", {}).get("qualType", "")
        f.is_const = bool(re.search(r"\)\s*const", q))
        f.rettype = q
        self.func_by_id[n["id"]] = f
        if body is not None and not n.get("isImplicit"):
            self.funcs.append(f)
            self.def_by_mangled.setdefault(f.mangled, f)
        elif body is not None:
            self.def_by_mangled.setdefault(f.mangled, f)

    def _link(self):
        pass

    def resolve(self, decl_id):
        """decl id -> Func with a body, or None"""
        f = self.func_by_id.get(decl_id)
        if f is None:
            return None
        if f.body is not None:
            return f
        return self.def_by_mangled.get(f.mangled)

    def find(self, qname, nparams=None, match=None):
        """Functions with a body whose qualified name is qname (suffix match)."""
        out = []
        for f in self.funcs:
            if f.qname == qname or f.qname.endswith("::" + qname):
                if nparams is not None and len(f.params) != nparams:
                    continue
                if match and not match(f):
                    continue
                out.append(f)
        return out


def fill_lines(o, cur):
    """clang prints a line/file only when it differs from the last one printed; make them explicit"""
    if isinstance(o, list):
        for x in o:
            fill_lines(x, cur)
        return
    if not isinstance(o, dict):
        return
    if "offset" in o and "tokLen" in o:
        if "file" in o:
            cur[1] = o["file"]
        if "line" in o:
            cur[0] = o["line"]
        elif cur[0] is not None:
            o["line"] = cur[0]
        return
    for k, v in o.items():
        if k in ("loc", "range", "begin", "end", "inner", "spellingLoc", "expansionLoc", "array_filler") or isinstance(v, list):
            fill_lines(v, cur)


def walk(n):
    if isinstance(n, dict):
        yield n
        for c in n.get("inner", []):
            yield from walk(c)


def line_of(n):
    def get(r):
        b = r.get("begin", r) if isinstance(r, dict) else {}
        for key in ("line",):
            if key in b:
                return b[key]
        for sub in ("expansionLoc", "spellingLoc"):
            if sub in b and "line" in b[sub]:
                return b[sub]["line"]
        return None
    return get(n.get("range", {})) or get(n.get("loc", {}))


def offset_of(n):
    b = n.get("range", {}).get("begin", {})
    if "offset" in b:
        return b["offset"]
    for sub in ("expansionLoc", "spellingLoc"):
        if sub in b and "offset" in b[sub]:
            return b[sub]["offset"]
    return None


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_type(t):
    """drop cv, refs; returns (core, is_ref, is_const)"""
    t = t.strip()
    is_ref = False
    while t.endswith("&"):
        is_ref = True
        t = t[:-1].strip()
    is_const = False
    changed = True
    while changed:
        changed = False
        for kw in ("const ", "volatile ", "struct ", "class ", "typename ", "enum "):
            if t.startswith(kw):
                if kw == "const ":
                    is_const = True
                t = t[len(kw):].strip()
                changed = True
        if t.endswith(" const"):
            is_const = True
            t = t[:-6].strip()
            changed = True
    return t, is_ref, is_const


def template_parts(t):
    """'std::vector<int, A>' -> ('std::vector', ['int','A'])"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return t, []
    return t[:i], split_args(t[i + 1:-1])
