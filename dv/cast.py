"""Front end: loads clang's JSON AST of the real sources and indexes declarations.

The AST comes from `clang++-18 -fsyntax-only -Xclang -ast-dump=json -Xclang -ast-dump-filter=Planner`
run on a translation unit of /verif/inst that #includes the files of /repo; nothing of the code is
retyped by hand.
"""
import json, os, re, subprocess, hashlib

CLANG = "/usr/bin/clang++-18"
REPO = os.environ.get("PP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ExtractError(Exception):
    """The code could not be brought into the verifier (syntax, construct or name not found)."""


def clang_flags():
    return ["-std=c++17", "-DPP_ENABLE_ASSERT", "-include", "cassert", "-include", "algorithm",
            "-I" + REPO + "/planner/src", "-I" + VERIF + "/inst", "-w", "-O0"]


def dump(tu, filt="Planner"):
    cmd = [CLANG] + clang_flags() + ["-fsyntax-only", "-Xclang", "-ast-dump=json",
                                     "-Xclang", "-ast-dump-filter=" + filt, tu]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ExtractError("clang failed on %s:\n%s" % (tu, p.stderr[:2000]))
    dec = json.JSONDecoder()
    s, i, docs = p.stdout, 0, []
    n = len(s)
    while True:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs


RECORD_KINDS = ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl")
FUNC_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


class Func:
    def __init__(self, node, qname, cls, dependent):
        self.node = node
        self.qname = qname
        self.cls = cls            # Record or None
        self.name = node.get("name", "")
        self.dependent = dependent
        self.params = [c for c in node.get("inner", []) if c["kind"] == "ParmVarDecl"]
        self.body = None
        for c in node.get("inner", []):
            if c["kind"] in ("CompoundStmt", "CXXTryStmt"):
                self.body = c
        self.inits = [c for c in node.get("inner", []) if c["kind"] == "CXXCtorInitializer"]
        t = node.get("type", {})
        self.fntype = t.get("desugaredQualType", t.get("qualType", ""))
        self.virtual = node.get("virtual", False)
        self.pure = node.get("pure", False)
        self.mangled = node.get("mangledName")
        self.line = node.get("_line")
        self.file = node.get("_file")
        self.static = node.get("storageClass") == "static"

    @property
    def is_ctor(self):
        return self.node["kind"] == "CXXConstructorDecl"

    def rettype(self):
        # "R (args) quals"
        t = self.fntype
        depth = 0
        for i, ch in enumerate(t):
            if ch in "<[{":
                depth += 1
            elif ch in ">]}":
                depth -= 1
            elif ch == "(" and depth == 0:
                return t[:i].strip()
        return t

    def __repr__(self):
        return "Func(%s@%s:%s)" % (self.qname, self.file, self.line)


class Record:
    def __init__(self, name, node):
        self.name = name          # fully qualified, with template arguments
        self.node = node
        self.bases = [(b["type"].get("desugaredQualType") or b["type"]["qualType"]) for b in node.get("bases", [])]
        self.fields = []          # (name, typestring, fieldnode)
        self.methods = {}
        self.line = node.get("_line")
        self.is_union = node.get("tagUsed") == "union"


class Program:
    def __init__(self, tu, filters=("Planner",)):
        self.tu = tu
        self.byid = {}            # decl id -> node
        self.funcs = {}           # id -> Func (definition or declaration)
        self.by_qname = {}        # qname -> [Func]
        self.records = {}         # full name -> Record
        self.aliases = {}         # name -> typestring
        self.enums = {}           # enumerator id -> (enum, value) ; name -> value
        self.enum_names = set()
        self.prev = {}
        self.vars = {}            # id -> VarDecl node (globals / statics)
        self.docs = []
        for f in filters:
            self.docs += dump(tu, f)
        self._loc = {"file": None, "line": None}
        self._deferred = []
        for d in self.docs:
            self._annot(d)
        for d in self.docs:
            scope = ""
            if d["kind"] in RECORD_KINDS + FUNC_KINDS:
                scope = self._ctx_scope(d)
            self._walk(d, scope, None, False)
        dl, self._deferred = self._deferred, None
        for a in dl:
            self._walk(*a)
        # link declarations to definitions
        self.defs = {}
        for fid, fn in self.funcs.items():
            if fn.body is not None or fn.node.get("explicitlyDefaulted"):
                x = fid
                while x:
                    self.defs[x] = fn
                    x = self.prev.get(x)
        for m in list(self.funcs.values()):
            if m.mangled and (m.body is not None):
                self.defs.setdefault("M:" + m.mangled, m)

    def _ctx_scope(self, d):
        # an explicit instantiation dumped on its own: recover the namespace from the mangled/qualified name
        for c in d.get("inner", []):
            mn = c.get("mangledName", "")
            if mn.startswith("_ZN") or mn.startswith("_ZNK"):
                m = re.match(r"_ZNK?((?:\d+\w+?)+)", mn)
                parts = _mangled_prefix(mn)
                if d.get("name") in parts:
                    k = parts.index(d["name"])
                    return "::".join(parts[:k])
        mn = d.get("mangledName", "")
        if mn:
            parts = _mangled_prefix(mn)
            if parts and d.get("name") in parts:
                return "::".join(parts[:parts.index(d["name"])])
        return "Planner"

    def _upd(self, l):
        if not isinstance(l, dict):
            return
        if "spellingLoc" in l or "expansionLoc" in l:
            self._upd(l.get("spellingLoc", {}))
            self._upd(l.get("expansionLoc", {}))
            return
        if "file" in l:
            self._loc["file"] = l["file"]
        if "line" in l:
            self._loc["line"] = l["line"]

    def _annot(self, n):
        st = [n]
        # iterative pre-order
        def rec(n):
            if "loc" in n:
                self._upd(n["loc"])
                n["_line"], n["_file"] = self._loc["line"], self._loc["file"]
            if "range" in n:
                self._upd(n["range"].get("begin"))
                if "_line" not in n:
                    n["_line"], n["_file"] = self._loc["line"], self._loc["file"]
                self._upd(n["range"].get("end"))
            for c in n.get("inner", []):
                rec(c)
        import sys
        sys.setrecursionlimit(20000)
        rec(n)

    def _walk(self, n, scope, cls, dependent):
        k = n.get("kind")
        if not k or k.endswith("Comment"):
            return
        if "id" in n and not (k == "ClassTemplateSpecializationDecl" and "inner" not in n):
            self.byid[n["id"]] = n
        if k == "NamespaceDecl":
            sc = (scope + "::" if scope else "") + n.get("name", "")
            for c in n.get("inner", []):
                self._walk(c, sc, None, dependent)
            return
        if k == "ClassTemplateDecl":
            first = True
            for c in n.get("inner", []):
                if c["kind"] == "CXXRecordDecl":
                    self._walk(c, scope, cls, True)   # the pattern
                elif c["kind"] in RECORD_KINDS:
                    self._walk(c, scope, cls, dependent)
            return
        if k == "FunctionTemplateDecl":
            seen = False
            for c in n.get("inner", []):
                if c["kind"] in FUNC_KINDS:
                    self._walk(c, scope, cls, dependent or not seen)
                    seen = True
            return
        if k in RECORD_KINDS:
            name = n.get("name")
            if "inner" not in n and (n.get("isImplicit") or k == "ClassTemplateSpecializationDecl"):
                return
            nm = name or ("anon@" + n["id"])
            if k == "ClassTemplateSpecializationDecl":
                args = []
                for c in n.get("inner", []):
                    if c["kind"] == "TemplateArgument":
                        args.append(_targ(c))
                nm += "<" + ", ".join(args) + ">"
            if k == "ClassTemplatePartialSpecializationDecl":
                dependent = True
            full = (scope + "::" if scope else "") + nm
            rec = Record(full, n)
            n["_rec"] = rec
            rec.dependent = dependent
            if not dependent and n.get("completeDefinition"):
                if full not in self.records or not self.records[full].fields:
                    self.records[full] = rec
            for c in n.get("inner", []):
                if c["kind"] == "FieldDecl":
                    t = c["type"].get("desugaredQualType", c["type"]["qualType"])
                    rec.fields.append((c.get("name", ""), t, c))
                    self.byid[c["id"]] = c
                else:
                    self._walk(c, full, rec, dependent)
            return
        if k in FUNC_KINDS:
            q = (scope + "::" if scope else "") + n.get("name", "")
            rcls = cls
            pid = n.get("parentDeclContextId")
            if pid and cls is None and self._deferred is not None and "_rec" not in self.byid.get(pid, {}):
                self._deferred.append((n, scope, cls, dependent))
                return
            if pid and pid in self.byid and "_rec" in self.byid[pid]:
                rcls = self.byid[pid]["_rec"]
                q = rcls.name + "::" + n.get("name", "")
            elif n.get("previousDecl") and n["previousDecl"] in self.funcs:
                pf = self.funcs[n["previousDecl"]]
                rcls = pf.cls
                q = pf.qname
            dependent = dependent or (rcls is not None and rcls.dependent)
            f = Func(n, q, rcls, dependent)
            if n.get("previousDecl"):
                self.prev[n["id"]] = n["previousDecl"]
                pf = self.funcs.get(n["previousDecl"])
                if pf is not None:
                    f.virtual = f.virtual or pf.virtual
                    f.static = f.static or pf.static
            self.funcs[n["id"]] = f
            if not dependent:
                self.by_qname.setdefault(q, []).append(f)
                if rcls is not None:
                    rcls.methods.setdefault(f.name, []).append(f)
            for p in f.params:
                self.byid[p["id"]] = p
            # local records / lambdas are handled when met
            return
        if k in ("TypeAliasDecl", "TypedefDecl"):
            t = n["type"].get("desugaredQualType", n["type"]["qualType"])
            full = (scope + "::" if scope else "") + n["name"]
            if not dependent:
                self.aliases[full] = t
            return
        if k == "EnumDecl":
            full = (scope + "::" if scope else "") + n.get("name", "")
            self.enum_names.add(full)
            v = -1
            for c in n.get("inner", []):
                if c["kind"] == "EnumConstantDecl":
                    val = _const_value(c)
                    v = v + 1 if val is None else val
                    self.enums[c["id"]] = v
                    self.enums[full + "::" + c["name"]] = v
                    self.enums[(scope + "::" if scope else "") + c["name"]] = v
            return
        if k == "VarDecl":
            self.vars[n["id"]] = n
            n["_scope"] = scope
            return

    # ---- lookups -------------------------------------------------------------------------
    def find_record(self, name):
        if name in self.records:
            return self.records[name]
        cands = [r for q, r in self.records.items() if _strip_ns(q) == _strip_ns(name)]
        if not cands:
            cands = [r for q, r in self.records.items() if q.endswith("::" + name)]
        if not cands:
            n2 = _norm(name)
            cands = [r for q, r in self.records.items() if _norm(q) == n2]
        if not cands:
            # template printed without its default arguments
            if name.endswith(">"):
                pre = _norm(name)[:-1]
                cands = [r for q, r in self.records.items() if _norm(q).startswith(pre + ",") or _norm(q) == pre + ">"]
        if len(cands) == 1:
            return cands[0]
        if cands:
            return sorted(cands, key=lambda r: len(r.name))[0]
        return None

    def find(self, qname, nparams=None, pred=None, need_body=True):
        """Function definition by qualified name; template arguments in the name may be omitted."""
        def strip(q):
            return _strip_targs(q)
        res = []
        for q, fl in self.by_qname.items():
            if q == qname or strip(q) == qname or strip(q) == strip(qname) and "<" not in qname:
                for f in fl:
                    if need_body and f.body is None:
                        continue
                    if nparams is not None and len(f.params) != nparams:
                        continue
                    if pred and not pred(f):
                        continue
                    res.append(f)
        uniq = []
        for f in res:
            if not any(f.mangled and g.mangled == f.mangled for g in uniq):
                uniq.append(f)
        return uniq

    def definition(self, declid):
        f = self.defs.get(declid)
        if f is None:
            g = self.funcs.get(declid)
            if g is not None and g.mangled:
                f = self.defs.get("M:" + g.mangled)
            if f is None:
                f = g
        return f


def _mangled_prefix(mn):
    m = re.match(r"_ZNK?", mn)
    if not m:
        return []
    s = mn[m.end():]
    parts = []
    while s and (s[0].isdigit() or s[0] == "I"):
        if s[0] == "I":
            break
        m = re.match(r"(\d+)", s)
        n = int(m.group(1))
        parts.append(s[m.end():m.end() + n])
        s = s[m.end() + n:]
    return parts


def _targ(c):
    if "type" in c:
        return c["type"].get("desugaredQualType", c["type"]["qualType"])
    if "value" in c:
        v = c["value"]
        return str(v).lower() if isinstance(v, bool) else str(v)
    if c.get("isExpr") or c.get("inner"):
        for x in c.get("inner", []):
            if "value" in x:
                return str(x["value"])
    return "?"


def _const_value(n):
    if "value" in n and n.get("kind") in ("ConstantExpr", "IntegerLiteral"):
        try:
            return int(n["value"])
        except ValueError:
            return None
    for c in n.get("inner", []):
        if c.get("kind", "").endswith("Comment"):
            continue
        v = _const_value(c)
        if v is not None:
            if n.get("kind") == "UnaryOperator" and n.get("opcode") == "-":
                return -v
            return v
    return None


def _strip_targs(q):
    i = q.find("operator")
    if i >= 0:
        return _strip_targs(q[:i]) + q[i:] if i else q
    out, depth = [], 0
    for ch in q:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return "".join(out)


def _strip_ns(q):
    return q.replace("Planner::", "").replace(" ", "")


def _norm(q):
    # clang prints the template argument true as -1 in some places
    return re.sub(r"(?<=[<,])true(?=[,>])", "-1", re.sub(r"\bPlanner::|\bstruct |\bclass |\s", "", q))
