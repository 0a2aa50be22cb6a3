"""C++ types as the verifier sees them, and structured values.

A value is a tree whose leaves are z3 terms: scalars are leaves, records have one child per field,
std::vector<T> is (len, array per leaf of T), sets and maps are (membership array, value arrays),
pointers and smart pointers are integer references into per-class heaps.
"""
import re
import z3
from .cast import ExtractError

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class TypeErr(Exception):
    pass


class Ty:
    __slots__ = ("k", "a", "name", "bits", "signed", "_s")

    def __init__(self, k, a=(), name="", bits=0, signed=True):
        self.k, self.a, self.name, self.bits, self.signed = k, tuple(a), name, bits, signed
        self._s = None

    def __repr__(self):
        if self.k == "int":
            return ("i" if self.signed else "u") + str(self.bits)
        if self.a:
            return "%s%s(%s)" % (self.k, ":" + self.name if self.name else "", ",".join(map(repr, self.a)))
        return self.k + (":" + self.name if self.name else "")

    def key(self):
        if self._s is None:
            self._s = repr(self)
        return self._s

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


INT = Ty("int", bits=32)
UINT = Ty("int", bits=32, signed=False)
SIZE = Ty("int", bits=64, signed=False)
LONG = Ty("int", bits=64)
BOOL = Ty("bool")
REAL = Ty("real")
VOID = Ty("void")

_INTS = {
    "int": (32, True), "signed int": (32, True), "unsigned int": (32, False), "unsigned": (32, False),
    "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
    "short": (16, True), "unsigned short": (16, False), "char": (8, True), "signed char": (8, True),
    "unsigned char": (8, False), "size_t": (64, False), "std::size_t": (64, False), "ptrdiff_t": (64, True),
    "std::ptrdiff_t": (64, True), "size_type": (64, False), "difference_type": (64, True),
    "uint64_t": (64, False), "int64_t": (64, True), "uint32_t": (32, False), "int32_t": (32, True),
}


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.shape_cache = {}
        self.opaque_records = {}     # record name (stripped) -> Ty override
        self.overrides = {}          # type-string regex -> Ty

    # ---- parsing --------------------------------------------------------------------------
    def parse(self, s):
        s = s.strip()
        t = self.cache.get(s)
        if t is None:
            t = self._parse(s)
            self.cache[s] = t
        return t

    def node_type(self, n):
        t = n.get("type", {})
        d = t.get("desugaredQualType")
        q = t.get("qualType", "")
        if "element_type" in q and n.get("kind") in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr"):
            x = n["inner"][-1] if n["kind"] != "CXXMemberCallExpr" else n["inner"][0]["inner"][0]
            it = self.node_type(x)
            if it.k == "ref":
                it = it.a[0]
            if it.k == "ptr":
                return Ty("ptr", [it.a[0]]) if q.rstrip().endswith("*") else it.a[0]
        if d:
            try:
                return self.parse(d)
            except TypeErr:
                pass
        return self.parse(q)

    def _parse(self, s):
        for rx, ty in self.overrides.items():
            if re.fullmatch(rx, s):
                return ty
        s = s.strip()
        if s.endswith("&&"):
            return Ty("ref", [self.parse(s[:-2])])
        if s.endswith("&"):
            return Ty("ref", [self.parse(s[:-1])])
        m = re.match(r"^(.*)\*\s*(const|volatile|__restrict)?$", s)
        if m and not s.endswith(")"):
            inner = m.group(1).strip()
            return Ty("ptr", [self.parse(inner)])
        if s.endswith(" const"):
            return self.parse(s[:-6])
        for pre in ("const ", "volatile ", "struct ", "class ", "enum ", "typename ", "constexpr "):
            if s.startswith(pre):
                return self.parse(s[len(pre):])
        if s in _INTS:
            b, sg = _INTS[s]
            return Ty("int", bits=b, signed=sg)
        if s in ("bool", "_Bool"):
            return BOOL
        if s in ("double", "float", "long double"):
            return REAL
        if s == "void":
            return VOID
        if s in ("nullptr_t", "std::nullptr_t"):
            return Ty("ptr", [VOID])
        m = re.match(r"^(.*)\[(\d+)\]$", s)
        if m:
            return Ty("array", [self.parse(m.group(1))], name=m.group(2))
        if s.startswith("(lambda at"):
            return Ty("fn", name=s)
        if s.endswith(")") and "(" in s and "<" not in s.split("(")[0]:
            return Ty("fn", name=s)
        s2 = s[5:] if s.startswith("std::") else s
        m = re.match(r"^([\w:]+)<(.*)>$", s)
        if m:
            nm, args = m.group(1), split_args(m.group(2))
            base = nm.split("::")[-1]
            isstd = nm.startswith("std::") or nm.startswith("__gnu_cxx") or nm in (
                "vector", "unordered_set", "unordered_map", "pair", "tuple", "unique_ptr", "shared_ptr", "array", "set",
                "initializer_list", "function", "priority_queue", "optional")
            if isstd:
                if base == "vector":
                    return Ty("vec", [self.parse(args[0])])
                if base in ("unordered_set", "set"):
                    return Ty("set", [self.parse(args[0])], name=("o:" if base == "set" else "u:") + (args[2] if base == "unordered_set" and len(args) > 2 else ""))
                if base in ("unordered_map", "map"):
                    return Ty("map", [self.parse(args[0]), self.parse(args[1])], name=(args[3] if base == "unordered_map" and len(args) > 3 else ""))
                if base in ("pair", "tuple"):
                    return Ty("tuple", [self.parse(a) for a in args])
                if base in ("unique_ptr", "shared_ptr"):
                    return Ty("ptr", [self.parse(args[0])], name=base)
                if base == "array":
                    return Ty("array", [self.parse(args[0])], name=re.sub(r"\D", "", args[1]) if args[1].strip()[:1].isdigit() else self.const_int(args[1]))
                if base == "initializer_list":
                    return Ty("vec", [self.parse(args[0])])
                if base in ("__normal_iterator", "_Node_iterator", "_Node_const_iterator", "_Rb_tree_const_iterator",
                            "_Rb_tree_iterator", "reverse_iterator", "_Node_iterator_base", "_Rb_tree_iterator_base"):
                    return Ty("iter", name=s)
                if base == "function":
                    return Ty("fn", name=s)
                if base == "priority_queue":
                    return Ty("pq", [self.parse(args[0])])
                if base in ("hash", "equal_to", "less", "greater", "allocator"):
                    return Ty("empty", name=s)
                if base == "__shared_ptr_access" or base == "__shared_ptr":
                    return Ty("ptr", [self.parse(args[0])], name="shared_ptr")
                if base == "remove_reference":
                    return self.parse(args[0])
                if base in ("basic_string",):
                    return Ty("opaque", name="string")
                if base in ("optional",):
                    return Ty("tuple", [BOOL, self.parse(args[0])], name="optional")
                if base in ("uniform_real_distribution", "normal_distribution"):
                    return Ty("rec", [REAL], name="Dist")
                if base in ("numeric_limits", "mersenne_twister_engine"):
                    return Ty("opaque", name=base)
            if nm.startswith("Eigen::") or base == "Matrix":
                if base == "Matrix" and args[1:3] == ["2", "1"]:
                    return Ty("rec", [self.parse(args[0])], name="Vec2")
                if base == "Rotation2D":
                    return Ty("rec", [self.parse(args[0])], name="Rot2")
                return Ty("eigen", name=s)
        if s2 in ("string", "__cxx11::basic_string<char>"):
            return Ty("opaque", name="string")
        if s in ("Eigen::Vector2d", "Vector2d"):
            return Ty("rec", [REAL], name="Vec2")
        if s.startswith("Eigen::"):
            return Ty("eigen", name=s)
        # enum ?
        for e in self.prog.enum_names:
            if e == s or e.endswith("::" + s) or "Planner::" + s == e:
                return Ty("int", bits=32, name=e)
        # alias ?
        for pre in ("", "Planner::"):
            if pre + s in self.prog.aliases and self.prog.aliases[pre + s] != s:
                return self.parse(self.prog.aliases[pre + s])
        r = self.prog.find_record(s)
        if r is not None:
            return Ty("rec", name=r.name)
        c = [a for a in self.prog.aliases if a.endswith("::" + s)]
        if len(c) >= 1:
            return self.parse(self.prog.aliases[c[0]])
        m = re.match(r"^([\w:]+)<(.*)>$", s)
        if m and "Planner" in s and not getattr(self, "_canon", False):
            # template arguments written with aliases
            self._canon = True
            try:
                names = []
                for a in split_args(m.group(2)):
                    t = self.parse(a)
                    names.append(t.name if t.k == "rec" and t.name not in ("Vec2", "Rot2") else a)
                r = self.prog.find_record("%s<%s>" % (m.group(1), ", ".join(names)))
            finally:
                self._canon = False
            if r is not None:
                return Ty("rec", name=r.name)
        m = re.match(r"^([\w:]+<.*)>::(\w+)$", s)
        if m:
            # member of a template written without its default arguments
            c = [r for r in self.prog.records if r.startswith(m.group(1) + ", ") and r.endswith(">::" + m.group(2))]
            if len(c) == 1:
                return Ty("rec", name=c[0])
        return Ty("opaque", name=s)

    # ---- shapes: nested dict of sorts ------------------------------------------------------
    def fields(self, ty):
        """[(field, Ty)] of a record, bases first."""
        if ty.name == "Vec2":
            return [("x", ty.a[0]), ("y", ty.a[0])]
        if ty.name == "Rot2":
            return [("angle", ty.a[0])]
        if ty.name == "Dist":
            return [("a", REAL), ("b", REAL), ("u", BOOL)]
        r = self.prog.find_record(ty.name)
        if r is None:
            raise TypeErr("unknown record " + ty.name)
        out = []
        for b in r.bases:
            bt = self.parse(b)
            if bt.k == "rec":
                out += self.fields(bt)
            elif bt.k in ("set", "map", "vec"):
                out.append(("__base", bt))
        for (n, t, node) in r.fields:
            out.append((n, self.parse(t)))
        return out

    def shape(self, ty):
        k = ty.key()
        if k in self.shape_cache:
            return self.shape_cache[k]
        s = self._shape(ty)
        self.shape_cache[k] = s
        return s

    def _shape(self, ty):
        k = ty.k
        if k == "int" or k == "ptr" or k == "opaque" or k == "fn":
            return I
        if k == "bool":
            return B
        if k == "real":
            return R
        if k == "ref":
            return self.shape(ty.a[0])
        if k == "empty":
            return {}
        if k == "rec":
            g = self.grid_elem(ty)
            if g is not None:
                return {"rows": I, "columns": I, "cells": lift(self.shape(g), [I, I])}
            return {n: self.shape(t) for n, t in self.fields(ty)}
        if k == "tuple":
            return {str(i): self.shape(t) for i, t in enumerate(ty.a)}
        if k == "array":
            return {str(i): self.shape(ty.a[0]) for i in range(int(ty.name))}
        if k == "vec":
            return {"len": I, "a": lift(self.shape(ty.a[0]), [I])}
        if k == "pq":
            return {"n": I, "ver": I, "cnt": lift(I, self.keysorts(ty))}
        if k == "set":
            ks = self.keysorts(ty)
            return {"n": I, "has": lift(B, ks), "el": lift(self.shape(ty.a[0]), ks)}
        if k == "map":
            ks = self.keysorts(ty)
            return {"n": I, "has": lift(B, ks), "el": lift(self.shape(ty.a[0]), ks), "val": lift(self.shape(ty.a[1]), ks)}
        if k == "void":
            return {}
        raise TypeErr("no shape for " + repr(ty))

    keyfns = {}

    def grid_elem(self, ty):
        """Element type when ty is Planner::Grid<T> (modelled as rows x columns cells)."""
        m = re.match(r"^(?:Planner::)?Grid<(.*)>$", ty.name or "")
        return self.parse(m.group(1)) if ty.k == "rec" and m else None

    def keysorts(self, ty):
        """Sorts of the key by which a set/map identifies its elements."""
        kf = self.keyfn(ty)
        if kf is not None:
            return kf[0]
        return [s for s in leaves(self.shape(ty.a[0]))]

    def const_int(self, name):
        """Value of a named integer constant used as a template argument."""
        nm = name.strip().split("::")[-1]
        for v in self.prog.vars.values():
            if v.get("name") == nm:
                st = list(v.get("inner", []))
                while st:
                    x = st.pop()
                    if x.get("kind") == "IntegerLiteral":
                        return x["value"]
                    st += x.get("inner", [])
        raise ExtractError("array size " + name)

    def keyfn(self, ty):
        for rx, v in self.keyfns.items():
            if re.search(rx, ty.key()):
                return v
        return None


def lift(shape, sorts):
    if isinstance(shape, dict):
        return {k: lift(v, sorts) for k, v in shape.items()}
    s = shape
    for x in reversed(sorts):
        s = z3.ArraySort(x, s)
    return s


def leaves(t):
    if isinstance(t, dict):
        out = []
        for v in t.values():
            out += leaves(v)
        return out
    if isinstance(t, V):
        return leaves(t.f)
    return [t]


class V:
    """Structured value: a tree with z3 terms (or a few opaque python objects) at its leaves."""
    __slots__ = ("f",)

    def __init__(self, f):
        object.__setattr__(self, "f", f)

    def __getattr__(self, n):
        try:
            return self.f[n]
        except KeyError:
            raise AttributeError("no field %s (has %s)" % (n, list(self.f)))

    def __getitem__(self, n):
        return self.f[str(n)]

    def has(self, n):
        return n in self.f

    def set(self, n, v):
        d = dict(self.f)
        d[n] = v
        return V(d)

    def __repr__(self):
        return "V(%r)" % (self.f,)


def tmap(f, *ts):
    """Map f over the corresponding leaves of trees of the same shape."""
    t0 = ts[0]
    if isinstance(t0, (V, dict)):
        d0 = t0.f if isinstance(t0, V) else t0
        out = {}
        for k in d0:
            out[k] = tmap(f, *[(t.f if isinstance(t, V) else t)[k] for t in ts])
        return V(out)
    return f(*ts)


def sel(arr, *idx):
    """Select through one array level per index, at every leaf."""
    def g(a):
        for i in idx:
            a = z3.Select(a, i)
        return a
    return tmap(g, arr)


def sto(arr, idx, val):
    """Store val (a tree) at the index tuple idx in a lifted tree."""
    if not isinstance(idx, (list, tuple)):
        idx = [idx]

    def st(a, i, v):
        if len(i) == 1:
            return z3.Store(a, i[0], v)
        return z3.Store(a, i[0], st(z3.Select(a, i[0]), i[1:], v))
    return tmap(lambda a, v: st(a, list(idx), v), arr, val)


def teq(a, b):
    ls = []
    tmap(lambda x, y: ls.append(x == y), a, b)
    return z3.And(*ls) if len(ls) != 1 else ls[0]
