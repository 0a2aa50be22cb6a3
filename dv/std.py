"""Models of the standard library and Eigen operations the code uses (assumed contracts on dependencies)."""
import re
import z3
from .ty import *
from .core import *

VECNAMES = ("vec",)


def callfn(ins, sort, path=""):
    """The uninterpreted function that stands for calls of std::function objects."""
    nm = "call_" + "".join(x.sort().name()[0] for x in ins) + "_" + (sort.name() if hasattr(sort, "name") else "") + path
    return z3.Function(nm, *([x.sort() for x in ins] + [sort]))(*ins)


def _sqrt_facts(ex, st, x, r):
    ex.assume(st, z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))


class StdMixin:

    # ------------------------------------------------------------ helpers
    def strip_ref(self, t):
        return t.a[0] if t is not None and t.k == "ref" else t

    def nt(self, n):
        return self.strip_ref(self.ty.node_type(n))

    # ------------------------------------------------------------ iterators
    def it_deref(self, st, it):
        v = self.read(st, it.c)
        if it.rev:
            idx = v.f["len"] - 1 - it.i
        else:
            idx = it.i
        if "len" in v.f:
            self.oblige(st, "iterator designates an element", z3.And(it.i >= 0, it.i < v.f["len"]), "bounds")
            return Elem(it.c, simp(idx) if z3.is_expr(idx) else idx)
        c = concrete_int(it.i)
        n = len(v.f)
        self.oblige(st, "iterator designates an element", z3.And(it.i >= 0, it.i < n), "bounds")
        return ArrE(it.c, idx, n)

    def kit_deref(self, st, it):
        self.oblige(st, "iterator is not end()", it.found, "bounds")
        self.assume(st, it.found)
        v = self.read(st, it.c)
        if "val" in v.f:
            return PairOf(it.c, it.key)
        if len(it.key) == 1 and it.key[0].sort() == z3.RealSort():
            self.assume(st, sel(v.f["el"], it.key[0]) == it.key[0])        # a set of numbers
        return KeyE(it.c, it.key, "el")

    def kit_next(self, st, it):
        """The next element of an ordered set."""
        s = self.read(st, it.c)
        if "val" in s.f:
            raise Unsupported("++ on a map iterator")
        self.oblige(st, "iterator is not end()", it.found, "bounds")
        has, k = s.f["has"], it.key[0]
        more = z3.Bool(self.fresh_name("more"))
        nx = z3.Const(self.fresh_name("next"), k.sort())
        j = z3.Const(self.fresh_name("j"), k.sort())
        self.assume(st, z3.Implies(more, z3.And(sel(has, nx), k < nx)))
        self.assume(st, z3.ForAll([j], z3.Implies(sel(has, j), z3.Or(j <= k, z3.And(more, nx <= j)))))
        self.assume(st, sel(s.f["el"], nx) == nx)
        return KIt(it.c, more, [nx])

    def it_add(self, st, it, d):
        return It(it.c, simp(it.i + d), it.rev)

    def it_binop(self, st, op, x, y):
        if isinstance(x, It) and isinstance(y, It):
            if not (x.c == y.c):
                raise Unsupported("iterators of different containers")
            if op == "-":
                return x.i - y.i
            return {"==": lambda: x.i == y.i, "!=": lambda: x.i != y.i, "<": lambda: x.i < y.i, ">": lambda: x.i > y.i,
                    "<=": lambda: x.i <= y.i, ">=": lambda: x.i >= y.i}[op]()
        if isinstance(x, It) and op in ("+", "-"):
            return self.it_add(st, x, y if op == "+" else -y)
        if isinstance(y, It) and op == "+":
            return self.it_add(st, y, x)
        raise Unsupported("iterator operator " + op)

    def kit_eq(self, x, y):
        if len(x.key) and len(y.key):
            same = z3.And(*[a == b for a, b in zip(x.key, y.key)])
        else:
            same = z3.BoolVal(True)
        return z3.And(x.found == y.found, z3.Or(z3.Not(x.found), same))

    # ------------------------------------------------------------ vectors
    def vlen(self, st, lv):
        return self.read(st, lv).f["len"]

    def elem_ty(self, t):
        return t.a[0]

    def vec_insert(self, st, lv, p, val):
        v = self.read(st, lv)
        n, a = v.f["len"], v.f["a"]
        cn, cp = concrete_int(n), concrete_int(p)
        def one(arr, x):
            r = z3.Const(self.fresh_name("ins"), arr.sort())
            j = z3.Int(self.fresh_name("j"))
            st.pc.append(z3.ForAll([j], r[j] == z3.If(j < p, arr[j], z3.If(j == p, x, arr[j - 1])), patterns=[r[j]]))
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= p), r[j + 1] == arr[j]), patterns=[arr[j]]))
            st.pc.append(z3.ForAll([j], z3.Implies(j < p, r[j] == arr[j]), patterns=[arr[j]]))
            return r
        self.write(st, lv, V({"len": simp(n + 1), "a": tmap(one, a, val)}))

    def vec_erase(self, st, lv, p, cnt=None):
        v = self.read(st, lv)
        n, a = v.f["len"], v.f["a"]
        cnt = z3.IntVal(1) if cnt is None else cnt
        def one(arr):
            r = z3.Const(self.fresh_name("ers"), arr.sort())
            j = z3.Int(self.fresh_name("j"))
            st.pc.append(z3.ForAll([j], r[j] == z3.If(j < p, arr[j], arr[j + cnt]), patterns=[r[j]]))
            st.pc.append(z3.ForAll([j], z3.And(z3.Implies(j < p, r[j] == arr[j]), z3.Implies(j >= p + cnt, r[j - cnt] == arr[j])), patterns=[arr[j]]))
            return r
        self.write(st, lv, V({"len": simp(n - cnt), "a": tmap(one, a)}))

    def vec_push(self, st, lv, val):
        v = self.read(st, lv)
        n = v.f["len"]
        self.write(st, lv, V({"len": simp(n + 1), "a": sto(v.f["a"], n, val)}))
        return Elem(lv, n)

    def vec_resize(self, st, lv, n, val):
        v = self.read(st, lv)
        old = v.f["len"]
        def one(arr, x):
            r = z3.Const(self.fresh_name("rsz"), arr.sort())
            j = z3.Int(self.fresh_name("j"))
            st.pc.append(z3.ForAll([j], r[j] == z3.If(z3.And(j >= old, j < n), x, arr[j]), patterns=[r[j]]))
            return r
        if concrete_int(old) == 0 and True:
            def one(arr, x):
                return z3.K(I, x)
        self.write(st, lv, V({"len": n, "a": tmap(one, v.f["a"], val)}))

    def std_method(self, fr, st, lv, t, name, args, n):
        if t is None:
            raise Unsupported("method %s on unknown type" % name)
        lv = self.resolve(st, lv)
        # class deriving from a container
        if t.k == "rec" and t.name not in ("Vec2", "Rot2", "Dist"):
            for f, ft in self.ty.fields(t):
                if f == "__base":
                    return self.std_method(fr, st, Fld(lv, "__base"), ft, name, args, n)
            raise Unsupported("method %s of %s" % (name, t.name))
        if isinstance(lv, Val):
            # give the temporary a home
            key = self.fresh_name("tmp")
            st.store[key] = lv.v
            lv = Var(key)
        fn = getattr(self, "m_%s" % t.k, None)
        if fn is None:
            raise Unsupported("method %s on %r" % (name, t))
        return fn(fr, st, lv, t, name, args, n)

    def m_vec(self, fr, st, lv, t, name, args, n):
        et = t.a[0]
        if name == "size":
            return self.vlen(st, lv)
        if name == "empty":
            return self.vlen(st, lv) == 0
        if name in ("reserve", "shrink_to_fit"):
            for a in args:
                self.eval(fr, st, a)
            return None
        if name == "clear":
            v = self.read(st, lv)
            self.write(st, lv, v.set("len", z3.IntVal(0)))
            return None
        if name in ("begin", "cbegin"):
            return It(lv, z3.IntVal(0))
        if name in ("end", "cend"):
            return It(lv, self.vlen(st, lv))
        if name in ("rbegin", "crbegin"):
            return It(lv, z3.IntVal(0), True)
        if name in ("rend", "crend"):
            return It(lv, self.vlen(st, lv), True)
        if name == "push_back":
            v = self.coerce_agg(et, self.evr(fr, st, args[0]))
            self.vec_push(st, lv, v)
            self.clear_moved(fr, st, args[0], et)
            return None
        if name == "emplace_back":
            v = self.emplace(fr, st, et, args, n)
            return self.vec_push(st, lv, v)
        if name == "pop_back":
            L = self.vlen(st, lv)
            self.oblige(st, "pop_back on a non-empty vector", L > 0, "bounds")
            v = self.read(st, lv)
            self.write(st, lv, v.set("len", simp(L - 1)))
            return None
        if name in ("back", "front"):
            L = self.vlen(st, lv)
            self.oblige(st, "%s of a non-empty vector" % name, L > 0, "bounds")
            return Elem(lv, simp(L - 1) if name == "back" else z3.IntVal(0))
        if name == "at":
            i = self.evr(fr, st, args[0])
            self.oblige(st, "at() index in range", z3.And(i >= 0, i < self.vlen(st, lv)), "bounds")
            return Elem(lv, i)
        if name == "insert":
            it = self.evr(fr, st, args[0])
            if len(args) == 2:
                v = self.coerce_agg(et, self.evr(fr, st, args[1]))
                self.oblige(st, "insert position in range", z3.And(it.i >= 0, it.i <= self.vlen(st, lv)), "bounds")
                self.vec_insert(st, lv, it.i, v)
                return It(lv, it.i)
            a, b = self.evr(fr, st, args[1]), self.evr(fr, st, args[2])
            return self.vec_insert_range(st, lv, it, a, b)
        if name == "erase":
            it = self.evr(fr, st, args[0])
            L = self.vlen(st, lv)
            if len(args) == 1:
                self.oblige(st, "erase position in range", z3.And(it.i >= 0, it.i < L), "bounds")
                self.vec_erase(st, lv, it.i)
            else:
                it2 = self.evr(fr, st, args[1])
                self.oblige(st, "erase range valid", z3.And(it.i >= 0, it.i <= it2.i, it2.i <= L), "bounds")
                if simp(it2.i == L).eq(z3.BoolVal(True)):
                    v = self.read(st, lv)
                    self.write(st, lv, v.set("len", it.i))
                else:
                    self.vec_erase(st, lv, it.i, it2.i - it.i)
            return It(lv, it.i)
        if name == "resize":
            k = self.evr(fr, st, args[0])
            val = self.evr(fr, st, args[1]) if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr" else self.default_elem(fr, st, et, n)
            self.vec_resize(st, lv, k, val)
            return None
        if name == "data":
            return Ptr(Elem(lv, z3.IntVal(0)))
        if name == "swap":
            o = self.eval(fr, st, args[0])
            a, b = self.read(st, lv), self.read(st, o)
            self.write(st, lv, b)
            self.write(st, o, a)
            return None
        raise Unsupported("vector::" + name)

    def vec_insert_range(self, st, lv, it, a, b):
        if not (isinstance(a, It) and isinstance(b, It) and a.c == b.c and a.rev == b.rev):
            raise Unsupported("insert range")
        v = self.read(st, lv)
        src = self.read(st, a.c)
        n, p, cnt = v.f["len"], it.i, b.i - a.i
        self.oblige(st, "insert range valid", z3.And(p >= 0, p <= n, a.i >= 0, a.i <= b.i, b.i <= src.f["len"]), "bounds")
        L = src.f["len"]
        def one(dst, s):
            r = z3.Const(self.fresh_name("insr"), dst.sort())
            j = z3.Int(self.fresh_name("j"))
            sj = (L - 1 - (a.i + j - p)) if a.rev else (a.i + j - p)
            st.pc.append(z3.ForAll([j], r[j] == z3.If(j < p, dst[j], z3.If(j < p + cnt, s[sj], dst[j - cnt])), patterns=[r[j]]))
            return r
        self.write(st, lv, V({"len": simp(n + cnt), "a": tmap(one, v.f["a"], src.f["a"])}))
        return It(lv, p)

    def emplace(self, fr, st, et, args, n):
        if et.k == "tuple":
            if len(args) == len(et.a):
                return V({str(i): self.convert(fr, st, et.a[i], self.evr(fr, st, a), self.nt(a)) for i, a in enumerate(args)})
        if et.k == "rec" and et.name not in ("Vec2", "Rot2", "Dist"):
            if len(args) == 1 and self.nt(args[0]) == et:
                return self.evr(fr, st, args[0])
            return self.construct_from(fr, st, et, args)
        if et.k == "opaque":
            for a in args:
                self.eval(fr, st, a)
            return self.fresh(et, "opq")
        if len(args) == 1:
            return self.convert(fr, st, et, self.evr(fr, st, args[0]), self.nt(args[0]))
        if et.k == "rec":
            return self.from_list(et, [self.evr(fr, st, a) for a in args])
        raise Unsupported("emplace of %r" % et)

    def convert(self, fr, st, to, v, frm):
        if to.k == "real" and z3.is_expr(v) and z3.is_int(v):
            return z3.ToReal(v)
        if to.k == "int" and z3.is_expr(v) and z3.is_real(v):
            return self.real_to_int(v)
        if to.k == "int" and frm is not None and frm.k == "int" and z3.is_expr(v):
            return self.int_cast(v, frm, to)
        return self.coerce_agg(to, v)

    def construct_from(self, fr, st, ty, args):
        """Construct a record of type ty from argument nodes, by arity and argument types."""
        r = self.prog.find_record(ty.name)
        cands = []
        for nm, fl in r.methods.items():
            for f in fl:
                if f.is_ctor and not f.dependent and not f.node.get("isImplicit"):
                    g = self.prog.definition(f.node["id"]) or f
                    need = len([p for p in f.params if not p.get("init")])
                    if need <= len(args) <= len(f.params) and g.body is not None:
                        cands.append(g)
        if not args and not cands:
            return self.construct_default(fr, st, ty)
        ats = [self.nt(a) for a in args]
        def score(g):
            s = 0
            for p, a in zip(g.params, ats):
                pt = self.strip_ref(self.ty.node_type(p))
                if pt == a:
                    s += 2
                elif pt.k == a.k:
                    s += 1
                elif pt.k in ("int", "real", "bool") and a.k in ("int", "real", "bool"):
                    s += 1
                else:
                    s -= 5
            return s
        cands.sort(key=score, reverse=True)
        if not cands:
            if len(args) == len(self.ty.fields(ty)):
                return self.from_list(ty, [self.evr(fr, st, a) for a in args])
            if any(f.is_ctor and not f.node.get("isImplicit") and len([p for p in f.params if not p.get("init")]) <= len(args) <= len(f.params) for fl in r.methods.values() for f in fl):
                for a in args:          # defined in another translation unit: an arbitrary object
                    self.evr(fr, st, a)
                return self.fresh(ty, "made")
            raise Unsupported("no constructor of %s for %d arguments" % (ty.name, len(args)))
        g = cands[0]
        vals = []
        for i, p in enumerate(g.params):
            pt = self.ty.node_type(p)
            if i < len(args):
                v = self.eval(fr, st, args[i])
                if pt.k == "ref":
                    lv = self.resolve(st, self.to_lv(st, v))
                    vals.append(lv)
                else:
                    vals.append(self.convert(fr, st, pt, self.rv(st, v), ats[i]))
            else:
                vals.append(self.default_arg(st, g, i))
        return self.ctor_call(fr, st, ty, g, vals)

    m_array = None

    def m_array(self, fr, st, lv, t, name, args, n):
        cnt = int(t.name)
        if name == "size":
            return z3.IntVal(cnt)
        if name == "empty":
            return z3.BoolVal(cnt == 0)
        if name in ("begin", "cbegin"):
            return It(lv, z3.IntVal(0))
        if name in ("end", "cend"):
            return It(lv, z3.IntVal(cnt))
        if name in ("at",):
            i = self.evr(fr, st, args[0])
            self.oblige(st, "array index in range", z3.And(i >= 0, i < cnt), "bounds")
            return ArrE(lv, i, cnt)
        if name in ("front", "back"):
            return ArrE(lv, z3.IntVal(0 if name == "front" else cnt - 1), cnt)
        if name == "fill":
            v = self.evr(fr, st, args[0])
            self.write(st, lv, V({str(i): v for i in range(cnt)}))
            return None
        raise Unsupported("array::" + name)

    # ------------------------------------------------------------ sets and maps
    def keyof(self, st, t, v):
        kf = self.ty.keyfn(t)
        if kf is not None:
            return list(kf[1](self, st, v))
        return [x for x in leaves(v)]

    def keyed_end(self, lv):
        return KIt(lv, z3.BoolVal(False), ())

    def keyed_find(self, st, lv, t, v):
        k = self.keyof(st, t, v)
        s = self.read(st, lv)
        has = sel(s.f["has"], *k)
        return KIt(lv, has, k)

    def keyed_insert(self, st, lv, t, elv, val=None):
        k = self.keyof(st, t, elv)
        s = self.read(st, lv)
        has = sel(s.f["has"], *k)
        new = {"n": z3.If(has, s.f["n"], s.f["n"] + 1),
               "has": sto(s.f["has"], k, z3.BoolVal(True))}
        new["el"] = tmap(lambda a, b: z3.If(has, a, b), s.f["el"], sto(s.f["el"], k, elv))
        if "val" in s.f:
            new["val"] = tmap(lambda a, b: z3.If(has, a, b), s.f["val"], sto(s.f["val"], k, val))
        self.write(st, lv, V(new))
        return KIt(lv, z3.BoolVal(True), k), z3.Not(has)

    def keyed_erase(self, st, lv, k, known=None):
        s = self.read(st, lv)
        has = sel(s.f["has"], *k)
        self.write(st, lv, s.set("has", sto(s.f["has"], list(k), z3.BoolVal(False))).set("n", z3.If(has, s.f["n"] - 1, s.f["n"])))
        return has

    def m_pq(self, fr, st, lv, t, name, args, n):
        """Priority queue: how often each key is queued; which one is on top is left open (any order)."""
        s = self.read(st, lv)
        sorts = self.ty.keysorts(t)
        top = [z3.Function("top_of_queue_%d" % i, I, x)(s.f["ver"]) for i, x in enumerate(sorts)]
        qs = [z3.Const(self.fresh_name("k"), x) for x in sorts]
        def facts():
            self.assume(st, s.f["n"] >= 0)
            self.assume(st, z3.ForAll(qs, sel(s.f["cnt"], *qs) >= 0))
            self.assume(st, z3.If(s.f["n"] == 0, z3.ForAll(qs, sel(s.f["cnt"], *qs) == 0), sel(s.f["cnt"], *top) > 0))
        if name in ("size", "empty"):
            facts()
            return s.f["n"] if name == "size" else s.f["n"] == 0
        ver = z3.Int(self.fresh_name("ver"))
        if name in ("push", "emplace"):
            v = self.coerce_agg(t.a[0], self.evr(fr, st, args[0])) if name == "push" else self.emplace(fr, st, t.a[0], args, n)
            k = self.keyof(st, t, v)
            s = self.read(st, lv)
            self.write(st, lv, V({"n": s.f["n"] + 1, "ver": ver, "cnt": sto(s.f["cnt"], list(k), sel(s.f["cnt"], *k) + 1)}))
            return None
        if name in ("top", "pop"):
            self.oblige(st, "queue is not empty", s.f["n"] > 0, "bounds")
            self.assume(st, s.f["n"] > 0)
            facts()
            if name == "top":
                e = self.fresh(t.a[0], "top")
                for a, b in zip(self.keyof(st, t, e), top):
                    self.assume(st, a == b)
                return Val(e)
            self.write(st, lv, V({"n": s.f["n"] - 1, "ver": ver, "cnt": sto(s.f["cnt"], top, sel(s.f["cnt"], *top) - 1)}))
            return None
        raise Unsupported("priority_queue::" + name)

    def m_set(self, fr, st, lv, t, name, args, n):
        s = self.read(st, lv)
        if name == "size":
            return s.f["n"]
        if name == "empty":
            sorts = self.ty.keysorts(t)
            qs = [z3.Const(self.fresh_name("k"), x) for x in sorts]
            self.assume(st, z3.Implies(s.f["n"] == 0, z3.ForAll(qs, z3.Not(sel(s.f["has"], *qs)))))
            return s.f["n"] == 0
        if name in ("end", "cend"):
            return self.keyed_end(lv)
        if name in ("begin", "cbegin", "rbegin", "crbegin") and t.k == "set" and t.name == "o:" and len(self.ty.keysorts(t)) == 1:
            return self.extreme(st, lv, s, "rbegin" in name)
        if name == "clear":
            self.write(st, lv, self.empty_keyed(t))
            return None
        if name in ("find", "count", "contains"):
            v = self.evr(fr, st, args[0])
            it = self.keyed_find(st, lv, t, v)
            if name == "find":
                return it
            return z3.If(it.found, z3.IntVal(1), z3.IntVal(0)) if name == "count" else it.found
        if name in ("insert", "emplace"):
            if t.k == "set":
                v = self.evr(fr, st, args[0]) if name == "insert" else self.emplace(fr, st, t.a[0], args, n)
                it, ok = self.keyed_insert(st, lv, t, v)
            else:
                if len(args) == 1:
                    p = self.evr(fr, st, args[0])
                    kv, vv = (p.f["0"], p.f["1"]) if isinstance(p, V) else (p[0], p[1])
                else:
                    kv, vv = self.evr(fr, st, args[0]), self.convert(fr, st, t.a[1], self.evr(fr, st, args[1]), self.nt(args[1]))
                it, ok = self.keyed_insert(st, lv, t, kv, vv)
            return V({"0": it, "1": ok})
        if name == "erase":
            v = self.evr(fr, st, args[0])
            if isinstance(v, KIt):
                self.oblige(st, "erased iterator is not end()", v.found, "bounds")
                self.keyed_erase(st, lv, v.key)
                return KIt(lv, z3.BoolVal(False), v.key)
            has = self.keyed_erase(st, lv, self.keyof(st, t, v))
            return z3.If(has, z3.IntVal(1), z3.IntVal(0))
        if name == "reserve" or name == "rehash":
            return None
        if t.k == "map" and name == "at":
            v = self.evr(fr, st, args[0])
            it = self.keyed_find(st, lv, t, v)
            self.oblige(st, "map::at key present", it.found, "bounds")
            return KeyE(lv, it.key, "val")
        raise Unsupported("set/map::" + name)

    def extreme(self, st, lv, s, last):
        """First (last) element of an ordered set."""
        has = s.f["has"]
        k = z3.Const(self.fresh_name("first"), has.sort().domain())
        j = z3.Const(self.fresh_name("j"), has.sort().domain())
        self.assume(st, z3.If(s.f["n"] == 0, z3.ForAll([j], z3.Not(sel(has, j))), z3.And(sel(has, k), z3.ForAll([j], z3.Implies(sel(has, j), j <= k if last else k <= j)))))
        self.assume(st, sel(s.f["el"], k) == k)
        return KIt(lv, s.f["n"] != 0, [k])

    def f_adjacent_find(self, fr, st, args, n, cal):
        a, b = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        if not (isinstance(a, KIt) and isinstance(b, KIt) and a.c == b.c and len(args) == 3 and z3.is_false(b.found)):
            raise Unsupported("adjacent_find range")
        fnv = self.eval(fr, st, args[2])
        has = self.read(st, a.c).f["has"]
        srt = has.sort().domain()
        found = z3.Bool(self.fresh_name("adjacent"))
        x, y, j = [z3.Const(self.fresh_name(q), srt) for q in "xyj"]
        pxy = self.to_bool(st, self.apply(fr, st.copy(), fnv, [Val(x), Val(y)]))
        self.assume(st, z3.Implies(found, z3.And(sel(has, x), sel(has, y), x < y, a.key[0] <= x, z3.ForAll([j], z3.Implies(sel(has, j), z3.Or(j <= x, y <= j))), pxy, sel(self.read(st, a.c).f["el"], x) == x)))
        return KIt(a.c, found, [x])

    def m_map(self, fr, st, lv, t, name, args, n):
        return self.m_set(fr, st, lv, t, name, args, n)

    # ------------------------------------------------------------ smart pointers
    def m_ptr(self, fr, st, lv, t, name, args, n):
        if name == "get":
            return self.read(st, lv)
        if name == "reset":
            v = self.evr(fr, st, args[0]) if args and args[0]["kind"] != "CXXDefaultArgExpr" else z3.IntVal(0)
            self.write(st, lv, v)
            return None
        if name == "release":
            v = self.read(st, lv)
            self.write(st, lv, z3.IntVal(0))
            return v
        if name.startswith("operator bool"):
            return self.to_bool(st, self.read(st, lv))
        if name == "use_count":
            v = self.fresh(INT, "use_count")
            return v
        raise Unsupported("smart pointer ." + name)

    def m_iter(self, fr, st, lv, t, name, args, n):
        if name == "base":
            it = self.read(st, lv)
            return It(it.c, self.vlen(st, it.c) - it.i, False)
        raise Unsupported("iterator." + name)

    def m_fn(self, fr, st, lv, t, name, args, n):
        if name.startswith("operator bool"):
            return self.to_bool(st, self.read(st, lv))
        raise Unsupported("function." + name)

    def m_tuple(self, fr, st, lv, t, name, args, n):
        raise Unsupported("tuple." + name)

    def m_opaque(self, fr, st, lv, t, name, args, n):
        if t.name in ("string",) or "filesystem" in t.name:
            for a in args:
                self.eval(fr, st, a)
            return z3.IntVal(0)
        if name in self.opaque_ok:      # trusted calls into a library whose state is not modelled
            return z3.IntVal(0)
        raise Unsupported("%s.%s" % (t.name, name))

    opaque_ok = ()

    # ------------------------------------------------------------ Eigen
    def m_rec(self, fr, st, lv, t, name, args, n):
        if t.name == "Vec2":
            return self.eigen_method(fr, st, lv, name, args, n)
        raise Unsupported("%s.%s" % (t.name, name))

    def m_eigen(self, fr, st, lv, t, name, args, n):
        return self.eigen_method(fr, st, lv, name, args, n)

    def eigen_method(self, fr, st, lv, name, args, n):
        if name in ("x", "y"):
            return Fld(lv, name)
        v = self.read(st, lv)
        if name in ("eval", "noalias", "array", "matrix", "derived"):
            return lv
        if name == "norm":
            return self.sqrt(st, v.x * v.x + v.y * v.y)
        if name == "squaredNorm":
            return v.x * v.x + v.y * v.y
        if name == "dot":
            o = self.evr(fr, st, args[0])
            return v.x * o.x + v.y * o.y
        if name == "normalized":
            d = self.sqrt(st, v.x * v.x + v.y * v.y)
            return V({"x": v.x / d, "y": v.y / d})
        if name == "operator()" or name == "coeff":
            i = concrete_int(self.evr(fr, st, args[0]))
            return Fld(lv, "xy"[i])
        if name == "setZero":
            self.write(st, lv, V({"x": RealV(0), "y": RealV(0)}))
            return None
        if name == "angle":
            return Fld(lv, "angle")
        if name == "isApprox":
            raise Unsupported("isApprox")
        raise Unsupported("Eigen ." + name)

    def eigen_op(self, st, op, a, b):
        if isinstance(a, V) and "angle" in a.f and isinstance(b, V) and "x" in b.f:
            c, s = self.cos(st, a.angle), self.sin(st, a.angle)
            return V({"x": c * b.x - s * b.y, "y": s * b.x + c * b.y})
        if isinstance(a, V) and isinstance(b, V):
            if op in ("+", "-"):
                return tmap((lambda p, q: p + q) if op == "+" else (lambda p, q: p - q), a, b)
            if op == "==":
                return teq(a, b)
            if op == "!=":
                return z3.Not(teq(a, b))
        if isinstance(a, V) and z3.is_expr(b):
            if op == "*":
                return tmap(lambda p: p * b, a)
            if op == "/":
                return tmap(lambda p: p / b, a)
        if isinstance(b, V) and z3.is_expr(a) and op == "*":
            return tmap(lambda p: a * p, b)
        raise Unsupported("Eigen operator " + op)

    # ------------------------------------------------------------ elementary functions
    def sqrt(self, st, x):
        s = simp(x)
        if z3.is_rational_value(s):
            import math
            fr_ = s.as_fraction()
            if fr_ >= 0:
                p, q = math.isqrt(fr_.numerator), math.isqrt(fr_.denominator)
                if p * p == fr_.numerator and q * q == fr_.denominator:
                    return z3.RealVal("%d/%d" % (p, q))
        r = SQRT(x)
        _sqrt_facts(self, st, x, r)
        return r

    def sin(self, st, x):
        return SIN(x)

    def cos(self, st, x):
        return COS(x)

    def fmod(self, st, x, y):
        r = FMOD(x, y)
        k = z3.Int(self.fresh_name("kmod"))
        self.assume(st, z3.Implies(y > 0, z3.And(r == x - z3.ToReal(k) * y,
                                                 z3.Implies(x >= 0, z3.And(r >= 0, r < y)), z3.Implies(x < 0, z3.And(r <= 0, r > -y)))))
        if simp(y).eq(simp(2 * PI)):
            self.assume(st, z3.And(SIN(r) == SIN(x), COS(r) == COS(x)))
            self.periodic.append((r, x, k))
        return r

    # ------------------------------------------------------------ free functions
    def std_function(self, fr, st, name, args, n, cal):
        fn = getattr(self, "f_" + re.sub(r"\W", "_", name), None)
        if fn is not None:
            return fn(fr, st, args, n, cal)
        raise Unsupported("function %s" % name)

    def f_raise(self, fr, st, args, n, cal):
        self.oblige(st, "assertion holds", z3.BoolVal(False), "assert")
        self.assume(st, z3.BoolVal(False))
        return z3.IntVal(0)

    def f_abort(self, fr, st, args, n, cal):
        return self.f_raise(fr, st, args, n, cal)

    def f___assert_fail(self, fr, st, args, n, cal):
        return self.f_raise(fr, st, args, n, cal)

    def _first(self, fr, st, args, n, cal):
        return self.eval(fr, st, args[0])
    f_move = f_forward = f_as_const = f_static_pointer_cast = f_dynamic_pointer_cast = _first

    def f_real1(self, fr, st, args):
        v = self.evr(fr, st, args[0])
        return z3.ToReal(v) if z3.is_int(v) else v

    def f_abs(self, fr, st, args, n, cal):
        v = self.evr(fr, st, args[0])
        return z3.If(v >= 0, v, -v)
    f_fabs = f_labs = f_abs

    def f_sqrt(self, fr, st, args, n, cal):
        x = self.f_real1(fr, st, args)
        if self.check_sqrt:
            self.oblige(st, "sqrt of a non-negative number", x >= 0, "domain")
        return self.sqrt(st, x)

    def f_hypot(self, fr, st, args, n, cal):
        x, y = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        return self.sqrt(st, x * x + y * y)

    def f_pow(self, fr, st, args, n, cal):
        x, y = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        if z3.is_int(x):
            x = z3.ToReal(x)
        s = simp(y)
        if z3.is_int(s) and concrete_int(s) is not None:
            e = concrete_int(s)
        elif z3.is_rational_value(s) and s.as_fraction().denominator == 1:
            e = int(s.as_fraction())
        else:
            raise Unsupported("pow with a non-constant exponent")
        r = RealV(1)
        for _ in range(abs(e)):
            r = r * x
        return r if e >= 0 else 1 / r

    def f_sin(self, fr, st, args, n, cal):
        return self.sin(st, self.f_real1(fr, st, args))

    def f_cos(self, fr, st, args, n, cal):
        return self.cos(st, self.f_real1(fr, st, args))

    def f_tan(self, fr, st, args, n, cal):
        x = self.f_real1(fr, st, args)
        return TAN(x)

    def f_atan(self, fr, st, args, n, cal):
        x = self.f_real1(fr, st, args)
        r = ATAN(x)
        self.assume(st, z3.And(r > -PI / 2, r < PI / 2, TAN(r) == x, COS(r) > 0, SIN(r) == x * COS(r), z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0), z3.Implies(x == 0, r == 0)))
        return r

    def f_asin(self, fr, st, args, n, cal):
        x = self.f_real1(fr, st, args)
        if self.check_sqrt:
            self.oblige(st, "asin argument in [-1,1]", z3.And(x >= -1, x <= 1), "domain")
        r = ASIN(x)
        self.assume(st, z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= -PI / 2, r <= PI / 2, SIN(r) == x, COS(r) >= 0)))
        return r

    def f_acos(self, fr, st, args, n, cal):
        x = self.f_real1(fr, st, args)
        if self.check_sqrt:
            self.oblige(st, "acos argument in [-1,1]", z3.And(x >= -1, x <= 1), "domain")
        r = ACOS(x)
        self.assume(st, z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= 0, r <= PI, COS(r) == x, SIN(r) >= 0)))
        return r

    def f_atan2(self, fr, st, args, n, cal):
        y, x = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        r = ATAN2(y, x)
        h = SQRT(x * x + y * y)
        _sqrt_facts(self, st, x * x + y * y, h)
        self.assume(st, z3.And(r >= -PI, r <= PI, h * COS(r) == x, h * SIN(r) == y))
        return r

    def f_fmod(self, fr, st, args, n, cal):
        x, y = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        if z3.is_int(x):
            x = z3.ToReal(x)
        if z3.is_int(y):
            y = z3.ToReal(y)
        return self.fmod(st, x, y)

    def f_round(self, fr, st, args, n, cal):
        x = self.f_real1(fr, st, args)
        r = z3.ToReal(z3.If(x >= 0, z3.ToInt(x + RealV("1/2")), -z3.ToInt(-x + RealV("1/2"))))
        return r

    def f_lround(self, fr, st, args, n, cal):
        return z3.ToInt(self.f_round(fr, st, args, n, cal))

    def f_floor(self, fr, st, args, n, cal):
        return z3.ToReal(z3.ToInt(self.f_real1(fr, st, args)))

    def f_ceil(self, fr, st, args, n, cal):
        return z3.ToReal(-z3.ToInt(-self.f_real1(fr, st, args)))

    def f_trunc(self, fr, st, args, n, cal):
        return z3.ToReal(self.real_to_int(self.f_real1(fr, st, args)))

    def f_log(self, fr, st, args, n, cal):
        x = self.f_real1(fr, st, args)
        self.assume(st, z3.Implies(x >= 1, z3.And(LOG(x) >= 0, LOG(x) <= x - 1)))
        return LOG(x)

    def f_nextafter(self, fr, st, args, n, cal):
        """The neighbouring double: no sample can lie strictly between (see call of a distribution)."""
        x = self.f_real1(fr, st, args)
        y = self.evr(fr, st, args[1])
        y = z3.ToReal(y) if z3.is_int(y) else y
        up, dn = NEXTUP(x), -NEXTUP(-x)
        self.assume(st, z3.And(up > x, dn < x))
        return z3.If(y > x, up, z3.If(y < x, dn, x))

    def sample(self, st, d):
        """A draw from uniform_real_distribution(a, b), a double in [a, b) (so at most pred(b)), or from a normal distribution."""
        u = z3.Real(self.fresh_name("draw"))
        self.assume(st, z3.Implies(d.f["u"], z3.And(u >= d.f["a"], u < d.f["b"], z3.Implies(d.f["b"] == NEXTUP(RealV(1)), u <= 1))))
        return u

    def f_isnan(self, fr, st, args, n, cal):
        self.eval(fr, st, args[0])
        return z3.BoolVal(False)

    def f_isinf(self, fr, st, args, n, cal):
        x = self.f_real1(fr, st, args)
        return z3.Or(x == INF, x == -INF)

    def f_isfinite(self, fr, st, args, n, cal):
        return z3.Not(self.f_isinf(fr, st, args, n, cal))

    def f_infinity(self, fr, st, args, n, cal):
        return INF

    def f_max(self, fr, st, args, n, cal):
        if not args:
            return self.num_limit(n, "max")
        return self.minmax(fr, st, args, True)

    def f_min(self, fr, st, args, n, cal):
        if not args:
            return self.num_limit(n, "min")
        return self.minmax(fr, st, args, False)

    def f_lowest(self, fr, st, args, n, cal):
        return self.num_limit(n, "lowest")

    def f_epsilon(self, fr, st, args, n, cal):
        return z3.RealVal("1/4503599627370496")

    def num_limit(self, n, which):
        t = self.ty.node_type(n)
        if t.k == "int":
            if which == "max":
                return z3.IntVal(2 ** (t.bits - 1) - 1 if t.signed else 2 ** t.bits - 1)
            return z3.IntVal(-(2 ** (t.bits - 1)) if t.signed else 0)
        big = z3.Real("dblmax")
        if which == "max":
            return big
        if which == "lowest":
            return -big
        return z3.RealVal(0)

    def minmax(self, fr, st, args, mx):
        if len(args) == 1:
            v = self.evr(fr, st, args[0])
            items = []
            k = concrete_int(v.f["len"])
            if k is None:
                raise Unsupported("max of a list")
            items = [sel(v.f["a"], z3.IntVal(i)) for i in range(k)]
            r = items[0]
            for x in items[1:]:
                r = z3.If(x > r, x, r) if mx else z3.If(x < r, x, r)
            return r
        if len(args) == 2:
            a, b = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
            if z3.is_int(a) and z3.is_real(b):
                a = z3.ToReal(a)
            if z3.is_int(b) and z3.is_real(a):
                b = z3.ToReal(b)
            # std::max(a,b): (a < b) ? b : a ; std::min(a,b): (b < a) ? b : a
            return z3.If(a < b, b, a) if mx else z3.If(b < a, b, a)
        raise Unsupported("min/max with comparator")

    def f_clamp(self, fr, st, args, n, cal):
        v, lo, hi = [self.evr(fr, st, a) for a in args]
        self.oblige(st, "clamp bounds are ordered", lo <= hi, "pre")
        return z3.If(v < lo, lo, z3.If(hi < v, hi, v))

    def f_swap(self, fr, st, args, n, cal):
        a, b = self.eval(fr, st, args[0]), self.eval(fr, st, args[1])
        x, y = self.read(st, a), self.read(st, b)
        self.write(st, a, y)
        self.write(st, b, x)
        return None

    def f_make_pair(self, fr, st, args, n, cal):
        return V({str(i): self.evr(fr, st, a) for i, a in enumerate(args)})
    f_make_tuple = f_make_pair

    def f_get(self, fr, st, args, n, cal):
        lv = self.to_lv(st, self.eval(fr, st, args[0]))
        idx = self.get_index(n, cal, args)
        if isinstance(lv, Val):
            return Val(lv.v.f[str(idx)])
        return Fld(lv, str(idx))

    def get_index(self, n, cal, args):
        # std::get<I>: recover I from the type of the callee ("... __tuple_element_t<I, ...>") or its own type
        txt = str(cal.get("type", {})) + str(cal.get("referencedDecl", {}).get("type", {}))
        m = re.search(r"tuple_element(?:_t)?<(\d+)", txt)
        if m:
            return int(m.group(1))
        t = self.nt(args[0])
        rt = self.nt(n)
        c = [i for i, x in enumerate(t.a) if x == rt]
        if len(c) == 1:
            return c[0]
        if t.k == "array":
            raise Unsupported("get on array")
        raise Unsupported("std::get index")

    def f_tie(self, fr, st, args, n, cal):
        return V({str(i): self.eval(fr, st, a) for i, a in enumerate(args)})

    # -- allocation
    def f_make_unique(self, fr, st, args, n, cal):
        t = self.ty.node_type(n)
        et = t.a[0]
        v = self.emplace(fr, st, et, args, n) if (args or et.k != "rec") else self.construct_from(fr, st, et, [])
        return self.allocate(st, et, v)
    f_make_shared = f_makeScope = f_makeRef = f_make_unique

    # -- iterator utilities
    def f_next(self, fr, st, args, n, cal):
        it = self.evr(fr, st, args[0])
        d = self.evr(fr, st, args[1]) if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr" else z3.IntVal(1)
        return self.it_add(st, it, d)

    def f_prev(self, fr, st, args, n, cal):
        it = self.evr(fr, st, args[0])
        d = self.evr(fr, st, args[1]) if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr" else z3.IntVal(1)
        return self.it_add(st, it, -d)

    def f_advance(self, fr, st, args, n, cal):
        lv = self.eval(fr, st, args[0])
        d = self.evr(fr, st, args[1])
        self.write(st, lv, self.it_add(st, self.read(st, lv), d))
        return None

    def f_distance(self, fr, st, args, n, cal):
        a, b = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        return b.i - a.i

    def f_begin(self, fr, st, args, n, cal):
        lv = self.resolve(st, self.to_lv(st, self.eval(fr, st, args[0])))
        return It(lv, z3.IntVal(0))

    def f_end(self, fr, st, args, n, cal):
        lv = self.resolve(st, self.to_lv(st, self.eval(fr, st, args[0])))
        v = self.read(st, lv)
        return It(lv, v.f["len"] if "len" in v.f else z3.IntVal(len(v.f)))

    def pred_at(self, fr, st, it0, i, fnv, extra=()):
        """Value of a unary callable on the element at position i (no obligations leak: i is in range)."""
        s = st.copy()
        c = self.read(s, it0.c)
        idx = (c.f["len"] - 1 - i) if it0.rev else i
        e = Elem(it0.c, idx)
        s.pc.append(z3.And(i >= 0, i < c.f["len"]))
        saved = self.decisions
        r = self.apply(fr, s, fnv, [e] + list(extra))
        return self.to_bool(s, r), s

    def apply(self, fr, st, fnv, args):
        fnv = self.rv(st, fnv)
        if isinstance(fnv, Closure):
            return self.call_closure(fr, st, fnv, args)
        raise Unsupported("call of a function object")

    def f_find_if(self, fr, st, args, n, cal):
        a, b = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        fnv = self.eval(fr, st, args[2])
        r = z3.Int(self.fresh_name("find"))
        j = z3.Int(self.fresh_name("j"))
        self.assume(st, z3.And(r >= a.i, r <= b.i))
        if not (a.c == b.c):
            raise Unsupported("find_if range")
        L = self.vlen(st, a.c)
        self.oblige(st, "find_if range valid", z3.And(a.i >= 0, a.i <= b.i, b.i <= L), "bounds")
        pj, _ = self.pred_at(fr, st, a, j, fnv)
        self.assume(st, z3.ForAll([j], z3.Implies(z3.And(j >= a.i, j < r), z3.Not(pj))))
        self.assume(st, z3.Implies(r < b.i, z3.substitute(pj, (j, r))))
        return It(a.c, r, a.rev)

    def f_any_of(self, fr, st, args, n, cal):
        it = self.f_find_if(fr, st, args, n, cal)
        b = self.evr(fr, st, args[1])
        return it.i != b.i

    def f_none_of(self, fr, st, args, n, cal):
        return z3.Not(self.f_any_of(fr, st, args, n, cal))

    def f_upper_bound(self, fr, st, args, n, cal):
        return self.bound(fr, st, args, True)

    def f_lower_bound(self, fr, st, args, n, cal):
        return self.bound(fr, st, args, False)

    def bound(self, fr, st, args, upper):
        a, b = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        val = self.eval(fr, st, args[2])
        L = self.vlen(st, a.c)
        self.oblige(st, "search range valid", z3.And(a.i >= 0, a.i <= b.i, b.i <= L), "bounds")
        j = z3.Int(self.fresh_name("j"))
        s = st.copy()
        s.pc.append(z3.And(j >= a.i, j < b.i))
        e = Elem(a.c, j)
        vv = self.rv(s, val)
        if len(args) > 3:
            cmp_ = self.eval(fr, st, args[3])
            ar = [val if isinstance(val, Lv) else Val(vv), e] if upper else [e, val if isinstance(val, Lv) else Val(vv)]
            p = self.to_bool(s, self.apply(fr, s, cmp_, ar))
        else:
            x = self.read(s, e)
            p = (vv < x) if upper else (x < vv)
        at = lambda i: z3.substitute(p, (j, i))
        k = z3.Int(self.fresh_name("k"))
        # partition precondition
        if upper:
            self.oblige(st, "range is partitioned for upper_bound",
                        z3.ForAll([j, k], z3.Implies(z3.And(a.i <= j, j < k, k < b.i, at(j)), at(k))), "pre")
        else:
            self.oblige(st, "range is partitioned for lower_bound",
                        z3.ForAll([j, k], z3.Implies(z3.And(a.i <= j, j < k, k < b.i, at(k)), at(j))), "pre")
        r = z3.Int(self.fresh_name("bound"))
        self.assume(st, z3.And(r >= a.i, r <= b.i))
        if upper:
            self.assume(st, z3.ForAll([j], z3.Implies(z3.And(a.i <= j, j < r), z3.Not(at(j)))))
            self.assume(st, z3.Implies(r < b.i, at(r)))
        else:
            self.assume(st, z3.ForAll([j], z3.Implies(z3.And(a.i <= j, j < r), at(j))))
            self.assume(st, z3.Implies(r < b.i, z3.Not(at(r))))
        return It(a.c, r)

    def f_reverse(self, fr, st, args, n, cal):
        a, b = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        v = self.read(st, a.c)
        L = v.f["len"]
        self.oblige(st, "reverse range valid", z3.And(a.i >= 0, a.i <= b.i, b.i <= L), "bounds")
        lo, hi = a.i, b.i
        def one(arr):
            r = z3.Const(self.fresh_name("rev"), arr.sort())
            j = z3.Int(self.fresh_name("j"))
            st.pc.append(z3.ForAll([j], r[j] == z3.If(z3.And(j >= lo, j < hi), arr[lo + hi - 1 - j], arr[j]), patterns=[r[j]]))
            return r
        self.write(st, a.c, v.set("a", tmap(one, v.f["a"])))
        return None

    def f_fill(self, fr, st, args, n, cal):
        a, b = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
        x = self.evr(fr, st, args[2])
        v = self.read(st, a.c)
        if "len" not in v.f:
            raise Unsupported("fill of array")
        def one(arr, y):
            r = z3.Const(self.fresh_name("fill"), arr.sort())
            j = z3.Int(self.fresh_name("j"))
            st.pc.append(z3.ForAll([j], r[j] == z3.If(z3.And(j >= a.i, j < b.i), y, arr[j]), patterns=[r[j]]))
            return r
        self.write(st, a.c, v.set("a", tmap(one, v.f["a"], x)))
        return None

    def f_accumulate(self, fr, st, args, n, cal):
        raise Unsupported("accumulate")

    def f_to_string(self, fr, st, args, n, cal):
        return z3.IntVal(0)

    # ------------------------------------------------------------ operators on library types
    def std_operator(self, fr, st, name, args, n):
        op = name[len("operator"):].strip()
        ts = [self.nt(a) for a in args]
        t0 = ts[0]
        if op == "=":
            rvv = self.evr(fr, st, args[1])
            lv = self.eval(fr, st, args[0])
            if isinstance(lv, V) and all(isinstance(x, Lv) for x in lv.f.values()):     # std::tie(...) =
                for k2, l2 in lv.f.items():
                    self.write(st, l2, rvv.f[k2])
                return lv
            rvv = self.coerce_agg(t0, rvv)
            if isinstance(rvv, list):
                rvv = self.from_list(t0, rvv)
            mv = self.moved_from(args[1])
            self.write(st, lv, rvv)
            if mv is not None and t0.k == "ptr" and t0.name == "unique_ptr":
                src = self.eval(fr, st, mv)
                if isinstance(src, Lv) and not isinstance(src, Val):
                    self.write(st, src, z3.IntVal(0))
            if mv is not None and t0.k == "vec":
                src = self.eval(fr, st, mv)
                if isinstance(src, Lv) and not isinstance(src, Val):
                    self.write(st, src, self.read(st, src).set("len", z3.IntVal(0)))
            return lv
        if op == "[]":
            lv = self.resolve(st, self.to_lv(st, self.eval(fr, st, args[0])))
            if t0.k == "rec" and t0.name not in ("Vec2",):
                for f, ft in self.ty.fields(t0):
                    if f == "__base":
                        lv, t0 = Fld(lv, "__base"), ft
            if t0.k == "vec":
                i = self.evr(fr, st, args[1])
                self.oblige(st, "vector index in range", z3.And(i >= 0, i < self.vlen(st, lv)), "bounds")
                return Elem(lv, i)
            if t0.k == "array":
                i = self.evr(fr, st, args[1])
                cnt = int(t0.name)
                self.oblige(st, "array index in range", z3.And(i >= 0, i < cnt), "bounds")
                return ArrE(lv, i, cnt)
            if t0.k == "map":
                kv = self.evr(fr, st, args[1])
                k = self.keyof(st, t0, kv)
                s = self.read(st, lv)
                has = sel(s.f["has"], *k)
                dv = self.zero(t0.a[1]) if t0.a[1].k != "rec" else self.default_value(fr, st, t0.a[1])
                it, ok = self.keyed_insert(st, lv, t0, kv, dv)
                return KeyE(lv, k, "val")
            if t0.k == "rec" and t0.name == "Vec2":
                i = concrete_int(self.evr(fr, st, args[1]))
                if i is None:
                    raise Unsupported("Eigen [] with variable index")
                return Fld(lv, "xy"[i])
            raise Unsupported("[] on %r" % t0)
        if op in ("*", "->") and len(args) == 1:
            v = self.eval(fr, st, args[0])
            if t0.k == "ptr":
                if op == "->":
                    return self.rv(st, v)
                return self.deref(st, v, t0.a[0], "smart pointer")
            vv = self.rv(st, v)
            if isinstance(vv, (It, KIt)):
                lv = self.deref(st, vv)
                if op == "*":
                    return lv
                return Ptr(lv)
            raise Unsupported("%s on %r" % (op, t0))
        if op in ("++", "--"):
            lv = self.eval(fr, st, args[0])
            old = self.read(st, lv)
            if isinstance(old, It):
                new = self.it_add(st, old, z3.IntVal(1 if op == "++" else -1))
                self.write(st, lv, new)
                return old if len(args) > 1 else lv
            if isinstance(old, KIt) and op == "++" and len(old.key) == 1:
                self.write(st, lv, self.kit_next(st, old))
                return old if len(args) > 1 else lv
            raise Unsupported("++ on %r" % (old,))
        if op in ("+=", "-=", "*=", "/="):
            y = self.evr(fr, st, args[1])
            lv = self.eval(fr, st, args[0])
            x = self.read(st, lv)
            if isinstance(x, It):
                new = self.it_add(st, x, y if op == "+=" else -y)
            elif t0.k == "opaque":
                return lv
            else:
                new = self.eigen_op(st, op[0], x, y)
            self.write(st, lv, new)
            return lv
        if op == "()":
            v = self.evr(fr, st, args[0])
            if isinstance(v, Closure):
                return self.call_closure(fr, st, v, [self.eval(fr, st, a) for a in args[1:]])
            if t0.k == "fn" or t0.k == "empty" or t0.k == "opaque":
                return self.call_opaque(fr, st, t0, v, args[1:], n)
            if t0.name == "Dist":
                for a in args[1:]:
                    self.eval(fr, st, a)
                return self.sample(st, v)
            if t0.k == "rec" and t0.name == "Vec2":
                return self.eigen_method(fr, st, self.to_lv(st, self.eval(fr, st, args[0])), "operator()", args[1:], n)
            raise Unsupported("call operator of %r" % t0)
        if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/"):
            if len(args) == 1 and op == "-":
                v = self.evr(fr, st, args[0])
                return tmap(lambda p: -p, v)
            x, y = self.evr(fr, st, args[0]), self.evr(fr, st, args[1])
            if isinstance(x, It) or isinstance(y, It):
                return self.it_binop(st, op, x, y)
            if isinstance(x, KIt) and isinstance(y, KIt):
                r = self.kit_eq(x, y)
                return r if op == "==" else z3.Not(r)
            if t0.k == "ptr" or ts[1].k == "ptr":
                return self.binop(st, op, x, y, t0, ts[1], BOOL)
            if t0.k == "tuple" and op in ("<", ">", "==", "!="):
                return self.tuple_cmp(op, x, y)
            if t0.k == "vec" and op in ("==", "!="):
                raise Unsupported("vector comparison")
            if t0.k == "opaque":
                return z3.IntVal(0)
            if t0.k == "fn":
                return self.ptr_cmp(st, op, x, y) if not z3.is_expr(x) else (x == 0 if op == "==" else x != 0)
            return self.eigen_op(st, op, x, y)
        if op == "<<":
            if t0.k == "eigen" or t0.name == "Vec2":
                raise Unsupported("comma initialiser")
            return z3.IntVal(0)
        if op == "bool":
            return self.to_bool(st, self.eval(fr, st, args[0]))
        raise Unsupported("operator %s on %r" % (op, t0))

    def tuple_cmp(self, op, x, y):
        xs = [a for a in leaves(x)]
        ys = [a for a in leaves(y)]
        if op in ("==", "!="):
            r = z3.And(*[a == b for a, b in zip(xs, ys)])
            return r if op == "==" else z3.Not(r)
        if op == ">":
            xs, ys = ys, xs
        r = z3.BoolVal(False)
        for a, b in reversed(list(zip(xs, ys))):
            r = z3.Or(a < b, z3.And(a == b, r))
        return r

    def moved_from(self, node):
        """The expression inside std::move(...), if the node is one."""
        from .expr import skip
        n = skip(node)
        if n["kind"] == "CallExpr":
            c = skip(n["inner"][0])
            if c.get("referencedDecl", {}).get("name") == "move":
                return n["inner"][1]
        return None

    def clear_moved(self, fr, st, node, t):
        mv = self.moved_from(node)
        if mv is None:
            return
        if t.k == "ptr" and t.name == "unique_ptr":
            src = self.eval(fr, st, mv)
            if isinstance(src, Lv) and not isinstance(src, Val):
                self.write(st, src, z3.IntVal(0))

    def call_opaque(self, fr, st, t, v, args, n):
        """std::function / hash / equal_to objects."""
        nm = t.name
        vals = [self.evr(fr, st, a) for a in args]
        if "equal_to<" in nm:
            h = self.equal_hooks.get("equal_to")
            if h is not None:
                r = h(self, st, nm, vals)
                if r is not None:
                    return r
            a, b = vals
            return teq(a, b) if isinstance(a, V) else a == b
        if "less<" in nm or "greater<" in nm:
            a, b = vals
            h = self.equal_hooks.get("less")
            if h is not None:
                r = h(self, st, nm, vals)
                if r is not None:
                    return r
            return (a < b) if "less<" in nm else (a > b)
        rt = self.nt(n)
        ins = [x for x in leaves(v)] if t.k != "empty" else []
        for x in vals:
            ins += [y for y in leaves(x)]
        self.assumptions.add("calls of std::function objects are pure functions of the object and its arguments")
        def mk(shape, path):
            if isinstance(shape, dict):
                return V({k: mk(s, path + "." + k) for k, s in shape.items()})
            return callfn(ins, shape, path)
        if rt.k == "void":
            return None
        r = mk(self.ty.shape(rt), "")
        for fa in self.type_facts(rt, r):
            self.assume(st, fa)
        return r

    # ------------------------------------------------------------ library constructors
    def std_construct(self, fr, st, ty, argnodes, n):
        real = [a for a in argnodes if a["kind"] != "CXXDefaultArgExpr"]
        if ty.name == "Dist":
            vals = [self.evr(fr, st, a) for a in real]
            if len(vals) == 1 and isinstance(vals[0], V):
                return vals[0]
            vals = [z3.ToReal(v) if z3.is_int(v) else v for v in vals]
            while len(vals) < 2:
                vals.append(RealV(len(vals)))
            tn = (n or {}).get("type", {})
            return V({"a": vals[0], "b": vals[1], "u": z3.BoolVal("uniform" in (tn.get("desugaredQualType") or tn.get("qualType", "")))})
        if ty.k == "rec":          # Vec2 / Rot2
            if not real:
                v = self.fresh(ty, "vec")
                if n is not None and n.get("zeroing") or self.zero_init_eigen:
                    return V({k: RealV(0) if ty.a[0].k == "real" else z3.IntVal(0) for k in v.f})
                return v
            vals = [self.evr(fr, st, a) for a in real]
            if ty.name == "Rot2":
                return V({"angle": vals[0]})
            if len(vals) == 2:
                want = ty.a[0].k
                conv = [z3.ToReal(x) if want == "real" and z3.is_int(x) else x for x in vals]
                return V({"x": conv[0], "y": conv[1]})
            if isinstance(vals[0], V):
                return vals[0]
            raise Unsupported("Eigen constructor")
        if ty.k == "eigen":
            if len(real) == 1:
                return self.evr(fr, st, real[0])
            raise Unsupported("Eigen constructor " + ty.name)
        if ty.k in ("vec",):
            if not real:
                return self.zero(ty)
            vals = [self.eval(fr, st, a) for a in real]
            at = [self.nt(a) for a in real]
            if len(real) == 1 and at[0].k == "vec":
                v = self.rv(st, vals[0])
                mv = self.moved_from(real[0])
                if mv is not None:
                    src = self.eval(fr, st, mv)
                    if isinstance(src, Lv) and not isinstance(src, Val):
                        self.write(st, src, self.read(st, src).set("len", z3.IntVal(0)))
                if isinstance(v, list):
                    return self.from_list(ty, v)
                return v
            if at[0].k == "iter":
                a, b = self.rv(st, vals[0]), self.rv(st, vals[1])
                src = self.read(st, a.c)
                if not a.rev and simp(a.i == 0).eq(z3.BoolVal(True)):
                    return V({"len": simp(b.i), "a": src.f["a"]})
                tmpk = self.fresh_name("tmp")
                st.store[tmpk] = self.zero(ty)
                self.vec_insert_range(st, Var(tmpk), It(Var(tmpk), z3.IntVal(0)), a, b)
                return st.store.pop(tmpk)
            if at[0].k == "int":
                k = self.rv(st, vals[0])
                x = self.convert(fr, st, ty.a[0], self.rv(st, vals[1]), at[1]) if len(real) > 1 else self.default_elem(fr, st, ty.a[0], n)
                return V({"len": k, "a": tmap(lambda e: z3.K(I, e), x)})
            raise Unsupported("vector constructor")
        if ty.k in ("set", "map", "pq"):
            if len(real) == 1 and self.nt(real[0]) == ty:
                return self.evr(fr, st, real[0])
            for a in real:
                if self.nt(a).k in ("vec", "iter"):
                    raise Unsupported("set constructor from a range")
            return self.zero(ty)
        if ty.k == "ptr":
            if not real:
                return z3.IntVal(0)
            v = self.evr(fr, st, real[0])
            mv = self.moved_from(real[0])
            if mv is not None and ty.name == "unique_ptr":
                src = self.eval(fr, st, mv)
                if isinstance(src, Lv) and not isinstance(src, Val):
                    self.write(st, src, z3.IntVal(0))
            return v
        if ty.k == "tuple":
            if not real:
                return V({str(i): (self.zero(t) if t.k != "rec" else self.default_value(fr, st, t)) for i, t in enumerate(ty.a)})
            if len(real) == 1 and self.nt(real[0]).k == "tuple":
                return self.evr(fr, st, real[0])
            return V({str(i): self.convert(fr, st, ty.a[i], self.evr(fr, st, a), self.nt(a)) for i, a in enumerate(real)})
        if ty.k == "array":
            if len(real) == 1:
                return self.evr(fr, st, real[0])
            return self.default_value(fr, st, ty)
        if ty.k == "iter":
            if len(real) == 1:
                return self.evr(fr, st, real[0])
            raise Unsupported("iterator construction")
        if ty.k in ("fn", "empty", "opaque"):
            if len(real) == 1:
                v = self.evr(fr, st, real[0])
                return v
            return V({}) if ty.k == "empty" else self.fresh(ty, "opq")
        if ty.k in ("int", "real", "bool"):
            return self.evr(fr, st, real[0]) if real else self.zero(ty)
        raise Unsupported("construction of %r" % ty)

    # ------------------------------------------------------------ Grid<T>
    def grid_at(self, st, row, j):
        g = self.read(st, row.b)
        self.oblige(st, "grid access in range", z3.And(row.r >= 0, row.r < g.f["rows"], j >= 0, j < g.f["columns"]), "bounds")
        return GridE(row.b, row.r, j)
