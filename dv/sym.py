"""Statements, loops, state handling of the verifier (see core.py for the data structures)."""
import re
import z3
from .ty import *
from .cast import Program, ExtractError, Func
from . import core
from .core import *
from .core import _same
from .expr import ExprMixin
from .std import StdMixin


class Exec(ExprMixin, StdMixin):
    def __init__(self, prog, timeout=20):
        self.prog = prog
        self.ty = Types(prog)
        self.ty.keyfns = {}
        self.contracts = {}
        self.obls = []
        self.axioms = []
        self._axseen = set()
        self.n = 0
        self.cur = None
        self.cur_line = None
        self.inline_depth = 0
        self.used_assumed = set()
        self.inlined = set()
        self.under_contract = []
        self.check_bounds = True
        self.class_invariants = {}
        self.call_hooks = {}        # qualified name (no template args) -> handler(ex, st, thislv, args(lvs/values), node)
        self.field_hooks = {}
        self.global_values = {}
        self.max_unroll = 80
        self.split_paths = 8      # unrolled loops keep up to this many paths apart
        self.decisions = None
        self.heap_ty = {}
        self.assumptions = set()
        self.oblseen = set()
        self.unroll_syms = 0
        self.grid_bounds = True
        self.suppress = 0
        self._fkeys = {}
        self._g0 = {}
        self._h0 = {}
        self.check_overflow = False
        self.check_fdiv = False
        self.check_fcast = True
        self.check_sqrt = False
        self.zero_init_eigen = False
        self.periodic = []
        self.used_contracts = set()
        self.equal_hooks = {}
        def grid_ctor(ex, st, ty, args, f):
            r, c, v = [ex.rv(st, a) for a in args]
            ex.oblige(st, "a grid has a positive size", z3.And(r > 0, c > 0), "pre")
            e = ex.ty.grid_elem(ty)
            if e.k == "real" and z3.is_int(v):
                v = z3.ToReal(v)
            return V({"rows": r, "columns": c, "cells": tmap(lambda x: z3.K(I, z3.K(I, x)), v)})
        self.call_hooks[("Planner::Grid::Grid", 3)] = grid_ctor
        self.call_hooks["Planner::Grid::operator[]"] = lambda ex, st, this, args, f: RowPtr(ex.resolve(st, this), ex.rv(st, args[0]))

    # ------------------------------------------------------------ basics
    def fresh_name(self, base):
        self.n += 1
        return "%s!%d" % (base, self.n)

    def fresh_shape(self, shape, base):
        if isinstance(shape, dict):
            return V({k: self.fresh_shape(s, base + "." + k) for k, s in shape.items()})
        return z3.Const(self.fresh_name(base), shape)

    def fresh(self, ty, base="v"):
        return self.fresh_shape(self.ty.shape(ty), base)

    def type_facts(self, ty, v, deep=True):
        """Facts every value of a C++ type satisfies (ranges of integers, non-negative sizes)."""
        out = []
        k = ty.k
        if k == "int":
            if ty.name:
                return out
            lo = -(2 ** (ty.bits - 1)) if ty.signed else 0
            hi = 2 ** (ty.bits - 1) - 1 if ty.signed else 2 ** ty.bits - 1
            out += [v >= lo, v <= hi]
        elif k == "ref":
            out += self.type_facts(ty.a[0], v)
        elif k == "rec":
            if self.ty.grid_elem(ty) is not None:
                return [v.f["rows"] > 0, v.f["columns"] > 0]
            for n, t in self.ty.fields(ty):
                out += self.type_facts(t, v.f[n])
        elif k == "tuple":
            for i, t in enumerate(ty.a):
                out += self.type_facts(t, v.f[str(i)])
        elif k == "array":
            for i in range(int(ty.name)):
                out += self.type_facts(ty.a[0], v.f[str(i)])
        elif k == "vec":
            out += [v.len >= 0, v.len < 2 ** 62]
        elif k in ("set", "map", "pq"):
            out += [v.n >= 0]
        elif k == "ptr":
            if z3.is_expr(v):
                out += [v >= 0]
        return out

    def assume(self, st, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if not z3.is_true(f):
            st.pc.append(f)

    def axiom(self, f):
        k = f.hash(), str(f.sexpr()) if False else f.get_id()
        if k not in self._axseen:
            self._axseen.add(k)
            self.axioms.append(f)

    def oblige(self, st, name, goal, kind="assert", expect="unsat"):
        if self.suppress:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = goal
        if expect == "unsat" and z3.is_true(simp(g)):
            # still counted: discharged by simplification
            pass
        key = (name, kind, tuple(p.get_id() for p in st.pc), goal.get_id())
        if key in self.oblseen:
            return
        self.oblseen.add(key)
        o = Obligation(name, kind, list(st.pc), goal, self.cur.qname if self.cur else "?", self.cur_line, expect)
        o.ax = self.axioms          # shared list (grows)
        self.obls.append(o)

    # ------------------------------------------------------------ heap
    ghost_fields = {}        # class -> {field: sort}: ghost state attached to objects

    def heap_of(self, st, cls):
        """cls: type key of the pointee class (declaring class of the fields)."""
        if cls not in st.heap:
            ty = self.heap_ty.get(cls)
            if ty is None:
                ty = self.ty.parse(cls)
            shape = self.own_shape(ty)
            if cls in self.ghost_fields:
                shape = dict(shape, **self.ghost_fields[cls])
            v = self._heap0(cls, shape)
            st.heap[cls] = v
        return st.heap[cls]

    def _heap0(self, cls, shape):
        if self._h0 is None:
            self._h0 = {}
        if cls not in self._h0:
            self._h0[cls] = self.fresh_shape(lift(shape, [I]), "H_" + re.sub(r"\W+", "_", cls))
        return self._h0[cls]

    def own_shape(self, ty):
        """Shape of the fields a class declares itself (bases live in their own heap)."""
        if ty.k != "rec" or ty.name in ("Vec2", "Rot2", "Dist"):
            s = self.ty.shape(ty)
            return {"__v": s}
        if self.ty.grid_elem(ty) is not None:
            return self.ty.shape(ty)
        r = self.prog.find_record(ty.name)
        out = {}
        for b in r.bases:
            bt = self.ty.parse(b)
            if bt.k in ("set", "map", "vec"):
                out["__base"] = self.ty.shape(bt)
        for (n, t, node) in r.fields:
            try:
                out[n] = self.ty.shape(self.ty.parse(t))
            except TypeErr:
                pass
        return out

    def base_chain(self, clsname):
        """[class names] from clsname up through its record bases."""
        out = []
        r = self.prog.find_record(clsname)
        if r is None:
            return out
        out.append(r.name)
        for b in r.bases:
            bt = self.ty.parse(b)
            if bt.k == "rec":
                out += self.base_chain(bt.name)
        return out

    def declaring(self, clsname, field):
        if field in ("cells", "rows", "columns"):
            for c in self.base_chain(clsname):
                if self.ty.grid_elem(self.ty.parse(c)) is not None:
                    return c
        for c in self.base_chain(clsname):
            r = self.prog.find_record(c)
            if any(n == field for n, _, _ in r.fields):
                return c
            if field == "__base" and any(self.ty.parse(b).k in ("set", "map", "vec") for b in r.bases):
                return c
        raise ExtractError("field %s not found in %s" % (field, clsname))

    # ------------------------------------------------------------ read / write
    def read(self, st, lv):
        if isinstance(lv, Var):
            if lv.k not in st.store:
                raise ExtractError("read of dead variable %s" % (lv.k,))
            v = st.store[lv.k]
            if isinstance(v, Lv):
                return self.read(st, v)
            return v
        if isinstance(lv, Val):
            return lv.v
        if isinstance(lv, Fld):
            b = self.resolve(st, lv.b)
            if isinstance(b, Heap):
                d = self.declaring(b.cls, lv.n)
                h = self.heap_of(st, d)
                if lv.n not in h.f:
                    raise Unsupported("field %s of %s has no model" % (lv.n, d))
                return sel(h.f[lv.n], b.ref)
            if isinstance(b, PairOf):
                return self.read(st, KeyE(b.b, b.key, "el" if lv.n in ("first", "0") else "val"))
            v = self.read(st, b)
            if isinstance(v, V):
                if lv.n not in v.f:
                    raise Unsupported("no field %s in value" % lv.n)
                return v.f[lv.n]
            raise Unsupported("field %s of scalar" % lv.n)
        if isinstance(lv, Elem):
            v = self.read(st, lv.b)
            return sel(v.f["a"], lv.i)
        if isinstance(lv, ArrE):
            v = self.read(st, lv.b)
            c = concrete_int(lv.i)
            if c is not None:
                if str(c) not in v.f:
                    raise Unsupported("constant index out of range")
                return v.f[str(c)]
            r = v.f["0"]
            for k in range(1, lv.n):
                r = merge_tree(lv.i == k, v.f[str(k)], r)
            return r
        if isinstance(lv, GridE):
            v = self.read(st, lv.b)
            return sel(v.f["cells"], lv.r, lv.c)
        if isinstance(lv, Heap):
            ty = self.ty.parse(lv.cls) if isinstance(lv.cls, str) else lv.cls
            if ty.k != "rec" or ty.name in ("Vec2", "Rot2", "Dist"):
                return sel(self.heap_of(st, lv.cls).f["__v"], lv.ref)
            out = {}
            for c in self.base_chain(ty.name):
                h = self.heap_of(st, c)
                for n in h.f:
                    out[n] = sel(h.f[n], lv.ref)
            return V(out)
        if isinstance(lv, KeyE):
            v = self.read(st, lv.b)
            return sel(v.f[lv.part], *lv.key)
        if isinstance(lv, PairOf):
            v = self.read(st, lv.b)
            return V({"0": sel(v.f["el"], *lv.key), "1": sel(v.f["val"], *lv.key)})
        raise Unsupported("read %r" % (lv,))

    def resolve(self, st, lv):
        """Follow references to the designated object."""
        while isinstance(lv, Var) and isinstance(st.store.get(lv.k), Lv):
            lv = st.store[lv.k]
        return lv

    def write(self, st, lv, val):
        if isinstance(lv, Var):
            cur = st.store.get(lv.k)
            if isinstance(cur, Lv):
                self.write(st, cur, val)
            else:
                st.store[lv.k] = val
            return
        if isinstance(lv, Val):
            lv.v = val
            return
        if isinstance(lv, Fld):
            b = self.resolve(st, lv.b)
            if isinstance(b, Heap):
                d = self.declaring(b.cls, lv.n)
                h = self.heap_of(st, d)
                st.heap[d] = h.set(lv.n, sto(h.f[lv.n], b.ref, val))
                return
            if isinstance(b, PairOf):
                self.write(st, KeyE(b.b, b.key, "el" if lv.n in ("first", "0") else "val"), val)
                return
            v = self.read(st, b)
            self.write(st, b, v.set(lv.n, val))
            return
        if isinstance(lv, Elem):
            v = self.read(st, lv.b)
            self.write(st, lv.b, v.set("a", sto(v.f["a"], lv.i, val)))
            return
        if isinstance(lv, ArrE):
            v = self.read(st, lv.b)
            c = concrete_int(lv.i)
            if c is not None:
                self.write(st, lv.b, v.set(str(c), val))
                return
            for k in range(lv.n):
                v = v.set(str(k), merge_tree(lv.i == k, val, v.f[str(k)]))
            self.write(st, lv.b, v)
            return
        if isinstance(lv, GridE):
            v = self.read(st, lv.b)
            self.write(st, lv.b, v.set("cells", sto(v.f["cells"], [lv.r, lv.c], val)))
            return
        if isinstance(lv, Heap):
            ty = self.ty.parse(lv.cls) if isinstance(lv.cls, str) else lv.cls
            if ty.k != "rec" or ty.name in ("Vec2", "Rot2", "Dist"):
                h = self.heap_of(st, lv.cls)
                st.heap[lv.cls] = h.set("__v", sto(h.f["__v"], lv.ref, val))
                return
            for c in self.base_chain(ty.name):
                h = self.heap_of(st, c)
                for n in list(h.f):
                    if n in val.f:
                        h = h.set(n, sto(h.f[n], lv.ref, val.f[n]))
                st.heap[c] = h
            return
        if isinstance(lv, KeyE):
            v = self.read(st, lv.b)
            self.write(st, lv.b, v.set(lv.part, sto(v.f[lv.part], list(lv.key), val)))
            return
        raise Unsupported("write %r" % (lv,))

    # ------------------------------------------------------------ names
    def lookup_name(self, st, frame, name):
        f = frame
        while f is not None:
            for n, k in reversed(f.order):
                if n == name and k in st.store:
                    return self.read(st, Var(k))
            f = f.parent
        return None

    def declare(self, st, frame, decl, val):
        k = "%s#%d#%s" % (decl.get("name", "_"), frame.id, decl["id"])
        frame.vars[decl["id"]] = k
        if (decl.get("name", "_"), k) not in frame.order:
            frame.order.append((decl.get("name", "_"), k))
        st.store[k] = val
        st.names[k] = k
        return k

    def var_key(self, frame, declid):
        f = frame
        while f is not None:
            if declid in f.vars:
                return f.vars[declid]
            f = f.parent
        return None

    # ------------------------------------------------------------ forking at statement level
    def fork(self, st, n, conds):
        """Nondeterministic choice among n alternatives inside an expression; conds[i] is assumed."""
        if self.decisions is None:
            raise Unsupported("fork outside a statement")
        dec, pos = self.decisions
        if pos < len(dec):
            i = dec[pos][0]
        else:
            dec.append([0, n])
            i = 0
        self.decisions = (dec, pos + 1)
        st2 = conds[i]
        return i, st2

    def run_forking(self, st, thunk):
        """Run thunk(state copy) for every resolution of its internal choices: [(result, state)]."""
        out = []
        saved = self.decisions
        dec = []
        while True:
            self.decisions = (dec, 0)
            s = st.copy()
            nobl = len(self.obls)
            r = thunk(s)
            out.append((r, s))
            while dec and dec[-1][0] + 1 >= dec[-1][1]:
                dec.pop()
            if not dec:
                break
            dec[-1][0] += 1
            if len(out) > 400:
                raise Unsupported("too many paths")
        self.decisions = saved
        return out

    # ------------------------------------------------------------ statements
    # outcome: (kind, state, value) with kind in norm, ret, brk, cont, throw
    def exec(self, fr, st, n):
        k = n.get("kind")
        if n.get("_line"):
            self.cur_line = n["_line"]
        if k is None or k in ("NullStmt",):
            return [("norm", st, None)]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(fr, st, n)
        if k.endswith("Comment"):
            return [("norm", st, None)]
        # expression statement
        res = self.run_forking(st, lambda s: self.eval(fr, s, n))
        return [("norm", s, None) for _, s in res if not self.dead(s)]

    def dead(self, s):
        return any(z3.is_false(p) for p in s.pc[-3:])

    def s_CompoundStmt(self, fr, st, n):
        return self.seq(fr, st, n.get("inner", []))

    def seq(self, fr, st, stmts):
        outs, cur = [], [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.exec(fr, c, s):
                    if o[0] == "norm":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = self.join(nxt)
            if not cur:
                break
        return outs + [("norm", c, None) for c in cur]

    def join(self, states):
        return states

    def s_DeclStmt(self, fr, st, n):
        cur = [st]
        for d in n.get("inner", []):
            nxt = []
            for c in cur:
                for _, s in self.run_forking(c, lambda s, d=d: self.decl(fr, s, d)):
                    nxt.append(s)
            cur = nxt
        return [("norm", c, None) for c in cur]

    def decl(self, fr, st, d):
        k = d["kind"]
        if k == "VarDecl":
            if "profile" in d.get("name", "").lower() or "InstrumentationTimer" in d["type"].get("qualType", ""):
                return
            ty = self.ty.node_type(d)
            inits = [c for c in d.get("inner", []) if not c["kind"].endswith("Comment") and not c["kind"].endswith("Attr")]
            if ty.k == "ref":
                v = self.eval(fr, st, inits[0])
                lv = self.to_lv(st, v)
                if isinstance(lv, Val):
                    v = lv.v
                    self.declare(st, fr, d, v)
                else:
                    self.declare(st, fr, d, self.resolve(st, lv))
                return
            if inits:
                v = self.rv(st, self.eval(fr, st, inits[0]))
                v = self.coerce_agg(ty, v)
            else:
                v = self.default_value(fr, st, ty, d)
            self.declare(st, fr, d, v)
            return
        if k == "DecompositionDecl":
            inits = [c for c in d.get("inner", []) if c["kind"] != "BindingDecl"]
            binds = [c for c in d.get("inner", []) if c["kind"] == "BindingDecl"]
            ty = self.ty.node_type(d)
            v = self.eval(fr, st, inits[0])
            if ty.k == "ref":
                lv = self.resolve(st, self.to_lv(st, v))
                if isinstance(lv, Val):
                    self.declare(st, fr, d, lv.v)
                    base = Var(fr.vars[d["id"]])
                else:
                    base = lv
            else:
                self.declare(st, fr, d, self.rv(st, v))
                base = Var(fr.vars[d["id"]])
            self.bind(fr, st, binds, base)
            return
        if k in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl", "UsingDirectiveDecl", "EmptyDecl"):
            return
        raise Unsupported("declaration " + k)

    def bind(self, fr, st, binds, base):
        bv = self.read(st, base) if not isinstance(base, (Heap, PairOf)) else None
        fields = None
        if isinstance(bv, V):
            fields = list(bv.f)
        for i, b in enumerate(binds):
            if isinstance(base, PairOf):
                nm = str(i)
            else:
                nm = fields[i]
            k = "%s#%d#%s" % (b.get("name", "_"), fr.id, b["id"])
            fr.vars[b["id"]] = k
            if (b.get("name"), k) not in fr.order:
                fr.order.append((b.get("name"), k))
            st.store[k] = Fld(base, nm)
            st.names[k] = k
            for c in b.get("inner", []):
                if c.get("kind") == "VarDecl":
                    fr.vars[c["id"]] = k

    def cond(self, fr, st, n):
        """[(z3 bool, state)] for a condition expression."""
        out = []
        for v, s in self.run_forking(st, lambda s: self.to_bool(s, self.eval(fr, s, n))):
            out.append((v, s))
        return out

    def s_IfStmt(self, fr, st, n):
        inner = [c for c in n.get("inner", [])]
        pre = []
        if n.get("hasInit"):
            pre.append(inner.pop(0))
        if n.get("hasVar"):
            pre.append(inner.pop(0))
        outs = []
        states = [st]
        for p in pre:
            nx = []
            for s in states:
                for o in self.exec(fr, s, p):
                    nx.append(o[1])
            states = nx
        c, th = inner[0], inner[1]
        el = inner[2] if len(inner) > 2 else None
        if n.get("isConstexpr"):
            v = self._constexpr(c)
            if v is None:
                raise Unsupported("if constexpr condition")
            tgt = th if v else el
            for s in states:
                if tgt is None:
                    outs.append(("norm", s, None))
                else:
                    outs += self.exec(fr, s, tgt)
            return outs
        for s0 in states:
            for cv, s in self.cond(fr, s0, c):
                cb = concrete_bool(cv)
                if cb is True:
                    outs += self.exec(fr, s, th)
                    continue
                if cb is False:
                    outs += self.exec(fr, s, el) if el is not None else [("norm", s, None)]
                    continue
                base = len(s.pc)
                a, b = s.copy(), s.copy()
                a.pc.append(cv)
                b.pc.append(z3.Not(cv))
                oa = self.exec(fr, a, th)
                ob = self.exec(fr, b, el) if el is not None else [("norm", b, None)]
                na = [o for o in oa if o[0] == "norm"]
                nb = [o for o in ob if o[0] == "norm"]
                outs += [o for o in oa + ob if o[0] != "norm"]
                if len(na) == 1 and len(nb) == 1:
                    try:
                        outs.append(("norm", merge_states(cv, na[0][1], nb[0][1], base, self._h0), None))
                        continue
                    except NoMerge:
                        pass
                outs += na + nb
        return outs

    def _constexpr(self, c):
        k = c.get("kind")
        if k == "ConstantExpr" and "value" in c:
            return str(c["value"]).lower() in ("true", "1")
        if k == "CXXBoolLiteralExpr":
            return c["value"]
        for x in c.get("inner", []):
            v = self._constexpr(x)
            if v is not None:
                if k == "UnaryOperator" and c.get("opcode") == "!":
                    return not v
                return v
        return None

    def s_ReturnStmt(self, fr, st, n):
        inner = n.get("inner", [])
        if not inner:
            return [("ret", st, None)]
        def th(s):
            v = self.eval(fr, s, inner[0])
            rt = fr.fn.rettype() if fr.fn is not None and hasattr(fr.fn, "rettype") else ""
            if rt.endswith("&"):
                return self.to_lv(s, v)
            r = self.rv(s, v)
            try:
                t = self.ty.parse(rt) if rt and rt != "auto" else None
            except TypeErr:
                t = None
            if t is not None:
                r = self.coerce_agg(t, r)
            return r
        return [("ret", s, v) for v, s in self.run_forking(st, th)]

    def s_BreakStmt(self, fr, st, n):
        return [("brk", st, None)]

    def s_ContinueStmt(self, fr, st, n):
        return [("cont", st, None)]

    def s_CXXThrowExpr(self, fr, st, n):
        return [("throw", st, None)]

    def s_ExprWithCleanups(self, fr, st, n):
        inner = n["inner"][0]
        if inner.get("kind") == "CXXThrowExpr":
            return [("throw", st, None)]
        res = self.run_forking(st, lambda s: self.eval(fr, s, n))
        return [("norm", s, None) for _, s in res]

    def s_SwitchStmt(self, fr, st, n):
        inner = n["inner"]
        cexpr, body = inner[-2], inner[-1]
        outs = []
        for v, s in self.run_forking(st, lambda s: self.rv(s, self.eval(fr, s, cexpr))):
            # collect the labelled statement list
            items = body.get("inner", [])
            flat = []          # (labels or None, stmt)
            for it in items:
                labels = []
                x = it
                while x.get("kind") in ("CaseStmt", "DefaultStmt"):
                    if x["kind"] == "CaseStmt":
                        lab = self.rv(s, self.eval(fr, s, x["inner"][0]))
                        labels.append(lab)
                        x = x["inner"][-1]
                    else:
                        labels.append("default")
                        x = x["inner"][-1]
                flat.append((labels, x))
            caseconds = []
            for labels, _ in flat:
                for l in labels:
                    if not isinstance(l, str):
                        caseconds.append(v == l)
            entries = []
            for i, (labels, _) in enumerate(flat):
                for l in labels:
                    if isinstance(l, str):
                        c = z3.Not(z3.Or(*caseconds)) if caseconds else z3.BoolVal(True)
                    else:
                        c = (v == l)
                    entries.append((i, c))
            if not any(isinstance(l, str) for labels, _ in flat for l in labels):
                entries.append((len(flat), z3.Not(z3.Or(*caseconds))))
            norms = []
            for i, c in entries:
                cb = concrete_bool(c)
                if cb is False:
                    continue
                s1 = s.copy()
                base = len(s1.pc)
                if cb is not True:
                    s1.pc.append(c)
                for o in self.seq(fr, s1, [x for _, x in flat[i:]]):
                    if o[0] in ("norm", "brk"):
                        norms.append((c, o[1], base))
                    else:
                        outs.append(o)
                if cb is True:
                    break
            outs += self.merge_norms(norms)
        return outs

    def merge_norms(self, norms):
        """[(cond, state, base)] with mutually exclusive conds -> outcomes."""
        if not norms:
            return []
        acc = norms[-1][1]
        rest = norms[:-1]
        base = norms[-1][2]
        done = []
        for c, s, b in reversed(rest):
            try:
                acc = merge_states(c, s, acc, b, self._h0)
            except NoMerge:
                done.append(("norm", s, None))
        return done + [("norm", acc, None)]

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, fr, st, n):
        init, condvar, cond, inc, body = n["inner"][0], n["inner"][1], n["inner"][2], n["inner"][3], n["inner"][4]
        outs = []
        for o in self.exec(fr, st, init):
            if o[0] != "norm":
                outs.append(o)
                continue
            outs += self.loop(fr, o[1], n, cond if cond.get("kind") else None,
                              lambda s: self.exec(fr, s, inc), body)
        return outs

    def s_WhileStmt(self, fr, st, n):
        inner = n["inner"]
        cond, body = inner[-2], inner[-1]
        return self.loop(fr, st, n, cond, lambda s: [("norm", s, None)], body)

    def s_DoStmt(self, fr, st, n):
        raise Unsupported("do-while")

    def s_CXXForRangeStmt(self, fr, st, n):
        inner = n["inner"]
        # init, range, begin, end, cond, inc, loopvar, body
        rng = [c for c in inner if c.get("kind") == "DeclStmt" and c["inner"][0].get("name", "").startswith("__range")][0]
        body = inner[-1]
        lvdecl = inner[-2]["inner"][0]
        rdecl = rng["inner"][0]
        rty = self.ty.node_type(rdecl)
        base_t = rty.a[0] if rty.k == "ref" else rty
        outs = []
        def ev(s):
            return self.eval(fr, s, rdecl["inner"][0])
        for v, s in self.run_forking(st, ev):
            lv = self.resolve(s, self.to_lv(s, v))
            if isinstance(lv, Val):
                self.declare(s, fr, rdecl, lv.v)
                lv = Var(fr.vars[rdecl["id"]])
            outs += self.range_loop(fr, s, n, lv, base_t, lvdecl, body)
        return outs

    def range_loop(self, fr, st, n, clv, cty, lvdecl, body):
        cv = self.read(st, clv)
        idxdecl = {"id": "idx" + n["id"], "name": "__pos"}
        if cty.k == "rec":
            # class with begin()/end() of its own: iterate the container it exposes
            f = self.method(cty.name, "begin")
            if f is None:
                raise Unsupported("range over " + repr(cty))
            it = self.call_user(fr, st, f, clv, [])
            clv = it.c
            cv = self.read(st, clv)
            cty = Ty("vec", [None])
        if cty.k == "array":
            cnt = z3.IntVal(int(cty.name))
            mk = lambda s: ArrE(clv, self.read(s, Var(fr.vars[idxdecl["id"]])), int(cty.name))
            length = lambda s: cnt
        elif cty.k in ("vec",):
            mk = lambda s: Elem(clv, self.read(s, Var(fr.vars[idxdecl["id"]])))
            length = lambda s: self.read(s, clv).f["len"]
        elif cty.k in ("set", "map"):
            return self.set_loop(fr, st, n, clv, cty, lvdecl, body)
        else:
            raise Unsupported("range-for over " + repr(cty))
        self.declare(st, fr, idxdecl, z3.IntVal(0))
        self.declare(st, fr, {"id": "rng" + n["id"], "name": "__range"}, clv)
        pos = lambda s: self.read(s, Var(fr.vars[idxdecl["id"]]))

        def condf(s):
            return [(pos(s) < length(s), s)]

        def incf(s):
            s.store[fr.vars[idxdecl["id"]]] = simp(pos(s) + 1)
            return [("norm", s, None)]

        def bodyf(s):
            e = mk(s)
            if lvdecl["kind"] == "DecompositionDecl":
                ty = self.ty.node_type(lvdecl)
                binds = [c for c in lvdecl.get("inner", []) if c["kind"] == "BindingDecl"]
                if ty.k != "ref":
                    self.declare(s, fr, lvdecl, self.read(s, e))
                    e = Var(fr.vars[lvdecl["id"]])
                self.bind(fr, s, binds, e)
            else:
                ty = self.ty.node_type(lvdecl)
                if ty.k == "ref":
                    self.declare(s, fr, lvdecl, e)
                else:
                    self.declare(s, fr, lvdecl, self.read(s, e))
            return self.exec(fr, s, body)
        return self.loop(fr, st, n, None, incf, None, condf=condf, bodyf=bodyf)

    def set_loop(self, fr, st, n, clv, cty, lvdecl, body):
        """Iteration over a set/map: every element once, in an unspecified order (sound for any order)."""
        sorts = self.ty.keysorts(cty)
        vis = {"id": "vis" + n["id"], "name": "__visited"}
        key = {"id": "key" + n["id"], "name": "__key"}
        self.declare(st, fr, vis, V({"has": self.const_lift(sorts, z3.BoolVal(False))}))
        self.declare(st, fr, key, V({str(i): self.fresh_shape(srt, "key") for i, srt in enumerate(sorts)}))
        self.declare(st, fr, {"id": "rng" + n["id"], "name": "__range"}, clv)
        vk, kk = fr.vars[vis["id"]], fr.vars[key["id"]]
        start = self.read(st, clv)

        def condf(s):
            cur = self.read(s, clv)
            if not all(x.eq(y) for x, y in zip(leaves(cur), leaves(start))) and not self.set_changes_ok:
                raise Unsupported("a set is changed while it is iterated over")
            has, seen = cur.f["has"], s.store[vk].f["has"]
            more, done = s.copy(), s
            ks = [self.fresh_shape(srt, "key") for srt in sorts]
            more.store[kk] = V({str(i): k for i, k in enumerate(ks)})
            h, v = has, seen
            for k in ks:
                h, v = sel(h, k), sel(v, k)
            self.assume(more, z3.And(h, z3.Not(v)))
            qs = [z3.Const(self.fresh_name("k"), srt) for srt in sorts]
            h, v = has, seen
            for k in qs:
                h, v = sel(h, k), sel(v, k)
            self.assume(done, z3.ForAll(qs, z3.Implies(h, v)))
            return [(z3.BoolVal(True), more), (z3.BoolVal(False), done)]

        def mark(a, ks):
            return z3.Store(a, ks[0], z3.BoolVal(True)) if len(ks) == 1 else z3.Store(a, ks[0], mark(z3.Select(a, ks[0]), ks[1:]))

        def incf(s):
            ks = [s.store[kk].f[str(i)] for i in range(len(sorts))]
            s.store[vk] = V({"has": mark(s.store[vk].f["has"], ks)})
            return [("norm", s, None)]

        def bodyf(s):
            ks = [s.store[kk].f[str(i)] for i in range(len(sorts))]
            e = KeyE(clv, ks, "el") if cty.k == "set" else PairOf(clv, ks)
            if cty.k == "set" and self.ty.keyfn(cty) is None:
                # the element is its own key
                it = iter(ks)
                e = Val(tmap(lambda _: next(it), self.read(s, e)))
            if cty.k == "map" and self.ty.keyfn(cty) is None:
                it = iter(ks)
                for x in leaves(sel(self.read(s, clv).f["el"], *ks)):
                    self.assume(s, x == next(it))
            ty = self.ty.node_type(lvdecl)
            if lvdecl["kind"] == "DecompositionDecl":
                self.bind(fr, s, [c for c in lvdecl.get("inner", []) if c["kind"] == "BindingDecl"], e)
            else:
                self.declare(s, fr, lvdecl, e if ty.k == "ref" else self.read(s, e))
            return self.exec(fr, s, body)
        return self.loop(fr, st, n, None, incf, None, condf=condf, bodyf=bodyf)

    set_changes_ok = False

    def const_lift(self, sorts, v):
        for srt in reversed(sorts):
            v = z3.K(srt, v)
        return v

    def loop(self, fr, st, node, cond, incf, body, condf=None, bodyf=None):
        if condf is None:
            if cond is None:
                condf = lambda s: [(z3.BoolVal(True), s)]
            else:
                condf = lambda s: self.cond(fr, s, cond)
        if bodyf is None:
            bodyf = lambda s: self.exec(fr, s, body)
        line = node.get("_line")
        # 1. constant trip count: unroll completely
        spec = self.find_spec(fr, st, node)
        if spec is None:
            return self.unroll(fr, st, node, condf, incf, bodyf, line)
        return self.cut(fr, st, node, condf, incf, bodyf, spec, line)

    def root_frame(self, fr):
        while fr.contract is None and getattr(fr, "caller", None) is not None:
            fr = fr.caller
        return fr

    def find_spec(self, fr, st, node):
        root = self.root_frame(fr)
        con = root.contract
        if con is None or not con.loops:
            return None
        reg = root.__dict__.setdefault("loopmap", {})
        if node["id"] in reg:
            return reg[node["id"]]
        # annotations are matched to the loops of the function in the order in which they are met;
        # a loop whose trip count is constant never takes one
        if self.trip_constant(fr, st, node):
            for sp in con.loops:
                if sp.constant is not None and sp.constant(self, fr, st, node):
                    reg[node["id"]] = sp
                    return sp
            reg[node["id"]] = None
            return None
        k = root.__dict__.setdefault("loopnext", 0)
        specs = con.loops
        # prefer a spec with a matcher
        used = root.__dict__.setdefault("loopused", set())
        for i, sp in enumerate(specs):
            if sp.match is not None and (i not in used):
                try:
                    ok = sp.match(self, fr, st, node)
                except AttachError:
                    ok = False
                if ok:
                    reg[node["id"]] = sp
                    used.add(i)
                    return sp
        for i, sp in enumerate(specs):
            if sp.match is None and i not in used:
                used.add(i)
                reg[node["id"]] = sp
                return sp
        raise AttachError("no annotation left for the loop at line %s of %s" % (node.get("_line"), fr.fn.qname))

    def trip_constant(self, fr, st, node):
        if node["kind"] == "CXXForRangeStmt":
            return "std::array" in json_type(node)
        if node["kind"] == "ForStmt":
            cond = node["inner"][2]
            try:
                save = self.suppress
                self.suppress += 1
                r = self.cond(fr, st.copy(), cond)
                self.suppress = save
            except Exception:
                self.suppress = save
                return False
            return len(r) == 1 and concrete_bool(r[0][0]) is not None and concrete_bool(r[0][0]) is True and not self._sym_bound(fr, st, cond)
        return False

    def _sym_bound(self, fr, st, cond):
        """Does the loop condition read anything that is not a literal constant?"""
        syms = []
        def walk(x):
            if x.get("kind") == "DeclRefExpr":
                k = self.var_key(fr, x["referencedDecl"]["id"])
                if k is not None and k in st.store:
                    v = st.store[k]
                    if isinstance(v, Lv):
                        v = self.read(st, v)
                    if not (z3.is_expr(v) and concrete_int(v) is not None):
                        syms.append(k)
            elif x.get("kind") in ("MemberExpr", "CXXThisExpr", "CXXMemberCallExpr", "CallExpr"):
                if x.get("kind") != "MemberExpr":
                    syms.append(x["kind"])
            for c in x.get("inner", []):
                walk(c)
        walk(cond)
        return bool(syms)

    def feasible(self, st):
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*st.pc)
        return s.check() != z3.unsat

    def unroll(self, fr, st, node, condf, incf, bodyf, line):
        outs, cur = [], [st]
        keep, base = set(st.store), len(st.pc)
        for it in range(self.max_unroll + 1):
            nxt = []
            for s0 in cur:
                for cv, s in condf(s0):
                    cb = concrete_bool(cv)
                    if cb is None:
                        # a test that depends on the inputs: follow both sides, as long as complete unrolling ends
                        if it > 12:
                            raise NeedInvariant("loop at line %s of %s needs an invariant" % (line, fr.fn.qname if fr.fn else "?"))
                        out = s.copy()
                        self.assume(out, z3.Not(cv))
                        if self.feasible(out):
                            outs.append(("norm", out, None))
                        self.assume(s, cv)
                        if not self.feasible(s):
                            continue
                    if cb is False:
                        outs.append(("norm", s, None))
                        continue
                    for o in bodyf(s):
                        if o[0] in ("norm", "cont"):
                            for o2 in incf(o[1]):
                                nxt.append(o2[1])
                        elif o[0] == "brk":
                            outs.append(("norm", o[1], None))
                        else:
                            outs.append(o)
            cur = self.merge_many(nxt, keep, base)
            if not cur:
                return outs
        raise NeedInvariant("loop at line %s does not unroll" % line)

    def merge_many(self, states, keep, base):
        """Merge the states in which an unrolled iteration ends (path conditions share the first base entries)."""
        states = [s for s in states if not self.dead(s)]
        if len(states) < 2 or len(states) <= self.split_paths:
            return states
        n = min(len(s.pc) for s in states)
        while base < n and all(s.pc[base].eq(states[0].pc[base]) for s in states):
            base += 1
        try:
            cs = self.suffix_conds(states, base)
            m = states[-1]
            for s, c in zip(reversed(states[:-1]), reversed(cs[:-1])):
                m = self.merge_with(c, s, m, keep)
            m.pc = list(states[0].pc[:base]) + [z3.Or(*cs)]
            return [m]
        except NoMerge:
            return states

    def snapshot_keys(self, st):
        return dict(st.store), dict(st.heap), dict(st.ghost), st.alloc

    def diff_paths(self, a, b, path, out):
        if a is b:
            return
        if isinstance(a, V) and isinstance(b, V) and a.f.keys() == b.f.keys():
            for k in a.f:
                self.diff_paths(a.f[k], b.f[k], path + (k,), out)
            return
        if z3.is_expr(a) and z3.is_expr(b):
            if a.eq(b):
                return
            out.add(path)
            return
        if isinstance(a, It) and isinstance(b, It):
            if a.c == b.c and a.rev == b.rev:
                if not a.i.eq(b.i):
                    out.add(path)
                return
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv == b.lv:
            return
        if isinstance(a, Lv) and isinstance(b, Lv) and a == b:
            return
        if isinstance(a, KIt) and isinstance(b, KIt) and a.c == b.c:
            out.add(path)
            return
        if isinstance(a, Closure) and isinstance(b, Closure):
            return
        if isinstance(a, str) and isinstance(b, str):
            if a == b:
                return
        out.add(path)

    def havoc_path(self, v, path, base):
        if not path:
            if isinstance(v, V):
                return V({k: self.havoc_path(x, (), base + "." + k) for k, x in v.f.items()})
            if z3.is_expr(v):
                return z3.Const(self.fresh_name(base), v.sort())
            if isinstance(v, It):
                return It(v.c, z3.Int(self.fresh_name(base + ".it")), v.rev)
            if isinstance(v, KIt):
                return KIt(v.c, z3.Bool(self.fresh_name(base + ".found")), [z3.Const(self.fresh_name(base + ".k"), x.sort()) for x in v.key])
            raise Unsupported("cannot havoc %r (%s)" % (v, base))
        return v.set(path[0], self.havoc_path(v.f[path[0]], path[1:], base + "." + path[0]))

    def loop_mods(self, fr, st, condf, incf, bodyf):
        """Leaf paths changed by one arbitrary iteration, to a fixpoint."""
        mods = set()
        save_sup, save_obl, save_seen = self.suppress, self.obls, self.oblseen
        save_hdr = self.n
        for rnd in range(8):
            self.suppress = save_sup + 1
            s = self.havoc_state(st, mods)
            ends = []
            for cv, s1 in condf(s.copy()):
                if concrete_bool(cv) is False:
                    ends.append(s1)
                    continue
                ends.append(s1)
                for o in bodyf(s1.copy()):
                    if o[0] in ("norm", "cont"):
                        for o2 in incf(o[1]):
                            ends.append(o2[1])
            new = set(mods)
            for e in ends:
                for k, v in s.store.items():
                    if k in e.store:
                        ps = set()
                        self.diff_paths(v, e.store[k], (), ps)
                        for p in ps:
                            new.add(("store", k, p))
                for k, v in e.heap.items():
                    base = s.heap.get(k)
                    if base is None:
                        base = self._h0.get(k)
                    if base is None:
                        continue
                    ps = set()
                    self.diff_paths(base, v, (), ps)
                    for p in ps:
                        new.add(("heap", k, p))
                for k, v in s.ghost.items():
                    ps = set()
                    self.diff_paths(v, e.ghost[k], (), ps)
                    for p in ps:
                        new.add(("ghost", k, p))
                if s.alloc is not None and not s.alloc.eq(e.alloc):
                    new.add(("alloc", "", ()))
            self.suppress = save_sup
            if new == mods:
                return mods
            mods = new
        raise Unsupported("loop modification set does not stabilise")

    def havoc_state(self, st, mods):
        s = st.copy()
        for (w, k, p) in sorted(mods, key=lambda x: (x[0], str(x[1]), len(x[2]), x[2])):
            if w == "store" and k in s.store:
                s.store[k] = self.havoc_path(s.store[k], p, k.split("#")[0])
            elif w == "heap":
                if k not in s.heap:
                    s.heap[k] = self._h0[k]
                s.heap[k] = self.havoc_path(s.heap[k], p, "H")
            elif w == "ghost":
                s.ghost[k] = self.havoc_path(s.ghost[k], p, "g_" + k)
            elif w == "alloc":
                old = s.alloc
                s.alloc = z3.Int(self.fresh_name("alloc"))
                s.pc.append(s.alloc >= old)
        for k in sorted({k for (w, k, p) in mods if w == "store"}):
            for x in self.lengths(s.store.get(k)):
                if z3.is_const(x) and x.sort() == I:
                    s.pc.append(x >= 0)
        return s

    def lengths(self, v):
        """Length fields of the sequences inside a value."""
        if isinstance(v, V):
            if "len" in v.f and "a" in v.f:
                return [v.f["len"]]
            return [y for x in v.f.values() for y in self.lengths(x)]
        return []

    def heap_frame(self, old, new, limit):
        """Objects below limit are the same in two heap trees (list of facts)."""
        out = []
        for a, b in zip(leaves(old), leaves(new)):
            if a.eq(b):
                continue
            r = z3.Int(self.fresh_name("r"))
            out.append(z3.ForAll([r], z3.Implies(z3.And(r > 0, r < limit), z3.Select(b, r) == z3.Select(a, r)), **({"patterns": [z3.Select(b, r)]} if z3.is_const(b) else {})))
        return out

    def fresh_frame(self, st, e, mods, limit=None):
        """The loop only writes to objects it (or its function, with limit) allocated itself."""
        out = []
        for k in sorted({k for (w, k, p) in mods if w == "heap"}):
            a = st.heap.get(k, self._h0.get(k))
            for f in self.heap_frame(a, e.heap[k], st.alloc if limit is None else limit):
                out.append(("existing %s objects are untouched" % k.split("::")[-1], f))
        return out

    def loop_ctx(self, fr, st, root, entry, node):
        c = Ctx(self, st, this=root.this if root.this is not None else fr.this, args=root.__dict__.get("args"), old=root.__dict__.get("oldctx"), frame=fr)
        c.entry = entry
        c.node = node
        c.rootframe = root
        return c

    def cut(self, fr, st, node, condf, incf, bodyf, spec, line):
        root = self.root_frame(fr)
        entry = Ctx(self, st.copy(), this=root.this if root.this is not None else fr.this, args=root.__dict__.get("args"), old=root.__dict__.get("oldctx"), frame=fr)
        tag = "loop@%s" % line
        c0 = self.loop_ctx(fr, st, root, entry, node)
        for lab, f in spec.inv(c0):
            self.oblige(st, "%s: invariant '%s' holds on entry" % (tag, lab), f, "inv-init")
        mods = self.loop_mods(fr, st, condf, incf, bodyf)
        for x in (spec.havoc or []):
            mods |= x
        s = self.havoc_state(st, mods)
        limit = c0.old.st.alloc if spec.fresh_only == "function" else None
        if spec.fresh_only:
            for lab, f in self.fresh_frame(st, s, mods, limit):
                self.assume(s, f)
        ch = self.loop_ctx(fr, s, root, entry, node)
        for lab, f in spec.inv(ch):
            self.assume(s, f)
        if spec.lemma:
            for lab, f in spec.lemma(ch):
                self.oblige(s, "%s: lemma '%s'" % (tag, lab), f, "lemma")
                self.assume(s, f)
        v0 = spec.variant(ch) if spec.variant else None
        outs = []
        branches = [(cv, s1, True, True) for cv, s1 in condf(s.copy())] if not spec.forget else []
        if spec.forget:
            # the body is checked from the invariant alone: quantified facts of the code before the loop are dropped
            lean = s.copy()
            old = {p.get_id() for p in st.pc if spec.forget(p)}
            lean.pc = [p for p in lean.pc if p.get_id() not in old]
            branches = [(cv, s1, True, False) for cv, s1 in condf(lean)] + [(cv, s1, False, True) for cv, s1 in condf(s.copy())]
        for cv, s1, inbody, atexit in branches:
            cb = concrete_bool(cv)
            if cb is not False and inbody:
                b = s1.copy()
                if cb is None:
                    b.pc.append(cv)
                for o in bodyf(b):
                    if o[0] in ("norm", "cont"):
                        for o2 in incf(o[1]):
                            e = o2[1]
                            self.cur_line = line
                            ce = self.loop_ctx(fr, e, root, entry, node)
                            ce.head = ch
                            for lab, f in spec.inv(ce):
                                self.oblige(e, "%s: invariant '%s' is preserved" % (tag, lab), f, "inv-pres")
                            if spec.fresh_only:
                                for lab, f in self.fresh_frame(st, e, mods, limit):
                                    self.oblige(e, "%s: %s" % (tag, lab), f, "inv-pres")
                            if v0 is not None:
                                v1 = spec.variant(ce)
                                self.oblige(e, "%s: variant decreases and is bounded" % tag, (z3.And(v0 >= 0, v1 <= v0 - 1) if v0.sort() == R else z3.And(v0 >= 0, v1 < v0)), "variant")
                    elif o[0] == "brk":
                        outs.append(("norm", o[1], None))
                    else:
                        outs.append(o)
            if cb is not True and atexit:
                e = s1.copy()
                if cb is None:
                    e.pc.append(z3.Not(cv))
                outs.append(("norm", e, None))
        return outs

    # ------------------------------------------------------------ values
    def to_lv(self, st, v):
        if isinstance(v, Lv):
            return v
        return Val(v)

    def rv(self, st, v):
        if isinstance(v, Lv):
            return self.read(st, v)
        return v

    def to_bool(self, st, v):
        v = self.rv(st, v)
        if isinstance(v, Ptr):
            return z3.Not(v.null)
        if isinstance(v, Closure):
            return z3.BoolVal(True)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if z3.is_bool(v):
            return v
        if z3.is_expr(v):
            return v != 0
        raise Unsupported("to_bool %r" % (v,))

    def coerce_agg(self, ty, v):
        if isinstance(v, list):
            return self.from_list(ty, v)
        return v

    def from_list(self, ty, items):
        """Braced list -> value of type ty."""
        if ty.k == "ref":
            return self.from_list(ty.a[0], items)
        if ty.k == "rec":
            fs = self.ty.fields(ty)
            out = {}
            for (n, t), v in zip(fs, items):
                out[n] = self.coerce_agg(t, v)
            for (n, t) in fs[len(items):]:
                out[n] = self.zero(t)
            return V(out)
        if ty.k == "tuple":
            return V({str(i): self.coerce_agg(t, v) for i, (t, v) in enumerate(zip(ty.a, items))})
        if ty.k == "array":
            if len(items) == 1 and isinstance(items[0], list):
                return self.from_list(ty, items[0])
            if len(items) == 1 and isinstance(items[0], V) and "0" in items[0].f and int(ty.name) > 1:
                return items[0]
            return V({str(i): self.coerce_agg(ty.a[0], v) for i, v in enumerate(items)})
        if ty.k == "vec":
            a = self.fresh_shape(lift(self.ty.shape(ty.a[0]), [I]), "lst")
            for i, v in enumerate(items):
                a = sto(a, z3.IntVal(i), self.coerce_agg(ty.a[0], v))
            return V({"len": z3.IntVal(len(items)), "a": a})
        if len(items) == 1:
            return items[0]
        raise Unsupported("init list for %r" % ty)

    def zero(self, ty):
        k = ty.k
        if k in ("int", "ptr", "opaque", "fn"):
            return z3.IntVal(0)
        if k == "real":
            return RealV(0)
        if k == "bool":
            return z3.BoolVal(False)
        if k == "rec":
            return V({n: self.zero(t) for n, t in self.ty.fields(ty)})
        if k == "tuple":
            return V({str(i): self.zero(t) for i, t in enumerate(ty.a)})
        if k == "array":
            return V({str(i): self.zero(ty.a[0]) for i in range(int(ty.name))})
        if k == "pq":
            def const(s):
                return z3.K(s.domain(), const(s.range())) if isinstance(s, z3.ArraySortRef) else z3.IntVal(0)
            return V({"n": z3.IntVal(0), "ver": z3.Int(self.fresh_name("ver")), "cnt": const(self.ty.shape(ty)["cnt"])})
        if k == "vec":
            return V({"len": z3.IntVal(0), "a": self.fresh_shape(lift(self.ty.shape(ty.a[0]), [I]), "empty")})
        if k in ("set", "map"):
            return self.empty_keyed(ty)
        if k == "empty":
            return V({})
        raise Unsupported("zero of %r" % ty)

    def empty_keyed(self, ty):
        sh = self.ty.shape(ty)
        out = {"n": z3.IntVal(0)}
        def const(s, val):
            if isinstance(s, z3.ArraySortRef):
                return z3.K(s.domain(), const(s.range(), val))
            return val
        out["has"] = const(sh["has"], z3.BoolVal(False))
        for p in ("el", "val"):
            if p in sh:
                out[p] = self.fresh_shape(sh[p], "ek")
        return V(out)

    def default_value(self, fr, st, ty, node=None):
        """Value of a default-initialised object: class types get their default constructor, scalars are arbitrary."""
        if ty.k == "rec" and ty.name not in ("Vec2", "Rot2", "Dist"):
            r = self.prog.find_record(ty.name)
            return self.construct_default(fr, st, ty)
        if ty.k in ("vec", "set", "map", "pq", "empty"):
            return self.zero(ty)
        if ty.k == "ptr" and ty.name in ("unique_ptr", "shared_ptr"):
            return z3.IntVal(0)
        v = self.fresh(ty, (node or {}).get("name", "uninit"))
        for f in self.type_facts(ty, v):
            self.assume(st, f)
        return v

    def construct_default(self, fr, st, ty):
        r = self.prog.find_record(ty.name)
        out = {}
        for b in r.bases:
            bt = self.ty.parse(b)
            if bt.k == "rec":
                out.update(self.construct_default(fr, st, bt).f)
            elif bt.k in ("set", "map", "vec"):
                out["__base"] = self.zero(bt)
        for (n, t, node) in r.fields:
            ft = self.ty.parse(t)
            ini = [c for c in node.get("inner", []) if not c["kind"].endswith("Comment")]
            if node.get("hasInClassInitializer") and ini:
                f2 = Frame(None, None, None)
                out[n] = self.coerce_agg(ft, self.rv(st, self.eval(f2, st, ini[0])))
            else:
                try:
                    out[n] = self.default_value(fr, st, ft, node)
                except TypeErr:
                    pass
        return V(out)


def json_type(node):
    for c in node.get("inner", []):
        if c.get("kind") == "DeclStmt" and c["inner"][0].get("name", "").startswith("__range"):
            t = c["inner"][0]["type"]
            return t.get("desugaredQualType", "") + " " + t.get("qualType", "")
    return ""
