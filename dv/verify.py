"""Function-by-function verification: set up symbolic inputs, run the body, emit obligations."""
import re
import z3
from .ty import *
from .core import *
from .sym import Exec as _Exec
from .cast import ExtractError, Func


def proved_soon(o):
    from .solve import script, slim, run_solver, Z3NEW, has_quant
    o.has_q = has_quant(list(o.hyps) + [o.goal])
    for t in (script(o), slim(o)):
        if t and run_solver([Z3NEW, "-T:4"], t, 4)[0] == "unsat":
            return True
    return False


class Verifier(_Exec):

    def add(self, *cons):
        for c in cons:
            self.contracts[(c.name, c.nparams)] = c
        return cons[-1]

    def find1(self, con):
        fs = self.prog.find(con.name, con.nparams, con.pred)
        if not fs:
            raise AttachError("function %s not found in the source" % con.name)
        return fs[0]

    def symbolic_arg(self, st, p, i):
        t = self.ty.node_type(p)
        nm = p.get("name", "arg%d" % i)
        if t.k == "ref":
            b = t.a[0]
            k = "arg:%s" % nm
            st.store[k] = self.symbolic(st, b, nm)
            return Var(k)
        return self.symbolic(st, t, nm)

    def symbolic(self, st, t, nm):
        if t.k == "ptr" and t.a[0].k in ("real", "int", "bool", "tuple") or (t.k == "ptr" and t.a[0].k == "rec" and t.a[0].name in ("Vec2",)):
            k = "ptr:%s" % nm
            st.store[k] = self.fresh(t.a[0], nm + ".target")
            for f in self.type_facts(t.a[0], st.store[k]):
                self.assume(st, f)
            return Ptr(Var(k), z3.Bool(self.fresh_name(nm + ".isnull")))
        v = self.fresh(t, nm)
        for f in self.type_facts(t, v):
            self.assume(st, f)
        return v

    def verify(self, con, func=None):
        """Check the body of the function named by the contract against the contract."""
        f = func or self.find1(con)
        self.cur = f
        self.cur_line = f.line
        self.under_contract.append(f)
        st = State()
        st.alloc = z3.Int("alloc0")
        self.assume(st, st.alloc > 0)
        self.assume(st, z3.And(PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")))
        self.assume(st, z3.And(z3.Real("dblmax") > z3.RealVal(10 ** 300), INF > z3.Real("dblmax")))
        fr = Frame(f, None, None)
        fr.contract = con
        thislv = None
        isctor = f.is_ctor
        if f.cls is not None and not f.static:
            t = self.ty.parse(f.cls.name)
            if con.heap_this:
                ref = z3.Int("this")
                self.assume(st, z3.And(ref > 0, ref < st.alloc))
                thislv = Heap(t.name, ref)
            elif not isctor:
                st.store["this"] = self.fresh(t, "this")
                for fa in self.type_facts(t, st.store["this"]):
                    self.assume(st, fa)
                thislv = Var("this")
        args = [self.symbolic_arg(st, p, i) for i, p in enumerate(f.params)]
        if con.setup is not None:
            r = con.setup(self, st, thislv, args)
            if r is not None:
                thislv, args = r
        fr.this = thislv
        self.bind_params(st, fr, f, args)
        ad = dict(enumerate(args))
        fr.args = ad
        pre = Ctx(self, st.copy(), this=thislv, args=ad)
        pre.func = f
        reqs = []
        if con.inv and not isctor:
            reqs += list(con.inv(pre))
        reqs += list(con.requires(pre))
        for lab, g in reqs:
            self.assume(st, g)
        if con.facts:
            for g in con.facts(pre):
                self.assume(st, g)
        pre = Ctx(self, st.copy(), this=thislv, args=ad)
        pre.func = f
        fr.oldctx = pre
        c = Obligation("%s: preconditions are satisfiable" % con.name, "vacuity", list(st.pc), z3.BoolVal(False), f.qname, f.line, "sat")
        c.ax = self.axioms
        self.obls.append(c)
        if isctor:
            v = self.ctor_verify(fr, st, f, args)
            outs = [("ret", st, None)]
            st.store["this"] = v
            thislv = Var("this")
        else:
            outs = self.exec(fr, st, f.body)
        reach = []
        nret = 0
        for o in outs:
            kind, s, val = o
            self.cur_line = f.line
            if self.dead(s):
                continue
            if kind == "throw":
                if con.may_throw is not None:
                    cx = Ctx(self, s, this=thislv, args=ad, old=pre, frame=fr)
                    cx.func = f
                    self.oblige(s, "%s: exception only when allowed" % con.name, con.may_throw(cx), "throw")
                else:
                    self.oblige(s, "%s: no exception is thrown" % con.name, z3.BoolVal(False), "throw")
                continue
            nret += 1
            cx = Ctx(self, s, this=thislv, args=ad, ret=(self.rv(s, val) if val is not None else None), old=pre, frame=fr)
            cx.retlv = val if isinstance(val, Lv) else None
            cx.func = f
            cx.calling = False
            posts = list(con.ensures(cx))
            if con.inv:
                posts += [("invariant: " + e[0],) + tuple(e[1:]) for e in con.inv(cx)]
            hints = con.hints(cx) if con.hints else []
            for lab, g in hints:
                k = len(self.obls)
                self.oblige(s, "%s: lemma '%s'" % (con.name, lab), g, "lemma")
                if con.soft and not all(proved_soon(x) for x in self.obls[k:]):
                    del self.obls[k:]           # a lemma of convenience that does not hold here is not used
                    continue
                self.assume(s, g)
            for e in posts:
                self.oblige(s, "%s: ensures '%s'" % (con.name, e[0]), e[1], "post")
            self.check_frame(con, pre, s, thislv, args, f)
            reach.append(s)
        if nret == 0 and not con.never_returns:
            self.oblige(st, "%s: some path returns" % con.name, z3.BoolVal(False), "post")
        return outs

    def ctor_verify(self, fr, st, f, args):
        t = self.ty.parse(f.cls.name)
        return self.ctor_call(fr, st, t, f, args)

    def check_frame(self, con, pre, s, thislv, args, f):
        """Everything the contract does not list as modified is unchanged."""
        if con.noframe:
            return
        H = pre.st.copy()
        if con.modifies is not None:
            for lv in con.modifies(pre):
                self.havoc_lv(H, lv)
        keys = [k for k in pre.st.store if k == "this" or k.startswith("arg:") or k.startswith("ptr:") or k.startswith("obj:")]
        for k in keys:
            a, h, b = pre.st.store.get(k), H.store.get(k), s.store.get(k)
            if b is None:
                continue
            self._frame_tree(con, s, a, h, b, k)
        for cls, b in s.heap.items():
            a = pre.st.heap.get(cls, self._h0.get(cls))
            h = H.heap.get(cls, a)
            for fld in b.f:
                self._frame_heap(con, s, pre, cls, fld, a.f[fld], h.f[fld], b.f[fld])

    def _frame_tree(self, con, s, a, h, b, path):
        if a is b:
            return
        if isinstance(a, V) and isinstance(b, V):
            for k in a.f:
                if k in b.f:
                    self._frame_tree(con, s, a.f[k], h.f[k] if isinstance(h, V) else h, b.f[k], path + "." + k)
            return
        if z3.is_expr(a) and z3.is_expr(b):
            if a.eq(b) or not (z3.is_expr(h) and h.eq(a)):
                return
            self.oblige(s, "%s: leaves %s unchanged" % (con.name, path), a == b, "frame")

    def _frame_heap(self, con, s, pre, cls, fld, a, h, b):
        la, lh, lb = leaves(a), leaves(h), leaves(b)
        for x, y, z in zip(la, lh, lb):
            if x.eq(z):
                continue
            if not y.eq(x):
                refs = []
                t = y
                whole = False
                while not t.eq(x):
                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
                        refs.append(t.arg(1))
                        t = t.arg(0)
                    else:
                        whole = True
                        break
                if whole:
                    continue
            else:
                refs = []
            r = z3.Int(self.fresh_name("r"))
            cond = [r > 0]
            if pre.st.alloc is not None:
                cond.append(r < pre.st.alloc)
            cond += [r != q for q in refs]
            self.oblige(s, "%s: leaves %s.%s of other objects unchanged" % (con.name, cls.split("::")[-1], fld),
                        z3.ForAll([r], z3.Implies(z3.And(*cond), z3.Select(z, r) == z3.Select(x, r))), "frame")

    def lemma(self, name, hyps, goal, kind="lemma"):
        st = State()
        st.pc = [z3.And(PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")), INF > 1] + list(hyps)
        self.cur = None
        o = Obligation(name, kind, list(st.pc), goal, "lemma", None)
        o.ax = self.axioms
        self.obls.append(o)
        c = Obligation(name + ": hypotheses are satisfiable", "vacuity", list(st.pc), z3.BoolVal(False), "lemma", None, "sat")
        c.ax = self.axioms
        self.obls.append(c)
