"""Expressions and calls (mixin of sym.Exec)."""
import re
import z3
from .ty import *
from .cast import ExtractError, Func, _strip_targs
from . import core
from .core import *


def skip(n):
    """Strip parentheses and no-op wrappers from an AST node."""
    while n.get("kind") in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                            "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXFunctionalCastExpr") or \
            (n.get("kind") == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr")):
        ch = [c for c in n.get("inner", []) if c.get("kind") != "TemplateArgument" and not c.get("kind", "").endswith("Decl")]
        if n["kind"] == "CXXFunctionalCastExpr" and n.get("castKind") != "NoOp":
            return n
        if not ch:
            return n
        n = ch[-1]
    return n


class ExprMixin:

    def eval(self, fr, st, n):
        k = n["kind"]
        if n.get("_line") and n.get("_file") == getattr(self, "_cur_file", n.get("_file")):
            self.cur_line = n["_line"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (k, n.get("_line")))
        return m(fr, st, n)

    def evr(self, fr, st, n):
        return self.rv(st, self.eval(fr, st, n))

    # ---- wrappers
    def _last(self, fr, st, n):
        ch = [c for c in n.get("inner", []) if not c.get("kind", "").endswith("Decl") and c.get("kind") != "TemplateArgument"]
        return self.eval(fr, st, ch[-1])
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = _last
    e_SubstNonTypeTemplateParmExpr = _last

    def e_ConstantExpr(self, fr, st, n):
        return self._last(fr, st, n)

    # ---- literals
    def e_IntegerLiteral(self, fr, st, n):
        return z3.IntVal(int(n["value"]))

    def e_CharacterLiteral(self, fr, st, n):
        return z3.IntVal(int(n["value"]))

    def e_CXXBoolLiteralExpr(self, fr, st, n):
        return z3.BoolVal(bool(n["value"]))

    def e_CXXNullPtrLiteralExpr(self, fr, st, n):
        return z3.IntVal(0)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_StringLiteral(self, fr, st, n):
        return z3.IntVal(0)

    def e_FloatingLiteral(self, fr, st, n):
        s = str(n["value"]).rstrip("fFlL")
        return self.real_const(s)

    def real_const(self, s):
        from fractions import Fraction
        x = float(s)
        import math
        for num, den in ((1, 1), (1, 2), (1, 4), (2, 1)):
            if abs(x - math.pi * num / den) < 1e-13:
                return simp(PI * num / den)
        try:
            fr_ = Fraction(repr(x))
        except ValueError:
            fr_ = Fraction(x)
        # clang prints doubles with limited precision: take the shortest decimal that is the same double
        return z3.RealVal(str(fr_))

    def e_ImplicitValueInitExpr(self, fr, st, n):
        return self.zero(self.ty.node_type(n))

    def e_CXXScalarValueInitExpr(self, fr, st, n):
        return self.zero(self.ty.node_type(n))

    # ---- names
    def e_DeclRefExpr(self, fr, st, n):
        d = n["referencedDecl"]
        k = self.var_key(fr, d["id"])
        if k is not None:
            v = st.store.get(k)
            if isinstance(v, Lv):
                return v
            return Var(k)
        if d["kind"] == "EnumConstantDecl":
            if d["id"] in self.prog.enums:
                return z3.IntVal(self.prog.enums[d["id"]])
            raise Unsupported("enum constant " + d.get("name", ""))
        if d["kind"] in FUNCK:
            return FnRef(d["id"], d.get("name"))
        return self.global_var(fr, st, d, n)

    def global_var(self, fr, st, d, n):
        nm = d.get("name", "")
        if nm in self.global_values:
            return self.global_values[nm]
        g = self.prog.vars.get(d["id"]) or self.prog.byid.get(d["id"])
        if g is None:
            for vid, vn in self.prog.vars.items():
                if vn.get("name") == nm and vn.get("inner"):
                    g = vn
                    break
        if g is not None and (g.get("constexpr") or "const" in g["type"].get("qualType", "")):
            ini = [c for c in g.get("inner", []) if not c["kind"].endswith("Comment") and not c["kind"].endswith("Attr")]
            if ini:
                f2 = Frame(None, None, None)
                v = self.rv(st, self.eval(f2, st, ini[-1]))
                return self.coerce_agg(self.ty.node_type(g), v)
        # mutable global / static: one store cell
        key = "G:" + nm
        if key not in st.store:
            t = self.ty.node_type(d if "type" in d else n)
            if key not in self._g0:
                v = self.fresh(t, nm)
                self._g0[key] = v
            st.store[key] = self._g0[key]
            for f in self.type_facts(t, st.store[key]):
                self.assume(st, f)
        return Var(key)

    def e_CXXThisExpr(self, fr, st, n):
        f = fr
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise Unsupported("this outside a method")
        return self.addr(st, f.this)

    def addr(self, st, lv):
        if isinstance(lv, Var) and isinstance(st.store.get(lv.k), Lv):
            lv = st.store[lv.k]
        if isinstance(lv, Heap):
            return lv.ref
        if isinstance(lv, Lv):
            return Ptr(lv)
        raise Unsupported("address of a value")

    def deref(self, st, v, pointee=None, what="pointer"):
        """Lvalue a pointer value designates, with a non-null obligation."""
        v = self.rv(st, v)
        if isinstance(v, Ptr):
            if not z3.is_false(v.null):
                self.oblige(st, "%s is not null" % what, z3.Not(v.null), "null")
                self.assume(st, z3.Not(v.null))
            return v.lv
        if isinstance(v, It):
            return self.it_deref(st, v)
        if isinstance(v, KIt):
            return self.kit_deref(st, v)
        if z3.is_expr(v):
            if v.decl().kind() == z3.Z3_OP_ITE and False:
                pass
            if concrete_int(v) == 0:
                self.oblige(st, "%s is not null" % what, z3.BoolVal(False), "null")
                self.assume(st, z3.BoolVal(False))
            else:
                nn = v != 0
                if not any(p.eq(nn) for p in st.pc):
                    self.oblige(st, "%s is not null" % what, nn, "null")
                    self.assume(st, nn)
            if pointee is None:
                raise Unsupported("dereference of untyped pointer")
            name = pointee.name if pointee.k == "rec" else pointee.key()
            if pointee.k != "rec":
                self.heap_ty.setdefault(name, pointee)
            return Heap(name, v)
        raise Unsupported("dereference of %r" % (v,))

    def pointee(self, node):
        t = self.ty.node_type(node)
        if t.k == "ref":
            t = t.a[0]
        if t.k == "ptr":
            return t.a[0]
        return None

    # ---- members
    def e_MemberExpr(self, fr, st, n):
        base = n["inner"][0]
        name = n.get("name", "")
        md = n.get("referencedMemberDecl")
        if md in self.prog.funcs:
            return BoundFn(md, name, base, n.get("isArrow"))
        if n.get("isArrow"):
            b = self.eval(fr, st, base)
            lv = self.deref(st, b, self.pointee(base), "pointer before ->" + name)
        else:
            lv = self.to_lv(st, self.eval(fr, st, base))
        return self.member(st, lv, name, md)

    def member(self, st, lv, name, md=None):
        lv = self.resolve(st, lv)
        node = self.prog.byid.get(md) if md else None
        if node is not None and node.get("kind") == "VarDecl":
            return self.global_var(None, st, node, node)
        if name == "" and node is not None:
            return lv            # anonymous union/struct member: transparent
        if isinstance(lv, Val) and isinstance(lv.v, V):
            nm = {"first": "0", "second": "1"}.get(name, name) if "0" in lv.v.f and name not in lv.v.f else name
            if nm in lv.v.f:
                return Val(lv.v.f[nm]) if not isinstance(lv.v.f[nm], Lv) else lv.v.f[nm]
            raise Unsupported("no member %s" % name)
        if isinstance(lv, PairOf):
            return Fld(lv, name)
        if name in ("first", "second"):
            if not isinstance(lv, Heap):
                v = self.read(st, lv)
                if isinstance(v, V) and name not in v.f and "0" in v.f:
                    name = "0" if name == "first" else "1"
        f = Fld(lv, name)
        return f

    # ---- operators
    def e_UnaryOperator(self, fr, st, n):
        op = n["opcode"]
        s = n["inner"][0]
        if op == "&":
            v = self.eval(fr, st, s)
            if isinstance(v, (FnRef, BoundFn)):
                return v
            if not isinstance(v, Lv):
                raise Unsupported("address of a temporary")
            return self.addr(st, v)
        if op == "*":
            v = self.eval(fr, st, s)
            return self.deref(st, v, self.pointee(s), "dereferenced pointer")
        if op == "!":
            return z3.Not(self.to_bool(st, self.eval(fr, st, s)))
        if op in ("++", "--"):
            lv = self.eval(fr, st, s)
            old = self.read(st, lv)
            t = self.ty.node_type(s)
            new = self.incdec(st, t, old, 1 if op == "++" else -1)
            self.write(st, lv, new)
            return old if n.get("isPostfix") else lv
        v = self.evr(fr, st, s)
        t = self.ty.node_type(n)
        if op == "-":
            if z3.is_expr(v):
                if t.k == "int" and not t.signed:
                    return z3.If(v == 0, v, 2 ** t.bits - v)
                return simp(-v)
            raise Unsupported("unary minus")
        if op == "+":
            return v
        if op == "~":
            raise Unsupported("bitwise not")
        raise Unsupported("unary " + op)

    def incdec(self, st, t, old, d):
        if isinstance(old, It):
            return self.it_add(st, old, z3.IntVal(d))
        if z3.is_int(old):
            r = simp(old + d)
            if d < 0 and t.k == "int" and not t.signed:
                r = z3.If(old == 0, z3.IntVal(2 ** t.bits - 1), old - 1)
            return r
        if z3.is_real(old):
            return old + d
        raise Unsupported("++ on %r" % (old,))

    def e_BinaryOperator(self, fr, st, n):
        op = n["opcode"]
        a, b = n["inner"][0], n["inner"][1]
        if op == ",":
            self.eval(fr, st, a)
            return self.eval(fr, st, b)
        if op == "=":
            # assignment: right side first (C++17)
            rvv = self.evr(fr, st, b)
            lv = self.eval(fr, st, a)
            if not isinstance(lv, Lv):
                raise Unsupported("assignment to a value")
            rvv = self.coerce_agg(self.ty.node_type(a), rvv)
            self.write(st, lv, rvv)
            return lv
        if op in ("&&", "||"):
            av = self.to_bool(st, self.eval(fr, st, a))
            ca = concrete_bool(av)
            if ca is not None:
                if (op == "&&") != ca:
                    return z3.BoolVal(ca)
                return self.to_bool(st, self.eval(fr, st, b))
            guard = av if op == "&&" else z3.Not(av)
            bv = self.under(fr, st, guard, lambda s: self.to_bool(s, self.eval(fr, s, b)))
            return z3.And(av, bv) if op == "&&" else z3.Or(av, bv)
        x, y = self.evr(fr, st, a), self.evr(fr, st, b)
        return self.binop(st, op, x, y, self.ty.node_type(a), self.ty.node_type(b), self.ty.node_type(n))

    def under(self, fr, st, guard, thunk):
        """Evaluate thunk on the branch where guard holds; effects are merged back conditionally."""
        base = len(st.pc)
        s = st.copy()
        s.pc.append(guard)
        v = thunk(s)
        other = st.copy()
        other.pc.append(z3.Not(guard))
        m = merge_states(guard, s, other, base, self._h0)
        self.adopt(st, m)
        return v

    def adopt(self, st, s):
        st.store, st.heap, st.pc, st.alloc, st.ghost, st.names = s.store, s.heap, s.pc, s.alloc, s.ghost, s.names
        st.dyn = s.dyn

    def e_ConditionalOperator(self, fr, st, n):
        c, a, b = n["inner"]
        cv = self.to_bool(st, self.eval(fr, st, c))
        cb = concrete_bool(cv)
        if cb is not None:
            return self.eval(fr, st, a if cb else b)
        base = len(st.pc)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(cv)
        s2.pc.append(z3.Not(cv))
        v1 = self.eval(fr, s1, a)
        v2 = self.eval(fr, s2, b)
        if isinstance(v1, Lv) and isinstance(v2, Lv) and v1 == v2 and not isinstance(v1, Val):
            v = v1
        else:
            r1, r2 = self.rv(s1, v1), self.rv(s2, v2)
            try:
                v = merge_tree(cv, r1, r2)
            except NoMerge:
                i = self.fork_on(st, cv, s1, s2)
                return r1 if i == 0 else r2
        try:
            self.adopt(st, merge_states(cv, s1, s2, base, self._h0))
        except NoMerge:
            i = self.fork_on(st, cv, s1, s2)
            return v1 if i == 0 else v2
        return v

    def fork_on(self, st, cv, s1, s2):
        i = self.choose(2)
        self.adopt(st, s1 if i == 0 else s2)
        return i

    def choose(self, n):
        if self.decisions is None:
            raise Unsupported("path split outside a statement")
        dec, pos = self.decisions
        if pos < len(dec):
            i = dec[pos][0]
        else:
            dec.append([0, n])
            i = 0
        self.decisions = (dec, pos + 1)
        return i

    def num(self, v):
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def binop(self, st, op, x, y, tx, ty, tr):
        if isinstance(x, It) or isinstance(y, It):
            return self.it_binop(st, op, x, y)
        if isinstance(x, (Ptr, Closure)) or isinstance(y, (Ptr, Closure)):
            return self.ptr_cmp(st, op, x, y)
        if not (z3.is_expr(x) and z3.is_expr(y)):
            raise Unsupported("operator %s on %r" % (op, tx))
        if op in ("==", "!="):
            if z3.is_bool(x) != z3.is_bool(y):
                x, y = self.num(x), self.num(y)
            r = (x == y)
            return r if op == "==" else z3.Not(r)
        x, y = self.num(x), self.num(y)
        if op in ("<", ">", "<=", ">="):
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        if op in ("+", "-", "*"):
            uns = tr.k == "int" and not tr.signed
            if op == "-" and uns:
                cx, cy = concrete_int(x), concrete_int(y)
                if cx is not None and cy is not None:
                    return z3.IntVal((cx - cy) % (2 ** tr.bits))
                return z3.If(x >= y, x - y, x - y + 2 ** tr.bits)
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]()
            if concrete_int(x) is not None and concrete_int(y) is not None and z3.is_int(r):
                v = concrete_int(r)
                if uns:
                    v %= 2 ** tr.bits
                return z3.IntVal(v)
            if tr.k == "int" and tr.signed and self.check_overflow and not self.suppress:
                lo, hi = -2 ** (tr.bits - 1), 2 ** (tr.bits - 1) - 1
                self.oblige(st, "no signed overflow in %s" % op, z3.And(r >= lo, r <= hi), "overflow")
            return r
        if op == "/":
            if z3.is_int(x):
                self.oblige(st, "divisor is not zero", y != 0, "div")
                return self.tdiv(x, y)
            if self.check_fdiv:
                self.oblige(st, "divisor is not zero", y != 0, "div")
            return x / y
        if op == "%":
            self.oblige(st, "divisor is not zero", y != 0, "div")
            return self.tmod(x, y)
        if op in ("<<", ">>"):
            cy = concrete_int(y)
            if cy is None:
                raise Unsupported("shift by a variable")
            if op == "<<":
                return x * (2 ** cy)
            return x / (2 ** cy) if (tx.k == "int" and not tx.signed) else z3.ToInt(z3.ToReal(x) / (2 ** cy))
        if op in ("&", "|", "^"):
            if z3.is_bool(x):
                return {"&": z3.And(x, y), "|": z3.Or(x, y), "^": z3.Xor(x, y)}[op]
            cx, cy = concrete_int(x), concrete_int(y)
            if cx is not None and cy is not None:
                return z3.IntVal({"&": cx & cy, "|": cx | cy, "^": cx ^ cy}[op])
            if op == "&" and cy == 1 and self.nonneg(tx):
                return x % 2
            f = z3.Function("bit" + {"&": "and", "|": "or", "^": "xor"}[op], I, I, I)
            r = f(x, y)
            for fa in self.type_facts(tr, r):
                self.assume(st, fa)
            return r
        raise Unsupported("operator " + op)

    def nonneg(self, t):
        return t.k == "int" and not t.signed

    def tdiv(self, x, y):
        cx, cy = concrete_int(x), concrete_int(y)
        if cy is not None and cy > 0:
            if cx is not None:
                q = abs(cx) // cy
                return z3.IntVal(q if cx >= 0 else -q)
            return z3.If(x >= 0, x / y, -((-x) / y))
        return z3.If(x >= 0, x / y, -((-x) / y))

    def tmod(self, x, y):
        cx, cy = concrete_int(x), concrete_int(y)
        if cx is not None and cy is not None:
            import math
            return z3.IntVal(int(math.fmod(cx, cy)))
        return z3.If(x >= 0, x % y, -((-x) % y))

    def ptr_cmp(self, st, op, x, y):
        def isnull(v):
            return z3.is_expr(v) and concrete_int(v) == 0
        if isinstance(y, Ptr) and not isinstance(x, Ptr):
            x, y = y, x
        if isinstance(x, Closure):
            r = z3.BoolVal(False)
        elif isinstance(y, Ptr):
            if x.lv == y.lv:
                r = x.null == y.null
            elif isinstance(x.lv, Elem) and isinstance(y.lv, Elem) and x.lv.b == y.lv.b:
                r = z3.And(x.null == y.null, z3.Or(x.null, x.lv.i == y.lv.i))
            else:
                r = z3.And(x.null, y.null)
        elif isnull(y):
            r = x.null
        else:
            r = z3.And(x.null, y == 0)
        if op == "==":
            return r
        if op == "!=":
            return z3.Not(r)
        raise Unsupported("pointer operator " + op)

    def e_CompoundAssignOperator(self, fr, st, n):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = self.evr(fr, st, b)
        lv = self.eval(fr, st, a)
        x = self.read(st, lv)
        ta, tb = self.ty.node_type(a), self.ty.node_type(b)
        ct = n.get("computeResultType", {})
        tc = self.ty.parse(ct.get("desugaredQualType", ct.get("qualType", "int"))) if ct else ta
        if isinstance(x, It):
            self.write(st, lv, self.it_add(st, x, y if op == "+" else -y))
            return lv
        if tc.k == "real" and ta.k == "int":
            r = self.binop(st, op, z3.ToReal(x), y if z3.is_real(y) else z3.ToReal(y), tc, tb, tc)
            r = self.real_to_int(r)
        else:
            if ta.k == "real" and z3.is_int(y):
                y = z3.ToReal(y)
            if z3.is_bool(x) and op in ("|", "&", "^"):
                yb = y if z3.is_bool(y) else y != 0
                r = {"&": z3.And(x, yb), "|": z3.Or(x, yb), "^": z3.Xor(x, yb)}[op]
            else:
                r = self.binop(st, op, x, y, ta, tb, tc)
        self.write(st, lv, r)
        return lv

    def e_ArraySubscriptExpr(self, fr, st, n):
        bn = n["inner"][0]
        if bn["kind"] == "ImplicitCastExpr" and bn.get("castKind") == "LValueToRValue" and self.ty.node_type(bn).k == "vec":
            bn = bn["inner"][0]             # an owned array (allocated with new[]) modelled as a sequence
        b = self.eval(fr, st, bn)
        i = self.evr(fr, st, n["inner"][1])
        if isinstance(b, Lv):
            v = self.read(st, b)
            if isinstance(v, V) and "len" in v.f:
                self.oblige(st, "array index in range", z3.And(i >= 0, i < v.f["len"]), "bounds")
                return Elem(b, i)
        b2 = self.rv(st, b) if not isinstance(b, Lv) else b
        if isinstance(b2, Lv):
            v = self.read(st, b2)
            if isinstance(v, (RowPtr, ArrPtr)):
                b2 = v
            elif isinstance(v, V) and "len" not in v.f:
                cnt = len(v.f)
                self.oblige(st, "array index in range", z3.And(i >= 0, i < cnt), "bounds")
                return ArrE(b2, i, cnt)
        if isinstance(b2, RowPtr):
            return self.grid_at(st, b2, i)
        if isinstance(b2, ArrPtr):
            self.oblige(st, "array index in range", z3.And(i >= 0, i < b2.n), "bounds")
            return ArrE(b2.lv, i, b2.n)
        if isinstance(b2, Ptr) and isinstance(b2.lv, Elem):
            return Elem(b2.lv.b, b2.lv.i + i)
        raise Unsupported("subscript of %r" % (b2,))

    # ---- casts
    def e_ImplicitCastExpr(self, fr, st, n):
        return self.cast(fr, st, n)

    def e_CStyleCastExpr(self, fr, st, n):
        return self.cast(fr, st, n)
    e_CXXStaticCastExpr = e_CStyleCastExpr
    e_CXXConstCastExpr = e_CStyleCastExpr

    def e_CXXFunctionalCastExpr(self, fr, st, n):
        return self.cast(fr, st, n)

    def e_CXXDynamicCastExpr(self, fr, st, n):
        v = self.evr(fr, st, n["inner"][0])
        return v

    def cast(self, fr, st, n):
        ck = n.get("castKind")
        s = [c for c in n["inner"] if not c.get("kind", "").endswith("Decl")][-1]
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "ConstructorConversion",
                  "UserDefinedConversion", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "LValueBitCast", "BitCast", "Dynamic"):
            return self.eval(fr, st, s)
        if ck == "ArrayToPointerDecay":
            v = self.eval(fr, st, s)
            if isinstance(v, Lv):
                vv = self.read(st, v)
                if isinstance(vv, V):
                    return ArrPtr(v, len(vv.f))
            return v
        if ck == "LValueToRValue":
            v = self.eval(fr, st, s)
            if isinstance(v, Lv):
                return self.read(st, v)
            return v
        if ck == "NullToPointer":
            return z3.IntVal(0)
        if ck == "ToVoid":
            return self.eval(fr, st, s)
        v = self.evr(fr, st, s)
        t = self.ty.node_type(n)
        f = self.ty.node_type(s)
        if f.k == "ref":
            f = f.a[0]
        if ck == "IntegralToFloating":
            return z3.ToReal(self.num(v)) if concrete_int(self.num(v)) is None else z3.RealVal(concrete_int(self.num(v)))
        if ck == "FloatingToIntegral":
            return self.real_to_int(v, st, t)
        if ck == "FloatingCast":
            return v
        if ck == "IntegralCast":
            return self.int_cast(v, f, t)
        if ck == "IntegralToBoolean":
            return self.to_bool(st, v)
        if ck == "FloatingToBoolean":
            return v != 0
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return self.to_bool(st, v)
        raise Unsupported("cast " + str(ck))

    def int_cast(self, v, f, t):
        v = self.num(v)
        c = concrete_int(v)
        if c is not None:
            if t.k == "int":
                m = 2 ** t.bits
                c %= m
                if t.signed and c >= m // 2:
                    c -= m
            return z3.IntVal(c)
        if t.k != "int" or f.k not in ("int", "bool"):
            return v
        if f.k == "bool":
            return v
        if t.signed == f.signed:
            if t.bits >= f.bits:
                return v
        elif t.signed and t.bits > f.bits:
            return v
        m = 2 ** t.bits
        if not t.signed and f.signed and t.bits >= f.bits:
            return z3.If(v >= 0, v, v + m)
        if t.signed and not f.signed and t.bits == f.bits:
            return z3.If(v < m // 2, v, v - m)
        if t.bits < f.bits:
            # narrowing: modular
            if t.signed:
                return z3.If(z3.And(v >= -(m // 2), v < m // 2), v, (v + m // 2) % m - m // 2)
            return z3.If(z3.And(v >= 0, v < m), v, v % m)
        return v

    def real_to_int(self, v, st=None, t=None):
        if st is not None and t is not None and t.k == "int" and not t.signed and self.check_fcast:
            self.oblige(st, "conversion to unsigned is in range", v > -1, "conv")
        s = simp(v)
        if z3.is_rational_value(s):
            fr_ = s.as_fraction()
            return z3.IntVal(int(fr_))
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    # ---- construction
    def e_CXXConstructExpr(self, fr, st, n):
        ty = self.ty.node_type(n)
        args = n.get("inner", [])
        return self.construct(fr, st, ty, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, fr, st, n):
        ty = self.ty.node_type(n)
        items = [self.evr(fr, st, c) for c in n.get("inner", [])]
        if ty.k in ("rec", "tuple", "array", "vec"):
            if ty.k == "rec" and len(items) == 1 and isinstance(items[0], V) and set(items[0].f) == set(f for f, _ in self.ty.fields(ty)):
                return items[0]
            if ty.k == "array":
                v = self.from_list(ty, items)
                if "array_filler" in n or len(v.f) < int(ty.name):
                    d = dict(v.f)
                    for i in range(len(items), int(ty.name)):
                        d[str(i)] = self.default_elem(fr, st, ty.a[0], n)
                    v = V(d)
                return v
            return self.from_list(ty, items)
        if not items:
            return self.zero(ty)
        if len(items) == 1:
            return items[0]
        return items

    def default_elem(self, fr, st, t, n):
        return self.default_value(fr, st, t) if t.k == "rec" else self.zero(t)

    def e_CXXStdInitializerListExpr(self, fr, st, n):
        v = self.evr(fr, st, n["inner"][0])
        ty = self.ty.node_type(n)
        if isinstance(v, V) and "len" not in v.f:
            items = [v.f[str(i)] for i in range(len(v.f))]
            return self.from_list(Ty("vec", [ty.a[0]]), items)
        return v

    def e_CXXDefaultArgExpr(self, fr, st, n):
        raise Unsupported("default argument")

    def e_CXXDefaultInitExpr(self, fr, st, n):
        raise Unsupported("default member initialiser in an aggregate")

    def e_LambdaExpr(self, fr, st, n):
        rec = n["inner"][0]
        op = None
        for c in rec.get("inner", []):
            if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()":
                op = c
            if c["kind"] == "FunctionTemplateDecl":
                raise Unsupported("generic lambda")
        f = Func(op, "lambda@%s" % n.get("_line"), None, False)
        if f.body is None:
            for c in n["inner"]:
                if c["kind"] == "CompoundStmt":
                    f.body = c
        return Closure(n, fr, None, f)

    def e_CXXNewExpr(self, fr, st, n):
        t = self.ty.node_type(n)
        if n.get("isArray"):
            if t.k != "vec":
                raise Unsupported("new[]")
            k = self.evr(fr, st, n["inner"][0])
            v = self.fresh(t, "new")
            return V({"len": k, "a": v.f["a"]})
        ini = [c for c in n.get("inner", []) if c["kind"] in ("CXXConstructExpr", "InitListExpr")]
        v = self.evr(fr, st, ini[0]) if ini else self.default_value(fr, st, t.a[0])
        return self.allocate(st, t.a[0], v)

    def e_CXXDeleteExpr(self, fr, st, n):
        self.eval(fr, st, n["inner"][0])
        return None

    def e_UnaryExprOrTypeTraitExpr(self, fr, st, n):
        raise Unsupported("sizeof")

    def e_CXXThrowExpr(self, fr, st, n):
        self.oblige(st, "no exception is thrown", z3.BoolVal(False), "throw")
        self.assume(st, z3.BoolVal(False))
        return None

    def e_TypeTraitExpr(self, fr, st, n):
        if "value" in n:
            return z3.BoolVal(bool(n["value"]))
        raise Unsupported("type trait")

    def allocate(self, st, ty, v):
        if st.alloc is None:
            st.alloc = z3.Int("alloc0")
            st.pc.append(st.alloc > 0)
        r = st.alloc
        st.alloc = simp(r + 1)
        # name the new reference so that later terms stay small
        name = ty.name if ty.k == "rec" else ty.key()
        if ty.k != "rec":
            self.heap_ty.setdefault(name, ty)
        self.write(st, Heap(name, r), v)
        if ty.k == "rec":
            st.dyn[r] = ty.name
        if st.alloc is not None:
            st.pc.append(r > 0)
        return r

    # ---- functions ------------------------------------------------------------------------
    def e_CXXMemberCallExpr(self, fr, st, n):
        cal = skip(n["inner"][0])
        args = n["inner"][1:]
        if cal["kind"] != "MemberExpr":
            raise Unsupported("member call through " + cal["kind"])
        name = cal.get("name", "")
        obj = cal["inner"][0]
        md = cal.get("referencedMemberDecl")
        ot = self.ty.node_type(obj)
        if ot.k == "ref":
            ot = ot.a[0]
        f = self.prog.definition(md) if md else None
        if cal.get("isArrow"):
            b = self.eval(fr, st, obj)
            pt = ot.a[0] if ot.k == "ptr" else None
            lv = self.deref(st, b, pt, "pointer before ->" + name)
            ot = pt
        else:
            b = self.eval(fr, st, obj)
            lv = self.to_lv(st, b)
        if f is not None:
            return self.call_func(fr, st, f, lv, args, n, virtual=self.is_virtual_call(f, cal))
        if ot.k in ("set", "map", "vec") and isinstance(lv, Lv):
            v = self.read(st, lv)
            if isinstance(v, V) and "__base" in v.f and "n" not in v.f and "len" not in v.f:
                lv = Fld(lv, "__base")
        return self.std_method(fr, st, lv, ot, name, args, n)

    def is_virtual_call(self, f, cal):
        return bool(f.virtual) and not cal.get("hadQualifier")

    def e_CallExpr(self, fr, st, n):
        cal = skip(n["inner"][0])
        args = n["inner"][1:]
        if cal["kind"] == "DeclRefExpr" and cal["referencedDecl"]["kind"] in FUNCK:
            d = cal["referencedDecl"]
            f = self.prog.definition(d["id"])
            if f is not None and (f.body is not None or self.contract_of(f) is not None or self.hook_of(f) is not None):
                return self.call_func(fr, st, f, None, args, n)
            if f is not None and f.qname.startswith("Planner"):
                raise Unsupported("call of %s, which has no body here" % f.qname)
            return self.std_function(fr, st, d.get("name"), args, n, cal)
        v = self.evr(fr, st, n["inner"][0])
        if isinstance(v, Closure):
            return self.call_closure(fr, st, v, [self.eval(fr, st, a) for a in args])
        if isinstance(v, BoundFn):
            raise Unsupported("bound call")
        raise Unsupported("call through " + cal["kind"])

    def e_CXXOperatorCallExpr(self, fr, st, n):
        cal = skip(n["inner"][0])
        args = n["inner"][1:]
        d = cal.get("referencedDecl", {})
        f = self.prog.definition(d.get("id")) if d else None
        name = d.get("name", "")
        if f is not None and (f.body is not None or self.contract_of(f) is not None):
            if f.cls is not None and f.node["kind"] == "CXXMethodDecl":
                lv = self.to_lv(st, self.eval(fr, st, args[0]))
                return self.call_func(fr, st, f, lv, args[1:], n, virtual=f.virtual)
            return self.call_func(fr, st, f, None, args, n)
        if f is not None and name == "operator=":
            # defaulted copy/move assignment
            rvv = self.evr(fr, st, args[1])
            lv = self.eval(fr, st, args[0])
            self.write(st, lv, rvv)
            return lv
        return self.std_operator(fr, st, name, args, n)

    def contract_of(self, f):
        return self.contracts.get(self.fkey(f))

    def fkey(self, f):
        q = f.qname
        c = self._fkeys.get(id(f))
        if c is None:
            c = (_strip_targs(q), len(f.params))
            self._fkeys[id(f)] = c
        for k in ((q, c[1]), (q, None), (c[0], c[1]), (c[0], None)):
            con = self.contracts.get(k)
            if con is not None and (con.pred is None or con.pred(f)):
                return k
        return None

    def hook_of(self, f):
        q = _strip_targs(f.qname)
        h = self.call_hooks.get((q, len(f.params))) or self.call_hooks.get(q)
        return h

    def arg_values(self, fr, st, f, argnodes):
        out = []
        for i, p in enumerate(f.params):
            pt = self.ty.node_type(p)
            if i < len(argnodes) and argnodes[i]["kind"] != "CXXDefaultArgExpr":
                v = self.eval(fr, st, argnodes[i])
            else:
                v = self.default_arg(st, f, i)
            if pt.k == "ref":
                lv = self.to_lv(st, v)
                lv = self.resolve(st, lv)
                if isinstance(lv, Val):
                    lv = Val(self.coerce_agg(pt.a[0], lv.v))
                out.append(lv)
            else:
                out.append(self.coerce_agg(pt, self.rv(st, v)))
        return out

    def default_arg(self, st, f, i):
        cand = [f]
        x = f.node["id"]
        while x in self.prog.prev:
            x = self.prog.prev[x]
            if x in self.prog.funcs:
                cand.append(self.prog.funcs[x])
        for g in cand:
            p = g.params[i]
            ini = [c for c in p.get("inner", []) if not c["kind"].endswith("Comment")]
            if ini:
                return self.eval(Frame(g, None, None), st, ini[-1])
        # template member: the pattern holds the default
        for q, fl in self.prog.by_qname.items():
            pass
        for g in self.prog.funcs.values():
            if g.name == f.name and len(g.params) == len(f.params) and _strip_targs(g.qname) == _strip_targs(f.qname):
                ini = [c for c in g.params[i].get("inner", []) if not c["kind"].endswith("Comment")]
                if ini and ini[-1]["kind"] != "CXXDefaultArgExpr":
                    return self.eval(Frame(g, None, None), st, ini[-1])
        raise Unsupported("default argument %d of %s" % (i, f.qname))

    def call_func(self, fr, st, f, thislv, argnodes, node, virtual=False):
        args = self.arg_values(fr, st, f, argnodes)
        return self.call_user(fr, st, f, thislv, args, node, virtual)

    def call_user(self, fr, st, f, thislv, args, node=None, virtual=False):
        h = self.hook_of(f)
        if h is not None:
            return h(self, st, thislv, args, f)
        if virtual and isinstance(thislv, Heap) and thislv.ref in st.dyn:
            g = self.final_overrider(f, st.dyn[thislv.ref])
            if g is not None:
                h = self.hook_of(g)
                if h is not None:
                    return h(self, st, thislv, args, g)
                if self.fkey(g) is not None or self.fkey(f) is None:
                    f, virtual = g, False
        k = self.fkey(f)
        if k is not None:
            return self.call_contract(fr, st, f, self.contracts[k], thislv, args)
        if f.name == "raise":
            pass
        if f.node["kind"] == "CXXMethodDecl" and f.node.get("explicitlyDefaulted") and f.name == "operator=":
            self.write(st, thislv, self.rv(st, args[0]))
            return thislv
        if virtual and f.body is None:
            raise Unsupported("virtual call of %s without contract" % f.qname)
        if virtual and self.overriders(f):
            raise Unsupported("virtual call of %s, which is overridden, without contract" % f.qname)
        if f.body is None:
            raise Unsupported("call of %s without body or contract" % f.qname)
        if f.static:
            thislv = None
        return self.inline(fr, st, f, thislv, args)

    def final_overrider(self, f, cls):
        """The function a virtual call of f runs on an object whose dynamic class is known."""
        for c in self.base_chain(cls):
            gs = [g for g in self.prog.funcs.values() if g.name == f.name and g.cls is not None and g.cls.name == c and
                  len(g.params) == len(f.params) and g.fntype.split("(", 1)[-1] == f.fntype.split("(", 1)[-1]]
            if gs:
                gs = [g for g in gs if g.body is not None] or [g for g in gs if self.fkey(g) is not None]
                return gs[0] if gs else None
        return None

    def overriders(self, f):
        if f.cls is None:
            return []
        out = []
        for g in self.prog.funcs.values():
            if g is not f and g.name == f.name and len(g.params) == len(f.params) and g.cls is not None and g.cls is not f.cls:
                if f.cls.name in self.base_chain(g.cls.name)[1:]:
                    out.append(g)
        return out

    def bind_params(self, st, fr2, f, args):
        for p, v in zip(f.params, args):
            if isinstance(v, Val):
                v = v.v
            self.declare(st, fr2, p, v)

    def inline(self, fr, st, f, thislv, args, parent=None):
        if self.inline_depth > 12:
            raise Unsupported("call depth (recursion?) at " + f.qname)
        self.inlined.add("%s (%s)" % (f.qname, (f.file or "").replace("/repo/", "")))
        self.inline_depth += 1
        save_line = self.cur_line
        try:
            fr2 = Frame(f, parent, thislv)
            fr2.caller = fr
            s = st.copy()
            base = len(s.pc)
            self.bind_params(s, fr2, f, args)
            outs = self.exec(fr2, s, f.body)
        finally:
            self.inline_depth -= 1
        self.cur_line = save_line
        rets = []
        for o in outs:
            if o[0] in ("ret", "norm"):
                rets.append(o)
            elif o[0] == "throw":
                s = o[1]
                self.oblige(s, "no exception leaves %s" % f.qname, z3.BoolVal(False), "throw")
            else:
                raise Unsupported("stray break")
        rets = [o for o in rets if not self.dead(o[1])]
        if not rets:
            st.pc.append(z3.BoolVal(False))
            t = self.rett(f)
            return self.fresh(t, "dead") if t.k not in ("void",) else None
        return self.join_outcomes(st, rets, base)

    def rett(self, f):
        try:
            t = self.ty.parse(f.rettype())
        except TypeErr:
            return VOID
        return t.a[0] if t.k == "ref" else t

    def merge_with(self, c, s, m, keep):
        """State that is s when c holds, m otherwise; names outside keep are dropped if they cannot be merged."""
        n = State()
        for k in s.store.keys() & m.store.keys():
            try:
                n.store[k] = merge_tree(c, s.store[k], m.store[k])
            except NoMerge:
                if k in keep:
                    raise
        for k in s.heap.keys() | m.heap.keys():
            a = s.heap.get(k, self._h0.get(k) if self._h0 else None)
            b = m.heap.get(k, self._h0.get(k) if self._h0 else None)
            n.heap[k] = merge_tree(c, a, b)
        for k in s.ghost.keys() & m.ghost.keys():
            n.ghost[k] = merge_tree(c, s.ghost[k], m.ghost[k])
        n.alloc = s.alloc if m.alloc is None else (m.alloc if s.alloc is None else merge_leaf(c, s.alloc, m.alloc))
        n.names = {k: v for k, v in m.names.items() if v in n.store}
        n.dyn = {k: v for k, v in s.dyn.items() if m.dyn.get(k) == v}
        return n

    def suffix_conds(self, states, base):
        cs = []
        for s in states:
            suf = s.pc[base:]
            cs.append(z3.And(*suf) if len(suf) > 1 else (suf[0] if suf else z3.BoolVal(True)))
        return cs

    def join_outcomes(self, st, rets, base):
        if len(rets) == 1:
            self.adopt(st, rets[0][1])
            return rets[0][2]
        try:
            cs = self.suffix_conds([o[1] for o in rets], base)
            m = rets[-1][1].copy()
            val = rets[-1][2]
            keep = set(st.store)
            for o, c in zip(reversed(rets[:-1]), reversed(cs[:-1])):
                s = o[1]
                n = self.merge_with(c, s, m, keep)
                v1, v2 = o[2], val
                if v1 is not None or v2 is not None:
                    if isinstance(v1, Lv) and isinstance(v2, Lv):
                        if v1 == v2 and not isinstance(v1, Val):
                            val = v1
                        else:
                            val = Val(merge_tree(c, self.rv(s, v1), self.rv(m, v2)))
                            if not (isinstance(v1, Val) and isinstance(v2, Val)):
                                raise NoMerge()
                    else:
                        val = merge_tree(c, self.rv(s, v1), self.rv(m, v2))
                m = n
            m.pc = list(rets[0][1].pc[:base])
            m.pc.append(simp(z3.Or(*cs)) if all(len(c.children()) < 40 for c in cs) else z3.Or(*cs))
            self.adopt(st, m)
            return val
        except NoMerge:
            i = self.choose(len(rets))
            self.adopt(st, rets[i][1])
            return rets[i][2]

    def call_closure(self, fr, st, cl, args):
        f = cl.fn
        vals = []
        for p, a in zip(f.params, args):
            pt = self.ty.node_type(p)
            if pt.k == "ref":
                vals.append(self.resolve(st, self.to_lv(st, a)))
            else:
                vals.append(self.rv(st, a))
        return self.inline(fr, st, f, None, vals, parent=cl.frame)

    def call_contract(self, fr, st, f, con, thislv, args):
        """Replace a call by the callee's contract."""
        if con.assumed:
            self.used_assumed.add(con.name + ((": " + con.note) if con.note else ""))
        self.used_contracts.add(con.name)
        ad = dict(enumerate(args))
        if con.modifies is not None:
            for i, a in ad.items():
                if isinstance(a, Val):      # a temporary gets a place of its own, so that its old value is kept
                    key = self.fresh_name("temporary")
                    st.store[key] = a.v
                    ad[i] = Var(key)
        pre = Ctx(self, st.copy(), this=thislv, args=ad)
        pre.func = f
        line = self.cur_line
        for lab, g in con.requires(pre):
            self.oblige(st, "precondition '%s' of %s" % (lab, con.name), g, "pre")
        if con.modifies is not None:
            for lv in con.modifies(pre):
                self.havoc_lv(st, lv)
        if con.allocates:
            old = st.alloc
            st.alloc = z3.Int(self.fresh_name("alloc"))
            st.pc.append(st.alloc >= old)
            for cls in dict.fromkeys(k for c_ in con.allocates for k in self.base_chain(c_)):
                a = self.heap_of(st, cls)
                b = self.havoc_path(a, (), "H")
                st.heap[cls] = b
                for g in self.heap_frame(a, b, old):
                    self.assume(st, g)
        rt = self.ty.parse(f.rettype()) if not f.is_ctor else VOID
        ret = None
        if con.result is not None:
            c1 = Ctx(self, st, this=thislv, args=ad, old=pre)
            c1.func = f
            ret = con.result(c1)
        elif con.pure:
            ret = self.pure_result(st, con, f, thislv, args, rt)
        elif rt.k != "void":
            t = rt.a[0] if rt.k == "ref" else rt
            ret = self.fresh(t, re.sub(r"\W+", "_", f.name) + ".ret")
            for fa in self.type_facts(t, ret):
                self.assume(st, fa)
        post = Ctx(self, st, this=thislv, args=ad, ret=self.rv(st, ret) if ret is not None else None, old=pre)
        post.func = f
        post.calling = True
        for e in con.ensures(post):
            self.assume(st, e[1])
        self.cur_line = line
        return ret

    def pure_result(self, st, con, f, thislv, args, rt):
        """Result of a side-effect-free callee: an uninterpreted function of what it may read."""
        ins = []
        if thislv is not None and con.pure != "static":
            lv = self.resolve(st, thislv)
            if con.pure == "ref":
                ins.append(lv.ref if isinstance(lv, Heap) else z3.IntVal(0))
            elif isinstance(lv, Heap):
                ins.append(lv.ref)
        for a in args:
            v = self.rv(st, a)
            if isinstance(v, (Ptr,)):
                v = self.read(st, v.lv)
            for x in leaves(v):
                if z3.is_expr(x):
                    ins.append(x)
        t = rt.a[0] if rt.k == "ref" else rt
        nm = re.sub(r"[^\w:]", "_", con.name)
        def mk(shape, path):
            if isinstance(shape, dict):
                return V({k: mk(s, path + "." + k) for k, s in shape.items()})
            fn = z3.Function("f_" + nm + path, *([x.sort() for x in ins] + [shape]))
            return fn(*ins)
        v = mk(self.ty.shape(t), "")
        for fa in self.type_facts(t, v):
            self.assume(st, fa)
        return v

    def havoc_lv(self, st, lv):
        if isinstance(lv, tuple) and lv[0] == "heap":       # ("heap", class, field or None): whole field map
            _, cls, fld = lv
            h = self.heap_of(st, cls)
            for k in ([fld] if fld else list(h.f)):
                h = h.set(k, self.havoc_path(h.f[k], (), "H." + k))
            st.heap[cls] = h
            return
        if isinstance(lv, tuple) and lv[0] == "ghost":
            st.ghost[lv[1]] = self.havoc_path(st.ghost[lv[1]], (), "g." + lv[1])
            return
        if isinstance(lv, tuple) and lv[0] == "alloc":
            if st.alloc is not None:
                old = st.alloc
                st.alloc = z3.Int(self.fresh_name("alloc"))
                st.pc.append(st.alloc >= old)
            return
        v = self.read(st, lv)
        self.write(st, lv, self.havoc_path(v, (), "hv"))

    # ---- constructors
    def construct(self, fr, st, ty, argnodes, n):
        if ty.k == "ref":
            ty = ty.a[0]
        real = [a for a in argnodes if a["kind"] != "CXXDefaultArgExpr"]
        if ty.k == "rec" and ty.name not in ("Vec2", "Rot2", "Dist"):
            # copy / move?
            if len(real) == 1:
                at = self.ty.node_type(real[0])
                if at.k == "ref":
                    at = at.a[0]
                if at == ty:
                    return self.evr(fr, st, real[0])
                if at.k == "rec" and ty.name in self.base_chain(at.name):
                    v = self.evr(fr, st, real[0])
                    return V({f: v.f[f] for f, _ in self.ty.fields(ty) if f in v.f})
            ctor = self.find_ctor(ty, n, len(argnodes))
            if ctor is not None:
                return self.run_ctor(fr, st, ty, ctor, argnodes)
            if not real:
                return self.construct_default(fr, st, ty)
            raise Unsupported("constructor of %s with %d arguments" % (ty.name, len(real)))
        return self.std_construct(fr, st, ty, argnodes, n)

    def find_ctor(self, ty, n, nargs):
        r = self.prog.find_record(ty.name)
        want = (n or {}).get("ctorType", {}).get("qualType")
        wantd = (n or {}).get("ctorType", {}).get("desugaredQualType")
        simple = re.sub(r"<.*", "", r.name.split("<")[0].split("::")[-1])
        cands = []
        for nm, fl in r.methods.items():
            for f in fl:
                if f.is_ctor and not f.dependent:
                    g = self.prog.definition(f.node["id"]) or f
                    cands.append((f, g))
        # out-of-line definitions and template instantiations too
        sel_ = []
        for f, g in cands:
            ft = f.node["type"].get("qualType")
            fd = f.node["type"].get("desugaredQualType")
            if want and (ft == want or (fd and fd == wantd) or (wantd and ft == wantd)):
                sel_.append(g)
        if not sel_:
            sel_ = [g for f, g in cands if len(f.params) == nargs and not f.node.get("isImplicit")]
        sel_ = [g for g in sel_ if g.body is not None or g.node.get("explicitlyDefaulted")]
        if sel_:
            g = sel_[0]
            if g.body is None or (g.node.get("explicitlyDefaulted") and not g.params):
                return None if not g.params else g
            return g
        return None

    def run_ctor(self, fr, st, ty, ctor, argnodes):
        if self.hook_of(ctor) is not None or self.fkey(ctor) is not None:
            args = self.arg_values(fr, st, ctor, argnodes)
            return self.ctor_call(fr, st, ty, ctor, args)
        args = self.arg_values(fr, st, ctor, argnodes)
        return self.ctor_call(fr, st, ty, ctor, args)

    def ctor_call(self, fr, st, ty, ctor, args):
        h = self.hook_of(ctor)
        if h is not None:
            return h(self, st, ty, args, ctor)
        if len(ctor.params) == 1 and ctor.node.get("isImplicit"):
            return self.rv(st, args[0])
        con = self.contract_of(ctor)
        if con is not None:
            tmp = {"id": "tmp" + self.fresh_name("obj"), "name": "*this"}
            v = self.fresh(ty, "made")
            for fa in self.type_facts(ty, v):
                self.assume(st, fa)
            key = self.declare(st, Frame(ctor, None, None), tmp, v)
            self.call_contract(fr, st, ctor, con, Var(key), args)
            return st.store[key]
        fr2 = Frame(ctor, None, None)
        fr2.caller = fr
        self.inlined.add("%s (%s)" % (ctor.qname, (ctor.file or "").replace("/repo/", "")))
        tmp = {"id": "tmp" + self.fresh_name("obj"), "name": "*this"}
        objkey = self.declare(st, fr2, tmp, V({}))
        objlv = Var(objkey)
        fr2.this = objlv
        self.bind_params(st, fr2, ctor, args)
        out = {}
        r = self.prog.find_record(ty.name)
        inits = {}
        for ci in ctor.inits:
            if "anyInit" in ci:
                inits[("f", ci["anyInit"]["name"])] = ci
            elif "baseInit" in ci:
                inits[("b", ci["baseInit"].get("desugaredQualType", ci["baseInit"].get("qualType")))] = ci
            else:
                inits[("d", "delegating")] = ci
        if ("d", "delegating") in inits or (len(ctor.inits) == 1 and "delegatingInit" in ctor.inits[0]):
            ci = ctor.inits[0]
            v = self.rv(st, self.eval(fr2, st, ci["inner"][0]))
            st.store[objkey] = v
        else:
            for b in r.bases:
                bt = self.ty.parse(b)
                if bt.k == "rec":
                    ci = None
                    for (kk, nm), c in inits.items():
                        if kk == "b" and self.ty.parse(nm) == bt:
                            ci = c
                    if ci is not None and ci.get("inner"):
                        bv = self.rv(st, self.eval(fr2, st, ci["inner"][0]))
                    else:
                        bv = self.construct_default(fr2, st, bt)
                    for k2, v2 in bv.f.items():
                        out[k2] = v2
                elif bt.k in ("set", "map", "vec"):
                    out["__base"] = self.zero(bt)
                st.store[objkey] = V(dict(out))
            for (fn_, t, node) in r.fields:
                ft = self.ty.parse(t)
                ci = inits.get(("f", fn_))
                if ci is not None and ci.get("inner") and ci["inner"][0]["kind"] != "CXXDefaultInitExpr":
                    v = self.eval(fr2, st, ci["inner"][0])
                    if ft.k == "ref":
                        lv = self.resolve(st, self.to_lv(st, v))
                        out[fn_] = lv if not isinstance(lv, Val) else lv.v
                    else:
                        out[fn_] = self.coerce_agg(ft, self.rv(st, v))
                else:
                    ini = [c for c in node.get("inner", []) if not c["kind"].endswith("Comment")]
                    if node.get("hasInClassInitializer") and ini:
                        out[fn_] = self.coerce_agg(ft, self.rv(st, self.eval(fr2, st, ini[-1])))
                    else:
                        try:
                            out[fn_] = self.default_value(fr2, st, ft, node)
                        except (TypeErr, Unsupported):
                            continue
                st.store[objkey] = V(dict(out))
        if ctor.body is not None and ctor.body.get("inner"):
            self.inline_depth += 1
            s = st.copy()
            base = len(s.pc)
            outs = self.exec(fr2, s, ctor.body)
            self.inline_depth -= 1
            rets = []
            for o in outs:
                if o[0] == "throw":
                    self.oblige(o[1], "no exception leaves %s" % ctor.qname, z3.BoolVal(False), "throw")
                else:
                    rets.append((o[0], o[1], None))
            if not rets:
                st.pc.append(z3.BoolVal(False))
            else:
                self.join_outcomes(st, rets, base)
        v = st.store[objkey]
        st.store.pop(objkey, None)
        return v

    def method(self, clsname, name, nparams=None):
        for c in self.base_chain(clsname):
            r = self.prog.find_record(c)
            for f in r.methods.get(name, []):
                if nparams is None or len(f.params) == nparams:
                    g = self.prog.definition(f.node["id"]) or f
                    return g
        return None
