"""Deductive verifier: forward symbolic execution of clang's AST against contracts.

Every function under contract is executed once with symbolic inputs; calls are replaced by the
callee's contract (or, for helpers without a contract, by executing the helper's real body);
loops are cut at their invariants (or fully unrolled when their trip count is a compile-time
constant).  The result is a list of proof obligations (hypotheses => goal) for the SMT back ends.
"""
import re
import z3
from .ty import *
from .cast import Program, ExtractError, Func

RealV = z3.RealVal


class Unsupported(ExtractError):
    pass


class NeedInvariant(ExtractError):
    pass


class AttachError(ExtractError):
    """An annotation refers to something that is not in the code any more."""


class ForkMore(Exception):
    pass


PI = z3.Real("m_pi")
INF = z3.Real("inf")


def ufun(name, *sorts):
    return z3.Function(name, *sorts)


SIN, COS, TAN = ufun("m_sin", R, R), ufun("m_cos", R, R), ufun("m_tan", R, R)
ASIN, ACOS, ATAN = ufun("m_asin", R, R), ufun("m_acos", R, R), ufun("m_atan", R, R)
ATAN2 = ufun("m_atan2", R, R, R)
SQRT = ufun("m_sqrt", R, R)
FMOD = ufun("m_fmod", R, R, R)
LOG = ufun("m_log", R, R)
NEXTUP = ufun("m_nextup", R, R)


def is_true(e):
    return z3.is_expr(e) and z3.is_true(e)


def is_false(e):
    return z3.is_expr(e) and z3.is_false(e)


_simp_cache = {}


def simp(e):
    return z3.simplify(e)


def concrete_bool(e):
    s = simp(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return None


def concrete_int(e):
    if isinstance(e, int):
        return e
    s = simp(e)
    if z3.is_int_value(s):
        return s.as_long()
    return None


# ---------------------------------------------------------------- lvalues
class Lv:
    pass


class Var(Lv):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Var) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "Var(%s)" % (self.k,)


class Fld(Lv):
    __slots__ = ("b", "n")

    def __init__(self, b, n):
        self.b, self.n = b, n

    def __eq__(self, o):
        return isinstance(o, Fld) and o.n == self.n and o.b == self.b

    def __hash__(self):
        return hash((self.b, self.n))

    def __repr__(self):
        return "%r.%s" % (self.b, self.n)


def _same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return a == b


class Elem(Lv):
    """Element of a vector (or of the data array of a priority queue)."""
    __slots__ = ("b", "i")

    def __init__(self, b, i):
        self.b, self.i = b, i

    def __eq__(self, o):
        return isinstance(o, Elem) and o.b == self.b and _same(self.i, o.i)

    def __hash__(self):
        return hash((self.b, "e"))

    def __repr__(self):
        return "%r[%s]" % (self.b, self.i)


class ArrE(Lv):
    """Element of a std::array / C array with symbolic index."""
    __slots__ = ("b", "i", "n")

    def __init__(self, b, i, n):
        self.b, self.i, self.n = b, i, n

    def __eq__(self, o):
        return isinstance(o, ArrE) and o.b == self.b and _same(self.i, o.i)

    def __hash__(self):
        return hash((self.b, "a"))


class GridE(Lv):
    __slots__ = ("b", "r", "c")

    def __init__(self, b, r, c):
        self.b, self.r, self.c = b, r, c

    def __eq__(self, o):
        return isinstance(o, GridE) and o.b == self.b and _same(self.r, o.r) and _same(self.c, o.c)

    def __hash__(self):
        return hash((self.b, "g"))


class Heap(Lv):
    __slots__ = ("cls", "ref")

    def __init__(self, cls, ref):
        self.cls, self.ref = cls, ref

    def __eq__(self, o):
        return isinstance(o, Heap) and o.cls == self.cls and _same(self.ref, o.ref)

    def __hash__(self):
        return hash((self.cls, "h"))

    def __repr__(self):
        return "Heap(%s,%s)" % (self.cls, self.ref)


class KeyE(Lv):
    """The element ('el') or mapped value ('val') stored under a key in a set/map."""
    __slots__ = ("b", "key", "part")

    def __init__(self, b, key, part):
        self.b, self.key, self.part = b, tuple(key), part

    def __eq__(self, o):
        return isinstance(o, KeyE) and o.b == self.b and self.part == o.part and all(_same(x, y) for x, y in zip(self.key, o.key))

    def __hash__(self):
        return hash((self.b, self.part))


class PairOf(Lv):
    """it->first / it->second of a map iterator."""
    __slots__ = ("b", "key")

    def __init__(self, b, key):
        self.b, self.key = b, tuple(key)

    def __eq__(self, o):
        return isinstance(o, PairOf) and o.b == self.b and all(_same(x, y) for x, y in zip(self.key, o.key))

    def __hash__(self):
        return hash((self.b, "p"))


class Val(Lv):
    """A temporary."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- opaque leaf values
class It:
    """Random-access iterator into a vector."""
    __slots__ = ("c", "i", "rev")

    def __init__(self, c, i, rev=False):
        self.c, self.i, self.rev = c, i, rev

    def __repr__(self):
        return "It(%r,%s%s)" % (self.c, self.i, ",rev" if self.rev else "")


class KIt:
    """Iterator into a set/map: either end (found = False) or at a key."""
    __slots__ = ("c", "found", "key")

    def __init__(self, c, found, key):
        self.c, self.found, self.key = c, found, tuple(key)


class Ptr:
    """Pointer to a known lvalue; `null` is the condition under which it is null."""
    __slots__ = ("lv", "null")

    def __init__(self, lv, null=None):
        self.lv = lv
        self.null = z3.BoolVal(False) if null is None else null


class RowPtr:
    __slots__ = ("b", "r")

    def __init__(self, b, r):
        self.b, self.r = b, r


class Closure:
    __slots__ = ("node", "frame", "this", "fn")

    def __init__(self, node, frame, this, fn):
        self.node, self.frame, self.this, self.fn = node, frame, this, fn


class NoMerge(Exception):
    pass


def merge_leaf(c, a, b):
    if a is b:
        return a
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            raise NoMerge()
        return z3.If(c, a, b)
    if isinstance(a, It) and isinstance(b, It) and a.c == b.c and a.rev == b.rev:
        return It(a.c, merge_leaf(c, a.i, b.i), a.rev)
    if isinstance(a, KIt) and isinstance(b, KIt) and (a.c == b.c):
        if len(a.key) == len(b.key):
            return KIt(a.c, merge_leaf(c, a.found, b.found), [merge_leaf(c, x, y) for x, y in zip(a.key, b.key)])
        if not a.key:
            return KIt(a.c, merge_leaf(c, a.found, b.found), b.key)
        if not b.key:
            return KIt(a.c, merge_leaf(c, a.found, b.found), a.key)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv == b.lv:
        return Ptr(a.lv, merge_leaf(c, a.null, b.null))
    # null pointer constant against a pointer to an lvalue
    if isinstance(a, Ptr) and z3.is_expr(b) and concrete_int(b) == 0:
        return Ptr(a.lv, z3.If(c, a.null, z3.BoolVal(True)))
    if isinstance(b, Ptr) and z3.is_expr(a) and concrete_int(a) == 0:
        return Ptr(b.lv, z3.If(c, z3.BoolVal(True), b.null))
    if isinstance(a, Lv) and isinstance(b, Lv) and a == b:
        return a
    if isinstance(a, str) and a == b:
        return a
    if isinstance(a, Closure) and isinstance(b, Closure) and a.node is b.node and a.frame == b.frame:
        return a
    raise NoMerge()


def merge_tree(c, a, b):
    if a is b:
        return a
    if isinstance(a, V) and isinstance(b, V):
        if a.f.keys() != b.f.keys():
            raise NoMerge()
        return V({k: merge_tree(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, V) or isinstance(b, V):
        raise NoMerge()
    return merge_leaf(c, a, b)


class State:
    __slots__ = ("store", "heap", "pc", "alloc", "ghost", "names", "dyn")

    def __init__(self):
        self.store, self.heap, self.pc, self.alloc, self.ghost, self.names = {}, {}, [], None, {}, {}
        self.dyn = {}       # reference term -> class of the object allocated there

    def copy(self):
        s = State()
        s.store, s.heap, s.pc = dict(self.store), dict(self.heap), list(self.pc)
        s.alloc, s.ghost, s.names = self.alloc, dict(self.ghost), dict(self.names)
        s.dyn = dict(self.dyn)
        return s


def merge_states(c, a, b, base_len, h0):
    """State that is a when c holds and b otherwise (both extend the same prefix of pc)."""
    m = State()
    for k in a.store.keys() & b.store.keys():
        m.store[k] = merge_tree(c, a.store[k], b.store[k])
    for k in a.store.keys() | b.store.keys():
        if k not in m.store:
            # declared in one branch only: dead after the join
            pass
    for k in a.heap.keys() | b.heap.keys():
        if k in a.heap and k in b.heap:
            m.heap[k] = merge_tree(c, a.heap[k], b.heap[k])
        else:
            m.heap[k] = merge_tree(c, a.heap.get(k, h0.get(k)), b.heap.get(k, h0.get(k)))
    for k in a.ghost.keys() & b.ghost.keys():
        m.ghost[k] = merge_tree(c, a.ghost[k], b.ghost[k])
    m.alloc = merge_leaf(c, a.alloc, b.alloc) if a.alloc is not None else None
    m.names = {k: v for k, v in a.names.items() if v in m.store}
    m.dyn = {k: v for k, v in a.dyn.items() if b.dyn.get(k) == v}
    m.pc = a.pc[:base_len]
    ra, rb = a.pc[base_len:], b.pc[base_len:]
    for p in ra:
        if not p.eq(c):
            m.pc.append(z3.Implies(c, p))
    nc = z3.Not(c)
    for p in rb:
        if not p.eq(nc):
            m.pc.append(z3.Implies(nc, p))
    return m


class Obligation:
    __slots__ = ("name", "kind", "hyps", "goal", "func", "line", "expect", "result", "time", "backend", "model", "timeout", "ax", "has_q", "hint")

    def __init__(self, name, kind, hyps, goal, func, line, expect="unsat", ax=None):
        self.name, self.kind, self.hyps, self.goal = name, kind, hyps, goal
        self.func, self.line, self.expect = func, line, expect
        self.result = self.time = self.backend = self.model = None
        self.timeout = None
        self.ax = ax or []


class Contract:
    """requires / ensures are functions Ctx -> list of (label, z3 bool); modifies lists what a call may change."""

    def __init__(self, name, requires=None, ensures=None, modifies=None, loops=None, pure=None,
                 assumed=False, may_throw=None, nparams=None, pred=None, setup=None, result=None, note="", unroll=0,
                 heap_this=False, inv=None, facts=None, hints=None, noframe=False, never_returns=False, allocates=(), soft=False):
        self.name = name
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies          # function Ctx -> list of lvalues to havoc, or None = nothing
        self.loops = loops or []
        self.pure = pure
        self.assumed = assumed
        self.may_throw = may_throw
        self.nparams = nparams
        self.pred = pred
        self.setup = setup
        self.result = result
        self.note = note
        self.unroll = unroll
        self.heap_this = heap_this
        self.inv = inv
        self.facts = facts
        self.hints = hints
        self.soft = soft         # lemmas that are used only where they are proved at once
        self.noframe = noframe
        self.never_returns = never_returns
        self.allocates = allocates        # classes of which a call may create objects


def quantified(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    return z3.is_quantifier(e) or any(quantified(x, seen) for x in e.children())


class Loop:
    """Loop annotation: inv(ctx) -> [(label, bool)], variant(ctx) -> int term or None."""

    def __init__(self, inv, variant=None, match=None, havoc=None, lemma=None, fresh_only=False, forget=None, constant=None):
        self.inv, self.variant, self.match, self.lemma = inv, variant, match, lemma
        self.havoc = havoc
        self.constant = constant          # for which loops of constant trip count the invariant is used rather than unrolling
        self.forget = quantified if forget is True else forget
        self.fresh_only = fresh_only      # the loop writes to objects it allocates only


class Ctx:
    """What a specification can talk about."""

    def __init__(self, ex, st, this=None, args=None, ret=None, old=None, frame=None, extra=None):
        self.ex, self.st, self._this, self._args, self.ret, self.old = ex, st, this, args or {}, ret, old
        self.frame = frame
        self.extra = extra or {}
        self.retlv = None

    @property
    def this(self):
        return self.ex.read(self.st, self._this)

    @property
    def thisref(self):
        return self._this.ref

    def arg(self, i):
        """i-th parameter (value)."""
        v = self._args[i]
        if isinstance(v, Lv):
            return self.ex.read(self.st, v)
        return v

    def arglv(self, i):
        return self._args[i]

    def deref(self, v, cls=None):
        """Value pointed to by a pointer value."""
        if isinstance(v, Ptr):
            return self.ex.read(self.st, v.lv)
        return self.ex.read(self.st, Heap(cls, v))

    def heap(self, cls, field):
        return self.ex.heap_of(self.st, cls).f[field]

    def var(self, *names):
        for n in names:
            v = self.ex.lookup_name(self.st, self.frame, n)
            if v is not None:
                return v
        raise AttachError("no variable named %s" % "/".join(names))

    def hasvar(self, n):
        return self.ex.lookup_name(self.st, self.frame, n) is not None

    def ghost(self, n):
        return self.st.ghost[n]

    def read(self, lv):
        return self.ex.read(self.st, lv)


class Frame:
    _n = 0

    def __init__(self, fn, parent=None, this=None):
        Frame._n += 1
        self.id = Frame._n
        self.fn = fn
        self.parent = parent
        self.this = this
        self.vars = {}       # decl id -> store key (chronological)
        self.order = []      # (name, key)
        self.contract = None
        self.loop_no = 0



FUNCK = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


class FnRef:
    __slots__ = ("id", "name")

    def __init__(self, id, name):
        self.id, self.name = id, name


class BoundFn:
    __slots__ = ("id", "name", "base", "arrow")

    def __init__(self, id, name, base, arrow):
        self.id, self.name, self.base, self.arrow = id, name, base, arrow


class ArrPtr:
    """A C array (or std::array data) decayed to a pointer to its first element."""
    __slots__ = ("lv", "n")

    def __init__(self, lv, n):
        self.lv, self.n = lv, n
