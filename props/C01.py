from .util import *

HARNESS = "c01.cpp"
SECONDS = 5
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["the comparison is a strict weak order and the key equality an equivalence (both are uninterpreted), the hash agrees with the key equality, and neither changes while an element is in the list",
               "elements are named by numbers: copying an element is copying its name"]
F = "Planner::Frontier<int, Before, HashItem, SameKey, std::vector<int>>::"
LESS = z3.Function("goes_before", I, I, B)
KEY = z3.Function("key_of", I, I)


def order(c):
    a, b, d = z3.Ints("a b d")
    less, same = callfn([c.this.m_compare, a, b], B), callfn([c.this.m_keyEqual, a, b], B)
    return [z3.ForAll([a, b], less == LESS(a, b), patterns=[less]), z3.ForAll([a, b], same == (KEY(a) == KEY(b)), patterns=[same]),
            z3.ForAll([a], Not(LESS(a, a))),
            z3.ForAll([a, b, d], Imp(And(LESS(a, b), LESS(b, d)), LESS(a, d))),
            z3.ForAll([a, b, d], Imp(LESS(a, b), Or(LESS(a, d), LESS(d, b))))]


def setup():
    ex = verifier("frontier.cpp")
    ex.ty.keyfns = {r"SameKey": ([I], lambda s, st, v: [KEY(v)])}
    return ex


def vec(f): return f.m_vec
def has(f, k): return sel(f.m_set.f["has"], k)
def el(f, k): return sel(f.m_set.f["el"], k)
AT = lambda f, i: at(f.m_vec, i)


def in_order(f):
    i, j = fresh_int("i"), fresh_int("j")
    return z3.ForAll([i, j], Imp(And(0 <= i, i < j, j < vec(f).len), Not(LESS(AT(f, j), AT(f, i)))))


def invariant(f):
    i, j, k = fresh_int("i"), fresh_int("j"), fresh_int("k")
    return [("in the order of the comparison", in_order(f)),
            ("each key once", z3.ForAll([i, j], Imp(And(0 <= i, i < j, j < vec(f).len), KEY(AT(f, i)) != KEY(AT(f, j))))),
            ("every element is found by its key", all_int(0, vec(f).len, lambda i: And(has(f, KEY(AT(f, i))), el(f, KEY(AT(f, i))) == AT(f, i)))),
            ("nothing else is found", z3.ForAll([k], Imp(has(f, k), z3.Exists([i], And(0 <= i, i < vec(f).len, KEY(AT(f, i)) == k))))),
            ("size", And(vec(f).len >= 0, f.m_set.f["n"] == vec(f).len))]


def pre(c): return invariant(c.this)
def kept(c): return [("preserved: " + n, f) for n, f in invariant(c.this)]


def search(name, before, after=None):
    """a position that splits the list"""
    def spans(c, b, e):
        return [("the range", And(0 <= b, b <= e, e <= vec(c.this).len)),
                ("everything left of the range", all_int(0, b, lambda i: before(c, AT(c.this, i)))),
                ("everything right of the range", all_int(e, vec(c.this).len, lambda i: Not(before(c, AT(c.this, i)))))]

    def inv(c):
        b, e, m = c.var("begin").i, c.var("end").i, c.var("mid").i
        return spans(c, b, e) + [("where the search stands when it ends", And(0 <= m, m <= vec(c.this).len, Imp(b == e, And(Or(m == b, And(name.endswith("IsTrue"), m <= b)), Or(m < vec(c.this).len, vec(c.this).len == 0))))),
                                 ("everything left of it", all_int(0, m, lambda i: Imp(b == e, before(c, AT(c.this, i)))))]

    def post(c):
        p, n = c.ret.i, vec(c.this).len
        r = [("a position in the list", And(0 <= p, p <= n)), ("what is left of it", all_int(0, p, lambda i: before(c, AT(c.this, i))))]
        if after:
            r.append(("what is right of it", all_int(p, n, lambda i: Not(before(c, AT(c.this, i))))))
        return r
    return Contract(F + name, requires=lambda c: [("in order", in_order(c.this))], facts=order, ensures=post, loops=[Loop(inv, variant=lambda c: c.var("end").i - c.var("begin").i)],
                    may_throw=lambda c: z3.BoolVal(False))


def first(): return search("FindFirstCompareIsFalse", lambda c, x: Not(LESS(c.arg(0), x)), True)
def last(): return search("FindLastCompareIsTrue", lambda c, x: LESS(x, c.arg(0)))


def group_search():
    ex = setup()
    ex.verify(first())
    ex.verify(last())
    return ex


def same_but(c, k):
    f, w = c.this, c.old.this
    j = fresh_int("k")
    return z3.ForAll([j], Imp(j != k, And(has(f, j) == has(w, j), Imp(has(w, j), el(f, j) == el(w, j)))))


def unchanged(c):
    f, w = c.this, c.old.this
    j = fresh_int("k")
    return And(vec(f).len == vec(w).len, all_int(0, vec(w).len, lambda i: AT(f, i) == AT(w, i)), z3.ForAll([j], And(has(f, j) == has(w, j), el(f, j) == el(w, j))))


def group_edits():
    ex = setup()
    for k in (first(), last()):
        k.result = lambda c: It(Fld(c._this, "m_vec"), fresh_int("position"))
        k.assumed, k.note, k.loops = True, "proved in the group on searches", []
        ex.add(k)
    k = lambda c: KEY(c.old.arg(0))

    def push(c):
        ok, ptr = c.ret.f["1"], c.ret.f["0"]
        x = c.old.arg(0)
        return [("accepted iff the key is absent", ok == Not(has(c.old.this, k(c)))),
                ("the element is found", And(has(c.this, k(c)), Imp(ok, el(c.this, k(c)) == x))),
                ("the others are as before", same_but(c, k(c))),
                ("a refusal changes nothing", Imp(Not(ok), unchanged(c))),
                ("the element is handed back", c.ex.read(c.st, ptr.lv) == el(c.this, k(c))),
                ("one more element", vec(c.this).len == vec(c.old.this).len + z3.If(ok, 1, 0))] + kept(c)
    ex.verify(Contract(F + "Push", requires=pre, facts=order, ensures=push, modifies=lambda c: [c._this], may_throw=lambda c: z3.BoolVal(False)))

    def scan(c):
        p = c.var("vecIt").i
        f = c.this
        return [("position", And(0 <= p, p <= vec(f).len)), ("not met yet", all_int(0, p, lambda i: KEY(AT(f, i)) != k(c))), ("nothing erased yet", And(Not(c.var("erased")), unchanged(c)))]

    def remove(c):
        had = has(c.old.this, k(c))
        return [("removed iff the key was present", c.ret == z3.If(had, 1, 0)),
                ("the key is gone", Not(has(c.this, k(c)))),
                ("the others are as before", same_but(c, k(c))),
                ("an absent key changes nothing", Imp(Not(had), unchanged(c))),
                ("one element less", vec(c.this).len == vec(c.old.this).len - z3.If(had, 1, 0))] + kept(c)
    ex.verify(Contract(F + "Remove", requires=pre, facts=order, ensures=remove, modifies=lambda c: [c._this], may_throw=lambda c: z3.BoolVal(False), loops=[Loop(scan)]))

    def pop(c):
        w = c.old.this
        j = fresh_int("k")
        return [("an element that no other beats", And(has(w, KEY(c.ret)), el(w, KEY(c.ret)) == c.ret, z3.ForAll([j], Imp(has(w, j), Not(LESS(c.ret, el(w, j))))))),
                ("it is gone", Not(has(c.this, KEY(c.ret)))), ("the others are as before", same_but(c, KEY(c.ret))), ("one element less", vec(c.this).len == vec(w).len - 1)] + kept(c)
    ne = lambda c: pre(c) + [("not empty", vec(c.this).len > 0)]
    ex.verify(Contract(F + "Pop", requires=ne, facts=order, ensures=pop, modifies=lambda c: [c._this], may_throw=lambda c: z3.BoolVal(False)))
    j = z3.Int("k")
    ex.verify(Contract(F + "Top", requires=ne, facts=order, ensures=lambda c: [("an element that no other beats", And(has(c.this, KEY(c.ret)), el(c.this, KEY(c.ret)) == c.ret, z3.ForAll([j], Imp(has(c.this, j), Not(LESS(c.ret, el(c.this, j)))))))]))

    def found(c):
        if not isinstance(c.ret, Ptr):
            return [("a null pointer only if the key is absent", Not(has(c.this, k(c))))]
        return [("found iff present", c.ret.null == Not(has(c.this, k(c)))), ("the element with that key", Imp(Not(c.ret.null), c.ex.read(c.st, c.ret.lv) == el(c.this, k(c))))]
    ex.verify(Contract(F + "Find", requires=pre, ensures=found))
    ex.verify(Contract(F + "Clear", ensures=lambda c: [("empty", And(vec(c.this).len == 0, z3.ForAll([j], Not(has(c.this, j)))))] + kept(c), modifies=lambda c: [c._this]))
    ex.verify(Contract(F + "Size", requires=pre, ensures=lambda c: [("the number of elements", c.ret == c.this.m_set.f["n"])]))
    ex.verify(Contract(F + "Empty", requires=pre, ensures=lambda c: [("empty iff no key is present", c.ret == z3.ForAll([j], Not(has(c.this, j))))]))
    ex.verify(Contract(F + "begin", ensures=lambda c: [("the iteration starts at the first element", c.ret.i == 0)]))
    ex.verify(Contract(F + "end", ensures=lambda c: [("and ends after the last", c.ret.i == vec(c.this).len)]))
    return ex


def groups():
    return [dict(name="searches", run=group_search), dict(name="edits", run=group_edits)]
