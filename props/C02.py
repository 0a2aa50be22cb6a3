from .util import *

HARNESS = "c02.cpp"
SECONDS = 6
BOUNDED = "the tree of states (utils/tree.h), which stores its nodes in the k-d tree of flann, an external library"
ASSUMPTIONS = ["a node handed to AddChild or ReplaceChild has no parent and is not an ancestor of its new place (it is owned by the caller)",
               "a tree given to an operation has links without cycles (a depth exists); every edit is proved to keep that",
               "that the third law of trees follows from the other two is proved by an explicit induction on the depth (one lemma)"]
N = "Planner::Node<int>"


def P(c, n): return c.deref(n, N).m_parent
def CH(c, n): return c.deref(n, N).m_children
def alive(c, n): return And(n > 0, n < c.st.alloc)


def links(c):
    n, m, i, j = [fresh_int(x) for x in "nmij"]
    return [("every child of a node has that node as parent", z3.ForAll([n, i], Imp(And(alive(c, n), 0 <= i, i < CH(c, n).len), And(alive(c, at(CH(c, n), i)), P(c, at(CH(c, n), i)) == n)))),
            ("a node is listed once", z3.ForAll([n, i, j], Imp(And(alive(c, n), 0 <= i, i < j, j < CH(c, n).len), at(CH(c, n), i) != at(CH(c, n), j)))),
            ("a node with a parent is listed there", z3.ForAll([m], Imp(And(alive(c, m), P(c, m) != 0), And(alive(c, P(c, m)), z3.Exists([i], And(0 <= i, i < CH(c, P(c, m)).len, at(CH(c, P(c, m)), i) == m)))))),
            ("sizes", z3.ForAll([n], CH(c, n).len >= 0))]


def kept(c): return [("preserved: " + n, f) for n, f in links(c)]


def same_children(a, b):
    return And(a.len == b.len, all_int(0, b.len, lambda i: at(a, i) == at(b, i)))


def others(c, parents=(), lists=()):
    """every other node keeps its parent and its children"""
    n, i = fresh_int("n"), fresh_int("i")
    return [("other nodes keep their parent", z3.ForAll([n], Imp(And(alive(c.old, n), *[n != x for x in parents]), P(c, n) == P(c.old, n)))),
            ("other nodes keep their children in order", z3.ForAll([n], Imp(And(alive(c.old, n), *[n != x for x in lists]), same_children(CH(c, n), CH(c.old, n)))))]


# The links have no cycle: a depth exists.  depth_of and is_below are functions of the map of parents.
ARR = z3.ArraySort(I, I)
DEPTH = z3.Function("depth_of", ARR, I, I)
BELOW = z3.Function("is_below", ARR, I, I, B)      # parents, a node, a strict ancestor of it


def parents(c): return c.ex.heap_of(c.st, N).f["m_parent"]
def D(c, n): return DEPTH(parents(c), n)
def UNDER(c, n, m): return BELOW(parents(c), n, m)
def SUB(c, n, m): return Or(n == m, UNDER(c, n, m))


def tree_laws(c, d, u, pats=None):
    """d is the depth and u the strict ancestor relation of the links of the state"""
    n, m = fresh_int("n"), fresh_int("m")
    fa = lambda vs, f, p: z3.ForAll(vs, f, patterns=[p]) if pats else z3.ForAll(vs, f)
    p = P(c, n)
    return [("a depth exists", fa([n], Imp(alive(c, n), And(d(n) >= 0, d(n) == z3.If(p == 0, z3.IntVal(0), d(p) + 1))), d(n))),
            ("ancestors", fa([n, m], Imp(alive(c, n), u(n, m) == And(p != 0, Or(p == m, u(p, m)))), u(n, m))),
            ("ancestors are nodes less deep", fa([n, m], Imp(And(alive(c, n), u(n, m)), And(alive(c, m), d(m) < d(n))), u(n, m)))]


def forest(c):
    return [f for _, f in tree_laws(c, lambda n: D(c, n), lambda n, m: UNDER(c, n, m), True)]


def still_forest(c, d, u):
    """verifying: the witnesses satisfy the laws; calling: the depth and the ancestors of the new links are the witnesses"""
    if c.calling:
        n, m = fresh_int("n"), fresh_int("m")
        return [("depth", z3.ForAll([n], Imp(alive(c, n), D(c, n) == d(n)), patterns=[D(c, n)])), ("ancestors", z3.ForAll([n, m], Imp(alive(c, n), UNDER(c, n, m) == u(n, m)), patterns=[UNDER(c, n, m)]))] + \
            [("laws", f) for f in forest(c)]
    return [("no cycle: " + l, f) for l, f in tree_laws(c, d, u)[:2]]      # the third law follows: see group_induction


NOTHROW = dict(may_throw=lambda c: z3.BoolVal(False))
LINKS = [("heap", N, "m_parent"), ("heap", N, "m_children")]


def this(c): return c._this.ref


def add():
    def post(c):
        x, t, o = c.old.arg(0), this(c), c.old
        d = lambda n: z3.If(SUB(o, n, x), D(o, n) + D(o, t) + 1, D(o, n))
        u = lambda n, m: Or(UNDER(o, n, m), And(SUB(o, n, x), SUB(o, t, m)))
        w, v = CH(c.old, this(c)), CH(c, this(c))
        return [("the node is handed back", c.ret == x), ("it is the last child", And(v.len == w.len + 1, at(v, w.len) == x, all_int(0, w.len, lambda i: at(v, i) == at(w, i)))),
                ("its parent", P(c, x) == this(c)), ("it is given away", c.arg(0) == 0)] + others(c, [x], [this(c)]) + kept(c) + still_forest(c, d, u)
    return Contract(N + "::AddChild", heap_this=True, requires=lambda c: links(c) + [("a node without parent, owned by the caller", And(alive(c, c.arg(0)), P(c, c.arg(0)) == 0)), ("its new place is not below it", Not(SUB(c, this(c), c.arg(0))))],
                    facts=forest, ensures=post, modifies=lambda c: LINKS + [c.arglv(0)], **NOTHROW)


def child_index(c, n):
    i = fresh_int("i")
    return z3.Exists([i], And(0 <= i, i < CH(c, this(c)).len, at(CH(c, this(c)), i) == n))


def scan(it, node):
    def inv(c):
        p = c.var(it).i
        return [("position", And(0 <= p, p <= CH(c, this(c)).len)), ("not met yet", all_int(0, p, lambda i: at(CH(c, this(c)), i) != node(c)))] + \
               [("nothing changed yet: " + n, f) for n, f in others(c)] + [("nothing is owned yet: " + v, c.var(v) == 0) for v in ("childScope", "bratScope") if v in [q for q, _ in c.frame.order]]
    return inv


def removed_from(c, x, r=None):
    """the list without x, in the same order"""
    i = fresh_int("i")
    w, v = CH(c.old, this(c)), CH(c, this(c))
    return z3.Exists([i], And(0 <= i, i < w.len, at(w, i) == x, v.len == w.len - 1, all_int(0, i, lambda j: at(v, j) == at(w, j)), all_int(i, v.len, lambda j: at(v, j) == at(w, j + 1))))


def remove():
    def post(c):
        x, o = c.arg(0), c.old
        d = lambda n: z3.If(SUB(o, n, x), D(o, n) - D(o, x), D(o, n))
        u = lambda n, m: And(UNDER(o, n, m), Not(And(SUB(o, n, x), UNDER(o, x, m))))
        return [("the node is handed out", c.ret == x), ("without a parent", P(c, x) == 0), ("the other children stay in order", removed_from(c, x))] + others(c, [x], [this(c)]) + kept(c) + still_forest(c, d, u)

    def hints(c):
        w, v = CH(c.old, this(c)), CH(c, this(c))
        j, k = fresh_int("j"), fresh_int("k")
        return [("every other child is still listed", z3.ForAll([j], Imp(And(0 <= j, j < w.len, at(w, j) != c.arg(0)), z3.Exists([k], And(0 <= k, k < v.len, at(v, k) == at(w, j))))))] + others(c, [c.arg(0)], [this(c)])
    return Contract(N + "::RemoveChild", heap_this=True, requires=lambda c: links(c) + [("a child of the node", And(alive(c, c.arg(0)), P(c, c.arg(0)) == this(c)))],
                    facts=forest, ensures=post, modifies=lambda c: LINKS, loops=[Loop(scan("it", lambda c: c.arg(0)))], hints=hints, **NOTHROW)


def replace():
    def post(c):
        brat, x, adopt = c.old.arg(0), c.old.arg(1), c.old.arg(2)
        i, n = fresh_int("i"), fresh_int("n")
        w, v = CH(c.old, this(c)), CH(c, this(c))
        moved = lambda n: And(adopt, P(c.old, n) == brat)
        o, t = c.old, this(c)
        inb, inx = lambda n: SUB(o, n, brat), lambda n: SUB(o, n, x)
        d = lambda n: z3.If(inx(n), D(o, n) + D(o, t) + 1, z3.If(And(inb(n), Or(Not(adopt), n == brat)), D(o, n) - D(o, brat), D(o, n)))
        above = lambda m: Or(m == t, UNDER(o, t, m))
        u = lambda n, m: z3.If(adopt, z3.If(n == brat, z3.BoolVal(False), z3.If(UNDER(o, n, brat), Or(And(UNDER(o, n, m), m != brat), m == x), z3.If(n == x, above(m), UNDER(o, n, m)))),
                               z3.If(inx(n), Or(UNDER(o, n, m), above(m)), And(UNDER(o, n, m), Not(And(inb(n), UNDER(o, brat, m))))))
        return [("the node is handed out", c.ret == brat), ("without a parent", P(c, brat) == 0), ("the new node takes its place", And(P(c, x) == this(c), v.len == w.len, all_int(0, w.len, lambda i: at(v, i) == z3.If(at(w, i) == brat, x, at(w, i))))),
                ("the grandchildren follow if asked", Imp(adopt, And(same_children(CH(c, x), CH(c.old, brat)), CH(c, brat).len == 0))),
                ("the subtrees are untouched otherwise", Imp(Not(adopt), And(same_children(CH(c, x), CH(c.old, x)), same_children(CH(c, brat), CH(c.old, brat))))),
                ("other nodes keep their parent", z3.ForAll([n], Imp(And(alive(c.old, n), n != brat, n != x), P(c, n) == z3.If(moved(n), x, P(c.old, n))))),
                ("other nodes keep their children in order", z3.ForAll([n], Imp(And(alive(c.old, n), n != brat, n != x, n != this(c)), same_children(CH(c, n), CH(c.old, n)))))] + kept(c) + still_forest(c, d, u)

    def adopting(c):
        brat, x = c.old.arg(0), c.old.arg(1)
        n, i = fresh_int("n"), fresh_int("i")
        p, w = c.var("__pos"), CH(c.old, brat)
        return [("position", And(0 <= p, p <= w.len)), ("owned", And(c.var("bratScope") == brat, P(c, brat) == 0, c.arg(1) == x)),
                ("the children so far have a new parent", all_int(0, p, lambda i: P(c, at(w, i)) == x)),
                ("nothing else changed", z3.ForAll([n], Imp(And(alive(c.old, n), n != brat), Or(P(c, n) == P(c.old, n), And(P(c, n) == x, P(c.old, n) == brat))))),
                ("the list itself did not change", same_children(CH(c, brat), w))]
    free = lambda c: [("a node without parent or children, owned by the caller", And(alive(c, c.arg(1)), P(c, c.arg(1)) == 0, Imp(c.arg(2), CH(c, c.arg(1)).len == 0))), ("not itself, nor above its new place", And(c.arg(1) != c.arg(0), Not(SUB(c, this(c), c.arg(1)))))]
    return Contract(N + "::ReplaceChild", heap_this=True, requires=lambda c: links(c) + [("a child of the node", And(alive(c, c.arg(0)), P(c, c.arg(0)) == this(c), c.arg(0) != this(c)))] + free(c),
                    facts=forest, ensures=post, modifies=lambda c: LINKS + [c.arglv(1)], loops=[Loop(scan("it", lambda c: c.arg(0))), Loop(adopting)], **NOTHROW)


def group_edits():
    ex = verifier("node.cpp")
    ex.verify(add())
    ex.verify(remove())
    ex.verify(replace())
    return ex


# ---- queries --------------------------------------------------------------------------------------------
def depth():
    def inv(c):
        p = c.var("parent")
        return [("how far up", And(Or(p == 0, alive(c, p)), D(c, this(c)) == c.var("depth") + z3.If(p == 0, 0, D(c, p) + 1), c.var("depth") >= 0))]
    return Contract(N + "::GetDepth", heap_this=True, requires=links, facts=forest, ensures=lambda c: [("the number of ancestors", c.ret == D(c, this(c)))],
                    loops=[Loop(inv, variant=lambda c: z3.If(c.var("parent") == 0, 0, D(c, c.var("parent")) + 1))], **NOTHROW)


def below():
    def inv(c):
        p = c.var("parent")
        return [("not met yet", And(Or(p == 0, alive(c, p)), UNDER(c, this(c), c.arg(0)) == And(p != 0, Or(p == c.arg(0), UNDER(c, p, c.arg(0)))), Imp(p != 0, D(c, p) >= 0)))]
    return Contract(N + "::IsDescendantOf", heap_this=True, requires=lambda c: links(c) + [("a node", c.arg(0) > 0)], facts=forest, ensures=lambda c: [("below it iff it is an ancestor", c.ret == UNDER(c, this(c), c.arg(0)))],
                    loops=[Loop(inv, variant=lambda c: z3.If(c.var("parent") == 0, 0, D(c, c.var("parent")) + 1))], **NOTHROW)


def group_queries():
    ex = verifier("node.cpp")
    ex.verify(depth())
    b = below()
    ex.verify(b)
    b = below()
    b.assumed, b.loops, b.note = True, [], "proved in the same group"
    ex.add(b)
    ex.verify(Contract(N + "::IsAncestorOf", heap_this=True, requires=lambda c: links(c) + [("a node", alive(c, c.arg(0)))], facts=forest, ensures=lambda c: [("above it iff it is below", c.ret == UNDER(c, c.arg(0), this(c)))], **NOTHROW))

    def sibling(step):
        def post(c):
            i = fresh_int("i")
            p = P(c, this(c))
            s = CH(c, p)
            return [("no sibling without parent", Imp(p == 0, c.ret == 0)),
                    ("the sibling next to it", Imp(p != 0, z3.Exists([i], And(0 <= i, i < s.len, at(s, i) == this(c), c.ret == z3.If(And(0 <= i + step, i + step < s.len), at(s, i + step), 0)))))]
        return post
    ex.verify(Contract(N + "::GetPrevious", heap_this=True, requires=links, ensures=sibling(-1), **NOTHROW))
    ex.verify(Contract(N + "::GetNext", heap_this=True, requires=links, ensures=sibling(1), **NOTHROW))
    ex.verify(Contract(N + "::GetFirst", heap_this=True, requires=links, ensures=lambda c: [("the first child", c.ret == z3.If(CH(c, this(c)).len == 0, 0, at(CH(c, this(c)), 0)))], **NOTHROW))
    ex.verify(Contract(N + "::GetChildren", heap_this=True, requires=links, ensures=lambda c: [("the children", same_children(c.ret, CH(c, this(c))))], **NOTHROW))
    return ex


def group_reparent():
    ex = verifier("node.cpp")
    for k in (add(), remove(), below()):
        k.assumed, k.loops, k.note = True, [], "proved in the groups on edits and queries"
        ex.add(k)

    def pre(c):
        ch, np, root = c.arg(0), c.arg(1), c.arg(2)
        return links(c) + [("two different nodes", And(alive(c, ch), alive(c, np), ch != np)),
                           ("of the tree of the root", And(alive(c, root), P(c, root) == 0, SUB(c, ch, root), SUB(c, np, root)))]

    def post(c):
        o = c.old
        ch, np, root = o.arg(0), o.arg(1), o.arg(2)
        old = P(o, ch)
        up = UNDER(o, np, ch)
        nroot = c.arg(2)
        n = fresh_int("n")
        keep = z3.ForAll([n], Imp(And(alive(o, n), n != ch, n != np), P(c, n) == P(o, n)))
        touched = lambda n: Or(n == np, And(old != 0, n == old), And(up, n == P(o, np)))
        return [("the child is below its new parent", P(c, ch) == np),
                ("the new parent takes the place of the child if it was below it", P(c, np) == z3.If(up, old, P(o, np))),
                ("the root", And(nroot == z3.If(And(up, old == 0), np, root), alive(c, nroot), P(c, nroot) == 0)),
                ("unrelated nodes keep their parent", keep),
                ("unrelated nodes keep their children in order", z3.ForAll([n], Imp(And(alive(o, n), Not(touched(n))), same_children(CH(c, n), CH(o, n)))))] + kept(c) + \
            [("the links have no cycle: " + l, f) for l, f in tree_laws(c, lambda n: D(c, n), lambda n, m: UNDER(c, n, m))]
    ex.verify(Contract(N + "::Reparent", requires=pre, facts=forest, ensures=post, modifies=lambda c: LINKS + [c.arglv(2)], **NOTHROW))
    return ex


def group_induction():
    """The third law of trees follows from the first two by induction on the depth."""
    ex = verifier("node.cpp")
    par, d, u = z3.Array("parents", I, I), z3.Function("d", I, I), z3.Function("u", I, I, B)
    top, n0, m0 = z3.Ints("alloc n0 m0")
    n, m = fresh_int("n"), fresh_int("m")
    ok = lambda x: And(x > 0, x < top)
    laws = [z3.ForAll([n], Imp(And(ok(n), par[n] != 0), ok(par[n]))),
            z3.ForAll([n], Imp(ok(n), And(d(n) >= 0, d(n) == z3.If(par[n] == 0, z3.IntVal(0), d(par[n]) + 1))), patterns=[d(n)]),
            z3.ForAll([n, m], Imp(ok(n), u(n, m) == And(par[n] != 0, Or(par[n] == m, u(par[n], m)))), patterns=[u(n, m)])]
    hyp = z3.ForAll([n, m], Imp(And(ok(n), d(n) < d(n0), u(n, m)), And(ok(m), d(m) < d(n))), patterns=[u(n, m)])
    ex.lemma("ancestors are nodes less deep, by induction on the depth", laws + [ok(n0), hyp], Imp(u(n0, m0), And(ok(m0), d(m0) < d(n0))))
    return ex


def groups():
    return [dict(name="induction", run=group_induction), dict(name="edits", run=group_edits), dict(name="queries", run=group_queries), dict(name="reparenting", run=group_reparent)]
