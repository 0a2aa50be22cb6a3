from .astar_spec import *
from . import C02

HARNESS = "c03.cpp"
SECONDS = 5
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["states and actions are named by numbers; the propagator and the heuristic are arbitrary functions of the state (deterministic during a search)",
               "the contracts of the priority list and of the node tree are those proved in C01 and C02 for any order, key and node data",
               "costs are added as real numbers"]


def group_results():
    ex = verifier("astar.cpp")
    ex.add(depth())
    sol = lambda c: c.this.m_solutionNode

    anc = lambda c, k: UP(parents(c), sol(c), k)
    root = lambda c: c.this.m_rootNode

    def walk(res, field, extra):
        """the loop has filled the last k places"""
        def inv(c):
            v, k, node = c.var(res), c.var("it").i, c.var("node")
            d = D(c, sol(c))
            return [("length", And(v.len == d + extra, 0 <= k, k <= v.len)),
                    ("where the walk stands", And(node == anc(c, k), Imp(k <= d, And(in_tree(c, root(c), node), D(c, node) == d - k)))),
                    ("what is written", all_int(0, k, lambda j: And(at(v, v.len - 1 - j) == field(c, anc(c, j)), in_tree(c, root(c), anc(c, j)), D(c, anc(c, j)) == d - j)))]
        return inv

    def path_post(c):
        v, d = c.ret, D(c, sol(c))
        step = lambda j: And(P(c, anc(c, j)) == anc(c, j + 1), offered(at(v, v.len - 2 - j), at(v, v.len - 1 - j), A(c, anc(c, j)), G(c, anc(c, j)) - G(c, anc(c, j + 1))))
        return [("empty without a solution", Imp(sol(c) == 0, v.len == 0)),
                ("one state more than ancestors", Imp(sol(c) != 0, v.len == d + 1)),
                ("the states of the ancestors in order", Imp(sol(c) != 0, all_int(0, v.len, lambda j: at(v, v.len - 1 - j) == S(c, anc(c, j))))),
                ("starts at the initial state of the search", Imp(sol(c) != 0, And(at(v, 0) == S(c, root(c)), G(c, anc(c, d)) == 0))),
                ("ends at the solution", Imp(sol(c) != 0, at(v, v.len - 1) == S(c, sol(c)))),
                ("every step is an offered transition, and the costs add up to that of the solution", Imp(sol(c) != 0, all_int(0, v.len - 1, step)))]

    def act_post(c):
        v, d = c.ret, D(c, sol(c))
        return [("empty without a solution", Imp(sol(c) == 0, v.len == 0)), ("one action per step", Imp(sol(c) != 0, v.len == d)),
                ("the actions of the ancestors in order", Imp(sol(c) != 0, all_int(0, v.len, lambda j: at(v, v.len - 1 - j) == A(c, anc(c, j)))))]
    ex.verify(Contract(AS + "::GetOptimalCost", requires=search_result, ensures=lambda c: [("infinite without a solution", Imp(sol(c) == 0, c.ret == INF)), ("the cost of the solution", Imp(sol(c) != 0, c.ret == G(c, sol(c))))]))
    ex.verify(Contract(AS + "::GetPath", requires=search_result, facts=depth_facts, ensures=path_post, loops=[Loop(walk("path", S, 1))]))
    ex.verify(Contract(AS + "::GetActions", requires=search_result, facts=depth_facts, ensures=act_post, loops=[Loop(walk("actions", A, 0))]))
    return ex


def setup():
    ex = verifier("astar.cpp")
    ex.ty.keyfns = {r"EqualNode": ([I], lambda x, st, v: [sel(x.heap_of(st, N).f["m_data"].f["state"], v)])}
    ex.add(neighbours(), add_child(), *heuristic(), *list_contracts())
    return ex


def group_order():
    """the order and the key that the priority list is used with"""
    ex = verifier("astar.cpp")
    two = lambda c: [("nodes", And(alive(c, c.arg(0)), alive(c, c.arg(1))))]
    ex.verify(Contract(AS + "::CompareNode::operator()", requires=two, ensures=lambda c: [("by total cost, the cheapest last", c.ret == (T(c, c.arg(0)) > T(c, c.arg(1))))]))
    ex.verify(Contract(AS + "::EqualNode::operator()", requires=two, ensures=lambda c: [("by state", c.ret == (S(c, c.arg(0)) == S(c, c.arg(1))))]))
    return ex


def shortcut():
    def pre(c):
        f, x, n, r = c.arg(0), c.arg(1), c.arg(2), c.this.m_rootNode
        return base(c) + [("two nodes with the same state, one of them in the frontier", And(has(c.this.m_frontier, S(c, x)), el(c.this.m_frontier, S(c, x)) == f)),
                          ("a new node, reached from an expanded one", And(x > r, x != n, alive(c, x), P(c, x) == 0, CH(c, x).len == 0, in_tree(c, r, n), n < x, offered(S(c, n), S(c, x), A(c, x), G(c, x) - G(c, n)), T(c, x) == G(c, x) + HEUR(S(c, x))))]

    def post(c):
        f, w, x, k = c.this.m_frontier, c.old.this.m_frontier, c.old.arg(1), fresh_int("k")
        s = S(c, x)
        m = fresh_int("m")
        return base(c) + [("the cheaper of the two stays", And(has(f, s), el(f, s) == z3.If(T(c, x) < T(c, c.old.arg(0)), x, c.old.arg(0)))),
                          ("the rest of the frontier stays", z3.ForAll([k], Imp(k != s, And(has(f, k) == has(w, k), Imp(has(w, k), el(f, k) == el(w, k)))))),
                          ("other nodes keep their parent", z3.ForAll([m], Imp(m != x, P(c, m) == P(c.old, m))))]
    return Contract(AS + "::ProcessPossibleShortcut", requires=pre, ensures=post, modifies=lambda c: own(c, "m_frontier") + NODES[:2])


def group_shortcut():
    ex = setup()
    ex.verify(shortcut())
    return ex


def expand(best=False):
    cur = lambda c: S(c.old if c.old is not None else c, c.arg(0))

    def pre(c):
        t, n = c.this, c.arg(0)
        r = base(c) + [("a node of the tree that is no longer open", And(in_tree(c, t.m_rootNode, n), Not(has(t.m_frontier, S(c, n)))))]
        if best:
            s = fresh_int("s")
            done = lambda s: And(expl(t, s), s != S(c, n))
            r += closed(c, done, popped=n) + [("not expanded before", Or(Not(expl(t, S(c, n))), And(n == t.m_rootNode, z3.ForAll([s], Not(done(s)))))), ("not the goal", S(c, n) != t.m_goal)]
        return r

    def explored(c):
        s = fresh_int("s")
        return [("the state is explored", z3.ForAll([s], expl(c.this, s) == Or(expl(c.old.this, s), s == cur(c))))]

    def inv(c):
        p, n = c.var("__pos"), c.arg(0)
        t = c.this
        r = [("position", And(0 <= p, p <= COUNT(cur(c))))] + base(c) + data_kept(c) + explored(c) + [("the node is not open", Not(has(t.m_frontier, cur(c))))]
        if best:
            k = fresh_int("k")
            done = lambda s: expl(t, s)
            r += closed(c, done, upto=(cur(c), p)) + [("the number of states", t.m_explored.f["__base"].f["n"] == c.old.this.m_explored.f["__base"].f["n"] + z3.If(expl(c.old.this, cur(c)), 0, 1))] + \
                [("no open node is better than the one expanded", z3.ForAll([k], Imp(has(t.m_frontier, k), EST(c, n) <= EST(c, el(t.m_frontier, k))))),
                 ("no expanded node is worse", z3.ForAll([k], Imp(done(k), EST(c, CL(c, k)) <= EST(c, n))))]
        return r

    def post(c):
        r = base(c) + data_kept(c) + explored(c)
        if best:
            t = c.this
            n0, n1 = [x.m_explored.f["__base"].f["n"] for x in (c.old.this, t)]
            r += closed(c, lambda s: expl(t, s), upto=(cur(c), COUNT(cur(c)))) + [("the node that was expanded", CL(c, cur(c)) == c.arg(0)), ("one state more", n1 == n0 + z3.If(expl(c.old.this, cur(c)), 0, 1))]
            if c.calling:
                r.append(("assumed: there are finitely many states", n1 <= STATES))
        return r
    facts = lambda c: (consistent() + [CL(c, S(c, c.arg(0))) == c.arg(0)]) if best else []
    return Contract(AS + "::Expand", requires=pre, facts=facts, ensures=post, modifies=lambda c: own(c, "m_frontier", "m_explored") + NODES, loops=[Loop(inv, variant=lambda c: COUNT(cur(c)) - c.var("__pos"))], allocates=(N,))


def initialise():
    def post(c):
        t, root, k = c.this, c.this.m_rootNode, fresh_int("k")
        f = t.m_frontier
        return base(c) + [("the search starts at the initial state", And(S(c, root) == t.m_init, z3.ForAll([k], And(has(f, k) == (k == t.m_init), Imp(has(f, k), el(f, k) == root))))),
                          ("only that state is explored", z3.ForAll([k], expl(t, k) == (k == t.m_init))), ("counted", t.m_explored.f["__base"].f["n"] == 1),
                          ("no solution", t.m_solutionNode == 0), ("a new tree", And(root == c.old.st.alloc, c.st.alloc == root + 1, T(c, root) == 0))] + data_kept(c)
    return Contract(AS + "::InitializeSearch", requires=lambda c: [("initialised", And(c.this.m_propagator != 0, c.this.m_heuristic != 0))], ensures=post,
                    modifies=lambda c: own(c, "m_frontier", "m_explored", "m_rootNode", "m_solutionNode"), allocates=(N,))


def is_solution():
    return Contract(AS + "::IsSolution", requires=lambda c: [("a node", alive(c, c.arg(0)))], ensures=lambda c: [("at the goal", c.ret == (S(c, c.arg(0)) == c.this.m_goal))])


def lower_bound(c):
    """a function of the state that is zero at the start and grows along no transition by more than its cost"""
    t, sol = c.this, c.this.m_solutionNode
    return lambda s: z3.If(expl(t, s), G(c, CL(c, s)), EST(c, sol) - HEUR(s))


def search(best=False):
    def pre(c):
        return [("what initialised means", Imp(c.this.isInitialized, And(c.this.m_propagator != 0, c.this.m_heuristic != 0)))]

    def inv(c):
        t, k = c.this, fresh_int("k")
        f, root = t.m_frontier, t.m_rootNode
        r = base(c) + [("from the initial state", S(c, root) == t.m_init), ("no solution yet", t.m_solutionNode == 0), ("the tree is new", root >= c.old.st.alloc)]
        if best:
            n = t.m_explored.f["__base"].f["n"]
            first = And(c.st.alloc == root + 1, n == 1, z3.ForAll([k], And(expl(t, k) == (k == t.m_init), has(f, k) == (k == t.m_init), Imp(has(f, k), el(f, k) == root))))
            later = closed(c, lambda s: expl(t, s)) + [("the initial state was expanded", And(expl(t, t.m_init), CL(c, t.m_init) == root)), ("the root is not open", z3.ForAll([k], Imp(has(f, k), el(f, k) != root)))]
            r += [("first or later: " + l, Or(first, g)) for l, g in later] + [("finitely many states", And(1 <= n, n <= STATES))]
        return r

    def measure(c):
        t = c.this
        n = t.m_explored.f["__base"].f["n"]
        return 2 * (STATES - n) + z3.If(And(has(t.m_frontier, t.m_init), el(t.m_frontier, t.m_init) == t.m_rootNode), 1, 0)

    def post(c):
        t, sol, root, ok = c.this, c.this.m_solutionNode, c.this.m_rootNode, c.ret == 0
        r = [("success or failure", Or(c.ret == 0, c.ret == -1)),
             ("success means a solution at the goal", Imp(ok, And(sol != 0, in_tree(c, root, sol), S(c, sol) == t.m_goal, S(c, root) == t.m_init))),
             ("failure means no solution", Imp(Not(ok), sol == 0)),
             ("a search that was not initialised fails", Imp(Not(t.isInitialized), Not(ok)))] + \
            [("on success: " + l, Imp(ok, f)) for l, f in tree(c, root)]
        if best:
            s, i = fresh_int("s"), fresh_int("i")
            phi = lower_bound(c)
            r += [("a solution at the start costs nothing", Imp(And(ok, sol == root), G(c, sol) == 0)),
                  ("no transition raises the lower bound by more than its cost", Imp(And(ok, sol != root), z3.ForAll([s, i], Imp(And(0 <= i, i < COUNT(s)), phi(NEXT(s, i)) <= phi(s) + COST(s, i)), patterns=[NEXT(s, i)]))),
                  ("the lower bound is zero at the start and the cost of the solution at the goal", Imp(And(ok, sol != root), And(phi(t.m_init) == 0, phi(t.m_goal) == G(c, sol)))),
                  ("after a failure the states reached contain the start, are closed and lack the goal", Imp(And(Not(ok), t.isInitialized), And(expl(t, t.m_init), Not(expl(t, t.m_goal)),
                   z3.ForAll([s, i], Imp(And(expl(t, s), 0 <= i, i < COUNT(s)), expl(t, NEXT(s, i))), patterns=[NEXT(s, i)]))))]
        return r
    facts = (lambda c: consistent() + [STATES >= 1]) if best else None
    return Contract(AS + "::SearchPath", requires=pre, facts=facts, ensures=post, modifies=lambda c: own(c, "m_frontier", "m_explored", "m_rootNode", "m_solutionNode") + NODES, noframe=True,
                    loops=[Loop(inv, variant=measure if best else None)])


def group_expand():
    ex = setup()
    k = shortcut()
    k.assumed, k.note = True, "proved in the group on shortcuts"
    ex.add(k)
    ex.verify(expand())
    return ex


def group_search(best=False):
    ex = setup()
    if not best:
        ex.verify(initialise())
        ex.verify(is_solution())
        init = lambda c: c.this.isInitialized == And(c.arg(0) != 0, c.arg(1) != 0)
        ex.verify(Contract(AS + "::Initialize", ensures=lambda c: [("accepted iff there is a propagator and a heuristic", And(c.ret == And(c.arg(0) != 0, c.arg(1) != 0), c.this.isInitialized == c.ret)),
                                                                    ("they are kept", Imp(c.ret, And(c.this.m_propagator == c.arg(0), c.this.m_heuristic == c.arg(1))))],
                           modifies=lambda c: own(c, "m_propagator", "m_heuristic", "isInitialized")))
    for k in (initialise(), is_solution(), expand(best)):
        k.assumed, k.loops, k.note = True, [], "proved in the groups on expansion and search"
        ex.add(k)
    ex.verify(search(best))
    return ex


def groups():
    return [dict(name="nodes", run=C02.group_queries), dict(name="results", run=group_results), dict(name="order", run=group_order), dict(name="shortcut", run=group_shortcut), dict(name="expansion", run=group_expand), dict(name="search", run=group_search)]
