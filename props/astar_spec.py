"""Specifications of the graph search shared by C03 and C04."""
from .util import *

N = "Planner::Node<Planner::AStarNodeData<int, int>>"
AS = "Planner::AStar<int, int, std::hash<int>, std::equal_to<int>, -1, Planner::Explored<int, std::hash<int>, std::equal_to<int>>>"
FR = "Planner::Frontier<Planner::Node<Planner::AStarNodeData<int, int>> *, Planner::AStar<int, int>::CompareNode, Planner::AStar<int, int>::HashNode, Planner::AStar<int, int>::EqualNode, std::vector<Planner::Node<Planner::AStarNodeData<int, int>> *>>"
NOTHROW = dict(may_throw=lambda c: z3.BoolVal(False))

# the transition system and the heuristic: any functions
COUNT = z3.Function("offered_count", I, I)
NEXTS, ACTS, COSTS = [z3.Function("offered_" + n, I, z3.ArraySort(I, t)) for n, t in (("states", I), ("actions", I), ("costs", R))]
NEXT = lambda s, i: NEXTS(s)[i]
ACT = lambda s, i: ACTS(s)[i]
COST = lambda s, i: COSTS(s)[i]
H = z3.Function("heuristic", I, I, R)              # goal, state

ARR = z3.ArraySort(I, I)
DEPTH = z3.Function("depth_of", ARR, I, I)
UP = z3.Function("ancestor", ARR, I, I, I)          # parents, node, how far up


def P(c, n): return c.deref(n, N).m_parent
def CH(c, n): return c.deref(n, N).m_children
def S(c, n): return c.deref(n, N).m_data.state
def A(c, n): return c.deref(n, N).m_data.action
def G(c, n): return c.deref(n, N).m_data.pathCost
def T(c, n): return c.deref(n, N).m_data.totalCost
def alive(c, n): return And(n > 0, n < c.st.alloc)
def parents(c): return c.ex.heap_of(c.st, N).f["m_parent"]
def D(c, n): return DEPTH(parents(c), n)


def offered(s, t, a, w):
    i = fresh_int("i")
    return z3.Exists([i], And(0 <= i, i < COUNT(s), NEXT(s, i) == t, ACT(s, i) == a, COST(s, i) == w))


def depth_facts(c, root=None):
    """the links of the tree of the search lead to earlier nodes, so a depth exists"""
    n, k = fresh_int("n"), fresh_int("k")
    p = parents(c)
    return [z3.ForAll([n], Imp(And(alive(c, n), Or(P(c, n) == 0, And(0 < P(c, n), P(c, n) < n))), And(D(c, n) >= 0, D(c, n) == z3.If(P(c, n) == 0, z3.IntVal(0), D(c, P(c, n)) + 1))), patterns=[D(c, n)]),
            z3.ForAll([n], UP(p, n, 0) == n, patterns=[UP(p, n, 0)]),
            z3.ForAll([n, k], Imp(k >= 0, UP(p, n, k + 1) == sel(p, UP(p, n, k))), patterns=[UP(p, n, k + 1)])]


def in_tree(c, root, n): return And(n >= root, alive(c, n), Or(n == root, P(c, n) != 0))


def tree(c, root):
    """what links every node of this search"""
    n = fresh_int("n")
    return [("the root", And(alive(c, root), P(c, root) == 0, G(c, root) == 0)),
            ("every linked node was reached by an offered transition at its cost",
             z3.ForAll([n], Imp(And(n >= root, alive(c, n), P(c, n) != 0), And(P(c, n) < n, in_tree(c, root, P(c, n)), offered(S(c, P(c, n)), S(c, n), A(c, n), G(c, n) - G(c, P(c, n)))))))]


def search_result(c):
    """state between searches: no solution, or a node of the tree"""
    sol, root = c.this.m_solutionNode, c.this.m_rootNode
    return [("a solution is a node of the tree", Or(sol == 0, in_tree(c, root, sol))),
            ("the tree", Imp(sol != 0, And(*[f for _, f in tree(c, root)])))]


def depth():
    return Contract(N + "::GetDepth", heap_this=True, facts=depth_facts, ensures=lambda c: [("the number of ancestors", c.ret == D(c, c._this.ref))],
                    assumed=True, note="proved in C02 (node queries)", **NOTHROW)


# ---- what the search calls ---------------------------------------------------------------------------------
HEUR = z3.Function("heuristic_value", I, R)


def neighbours():
    def res(c):
        s = c.arg(0)
        return V({"len": COUNT(s), "a": V({"0": NEXTS(s), "1": ACTS(s), "2": COSTS(s)})})
    return Contract("Planner::AStarStatePropagator<int, int>::GetNeighborStates", assumed=True, result=res, ensures=lambda c: [("a list", COUNT(c.arg(0)) >= 0)],
                    note="any deterministic transition system")


def heuristic():
    return [Contract("Planner::AStarHeuristic<int>::GetHeuristicValue", assumed=True, result=lambda c: HEUR(c.arg(0)), note="any function of the state"),
            Contract("Planner::AStarHeuristic<int>::SetGoal", assumed=True, note="tells the heuristic the goal, nothing else")]


def has(f, k): return sel(f.m_set.f["has"], k)
def el(f, k): return sel(f.m_set.f["el"], k)
def vec(f): return f.m_vec
AT = lambda f, i: at(f.m_vec, i)
def expl(t, k): return sel(t.m_explored.f["__base"].f["has"], k)


def list_ok(c, f):
    """the invariant of the priority list (C01), for nodes ordered by total cost and keyed by state"""
    i, j, k = fresh_int("i"), fresh_int("j"), fresh_int("k")
    return [("in the order of the total cost", z3.ForAll([i, j], Imp(And(0 <= i, i < j, j < vec(f).len), T(c, AT(f, i)) >= T(c, AT(f, j))))),
            ("each state once", z3.ForAll([i, j], Imp(And(0 <= i, i < j, j < vec(f).len), S(c, AT(f, i)) != S(c, AT(f, j))))),
            ("every element is found by its state", all_int(0, vec(f).len, lambda i: And(has(f, S(c, AT(f, i))), el(f, S(c, AT(f, i))) == AT(f, i)))),
            ("nothing else is found", z3.ForAll([k], Imp(has(f, k), z3.Exists([i], And(0 <= i, i < vec(f).len, S(c, AT(f, i)) == k))))),
            ("size", And(vec(f).len >= 0, f.m_set.f["n"] == vec(f).len))]


def same_but(c, k):
    f, w = c.this, c.old.this
    j = fresh_int("k")
    return z3.ForAll([j], Imp(j != k, And(has(f, j) == has(w, j), Imp(has(w, j), el(f, j) == el(w, j)))))


def list_contracts():
    pre = lambda c: list_ok(c, c.this)
    post = lambda c: list_ok(c, c.this)
    k = lambda c: S(c, c.old.arg(0))

    def push(c):
        ok = Not(has(c.old.this, k(c)))
        return [("the element is found", And(has(c.this, k(c)), el(c.this, k(c)) == z3.If(ok, c.old.arg(0), el(c.old.this, k(c))))), ("the others are as before", same_but(c, k(c)))] + post(c)

    def remove(c):
        return [("the key is gone", Not(has(c.this, k(c)))), ("the others are as before", same_but(c, k(c)))] + post(c)

    def pop(c):
        w, j = c.old.this, fresh_int("k")
        return [("a cheapest element", And(has(w, S(c, c.ret)), el(w, S(c, c.ret)) == c.ret, z3.ForAll([j], Imp(has(w, j), T(c, c.ret) <= T(c, el(w, j)))))),
                ("it is gone", Not(has(c.this, S(c, c.ret)))), ("the others are as before", same_but(c, S(c, c.ret)))] + post(c)

    def found(c):
        return [("found iff present", c.ret.null == Not(has(c.this, k(c)))), ("the element with that key", Imp(Not(c.ret.null), c.ex.read(c.st, c.ret.lv) == el(c.this, k(c))))]

    def handle(c):
        """a pointer to the element (its value at the time of the call)"""
        fresh_int()
        key = "found:%s" % fresh_int("f")
        c.st.store[key] = el(c.this, S(c, c.arg(0)))
        return Ptr(Var(key), Not(has(c.this, S(c, c.arg(0)))))
    j = z3.Int("k")
    mod = dict(modifies=lambda c: [c._this])
    mk = lambda n, **kw: Contract(FR + "::" + n, assumed=True, note="proved in C01 for every order and key", **NOTHROW, **kw)
    return [mk("Push", requires=pre, ensures=push, **mod), mk("Remove", requires=pre, ensures=remove, **mod),
            mk("Pop", requires=lambda c: pre(c) + [("not empty", vec(c.this).len > 0)], ensures=pop, **mod),
            mk("Find", requires=pre, result=handle, ensures=found),
            mk("Clear", ensures=lambda c: [("empty", And(vec(c.this).len == 0, z3.ForAll([j], Not(has(c.this, j)))))] + post(c), **mod),
            mk("Empty", requires=pre, ensures=lambda c: [("empty iff no key is present", And(c.ret == (vec(c.this).len == 0), c.ret == z3.ForAll([j], Not(has(c.this, j)))))])]


def add_child():
    n = fresh_int("n")
    me = lambda c: c._this.ref
    x = lambda c: c.old.arg(0)
    return Contract(N + "::AddChild", heap_this=True, assumed=True, note="proved in C02 for any node data",
                    requires=lambda c: [("a node without parent, owned by the caller", And(alive(c, c.arg(0)), P(c, c.arg(0)) == 0)), ("nothing hangs below it", And(c.arg(0) != me(c), CH(c, c.arg(0)).len == 0))],
                    ensures=lambda c: [("the node is handed back", c.ret == x(c)), ("its parent", P(c, x(c)) == me(c)), ("it is given away", c.arg(0) == 0),
                                       ("other nodes keep their parent", z3.ForAll([n], Imp(n != x(c), P(c, n) == P(c.old, n)))),
                                       ("other nodes keep their children", z3.ForAll([n], Imp(n != me(c), CH(c, n).len == CH(c.old, n).len)))],
                    modifies=lambda c: [("heap", N, "m_parent"), ("heap", N, "m_children"), c.arglv(0)], **NOTHROW)


# ---- the invariant of the search ---------------------------------------------------------------------------
def frontier_ok(c):
    f, root, k = c.this.m_frontier, c.this.m_rootNode, fresh_int("k")
    return list_ok(c, f) + [("the frontier holds nodes of the tree", z3.ForAll([k], Imp(has(f, k), And(in_tree(c, root, el(f, k)), S(c, el(f, k)) == k)))),
                            ("priced by cost and heuristic", z3.ForAll([k], Imp(And(has(f, k), el(f, k) != root), T(c, el(f, k)) == G(c, el(f, k)) + HEUR(k))))]


def base(c):
    return tree(c, c.this.m_rootNode) + frontier_ok(c) + [("initialised", And(c.this.m_propagator != 0, c.this.m_heuristic != 0))]


def data_kept(c):
    n = fresh_int("n")
    return [("existing nodes keep their data", z3.ForAll([n], Imp(alive(c.old, n), And(S(c, n) == S(c.old, n), A(c, n) == A(c.old, n), G(c, n) == G(c.old, n), T(c, n) == T(c.old, n))))),
            ("existing nodes keep their parent", z3.ForAll([n], Imp(alive(c.old, n), P(c, n) == P(c.old, n)))),
            ("nodes are only added", c.st.alloc >= c.old.st.alloc)]


NODES = [("heap", N, "m_parent"), ("heap", N, "m_children"), ("heap", N, "m_data")]
def own(c, *fs): return [Fld(c._this, f) for f in fs]


# ---- best-first order (C04) --------------------------------------------------------------------------------
STATES = z3.Int("number_of_states")
CLOSED = z3.Function("expanded_as", I, I, I)        # root of the search, state -> the node that was expanded for it


def CL(c, s): return CLOSED(c.this.m_rootNode, s)
def EST(c, n): return G(c, n) + HEUR(S(c, n))


def consistent(c=None):
    s, i = fresh_int("s"), fresh_int("i")
    dom = And(0 <= i, i < COUNT(s))
    return [z3.ForAll([s, i], Imp(dom, COST(s, i) >= 0), patterns=[COST(s, i)]),
            z3.ForAll([s, i], Imp(dom, HEUR(s) <= COST(s, i) + HEUR(NEXT(s, i))), patterns=[NEXT(s, i)])]


def closed(c, E, upto=None, popped=None):
    """E: the expanded states; upto = (s, p): p transitions of s are done; popped: a node just taken from the frontier"""
    t = c.this
    f, root = t.m_frontier, t.m_rootNode
    s, k, i = fresh_int("s"), fresh_int("k"), fresh_int("i")
    def cover(s, i):
        v, w = NEXT(s, i), G(c, CL(c, s)) + COST(s, i)
        r = [And(E(v), G(c, CL(c, v)) <= w), And(has(f, v), G(c, el(f, v)) <= w)]
        if popped is not None:
            r.append(And(v == S(c, popped), G(c, popped) <= w))
        return Or(*r)
    apart = [] if upto is None else [s != upto[0]]
    out = [("expanded states have their node", z3.ForAll([s], Imp(E(s), And(in_tree(c, root, CL(c, s)), S(c, CL(c, s)) == s)))),
           ("no open node is better than an expanded one", z3.ForAll([s, k], Imp(And(E(s), has(f, k)), EST(c, CL(c, s)) <= EST(c, el(f, k))))),
           ("every transition of an expanded state is accounted for", z3.ForAll([s, i], Imp(And(E(s), 0 <= i, i < COUNT(s), *apart), cover(s, i)), patterns=[NEXT(s, i)])),
           ("a state is open or expanded, not both", z3.ForAll([s], Not(And(E(s), has(f, s))))),
           ("the goal was not expanded", Not(E(t.m_goal)))]
    if upto is not None or popped is not None:
        out.append(("the root is not open", z3.ForAll([k], Imp(has(f, k), el(f, k) != root))))
    if upto is not None:
        out.append(("the transitions done so far are accounted for", z3.ForAll([i], Imp(And(0 <= i, i < upto[1]), cover(upto[0], i)), patterns=[NEXT(upto[0], i)])))
    if popped is not None:
        out.append(("no expanded node is worse than the one taken", z3.ForAll([s], Imp(E(s), EST(c, CL(c, s)) <= EST(c, popped)))))
        out.append(("no open node is better than the one taken", z3.ForAll([k], Imp(has(f, k), EST(c, popped) <= EST(c, el(f, k))))))
    return out
