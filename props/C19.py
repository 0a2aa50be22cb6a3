from .astar_spec import *
from . import astar_spec as A0
from . import C02

HARNESS = "c19.cpp"
OPT = "-O2"
SECONDS = 8
BOUNDED = "that the cost is the minimum over all paths is checked by the harness against Dijkstra on sampled graphs (bounded); connection, prices, the single meeting state and the constant sum are proved"
ASSUMPTIONS = ["states and actions are named by numbers; the propagators and the heuristics are arbitrary functions of the state (deterministic during a search)",
               "the contracts of the priority list and of the node tree are those proved in C01 and C02 for any order, key and node data",
               "costs are added as real numbers",
               "for the minimum: the reverse propagator offers the transitions of the forward one backwards at the same cost, costs are not negative, each heuristic is consistent in its direction and the pair adds up to a constant"]

BI = "Planner::BidirectionalAStar<int, int, std::hash<int>, std::equal_to<int>, -1>"
UN = "Planner::AStar<int, int, std::hash<int>, std::equal_to<int>, -1, Planner::ExploredMap<int, int, std::hash<int>, std::equal_to<int>>>"
U2 = UN.replace("-1", "true")
AV = "Planner::AverageHeuristic<int>"
HC = "Planner::AStarHeuristic<int>"
FR2 = "Planner::Frontier<Planner::Node<Planner::AStarNodeData<int, int>> *, %s::CompareNode, %s::HashNode, %s::EqualNode, std::vector<Planner::Node<Planner::AStarNodeData<int, int>> *>>" % (U2, U2, U2)

# transitions of a propagator, values of a heuristic
N_OF = z3.Function("offers_count", I, I, I)
TOS, ACTNS, PRICES = [z3.Function("offers_" + n, I, I, z3.ArraySort(I, t)) for n, t in (("states", I), ("actions", I), ("costs", R))]
TO = lambda p, s, i: TOS(p, s)[i]
PRICE = lambda p, s, i: PRICES(p, s)[i]
VAL = z3.Function("value_of_heuristic", I, I, R)
OWNER = z3.Function("search_of_node", I, I)             # the root of the search a node was made for


def offers(p, s, t, w):
    i = fresh_int("i")
    return z3.Exists([i], And(0 <= i, i < N_OF(p, s), TO(p, s, i) == t, PRICE(p, s, i) == w))


def expl(t, k): return sel(t.m_explored.f["__base"].f["has"], k)
def xn(t, k): return sel(t.m_explored.f["__base"].f["val"], k)
def in_tree(c, t, n): return And(alive(c, n), OWNER(n) == t.m_rootNode, Or(n == t.m_rootNode, P(c, n) != 0))
def h_of(t, s): return VAL(t.m_heuristic, s)


def tree(c, t):
    n, root = fresh_int("n"), t.m_rootNode
    return [("the root", And(alive(c, root), P(c, root) == 0, G(c, root) == 0, OWNER(root) == root)),
            ("every linked node was reached by an offered transition at its cost",
             z3.ForAll([n], Imp(And(alive(c, n), OWNER(n) == root, P(c, n) != 0), And(0 < P(c, n), P(c, n) < n, in_tree(c, t, P(c, n)), offers(t.m_propagator, S(c, P(c, n)), S(c, n), G(c, n) - G(c, P(c, n)))))))]


def frontier_ok(c, t):
    f, root, k = t.m_frontier, t.m_rootNode, fresh_int("k")
    return list_ok(c, f) + [("the frontier holds nodes of the tree", z3.ForAll([k], Imp(has(f, k), And(in_tree(c, t, el(f, k)), S(c, el(f, k)) == k)))),
                            ("priced by cost and heuristic", z3.ForAll([k], Imp(And(has(f, k), el(f, k) != root), T(c, el(f, k)) == G(c, el(f, k)) + h_of(t, k)))),
                            ("explored states are those of nodes of the tree", z3.ForAll([k], Imp(expl(t, k), And(in_tree(c, t, xn(t, k)), S(c, xn(t, k)) == k))))]


def base(c, t):
    return tree(c, t) + frontier_ok(c, t) + [("initialised", And(t.m_propagator != 0, t.m_heuristic != 0))]


def data_kept(c):
    n = fresh_int("n")
    return [("existing nodes keep their data", z3.ForAll([n], Imp(alive(c.old, n), And(S(c, n) == S(c.old, n), G(c, n) == G(c.old, n), T(c, n) == T(c.old, n))))),
            ("existing nodes keep their parent", z3.ForAll([n], Imp(alive(c.old, n), P(c, n) == P(c.old, n)))),
            ("nodes are only added", c.st.alloc >= c.old.st.alloc)]


def owned(c, t):
    n = fresh_int("n")
    return ("the new nodes are those of this search", z3.ForAll([n], Imp(And(n >= c.old.st.alloc, n < c.st.alloc), OWNER(n) == t.m_rootNode)))


def owner_facts(c):
    """ghost: the nodes made during the call belong to this search"""
    n = fresh_int("n")
    return [z3.ForAll([n], Imp(n >= c.st.alloc, OWNER(n) == c.this.m_rootNode), patterns=[OWNER(n)])]


def neighbours():
    def res(c):
        p, s = c._this.ref, c.arg(0)
        return V({"len": N_OF(p, s), "a": V({"0": TOS(p, s), "1": ACTNS(p, s), "2": PRICES(p, s)})})
    return Contract("Planner::AStarStatePropagator<int, int>::GetNeighborStates", heap_this=True, assumed=True, result=res, ensures=lambda c: [("a list", N_OF(c._this.ref, c.arg(0)) >= 0)], note="any deterministic transition system")


def heuristics():
    return [Contract(HC + "::GetHeuristicValue", heap_this=True, assumed=True, result=lambda c: VAL(c._this.ref, c.arg(0)), note="any function of the state"),
            Contract(HC + "::SetGoal", heap_this=True, assumed=True, note="tells the heuristic the goal, nothing else")]


def lists():
    out = list_contracts()
    for k in out:
        k.name = k.name.replace(FR, FR2)
    pre = lambda c: list_ok(c, c.this) + [("not empty", vec(c.this).len > 0)]
    def top(c):
        j = fresh_int("k")
        return [("a cheapest element", And(has(c.this, S(c, c.ret)), el(c.this, S(c, c.ret)) == c.ret, z3.ForAll([j], Imp(has(c.this, j), T(c, c.ret) <= T(c, el(c.this, j))))))]
    out.append(Contract(FR2 + "::Top", assumed=True, note="proved in C01 for every order and key", requires=pre, ensures=top, **NOTHROW))
    return out


def setup():
    ex = verifier("bidir.cpp")
    ex.ty.keyfns = {r"EqualNode": ([I], lambda x, st, v: [sel(x.heap_of(st, N).f["m_data"].f["state"], v)])}
    ex.add(neighbours(), children(), *heuristics(), *lists())
    return ex


def children():
    """AddChild (C02), with the list of children"""
    n = fresh_int("n")
    me, x = lambda c: c._this.ref, lambda c: c.old.arg(0)
    def listed(c):
        v, w = CH(c, me(c)), CH(c.old, me(c))
        return And(v.len == w.len + 1, at(v, w.len) == x(c), all_int(0, w.len, lambda i: at(v, i) == at(w, i)))
    def others(c):
        return z3.ForAll([n], Imp(n != me(c), And(CH(c, n).len == CH(c.old, n).len, CH(c, n).a == CH(c.old, n).a)))
    return Contract(N + "::AddChild", heap_this=True, assumed=True, note="proved in C02 for any node data",
                    requires=lambda c: [("a node without parent, owned by the caller", And(alive(c, c.arg(0)), P(c, c.arg(0)) == 0)), ("nothing hangs below it", And(c.arg(0) != me(c), CH(c, c.arg(0)).len == 0))],
                    ensures=lambda c: [("the node is handed back", c.ret == x(c)), ("its parent", P(c, x(c)) == me(c)), ("it is given away", c.arg(0) == 0), ("it is the last child", listed(c)),
                                       ("other nodes keep their parent", z3.ForAll([n], Imp(n != x(c), P(c, n) == P(c.old, n)))),
                                       ("other nodes keep their children", others(c))],
                    modifies=lambda c: [("heap", N, "m_parent"), ("heap", N, "m_children"), c.arglv(0)], **NOTHROW)


# ---- one direction ---------------------------------------------------------------------------------------
def shortcut():
    def pre(c):
        t, f, x, n = c.this, c.arg(0), c.arg(1), c.arg(2)
        return base(c, t) + [("two nodes with the same state, one of them in the frontier", And(has(t.m_frontier, S(c, x)), el(t.m_frontier, S(c, x)) == f)),
                             ("a new node, reached from an expanded one", And(x > t.m_rootNode, x != n, alive(c, x), OWNER(x) == t.m_rootNode, P(c, x) == 0, CH(c, x).len == 0, in_tree(c, t, n), n < x, offers(t.m_propagator, S(c, n), S(c, x), G(c, x) - G(c, n)), T(c, x) == G(c, x) + h_of(t, S(c, x))))]

    def post(c):
        f, w, x, k = c.this.m_frontier, c.old.this.m_frontier, c.old.arg(1), fresh_int("k")
        s, m = S(c, x), fresh_int("m")
        n = c.old.arg(2)
        better = T(c, x) < T(c, c.old.arg(0))
        v, u = CH(c, n), CH(c.old, n)
        return base(c, c.this) + [("the cheaper of the two stays", And(has(f, s), el(f, s) == z3.If(better, x, c.old.arg(0)))),
                          ("the rest of the frontier stays", z3.ForAll([k], Imp(k != s, And(has(f, k) == has(w, k), Imp(has(w, k), el(f, k) == el(w, k)))))),
                          ("a new label is a child of the node", And(v.len == u.len + z3.If(better, 1, 0), Imp(better, And(at(v, u.len) == x, P(c, x) == n)), all_int(0, u.len, lambda i: at(v, i) == at(u, i)))),
                          ("other nodes keep their children", z3.ForAll([m], Imp(m != n, And(CH(c, m).len == CH(c.old, m).len, CH(c, m).a == CH(c.old, m).a)))),
                          ("other nodes keep their parent", z3.ForAll([m], Imp(m != x, P(c, m) == P(c.old, m))))]
    return Contract(UN + "::ProcessPossibleShortcut", requires=pre, ensures=post, modifies=lambda c: own(c, "m_frontier") + NODES[:2])


def group_shortcut():
    ex = setup()
    ex.verify(shortcut())
    return ex


def initialise():
    def post(c):
        t, root, k = c.this, c.this.m_rootNode, fresh_int("k")
        f = t.m_frontier
        return base(c, t) + [("the search starts at the initial state", And(S(c, root) == t.m_init, z3.ForAll([k], And(has(f, k) == (k == t.m_init), Imp(has(f, k), el(f, k) == root))))),
                             ("only that state is explored", z3.ForAll([k], And(expl(t, k) == (k == t.m_init), Imp(expl(t, k), xn(t, k) == root)))),
                             ("no solution", t.m_solutionNode == 0), ("a new tree", And(root == c.old.st.alloc, c.st.alloc == root + 1, CH(c, root).len == 0))] + data_kept(c)
    def ghost(c):
        n = fresh_int("n")
        return [OWNER(c.st.alloc) == c.st.alloc, z3.ForAll([n], Imp(n < c.st.alloc, OWNER(n) != c.st.alloc), patterns=[OWNER(n)])]
    return Contract(UN + "::InitializeSearch", facts=ghost, requires=lambda c: [("initialised", And(c.this.m_propagator != 0, c.this.m_heuristic != 0))], ensures=post,
                    modifies=lambda c: own(c, "m_frontier", "m_explored", "m_rootNode", "m_solutionNode"), allocates=(N,))


def expand(best=False):
    cur = lambda c: S(c.old if c.old is not None else c, c.arg(0))

    def pre(c):
        t, n = c.this, c.arg(0)
        return base(c, t) + [("a node of the tree that is no longer open", And(in_tree(c, t, n), Not(has(t.m_frontier, S(c, n))))), ("without children", CH(c, n).len == 0)] + (better(c, t, popped=n) if best else [])

    def explored(c):
        s = fresh_int("s")
        t, o = c.this, c.old.this
        return [("the state is explored", z3.ForAll([s], And(expl(t, s) == Or(expl(o, s), s == cur(c)), Imp(expl(o, s), xn(t, s) == xn(o, s)), Imp(And(s == cur(c), Not(expl(o, s))), xn(t, s) == c.arg(0)))))]

    def labels(c):
        """what is new in the frontier is a child of the node; the children are new nodes of the search"""
        n, k, i, m = c.arg(0), fresh_int("k"), fresh_int("i"), fresh_int("m")
        f, w, v = c.this.m_frontier, c.old.this.m_frontier, CH(c, n)
        return [("new labels are children of the node", z3.ForAll([k], Imp(has(f, k), Or(And(has(w, k), el(f, k) == el(w, k)), z3.Exists([i], And(0 <= i, i < v.len, at(v, i) == el(f, k))))))),
                ("labels only get better", z3.ForAll([k], Imp(has(w, k), And(has(f, k), T(c, el(f, k)) <= T(c, el(w, k)))))),
                ("the children are new", And(v.len >= 0, all_int(0, v.len, lambda i: And(alive(c, at(v, i)), at(v, i) >= c.old.st.alloc)))),
                ("the children are nodes of the search", all_int(0, v.len, lambda i: OWNER(at(v, i)) == c.this.m_rootNode)),
                ("the children hang below the node", all_int(0, v.len, lambda i: P(c, at(v, i)) == n)),
                ("other nodes keep their children, new ones have none", z3.ForAll([m], Imp(m != n, And(Imp(alive(c.old, m), And(CH(c, m).len == CH(c.old, m).len, CH(c, m).a == CH(c.old, m).a)), Imp(And(m >= c.old.st.alloc, m < c.st.alloc), CH(c, m).len == 0)))))]

    def inv(c):
        p = c.var("__pos")
        t = c.this
        return [("position", And(0 <= p, p <= N_OF(t.m_propagator, cur(c))))] + base(c, t) + data_kept(c) + explored(c) + labels(c) + [owned(c, t), ("the node is not open", Not(has(t.m_frontier, cur(c))))] + (better(c, t, upto=(c.arg(0), p)) if best else [])

    def post(c):
        t = c.this
        return base(c, t) + data_kept(c) + explored(c) + labels(c) + [owned(c, t)] + (better(c, t) if best else [])
    def facts(c):
        return owner_facts(c) + (consistent_facts(c.this) if best else [])
    return Contract(UN + "::Expand", requires=pre, facts=facts, ensures=post, modifies=lambda c: own(c, "m_frontier", "m_explored") + NODES,
                    loops=[Loop(inv, variant=lambda c: N_OF(c.this.m_propagator, cur(c)) - c.var("__pos"))], allocates=(N,))


def trusted(k, note):
    k.assumed, k.loops, k.note = True, [], note
    return k


def group_expand(best=False):
    def run():
        ex = setup()
        ex.add(trusted(shortcut(), "proved in the group on shortcuts"))
        if not best:
            ex.verify(initialise())
        ex.verify(expand(best))
        return ex
    return run


# ---- the two searches together ---------------------------------------------------------------------------
def FS(c): return c.this.m_fSearch
def RS(c): return c.this.m_rSearch


def met(c, f, r, best):
    """no solution yet, or two nodes with the same state that make up the best cost"""
    a, b = f.m_solutionNode, r.m_solutionNode
    return [("both or none", (a == 0) == (b == 0)), ("no price without a solution", Imp(a == 0, best == INF)),
            ("the two halves meet and make up the cost", Imp(a != 0, And(in_tree(c, f, a), in_tree(c, r, b), S(c, a) == S(c, b), best == G(c, a) + G(c, b))))]


def intersection():
    def pre(c):
        a, b = c.arg(1), c.arg(2)
        return base(c, a) + base(c, b) + [("a node of the first search", in_tree(c, a, c.arg(0)))] + met(c, a, b, c.arg(3))

    def post(c):
        a, b, s = c.arg(1), c.arg(2), S(c, c.arg(0))
        g = G(c, c.arg(0))
        return met(c, a, b, c.arg(3)) + [("never worse", c.arg(3) <= c.old.arg(3)), ("accounts for the explored state", Imp(expl(b, s), c.arg(3) <= g + G(c, xn(b, s)))),
                                         ("accounts for the reached state", Imp(And(Not(expl(b, s)), has(b.m_frontier, s)), c.arg(3) <= g + G(c, el(b.m_frontier, s))))]
    return Contract(BI + "::FindIntersection", requires=pre, ensures=post, modifies=lambda c: [Fld(c.arglv(1), "m_solutionNode"), Fld(c.arglv(2), "m_solutionNode"), c.arglv(3)])


def group_intersection():
    ex = setup()
    ex.verify(intersection())
    return ex


def childless(c, t):
    k = fresh_int("k")
    return z3.ForAll([k], Imp(has(t.m_frontier, k), CH(c, el(t.m_frontier, k)).len == 0))


def named(pre, ps): return [(pre + l, g) for l, g in ps]


def pair(c):
    f, r = FS(c), RS(c)
    return named("forward: ", base(c, f)) + named("reverse: ", base(c, r)) + \
        [("two trees", f.m_rootNode != r.m_rootNode), ("from the initial state", S(c, f.m_rootNode) == c.this.m_init), ("from the goal", S(c, r.m_rootNode) == c.this.m_goal),
         ("forward: open nodes have no children", childless(c, f)), ("reverse: open nodes have no children", childless(c, r))]


def search():
    def pre(c):
        f, r = FS(c), RS(c)
        return [("what initialised means", Imp(c.this.isInitialized, And(f.m_propagator != 0, f.m_heuristic != 0, r.m_propagator != 0, r.m_heuristic != 0)))]

    def inv(c):
        return pair(c) + met(c, FS(c), RS(c), c.var("bestCost"))

    def inner(node, which):
        def g(c):
            v, p = CH(c, c.var(node)), c.var("__pos")
            return [("position", And(0 <= p, p <= v.len)), ("the children are nodes of the search", all_int(0, v.len, lambda i: in_tree(c, which(c), at(v, i))))] + inv(c)
        return Loop(g)

    def post(c):
        f, r, ok = FS(c), RS(c), c.ret == 0
        a, b = f.m_solutionNode, r.m_solutionNode
        return [("success or failure", Or(c.ret == 0, c.ret == -1)),
                ("success means that the two halves meet", Imp(ok, And(a != 0, b != 0, in_tree(c, f, a), in_tree(c, r, b), S(c, a) == S(c, b)))),
                ("they run from the initial state and from the goal", Imp(ok, And(S(c, f.m_rootNode) == c.this.m_init, S(c, r.m_rootNode) == c.this.m_goal))),
                ("a search that was not initialised fails", Imp(Not(c.this.isInitialized), Not(ok)))] + \
            [("on success: forward: " + l, Imp(ok, g)) for l, g in tree(c, f)] + [("on success: reverse: " + l, Imp(ok, g)) for l, g in tree(c, r)]
    return Contract(BI + "::SearchPath", requires=pre, ensures=post, noframe=True, modifies=lambda c: own(c, "m_fSearch", "m_rSearch") + NODES,
                    loops=[Loop(inv), inner("fNode", FS), inner("rNode", RS)])


def update_():
    return Contract(AV + "::Update", heap_this=True, assumed=True, note="tells the averaged heuristic the two ends; its value is proved in the group on the heuristics")


def group_search():
    ex = setup()
    for k in (initialise(), expand(), intersection()):
        ex.add(trusted(k, "proved in the groups on expansion and intersection"))
    ex.add(update_())
    ex.verify(search())
    return ex


# ---- what is returned ------------------------------------------------------------------------------------
def depth_facts(c):
    """the links lead to earlier nodes, so a depth exists"""
    return A0.depth_facts(c)


def result_ok(c, t):
    return named("with a solution: ", [(l, Imp(t.m_solutionNode != 0, g)) for l, g in tree(c, t) + [("a node of the tree", in_tree(c, t, t.m_solutionNode))]])


def half(c, t, v):
    """v lists the states from the root of the tree to the solution, along offered transitions"""
    sol, d = t.m_solutionNode, D(c, t.m_solutionNode)
    anc = lambda k: UP(parents(c), sol, k)
    step = lambda j: And(P(c, anc(j)) == anc(j + 1), offers(t.m_propagator, S(c, anc(j + 1)), S(c, anc(j)), G(c, anc(j)) - G(c, anc(j + 1))))
    return [("empty without a solution", Imp(sol == 0, v.len == 0)), ("one state more than ancestors", Imp(sol != 0, And(d >= 0, v.len == d + 1))),
            ("the states of the ancestors in order", Imp(sol != 0, all_int(0, v.len, lambda j: at(v, v.len - 1 - j) == S(c, anc(j))))),
            ("starts at the root", Imp(sol != 0, And(at(v, 0) == S(c, t.m_rootNode), anc(d) == t.m_rootNode))),
            ("ends at the solution", Imp(sol != 0, And(at(v, v.len - 1) == S(c, sol), anc(0) == sol))),
            ("every step is an offered transition, and the costs add up", Imp(sol != 0, all_int(0, v.len - 1, step)))]


def half_path():
    def inv(c):
        t, v, k, node = c.this, c.var("path"), c.var("it").i, c.var("node")
        sol, d = t.m_solutionNode, D(c, t.m_solutionNode)
        anc = lambda j: UP(parents(c), sol, j)
        return [("length", And(v.len == d + 1, 0 <= k, k <= v.len)),
                ("where the walk stands", And(node == anc(k), Imp(k <= d, And(in_tree(c, t, node), D(c, node) == d - k)))),
                ("what is written", all_int(0, k, lambda j: And(at(v, v.len - 1 - j) == S(c, anc(j)), in_tree(c, t, anc(j)), D(c, anc(j)) == d - j)))]
    return Contract(UN + "::GetPath", requires=lambda c: result_ok(c, c.this), facts=depth_facts, ensures=lambda c: half(c, c.this, c.ret), loops=[Loop(inv)])


def half_cost():
    return Contract(UN + "::GetOptimalCost", requires=lambda c: result_ok(c, c.this), ensures=lambda c: [("the cost of the solution", Imp(c.this.m_solutionNode != 0, c.ret == G(c, c.this.m_solutionNode)))])


def whole(c):
    f, r, v = FS(c), RS(c), c.ret
    a, b = f.m_solutionNode, r.m_solutionNode
    m, n = D(c, a), D(c, b)
    up = lambda s, k: UP(parents(c), s, k)
    return [("one state per node, the meeting state once", v.len == m + 1 + n),
            ("the forward half in order", all_int(0, m + 1, lambda j: at(v, j) == S(c, up(a, m - j)))),
            ("the reverse half backwards", all_int(0, n + 1, lambda j: at(v, m + j) == S(c, up(b, j)))),
            ("from the initial state to the goal", And(at(v, 0) == S(c, f.m_rootNode), at(v, v.len - 1) == S(c, r.m_rootNode))),
            ("forward steps are offered transitions whose costs add up", all_int(0, m, lambda j: offers(f.m_propagator, at(v, j), at(v, j + 1), G(c, up(a, m - j - 1)) - G(c, up(a, m - j))))),
            ("reverse steps are offered backwards and their costs add up", all_int(0, n, lambda j: offers(r.m_propagator, at(v, m + j + 1), at(v, m + j), G(c, up(b, j)) - G(c, up(b, j + 1)))))]


def group_result():
    ex = setup()
    ex.add(trusted(depth(), "proved in C02 (node queries)"))
    ex.verify(half_path())
    ex.verify(half_cost())
    ex.add(trusted(half_path(), "proved above"), trusted(half_cost(), "proved above"))
    pre = lambda c: result_ok(c, FS(c)) + named("reverse: ", result_ok(c, RS(c))) + [("the two halves meet", And(FS(c).m_solutionNode != 0, RS(c).m_solutionNode != 0, S(c, FS(c).m_solutionNode) == S(c, RS(c).m_solutionNode)))]
    ex.verify(Contract(BI + "::GetPath", requires=pre, facts=depth_facts, ensures=whole))
    ex.verify(Contract(BI + "::GetOptimalCost", requires=pre, ensures=lambda c: [("the sum of the two halves", c.ret == G(c, FS(c).m_solutionNode) + G(c, RS(c).m_solutionNode))]))
    return ex


def group_heuristic():
    """the averaged pair: each value and the sum"""
    ex = setup()
    GH, IH = [lambda c, f=f: getattr(c.this, f) for f in ("m_toGoalHeuristic", "m_toInitHeuristic")]
    ok = lambda c: [("there are two heuristics", And(GH(c) != 0, IH(c) != 0))]
    value = lambda c, s: c.this.m_constant + (VAL(GH(c), s) - VAL(IH(c), s)) / 2
    ex.verify(Contract(AV + "::GetHeuristicValue", requires=ok, ensures=lambda c: [("half the difference, shifted", c.ret == value(c, c.arg(0)))]))
    ex.verify(Contract(AV + "::Update", requires=ok, ensures=lambda c: [("the shift is half the distance between the ends", c.this.m_constant == VAL(IH(c), c.arg(1)) / 2), ("the ends are kept", And(c.this.m_init == c.arg(0), c.this.m_goal == c.arg(1)))],
                       modifies=lambda c: own(c, "m_init", "m_goal", "m_constant")))
    f, r, c1, c2 = [z3.Real("pair_" + n) for n in ("f", "r", "cf", "cr")]
    ex.lemma("the pair made of the same two heuristics in opposite roles adds up to the same constant for every state", [], (c1 + (f - r) / 2) + (c2 + (r - f) / 2) == c1 + c2)
    ini = lambda c: And(*[c.arg(i) != 0 for i in range(4)])
    return ex


def groups():
    return [dict(name="shortcut", run=group_shortcut), dict(name="expansion", run=group_expand()), dict(name="intersection", run=group_intersection), dict(name="search", run=group_search),
            dict(name="result", run=group_result), dict(name="heuristic", run=group_heuristic)]
