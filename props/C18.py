from .util import *

HARNESS = "c18.cpp"
OPT = "-O2"
SECONDS = 8
BOUNDED = "Tree::GetNearestNode and GetNearestNodes, and the calls into the k-d tree library (flann) in CreateRootNode, Extend and Clear: exercised by the randomised harness, not proved"
ASSUMPTIONS = ["the validator, the state space and the connection are arbitrary implementations of their interfaces; a connection is a new path between the two states it was asked for, of non-negative length, and truncating it keeps its start and scales its length (proved for the library's paths in C07)",
               "the nearest neighbour search answers with nodes of the tree, or with none (k-d tree library)",
               "the iteration limit is below 2^31", "lengths are real numbers"]

P2 = "Eigen::Matrix<double, 2, 1>"
PATH = "Planner::Path<%s>" % P2
STEP = z3.Function("validated", R, R, R, R, B)
STATES = 0
NT = dict(may_throw=lambda c: z3.BoolVal(False))
ARR = z3.ArraySort(I, I)
DEPTH = z3.Function("depth_of", ARR, I, I)
UP = z3.Function("ancestor", ARR, I, I, I)
UNDER = z3.Function("below", ARR, I, I, B)


def step(a, b): return STEP(a.x, a.y, b.x, b.y)
def eq(a, b): return And(a.x == b.x, a.y == b.y)


class Spec:
    def __init__(self, alg):
        self.alg = alg
        self.cls = "Planner::%s<%s, 2, std::hash<%s>, std::equal_to<%s>, double>" % (alg, P2, P2, P2)
        self.N = "Planner::Node<Planner::TreeNodeData<%s, Planner::%s<%s, 2>::NodeInfo>>" % (P2, alg, P2)
        self.tree = "Planner::Tree<%s, 2, Planner::%s<%s, 2>::NodeInfo, std::hash<%s>, std::equal_to<%s>, double>" % (P2, alg, P2, P2, P2)

    def P(self, c, n): return c.deref(n, self.N).m_parent
    def S(self, c, n): return c.deref(n, self.N).m_data.state
    def CH(self, c, n): return c.deref(n, self.N).m_children
    def par(self, c): return c.ex.heap_of(c.st, self.N).f["m_parent"]
    def alive(self, c, n): return And(n > 0, n < c.st.alloc)
    def D(self, c, n): return DEPTH(self.par(c), n)

    def in_tree(self, c, t, n):
        """listed under its state"""
        s = self.S(c, n)
        return And(self.alive(c, n), self.listed(t, s.x, s.y), self.node(t, s.x, s.y) == n)

    def good(self, c, t):
        """the tree: every node but the root hangs on an earlier one by a connection the validator accepted"""
        n, root, x, y = fresh_int("n"), t.m_rootNode, fresh_real("x"), fresh_real("y")
        v = self.node(t, x, y)
        return [("the root", And(self.in_tree(c, t, root), self.P(c, root) == 0)), ("counted", t.m_exploredNodeMap.f["n"] >= 1),
                ("every other node hangs on an earlier one by an accepted connection",
                 z3.ForAll([n], Imp(And(self.in_tree(c, t, n), n != root), And(0 < self.P(c, n), self.P(c, n) < n, self.in_tree(c, t, self.P(c, n)), step(self.S(c, self.P(c, n)), self.S(c, n)))))),
                ("every listed state is that of a node", z3.ForAll([x, y], Imp(self.listed(t, x, y), And(self.alive(c, v), v >= root, self.S(c, v).x == x, self.S(c, v).y == y))))]

    def listed(self, t, x, y): return sel(t.m_exploredNodeMap.f["has"], x, y)
    def node(self, t, x, y): return sel(t.m_exploredNodeMap.f["val"], x, y)
    def nodes(self): return [("heap", self.N, f) for f in ("m_parent", "m_children", "m_data")]

    def kept(self, c):
        n = fresh_int("n")
        return [("existing nodes keep their state and parent", z3.ForAll([n], Imp(self.alive(c.old, n), And(self.P(c, n) == self.P(c.old, n), eq(self.S(c, n), self.S(c.old, n)))))), ("nodes are only added", c.st.alloc >= c.old.st.alloc)]

    # ---- what the planners call
    def depth(self):
        return Contract(self.N + "::GetDepth", heap_this=True, facts=self.depth_facts, ensures=lambda c: [("the number of ancestors", c.ret == self.D(c, c._this.ref))], assumed=True, note="proved in C02 (node queries)", **NT)

    def add_child(self):
        n = fresh_int("n")
        me, x = lambda c: c._this.ref, lambda c: c.old.arg(0)
        return Contract(self.N + "::AddChild", heap_this=True, assumed=True, note="proved in C02 for any node data",
                        requires=lambda c: [("a node without parent, owned by the caller", And(self.alive(c, c.arg(0)), self.P(c, c.arg(0)) == 0)), ("nothing hangs below it", And(c.arg(0) != me(c), self.CH(c, c.arg(0)).len == 0))],
                        ensures=lambda c: [("the node is handed back", c.ret == x(c)), ("its parent", self.P(c, x(c)) == me(c)), ("it is given away", c.arg(0) == 0),
                                           ("other nodes keep their parent", z3.ForAll([n], Imp(n != x(c), self.P(c, n) == self.P(c.old, n))))],
                        modifies=lambda c: [("heap", self.N, "m_parent"), ("heap", self.N, "m_children"), c.arglv(0)], **NT)

    def nearest(self):
        return Contract(self.tree + "::GetNearestNode", assumed=True, note="trusted: the k-d tree answers with a point of the tree", requires=lambda c: self.good(c, c.this),
                        ensures=lambda c: [("none, or a node of the tree", Or(c.ret == 0, self.in_tree(c, c.this, c.ret)))] + self.good(c, c.this), modifies=lambda c: [Fld(c._this, "m_kdTree")], **NT)

    def nearest_many(self):
        return Contract(self.tree + "::GetNearestNodes", assumed=True, note="trusted: the k-d tree answers with points of the tree", requires=lambda c: self.good(c, c.this),
                        ensures=lambda c: [("nodes of the tree", And(c.ret.len >= 0, all_int(0, c.ret.len, lambda i: self.in_tree(c, c.this, at(c.ret, i)))))], modifies=lambda c: [Fld(c._this, "m_kdTree")], **NT)

    def extend(self):
        def post(c):
            t, r = c.this, c.ret
            return [("a node of the tree at the target", And(self.in_tree(c, t, r), eq(self.S(c, r), c.old.arg(0)))), ("the root stays", t.m_rootNode == c.old.this.m_rootNode)] + self.good(c, t) + self.kept(c)
        return Contract(self.tree + "::Extend", requires=lambda c: self.good(c, c.this) + [("the source is a node of the tree, and the connection was accepted", And(self.in_tree(c, c.this, c.arg(1)), step(self.S(c, c.arg(1)), c.arg(0))))],
                        ensures=post, modifies=lambda c: [c._this] + self.nodes(), allocates=(self.N,), **NT)

    def root(self):
        def post(c):
            t = c.this
            return [("a new root at the start", And(c.ret == t.m_rootNode, eq(self.S(c, c.ret), c.arg(0)), c.ret >= c.old.st.alloc))] + self.good(c, t) + self.kept(c)
        x, y = fresh_real("x"), fresh_real("y")
        return Contract(self.tree + "::CreateRootNode", requires=lambda c: [("an empty tree", z3.ForAll([x, y], Not(self.listed(c.this, x, y))))], ensures=post, modifies=lambda c: [c._this] + self.nodes(), allocates=(self.N,), **NT)

    def clear(self):
        x, y = fresh_real("x"), fresh_real("y")
        return Contract(self.tree + "::Clear", ensures=lambda c: [("an empty tree", And(c.this.m_exploredNodeMap.f["n"] == 0, z3.ForAll([x, y], Not(self.listed(c.this, x, y)))))], modifies=lambda c: [c._this], **NT)

    def belongs(self):
        return Contract(self.tree + "::BelongToTree", requires=lambda c: self.good(c, c.this) + [("a node", self.alive(c, c.arg(0)))], facts=self.under_facts,
                        ensures=lambda c: [("every node of the tree belongs to it", Imp(self.in_tree(c, c.this, c.arg(0)), c.ret))], **NT)

    def under_facts(self, c):
        """below the root: lemma, by induction on the node"""
        n, r, p = fresh_int("n"), c.this.m_rootNode, self.par(c)
        return [z3.ForAll([n], Imp(self.in_tree(c, c.this, n), Or(n == r, UNDER(p, n, r))), patterns=[UNDER(p, n, r)])]

    def descendant(self):
        return Contract(self.N + "::IsDescendantOf", heap_this=True, assumed=True, note="proved in C02 (node queries)", ensures=lambda c: [("below it iff it is an ancestor", c.ret == UNDER(self.par(c), c._this.ref, c.arg(0)))], **NT)

    def steer(self):
        return Contract(self.cls + "::SteerTowards", requires=lambda c: [("a connection and a distance", And(c.this.m_pathConnection != 0, c.arg(2) >= 0))],
                        ensures=lambda c: [("a new path from the state", And(c.ret >= c.old.st.alloc, c.ret < c.st.alloc, eq(INIT(c, c.ret), c.old.arg(0)))), ("no longer than the distance", And(LEN(c, c.ret) >= 0, LEN(c, c.ret) <= c.arg(2))), paths_kept(c)],
                        modifies=lambda c: paths(), allocates=(PATH,), **NT)

    def exactly(self):
        return Contract(self.cls + "::SteerExactly", requires=lambda c: [("a connection", c.this.m_pathConnection != 0)],
                        ensures=lambda c: [("a new path between the states", And(c.ret.f["0"] >= c.old.st.alloc, c.ret.f["0"] < c.st.alloc, eq(INIT(c, c.ret.f["0"]), c.old.arg(0)), eq(FINAL(c, c.ret.f["0"]), c.old.arg(1)))), ("its length is the cost", And(c.ret.f["1"] == LEN(c, c.ret.f["0"]), c.ret.f["1"] >= 0)), paths_kept(c)],
                        modifies=lambda c: paths(), allocates=(PATH,), **NT)

    def accepted(self, c, s):
        g = c.this.m_goal
        if self.alg == "RRT":
            return (s.x - g.x) * (s.x - g.x) + (s.y - g.y) * (s.y - g.y) < 1
        return eq(s, g)

    def is_solution(self):
        return Contract(self.cls + "::IsSolution", ensures=lambda c: [("the goal test", c.ret == self.accepted(c, c.arg(0)))], **NT)

    def result(self, c):
        """between searches: no solution, or a node of the tree"""
        sol, t = c.this.m_solutionNode, c.this.m_tree
        return [("a solution is a node of the tree", Or(sol == 0, self.in_tree(c, t, sol))), ("the tree", Imp(sol != 0, And(*[f for _, f in self.good(c, t)])))]

    def depth_facts(self, c):
        n, k = fresh_int("n"), fresh_int("k")
        p = self.par(c)
        P, D = self.P, self.D
        return [z3.ForAll([n], Imp(And(self.alive(c, n), Or(P(c, n) == 0, And(0 < P(c, n), P(c, n) < n))), And(D(c, n) >= 0, D(c, n) == z3.If(P(c, n) == 0, z3.IntVal(0), D(c, P(c, n)) + 1))), patterns=[D(c, n)]),
                z3.ForAll([n], UP(p, n, 0) == n, patterns=[UP(p, n, 0)]),
                z3.ForAll([n, k], Imp(k >= 0, UP(p, n, k + 1) == sel(p, UP(p, n, k))), patterns=[UP(p, n, k + 1)])]



def INIT(c, p): return c.deref(p, PATH).m_init
def FINAL(c, p): return c.deref(p, PATH).m_final
def LEN(c, p): return c.deref(p, PATH).m_length
def paths(): return [("heap", PATH, f) for f in ("m_init", "m_final", "m_length")]


def paths_kept(c, but=None):
    n = fresh_int("n")
    w = [] if but is None else [n != but]
    return ("other paths stay", z3.ForAll([n], Imp(And(n > 0, n < c.old.st.alloc, *w), And(eq(INIT(c, n), INIT(c.old, n)), eq(FINAL(c, n), FINAL(c.old, n)), LEN(c, n) == LEN(c.old, n)))))


def interfaces():
    valid = lambda c: Imp(c.ret, step(INIT(c, c._this_path), FINAL(c, c._this_path)))
    own = lambda c: c._this.ref
    return [Contract("Planner::PathConnection<%s>::Connect" % P2, heap_this=True, assumed=True, note="any connection", allocates=(PATH,), modifies=lambda c: paths(),
                     ensures=lambda c: [("a new path between the states", And(c.ret >= c.old.st.alloc, c.ret < c.st.alloc, eq(INIT(c, c.ret), c.old.arg(0)), eq(FINAL(c, c.ret), c.old.arg(1)), LEN(c, c.ret) >= 0)), paths_kept(c)], **NT),
            Contract(PATH + "::Truncate", heap_this=True, assumed=True, note="proved for the library's paths in C07", requires=lambda c: [("a ratio", And(0 <= c.arg(0), c.arg(0) <= 1))], modifies=lambda c: paths(),
                     ensures=lambda c: [("the start stays, the length is scaled", And(eq(INIT(c, own(c)), INIT(c.old, own(c))), LEN(c, own(c)) == c.arg(0) * LEN(c.old, own(c)), Imp(c.arg(0) == 1, eq(FINAL(c, own(c)), FINAL(c.old, own(c)))))), paths_kept(c, own(c))], **NT),
            Contract("Planner::StateValidator<%s, 2, double>::IsPathValid" % P2, nparams=2, heap_this=True, assumed=True, note="any validator; accepted connections are named by their ends",
                     ensures=lambda c: [("accepted", Imp(c.ret, step(c.arg(0).m_init, c.arg(0).m_final)))], **NT),
            Contract("Planner::StateSpace<%s, 2, double>::SampleUniform" % P2, heap_this=True, assumed=True, note="any sample", nparams=0, **NT)]


def setup():
    ex = verifier("rrt.cpp")
    ex.opaque_ok = ("addPoints", "buildIndex")
    return ex


def trusted(k, note):
    k.assumed, k.loops, k.note = True, [], note
    return k


def group_tree(s):
    def run():
        ex = setup()
        par, root, top, n0 = z3.Array("parents", I, I), *z3.Ints("root alloc n0")
        n, m = fresh_int("n"), fresh_int("m")
        IN = z3.Function("in_tree", I, B)
        inside = lambda n: And(n > 0, n < top, IN(n))
        ex.lemma("every node of the tree is below its root, by induction on the node",
                 [inside(n0), z3.ForAll([n], Imp(And(inside(n), n != root), And(par[n] < n, inside(par[n])))),
                  z3.ForAll([n, m], UNDER(par, n, m) == And(par[n] != 0, Or(par[n] == m, UNDER(par, par[n], m))), patterns=[UNDER(par, n, m)]),
                  z3.ForAll([n], Imp(And(n < n0, inside(n)), Or(n == root, UNDER(par, n, root))))], Or(n0 == root, UNDER(par, n0, root)))
        ex.add(s.descendant())
        ex.verify(s.belongs())
        ex.add(s.add_child(), s.nearest(), trusted(s.belongs(), "proved in the same group"))
        ex.verify(s.clear())
        ex.verify(s.root())
        ex.verify(s.extend())
        return ex
    return run


def group_steps(s):
    def run():
        ex = setup()
        ex.add(*interfaces())
        ex.verify(s.is_solution())
        ex.verify(s.steer())
        if s.alg == "RRTStar":
            ex.verify(s.exactly())
        return ex
    return run


def group_path(s):
    def run():
        ex = setup()
        ex.add(s.depth())
        sol, root = lambda c: c.this.m_solutionNode, lambda c: c.this.m_tree.m_rootNode
        anc = lambda c, k: UP(s.par(c), sol(c), k)

        def inv(c):
            v, k, node, d = c.var("path"), c.var("it").i, c.var("node"), s.D(c, sol(c))
            return [("length", And(v.len == d + 1, 0 <= k, k <= v.len)),
                    ("where the walk stands", And(node == anc(c, k), Imp(k <= d, And(s.in_tree(c, c.this.m_tree, node), s.D(c, node) == d - k)))),
                    ("what is written", all_int(0, k, lambda j: And(eq(at(v, v.len - 1 - j), s.S(c, anc(c, j))), s.in_tree(c, c.this.m_tree, anc(c, j)), s.D(c, anc(c, j)) == d - j)))]

        def post(c):
            v, d = c.ret, s.D(c, sol(c))
            has = sol(c) != 0
            return [("empty without a solution", Imp(Not(has), v.len == 0)), ("one state more than ancestors", Imp(has, v.len == d + 1)),
                    ("the states of the ancestors in order", Imp(has, all_int(0, v.len, lambda j: eq(at(v, v.len - 1 - j), s.S(c, anc(c, j)))))),
                    ("starts at the initial state of the search", Imp(has, eq(at(v, 0), s.S(c, root(c))))),
                    ("ends at the solution", Imp(has, eq(at(v, v.len - 1), s.S(c, sol(c))))),
                    ("every step is a connection the validator accepted", Imp(has, all_int(0, v.len - 1, lambda j: And(s.P(c, anc(c, j)) == anc(c, j + 1), step(at(v, v.len - 2 - j), at(v, v.len - 1 - j))))))]
        ex.verify(Contract(s.cls + "::GetPath", requires=s.result, facts=s.depth_facts, ensures=post, loops=[Loop(inv)]))
        return ex
    return run


def group_search(s):
    def run():
        ex = setup()
        ex.add(*interfaces())
        ex.add(Contract("Planner::Random<double>::SampleUniform", nparams=2, assumed=True, note="any number", **NT))
        for k in (s.clear(), s.root(), s.extend(), s.is_solution(), s.steer()) + ((s.exactly(),) if s.alg == "RRTStar" else ()):
            ex.add(trusted(k, "proved in the groups on the tree and the steps"))
        ex.add(s.nearest())
        if s.alg == "RRTStar":
            ex.add(s.nearest_many())

        def state(c):
            t = c.this.m_tree
            return s.good(c, t) + [("from the initial state", And(t.m_rootNode >= c.old.st.alloc, eq(s.S(c, t.m_rootNode), c.this.m_init))), ("no solution yet", c.this.m_solutionNode == 0)]

        def inv(c):
            return state(c) + [("the iterations are counted", And(c.var("count") >= -1, c.var("count") <= c.this.m_parameters.maxIteration))]

        def best(c):
            b = c.var("bestParentNode")
            p = c.var("bestPath")
            new = c.var("newState")
            return state(c) + [("the near nodes are nodes of the tree", all_int(0, c.var("nearNodes").len, lambda i: s.in_tree(c, c.this.m_tree, at(c.var("nearNodes"), i)))),
                               ("the path to the new state exists", And(c.var("pathNearToNew") > 0, c.var("pathNearToNew") < c.st.alloc)),
                               ("position", And(0 <= loop_index(c), loop_index(c) <= c.var("nearNodes").len)),
                               ("the best parent so far is a node of the tree connected by an accepted connection", Or(b == 0, And(s.in_tree(c, c.this.m_tree, b), step(s.S(c, b), new))))]

        def post(c):
            ok, t, sol = c.ret == 0, c.this.m_tree, c.this.m_solutionNode
            return [("success or failure", Or(c.ret == 0, c.ret == -1)), ("failure means no solution", Imp(Not(ok), sol == 0)),
                    ("success means a node of the tree that the goal test accepts", Imp(ok, And(sol != 0, s.in_tree(c, t, sol), s.accepted(c, s.S(c, sol))))),
                    ("the tree starts at the initial state", Imp(ok, eq(s.S(c, t.m_rootNode), c.this.m_init)))] + [("on success: " + l, Imp(ok, f)) for l, f in s.good(c, t)]
        pre = lambda c: [("set up", And(c.this.m_stateSpace != 0, c.this.m_stateValidator != 0, c.this.m_pathConnection != 0)), ("parameters", And(0 <= c.this.m_parameters.maxIteration, c.this.m_parameters.maxIteration < 2**31 - 1, c.this.m_parameters.maxConnectionDistance >= 0))]
        loops = [Loop(inv, variant=lambda c: c.this.m_parameters.maxIteration - c.var("count"))]
        if s.alg == "RRTStar":
            loops.append(Loop(best, variant=lambda c: c.var("nearNodes").len - loop_index(c)))
        ex.verify(Contract(s.cls + "::SearchPath", requires=pre, ensures=post, modifies=lambda c: [Fld(c._this, "m_tree"), Fld(c._this, "m_solutionNode")] + s.nodes() + paths(), noframe=True, loops=loops))
        return ex
    return run


def groups():
    out = []
    for a in ("RRT", "RRTStar"):
        s = Spec(a)
        out += [dict(name=n + " " + a, run=g(s)) for n, g in (("tree", group_tree), ("steps", group_steps), ("path", group_path), ("search", group_search))]
    return out
