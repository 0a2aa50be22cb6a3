from .util import *
from .C16 import ACCEPTS, POSE, ok, same

HARNESS = "c20.cpp"
OPT = "-O2"
SECONDS = 25
BOUNDED = "that the graph search over vehicle states returns a chain of motions (its contract is proved for arbitrary states in C03, the motions in C17, their concatenation in C08; the composition of the three is assumed here) and the end of the sampling loop"
ASSUMPTIONS = ["the sampling interval is positive", "the objects that Initialize makes in other translation units (distance map, heuristics) are arbitrary objects; their own properties are C10, C16 and C21",
               "the graph search, its motions and their concatenation have the contracts proved for them in C03, C17 and C08 and the smoother that of C16; start and goal tolerances are those of IdenticalPoses, proved here"]
H = "Planner::HybridAStar::"
G = H + "GraphSearch::"
COMP = "Planner::PathSE2CompositeNonHolonomic"
ASTAR = "Planner::AStar::"
CX, CY, CT = [z3.Function("path_" + n, I, R, R) for n in "xyt"]
TOL = z3.RealVal("1/1000")


def curve(ref, x):
    return V({"position": V({"x": CX(ref, x), "y": CY(ref, x)}), "theta": CT(ref, x)})


IDENTICAL = z3.Function("within_tolerance", *([R] * 6 + [B]))
def near(a, b): return IDENTICAL(*POSE(a), *POSE(b))


def search():
    """the graph search (C03 for any propagator), the motions it offers (C17) and their concatenation (C08)"""
    def found(c): return c.this.m_solutionNode != 0
    s = Contract(ASTAR + "SearchPath", nparams=0, assumed=True, note="C03, for the states and motions of the vehicle",
                 ensures=lambda c: [("a status", Or(And(c.ret == 0, found(c)), And(c.ret == -1, Not(found(c)))))], modifies=lambda c: [Fld(c._this, "m_solutionNode")])
    def whole(c):
        p, q = c.deref(c.ret, COMP), c.ret
        a, b = c.this.m_init.continuousPose, c.this.m_goal.continuousPose
        return [("a path", And(c.ret != 0, p.m_length >= 0)), ("no motion only at the goal", Imp(p.m_paths.len == 0, near(a, b))), ("from the start to the goal", Imp(p.m_paths.len > 0, And(same(curve(q, z3.RealVal(0)), a), near(curve(q, z3.RealVal(1)), b)))), ("no length without a motion", Imp(p.m_paths.len == 0, p.m_length == 0)), ("a number of motions", p.m_paths.len >= 0)]
    w = Contract(G + "GetCompositePath", assumed=True, note="the motions of the solution one after the other (group on the graph search); C03, C08 and C17 make them a path from the start to the goal", requires=lambda c: [("a solution", found(c))], ensures=whole)
    cusps = Contract("Planner::PathSE2CompositeNonHolonomic::GetCuspPointRatios", nparams=0, assumed=True, note="C08: places on the path", ensures=lambda c: [("places on the path", z3.ForAll([X], Imp(sel(c.ret.f["has"], X), And(0 <= X, X <= 1))))])
    return [s, w, cusps]


X = z3.Real("x!cusp")


def sample():
    def post(c):
        return [("one state per ratio", c.ret.len == c.arg(0).len), ("the states at the ratios", all_int(0, c.ret.len, lambda i: same(at(c.ret, i), curve(c._this.ref, at(c.arg(0), i)))))]
    def inv(c):
        s = c.var("states")
        return [("one state per ratio", s.len == c.var("__pos")), ("position", And(0 <= s.len, s.len <= c.arg(0).len)), ("the states at the ratios", all_int(0, s.len, lambda i: same(at(s, i), curve(c._this.ref, at(c.arg(0), i)))))]
    return Contract("Planner::Path<Planner::Pose2<double>>::Interpolate", nparams=1, pred=lambda f: "vector" in f.fntype, requires=lambda c: [("ratios", all_int(0, c.arg(0).len, lambda i: And(0 <= at(c.arg(0), i), at(c.arg(0), i) <= 1)))], ensures=post, loops=[Loop(inv)], heap_this=True)


def point():
    return Contract("Planner::Path<Planner::Pose2<double>>::Interpolate", nparams=1, pred=lambda f: "vector" not in f.fntype, assumed=True, note="a path is a function from ratios to states (C07, C08)",
                    requires=lambda c: [("a ratio", And(0 <= c.arg(0), c.arg(0) <= 1))], ensures=lambda c: [("the state there", same(c.ret, curve(c._this.ref, c.arg(0))))])


def smoother():
    def post(c):
        p, q = c.arg(0), c.this.m_currentPath
        return [("a status", And(-2 <= c.ret, c.ret <= 2)), ("safe", Imp(c.ret >= 0, And(q.len == p.len, all_int(0, q.len, lambda i: ok(at(q, i))), Imp(p.len > 0, And(same(at(q, 0), at(p, 0)), same(at(q, q.len - 1), at(p, p.len - 1)))))))]
    return Contract("Planner::Smoother::Smooth", assumed=True, note="C16", ensures=post, modifies=lambda c: [Fld(c._this, "m_currentPath")])


def quiet(name, n=None):
    return Contract(name, nparams=n, assumed=True, note="fills its own tables only", ensures=lambda c: [])


def plan():
    L = lambda c: c.var("pathLength")
    D = lambda c: c.this.pathInterpolation
    def back(c): return at(c.var("ratios"), c.var("ratios").len - 1)
    def it(c): return c.var("cuspRatioIt")
    def base(c):
        rs, i = c.var("ratios"), it(c)
        k, has = i.key[0], c.var("cuspRatios").f["has"]
        return [("samples lie on the path", all_int(0, rs.len, lambda j: And(0 <= at(rs, j), at(rs, j) <= 1))),
                ("samples go forward, by at most two intervals", z3.ForAll([J], Imp(And(0 <= J, J + 1 < rs.len), And(at(rs, J) <= at(rs, J + 1), (at(rs, J + 1) - at(rs, J)) * L(c) <= 2 * D(c))))),
                ("the first sample is the start", Imp(rs.len > 0, at(rs, 0) == 0)),
                ("the next cusp", And(Imp(i.found, And(sel(has, k), 0 <= k, k <= 1)), Imp(rs.len == 0, And(i.found, k == 0)), Imp(And(i.found, rs.len > 0), back(c) <= k))),
                ("all cusps sampled ends with the goal", Imp(Not(i.found), And(rs.len > 0, back(c) == 1))),
                ("a length", And(rs.len >= 0, L(c) >= 0))]
    def head(c):
        rs, i, x = c.var("ratios"), it(c), c.var("length")
        b = back(c) * L(c)
        return [("the first sample is made first", And(x >= 0, (rs.len == 0) == (x == 0))), ("the last sample is close", Imp(rs.len > 0, And(x - 3 * D(c) / 2 <= b, b <= x - D(c) / 2))),
                ("cusps in reach are sampled", Imp(And(i.found, rs.len > 0), i.key[0] * L(c) > x - D(c) / 2)), ("after the goal nothing is sampled", Imp(Not(i.found), x >= L(c) + D(c) / 2))]
    def outer(c): return base(c) + head(c)
    def inner(c):
        rs, i, x, cu = c.var("ratios"), it(c), c.var("length"), c.var("isCusp")
        b = back(c) * L(c)
        return base(c) + [("within the path", And(0 <= x, x < L(c)))] + [(l + " (no cusp here)", Imp(Not(cu), f)) for l, f in head(c)] + [
            ("a cusp here", Imp(cu, And(rs.len > 0, x - D(c) / 2 < b, b <= x + D(c) / 2))), ("the goal is near", Imp(And(cu, Not(i.found)), x >= L(c) - D(c) / 2))]
    def rest(c):
        rs, i = c.var("ratios"), it(c)
        return base(c) + [("the last sample is close to the end", Imp(rs.len > 0, back(c) * L(c) >= L(c) - 3 * D(c) / 2)), ("no sample only on an empty path", Imp(rs.len == 0, L(c) == 0))]
    def post(c):
        t, o, p, r = c.this, c.old.this, c.this.m_path, c.ret
        st = t.m_stats
        out = [("a planner that was not initialised fails", Imp(Not(o.isInitialized), And(r == -1, p.len == 0))),
               ("a failed search has no path", Imp(r < 0, p.len == 0)),
               ("success means a path", Imp(r >= 0, p.len > 0)),
               ("the status is that of the graph search", Imp(o.isInitialized, Or(r == st.graphSearchStatus, And(r == 0, st.graphSearchStatus == 0)))),
               ("the path starts at the start", Imp(r >= 0, same(at(p, 0), t.m_init))),
               ("the path ends at the goal", Imp(r >= 0, near(at(p, p.len - 1), t.m_goal))),
               ("a smoothed path was accepted by the validator", Imp(And(r >= 0, st.smoothingStatus >= 0), all_int(0, p.len, lambda i: ok(at(p, i)))))]
        try:
            rs, q, ln = c.var("ratios"), c.var("path"), c.var("pathLength")
            out += [("without smoothing the path of the search is returned", Imp(And(r >= 0, st.smoothingStatus < 0, c.deref(q, COMP).m_paths.len > 0), And(p.len == rs.len, all_int(0, p.len, lambda i: same(at(p, i), curve(q, at(rs, i))))))),
                    ("consecutive samples are at most two intervals apart", Imp(And(r >= 0, st.smoothingStatus < 0, c.deref(q, COMP).m_paths.len > 0), z3.ForAll([J], Imp(And(0 <= J, J + 1 < rs.len), And(at(rs, J) <= at(rs, J + 1), (at(rs, J + 1) - at(rs, J)) * ln <= 2 * D(c))))))]
        except AttachError:
            pass
        return out
    pre = lambda c: [("a sampling interval", c.this.pathInterpolation > 0), ("what initialised means", Imp(c.this.isInitialized, And(c.this.m_obstacleHeuristic != 0, c.this.m_gvd != 0, c.this.m_propagator != 0, c.this.m_validator != 0))),
                     ("resolutions", z3.BoolVal(True))]
    return Contract(H + "SearchPath", requires=pre, ensures=post, modifies=lambda c: [Fld(c._this, n) for n in ("m_path", "m_stats", "m_graphSearch", "m_smoother")] + [Fld(Heap("Planner::HybridAStar::StatePropagator", c.this.m_propagator), "m_goalState")], loops=[Loop(outer), Loop(inner), Loop(rest)])


J = z3.Int("j!sample")


def states():
    """a search state has the pose it was made of"""
    return Contract(H + "StatePropagator::CreateStateFromPose", assumed=True, note="proved in the group on the graph search", ensures=lambda c: [("the pose", same(c.ret.continuousPose, c.arg(0)))])


def group_plan():
    ex = verifier("hybrid.cpp")
    k = sample()
    ex.add(point())
    ex.verify(k)
    k.assumed, k.loops, k.note = True, [], "proved above"
    ex.add(k, smoother(), states(), quiet("Planner::ObstaclesHeuristic::Update"), quiet("Planner::GVD::Update"), *search())
    ex.verify(plan())
    return ex


DIFF = z3.Function("heading_difference", R, R, R)
NODE = "Planner::Node<Planner::AStarNodeData<Planner::HybridAStar::State, Planner::HybridAStar::Action>>"


def close(a, b, tol=TOL):
    dx, dy = a.position.x - b.position.x, a.position.y - b.position.y
    d = DIFF(a.theta, b.theta)
    return And(dx * dx + dy * dy < tol * tol, d < tol * PI / 180, -d < tol * PI / 180)


def minus():
    return Contract("Planner::operator-", nparams=2, pred=lambda f: "Pose2" in f.fntype, assumed=True, note="C15: the heading of a difference is the normalised difference of the headings", ensures=lambda c: [("heading", c.ret.theta == DIFF(c.arg(0).theta, c.arg(1).theta))])


def identical():
    return Contract(G + "IdenticalPoses", requires=lambda c: [("a tolerance", c.arg(2) > 0)], ensures=lambda c: [("position and heading within the tolerance", c.ret == close(c.arg(0), c.arg(1), c.arg(2)))])


def group_graph():
    ex = verifier("hybrid.cpp")
    ex.add(minus())
    k = identical()
    ex.verify(k)
    ex.add(k)
    node = lambda c, i: c.deref(c.arg(i), NODE)
    live = lambda c, *a: [("nodes", And(*[And(c.arg(i) > 0, c.arg(i) < c.st.alloc) for i in a]))]
    pose = lambda n: n.m_data.state.continuousPose
    ex.verify(Contract(G + "IsSolution", requires=lambda c: live(c, 0), ensures=lambda c: [("the goal is reached within the tolerance", c.ret == close(pose(node(c, 0)), c.this.m_goal.continuousPose))]))
    base = Contract(ASTAR + "ProcessPossibleShortcut", assumed=True, note="C03", requires=lambda c: [("a node is only replaced by one at the same pose", close(pose(node(c, 0)), pose(node(c, 1))))], modifies=lambda c: [c._this])
    ex.add(base)
    ex.verify(Contract(G + "ProcessPossibleShortcut", requires=lambda c: live(c, 0, 1, 2), modifies=lambda c: [c._this]))
    return ex


def group_states():
    ex = verifier("hybrid.cpp")
    from .C15 import wrap_real
    ex.add(wrap_real())
    k = states()
    k.assumed = False
    cell = lambda x, r: z3.If(x / r >= 0, z3.ToInt(x / r), -z3.ToInt(-x / r))
    ex.verify(Contract(k.name, requires=lambda c: [("resolutions", And(c.this.m_param.spatialResolution > 0, c.this.m_param.angularResolution > 0))], ensures=lambda c: k.ensures(c) + [("no direction yet", c.ret.direction == 2)]))
    return ex


def group_composite():
    ex = verifier("hybrid.cpp")
    N, ACT = z3.Int("number_of_actions"), z3.Function("path_of_action", I, I)
    acts = Contract(ASTAR + "GetActions", assumed=True, note="C03: the actions of the solution in order, each with its motion (C17)", ensures=lambda c: [("the actions", And(c.ret.len == N, N >= 0)), ("their paths", all_int(0, N, lambda i: And(at(c.ret, i).path == ACT(i), ACT(i) > 0, ACT(i) < c.st.alloc)))])
    ex.add(acts)
    parts = lambda c, p, n: [("as many pieces", p.m_paths.len == n), ("the pieces are the motions in order", all_int(0, n, lambda i: at(p.m_paths, i).f["1"] == ACT(i)))]
    inv = lambda c: [("position", And(0 <= c.var("__pos"), c.var("__pos") <= N))] + parts(c, c.deref(c.var("path"), COMP), c.var("__pos"))
    ex.verify(Contract(G + "GetCompositePath", ensures=lambda c: parts(c, c.deref(c.ret, COMP), N), loops=[Loop(inv, fresh_only="function")], allocates=(COMP,)))
    return ex


def group_init():
    ex = verifier("hybrid.cpp")
    made = lambda c: [("an object", c.ret != 0)]
    for n in ("Planner::Smoother::Initialize", H + "StatePropagator::Initialize", ASTAR + "Initialize", "Planner::AStarCombinedHeuristic::Add"):
        ex.add(Contract(n, assumed=True, note="keeps what it is given", ensures=lambda c: [], modifies=lambda c: [c._this]))
    ex.add(Contract("Planner::NonHolonomicHeuristic::Build", assumed=True, note="C10", ensures=made))
    def post(c):
        t = c.this
        return [("the answer is the state of the planner", c.ret == t.isInitialized), ("without a validator the planner is not initialised", Imp(c.arg(0) == 0, Not(c.ret))),
                ("an initialised planner has all it needs", Imp(c.ret, And(t.m_obstacleHeuristic != 0, t.m_gvd != 0, t.m_propagator != 0, t.m_validator != 0, t.m_validator == c.arg(0))))]
    ex.verify(Contract(H + "Initialize", requires=lambda c: [("made by its constructor", c.this.m_propagator != 0), ("existing", And(c.arg(0) >= 0, c.arg(0) < c.st.alloc, c.this.m_propagator > 0, c.this.m_propagator < c.st.alloc))], ensures=post, modifies=lambda c: [c._this, Heap(H + "StatePropagator", c.this.m_propagator)]))
    return ex


def groups():
    return [dict(name="planner", run=group_plan), dict(name="initialisation", run=group_init), dict(name="goal test", run=group_graph), dict(name="states", run=group_states), dict(name="composite path", run=group_composite)]
