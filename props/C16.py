from .util import *

HARNESS = "c16.cpp"
SECONDS = 12
OPT = "-O2"
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["the validator is a function of the pose (asking it does not change its answer), and the map and the distance map are only asked",
               "numbers are real numbers: no overflow, no not-a-number (the harness runs the real arithmetic)"]
SM = "Planner::Smoother"
ACCEPTS = z3.Function("validator_accepts", R, R, R, B)
POSE = lambda p: (p.position.x, p.position.y, p.theta)
ANY = dict(assumed=True, note="the map and the distance map are only asked; any answer")


def ok(p): return ACCEPTS(*POSE(p))
def same(a, b): return And(*[x == y for x, y in zip(POSE(a), POSE(b))])
def cusp(c, i): return sel(c.arg(1).f["has"], i)
def fixed(c, i, n): return Or(i == 0, i == n - 1, cusp(c, i))


def valid():
    return Contract("Planner::StateValidatorOccupancyMap::IsStateValid", assumed=True, nparams=1, result=lambda c: ACCEPTS(*POSE(c.arg(0))), note="any function of the pose (C13)")


def queries():
    o, g = "Planner::OccupancyMap::", "Planner::GVD::"
    cell = lambda c: V({"row": fresh_int("row"), "col": fresh_int("col")})
    point = lambda c: V({"x": fresh_real("px"), "y": fresh_real("py")})
    return [Contract(o + "IsInsideMap", nparams=1, **ANY), Contract(o + "WorldPositionToGridCell", nparams=2, result=cell, **ANY), Contract(o + "GridCellToWorldPosition", nparams=1, result=point, **ANY),
            Contract(g + "GetNearestObstacleCell", nparams=1, result=cell, **ANY), Contract(g + "GetNearestVoronoiEdgeCell", nparams=1, result=cell, **ANY)]


def curvature():
    return Contract(SM + "::CalculateCurvatureTerm", modifies=lambda c: [c.arglv(3), c.arglv(4), c.arglv(5)], ensures=lambda c: [])


def safe():
    def post(c):
        p = c.this.m_currentPath
        return [("safe iff every pose is accepted", c.ret == all_int(0, p.len, lambda i: ok(at(p, i))))]
    return Contract(SM + "::IsPathSafe", requires=lambda c: [("initialised", c.this.m_validator != 0)], ensures=post,
                    loops=[Loop(lambda c: [("so far", And(0 <= loop_index(c), loop_index(c) <= c.this.m_currentPath.len, all_int(0, loop_index(c), lambda i: ok(at(c.this.m_currentPath, i)))))])])


def group_safe():
    ex = verifier("smoother.cpp")
    ex.add(valid())
    ex.verify(safe())
    return ex


def free(c, i, n):
    """a point whose neighbourhood holds no cusp"""
    return And(2 <= i, i < n - 2, *[Not(cusp(c, i + d)) for d in (-2, -1, 0, 1, 2)])


def smooth():
    num = lambda c: c.arg(0).len
    cur = lambda c: c.this.m_currentPath
    kept = lambda c: [("as many poses", cur(c).len == num(c)),
                      ("headings", all_int(0, num(c), lambda i: at(cur(c), i).theta == at(c.arg(0), i).theta)),
                      ("ends and cusps stay in place", all_int(0, num(c), lambda i: Imp(fixed(c, i, num(c)), And(at(cur(c), i).position.x == at(c.arg(0), i).position.x, at(cur(c), i).position.y == at(c.arg(0), i).position.y))))]
    still = lambda c, p: z3.ForAll([p], Imp(And(0 <= p, p < num(c), fixed(c, p, num(c))), And(at(c.var("gradients"), p).x == 0, at(c.var("gradients"), p).y == 0)))
    chosen = lambda c: ("only points away from the ends and the cusps are moved", all_int(0, c.var("indices").len, lambda k: free(c, at(c.var("indices"), k), num(c))))
    # m_currentPath may hold anything before the input is copied
    select = lambda c: [chosen(c), ("position", And(0 <= c.var("i"), c.var("i") <= num(c)))]
    unmoved = lambda c: ("nothing moved before the first iteration", Imp(c.var("count") < 0, all_int(0, num(c), lambda i: same(at(cur(c), i), at(c.arg(0), i)))))
    outer = lambda c: kept(c) + [chosen(c), ("as many gradients", c.var("gradients").len == num(c)), unmoved(c),
                                 ("the iterations are counted", And(c.var("count") >= -1, Imp(c.this.m_param.maxIterations >= 0, c.var("count") < c.this.m_param.maxIterations), Imp(c.this.m_param.maxIterations < 0, c.var("count") == -1)))]
    inside = lambda c: kept(c) + [chosen(c), ("as many gradients", c.var("gradients").len == num(c)), ("no force on ends and cusps", still(c, fresh_int("p")))]
    def forces(c):
        return [f for f in inside(c)] + [("position", And(0 <= c.var("__pos"), c.var("__pos") <= c.var("indices").len))]
    def moves(c):
        i = c.var("i")
        return inside(c) + [("position", And(0 <= i, i <= num(c)))]

    def post(c):
        p, q = c.arg(0), cur(c)
        ran = c.this.isInitialized
        mi = c.this.m_param.maxIterations
        return [("not initialised is a failure", Imp(Not(ran), c.ret == -1)),
                ("anything but failure means a safe path", Imp(c.ret >= 0, all_int(0, q.len, lambda i: ok(at(q, i))))),
                ("short paths and no iterations leave the path as it was", Imp(And(ran, Or(p.len < 5, mi <= 0)), And(q.len == p.len, all_int(0, p.len, lambda i: same(at(q, i), at(p, i)))))),
                ("a status", And(-1 <= c.ret, c.ret <= 2))] + [("afterwards: " + l, Imp(And(ran, p.len >= 0), f)) for l, f in kept(c)]
    pre = lambda c: [("the number of poses fits an int", num(c) < 2**31), ("what initialised means", Imp(c.this.isInitialized, And(c.this.m_validator != 0, c.this.m_map != 0, c.this.m_gvd != 0)))]
    return Contract(SM + "::Smooth", requires=pre, ensures=post, modifies=lambda c: [Fld(c._this, "m_currentPath")],
                    loops=[Loop(select, variant=lambda c: num(c) - c.var("i")), Loop(outer, variant=lambda c: c.this.m_param.maxIterations - c.var("count")), Loop(forces), Loop(moves, variant=lambda c: num(c) - c.var("i"))])


def group_smooth():
    ex = verifier("smoother.cpp")
    k = safe()
    k.assumed, k.loops, k.note = True, [], "proved in the group on safety"
    ex.add(valid(), k, *queries())
    cv = curvature()
    ex.verify(cv)
    ex.add(cv)
    ex.verify(smooth())
    return ex


def groups():
    return [dict(name="safety", run=group_safe), dict(name="smoothing", run=group_smooth)]
