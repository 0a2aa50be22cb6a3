from .util import *
from .C15 import wrap_real, samedir, normal

HARNESS = "c17.cpp"
SECONDS = 25
OPT = "-O2"
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["the wheelbase is positive, the steering angle is strictly between -pi/2 and pi/2 and the tangent increases there",
               "steering so small that the curvature is below 1e-9 per unit length is driven as a straight line (the code's threshold)"]
BIKE = "Planner::KinematicBicycleModel::"
EPS = z3.RealVal("1/1000000000")


def wheels(m):
    return [("a positive wheelbase", m.m_wheelbase > 0)]


def geometry(c, m, steering):
    """slip angle, curvature of the reference point and cosine of the slip angle"""
    t = TAN(steering)
    beta = ATAN(m.m_rearToCenter * t / m.m_wheelbase)
    return beta, COS(beta) * t / m.m_wheelbase, COS(beta)


def steer_contract():
    def post(c):
        m, f, s = c.this, c.arg(0), c.arg(1)
        d = z3.simplify(z3.If(c.arg(3) == 1, -c.arg(2), c.arg(2)))
        beta, k, cb = geometry(c, m, s)
        turn = z3.Or(k > EPS, k < -EPS)
        tx, ty, tt = c.ret.position.x, c.ret.position.y, c.ret.theta
        return [("the heading turns by the distance over the turning radius", Imp(turn, samedir(tt, f.theta + d / cb * k))),
                ("the centre of rotation stays in place (x)", Imp(turn, tx - 1 / k * SIN(beta + tt) == f.position.x - 1 / k * SIN(beta + f.theta))),
                ("the centre of rotation stays in place (y)", Imp(turn, ty + 1 / k * COS(beta + tt) == f.position.y + 1 / k * COS(beta + f.theta))),
                ("without curvature the motion is straight", Imp(Not(turn), And(tx == f.position.x + d / cb * COS(f.theta), ty == f.position.y + d / cb * SIN(f.theta), samedir(tt, f.theta)))),
                ("the heading is normalised", normal(tt)),
                ("a slip angle inside a quarter turn", cb > 0)]
    return Contract(BIKE + "ConstantSteer", nparams=4, requires=lambda c: wheels(c.this), ensures=post)


def group_model():
    ex = verifier("hybrid.cpp")
    ex.add(wrap_real())
    con = steer_contract()
    ex.verify(con)
    ex.add(con)

    def back(c):
        beta, k, cb = geometry(c, c.arg(0), c.arg(2))
        turn = z3.Or(k > EPS, k < -EPS)
        return [("driving back %s %s" % (n, what), Imp(case, g)) for n, case in (("a turn", turn), ("a straight line", Not(turn)))
                for what, g in (("returns to the heading of the start", samedir(c.ret.theta, c.arg(1).theta)),
                                ("returns to the start (x)", c.ret.position.x == c.arg(1).position.x),
                                ("returns to the start (y)", c.ret.position.y == c.arg(1).position.y))]
    for n in ("ThereAndBack", "BackAndThere"):
        ex.verify(Contract("PlannerSpec::" + n, requires=lambda c: wheels(c.arg(0)), ensures=back, hints=lambda c: [p for p in back(c) if "heading" in p[0]]))
    ex.verify(angle_contract())
    return ex


ANGLE = z3.Function("steering_angle", R, R, R, R)


def angle_contract():
    def post(c):
        m, r = c.this, c.arg(0)
        t, c2 = TAN(c.ret), COS(c.ret)
        return [("inside a quarter turn", Imp(And(r > m.m_rearToCenter, m.m_rearToCenter >= 0), And(c.ret > 0, c.ret < PI / 2))),
                ("steering by it drives a circle of that radius", Imp(And(r > m.m_rearToCenter, m.m_rearToCenter >= 0), t * t * (r * r - m.m_rearToCenter * m.m_rearToCenter) == m.m_wheelbase * m.m_wheelbase)),
                ("at the rear axle that radius is wheelbase over tangent", Imp(And(r > 0, m.m_rearToCenter == 0), And(c2 > 0, SIN(c.ret) > 0, t * r == m.m_wheelbase))),
                ("a radius that cannot be driven gives the largest angle", Imp(r < m.m_rearToCenter, c.ret == PI / 2))]
    return Contract(BIKE + "GetSteeringAngleFromTurningRadius", result=lambda c: ANGLE(c.arg(0), c.this.m_rearToCenter, c.this.m_wheelbase), note="deterministic: reads nothing but the model and the radius", requires=lambda c: wheels(c.this), ensures=post)


SP = "Planner::HybridAStar::StatePropagator::"
STEER = "Planner::PathConstantSteer"
OK = z3.Function("validator_accepts", R, R, R, R, R, I, B)
LAST = z3.Function("last_accepted_ratio", R, R, R, R, R, I, R)
VORO = z3.Function("voronoi_cost", R, R, R, R, R, I, R)
MOTION = lambda p: (p.m_init.position.x, p.m_init.position.y, p.m_init.theta, p.m_length, p.m_steering, p.m_direction)


def limit(c):
    p = c.this.m_param
    return ANGLE(p.minTurningRadius, z3.RealVal(0), p.wheelbase)


def ctor_contract():
    def local_int(c):
        for n, key in reversed(c.frame.order):
            v = c.st.store.get(key)
            if z3.is_expr(v) and v.sort() == I:
                return v
        raise AttachError("no counter")

    def offers(c, neg=False, lim=None):
        d = c.this.m_deltas
        return ex_int(0, d.len, lambda j: (at(d, j) < 0 if neg else at(d, j) > 0))

    def inside(c):
        d, m = c.this.m_deltas, limit(c)
        return And(d.len >= 1, at(d, 0) == 0, all_int(0, d.len, lambda j: And(at(d, j) <= m, -m <= at(d, j))))

    def inv(c):
        i = local_int(c)
        return [("no steering beyond the largest angle", inside(c)),
                ("the count", And(i >= 0, 2 * i <= c.arg(0).numGeneratedMotion)),
                ("a turn to the left", Imp(i >= 1, offers(c))), ("a turn to the right", Imp(i >= 1, offers(c, True)))]
    def post(c):
        p, d = c.this.m_param, c.this.m_deltas
        lim = limit(c)
        return [("straight motion is offered", ex_int(0, d.len, lambda j: at(d, j) == 0)),
                ("a left turn is offered", Imp(p.numGeneratedMotion >= 2, offers(c))),
                ("a right turn is offered", Imp(p.numGeneratedMotion >= 2, offers(c, True))),
                ("no steering is larger than the angle of the minimum turning radius", all_int(0, d.len, lambda j: And(at(d, j) <= lim, -lim <= at(d, j)))),
                ("that angle drives the minimum turning radius", And(lim > 0, lim < PI / 2, TAN(lim) * p.minTurningRadius == p.wheelbase))]
    return Contract(SP + "StatePropagator", nparams=1, requires=lambda c: [("sensible parameters", And(c.arg(0).minTurningRadius > 0, c.arg(0).wheelbase > 0))],
                    ensures=post, loops=[Loop(inv, variant=lambda c: c.arg(0).numGeneratedMotion - local_int(c))])


def state_pose(s):
    return s.continuousPose


def samepose(a, b):
    return And(a.position.x == b.position.x, a.position.y == b.position.y, a.theta == b.theta)


def pathobj(c, lv):
    return c.deref(lv, STEER)


def child_contracts():
    valid = Contract("Planner::StateValidatorOccupancyMap::IsPathValid", nparams=2, assumed=True, note="what C13 proves of the validator: it accepts the path or reports an accepted ratio",
                     modifies=lambda c: [c.arglv(1).lv],
                     ensures=lambda c: [("verdict", And(c.ret == OK(*MOTION(c.deref(c.arglv(0).ref, STEER))), c.deref(c.arglv(1)) == LAST(*MOTION(c.deref(c.arglv(0).ref, STEER))), 0 <= c.deref(c.arglv(1)), c.deref(c.arglv(1)) <= 1))])
    voro = Contract(SP + "GetVoronoiCost", result=lambda c: VORO(*MOTION(c.deref(c.arglv(0).ref, STEER))), ensures=lambda c: [("never negative", c.ret >= 0)])
    return valid, voro


def ready(c):
    """What the propagator's constructor and Initialize establish."""
    p = c.this
    alive = lambda r: And(r > 0, r < c.st.alloc)
    return [("an initialised propagator", And(alive(p.m_model), alive(p.m_validator), c.deref(p.m_model, "Planner::KinematicBicycleModel").m_wheelbase > 0,
                                              p.m_param.spatialResolution > 0, p.m_param.voronoiCostMultiplier >= 0))]


def child_contract():
    def post(c):
        s, delta, d = c.old.arg(0), c.arg(1), c.arg(2)
        m = c.deref(c.arg(4).path, STEER)
        p = c.this.m_param
        full = p.spatialResolution * z3.RealVal("3/2")
        start = (state_pose(s).position.x, state_pose(s).position.y, state_pose(s).theta, full, delta, d)
        ok = OK(*start)
        mult = z3.If(d == 0, p.forwardCostMultiplier, z3.If(d == 1, p.reverseCostMultiplier, z3.RealVal(0)))
        switch = z3.If(Or(s.direction == 2, s.direction == d), z3.RealVal(0), p.directionSwitchingCost)
        return [("the motion starts at the state with that steering and direction", Imp(c.ret, And(samepose(m.m_init, state_pose(s)), m.m_steering == delta, m.m_direction == d))),
                ("it is the motion the validator accepted, or its accepted part", Imp(c.ret, m.m_length == z3.If(ok, full, full * LAST(*start)))),
                ("it is offered whenever the validator accepts it", Imp(ok, c.ret)),
                ("the motion is an object of its own", Imp(c.ret, And(c.arg(4).path >= c.old.st.alloc, c.arg(4).path < c.st.alloc, c.arg(4).path > 0))),
                ("the child is the end of the motion", Imp(c.ret, And(samepose(state_pose(c.arg(3)), m.m_final), c.arg(3).direction == d))),
                ("it costs its length, the switch and the Voronoi cost", Imp(c.ret, c.arg(5) == mult * m.m_length + switch + VORO(*MOTION(m)))),
                ("costs are not negative", Imp(And(c.ret, p.forwardCostMultiplier >= 0, p.reverseCostMultiplier >= 0, p.directionSwitchingCost >= 0), c.arg(5) >= 0))]
    return Contract(SP + "GetConstantSteerChild", requires=ready, ensures=post, allocates=(STEER,),
                    modifies=lambda c: [c.arglv(3), c.arglv(4), c.arglv(5)])


def group_child():
    ex = verifier("hybrid.cpp")
    ex.add(wrap_real())
    ex.add(steer_contract())
    for k in child_contracts():
        ex.add(k)
    ex.verify(child_contract())
    return ex


RSP = z3.Function("is_reeds_shepp_motion", I, B)


def neighbours_contract():
    fair = lambda p: And(p.forwardCostMultiplier >= 0, p.reverseCostMultiplier >= 0, p.directionSwitchingCost >= 0)

    def offered(c, nb, upto, s):
        d, p = c.this.m_deltas, c.this.m_param
        full = p.spatialResolution * z3.RealVal("3/2")
        m = lambda i: c.deref(at(nb, i).f["1"].path, STEER)
        pose = state_pose(s)
        acc = lambda j, dr: OK(pose.position.x, pose.position.y, pose.theta, full, at(d, j), z3.IntVal(dr))
        i = fresh_int()
        return [("every motion steers by one of the generated angles or is a Reeds-Shepp path", all_int(0, nb.len, lambda i: And(at(nb, i).f["1"].path > 0, at(nb, i).f["1"].path < c.st.alloc,
                    Or(RSP(at(nb, i).f["1"].path), And(samepose(m(i).m_init, pose), ex_int(0, d.len, lambda j: m(i).m_steering == at(d, j))))))),
                ("no motion has a negative cost", Imp(fair(p), all_int(0, nb.len, lambda i: at(nb, i).f["2"] >= 0)))] + \
            [("every accepted motion %s is offered" % w, all_int(0, upto, lambda j: Imp(acc(j, dr), ex_int(0, nb.len, lambda i: And(at(nb, i).f["1"].path > 0, m(i).m_steering == at(d, j), m(i).m_direction == dr, m(i).m_length == full, samepose(m(i).m_init, pose)))))) for dr, w in ((0, "forward"), (1, "backward"))]

    def nbvar(c):
        return c.var("neighbors")
    return Contract(SP + "GetNeighborStates", requires=lambda c: ready(c) + [("a heuristic", And(c.this.m_heuristic > 0, c.this.m_heuristic < c.st.alloc))],
                    ensures=lambda c: offered(c, c.ret, c.this.m_deltas.len, c.old.arg(0)),
                    loops=[Loop(lambda c: [("a position", c.var("__pos") >= 0)] + offered(c, nbvar(c), c.var("__pos"), c.old.arg(0)), fresh_only=True)])


def group_neighbours():
    ex = verifier("hybrid.cpp")
    ex.add(child_contract())
    ex.add(Contract(SP + "GetReedsSheppChild", assumed=True, note="a validated Reeds-Shepp path with a non-negative cost: see the group on Reeds-Shepp children",
                    modifies=lambda c: [c.arglv(1), c.arglv(2), c.arglv(3)], allocates=("Planner::PathReedsShepp",),
                    ensures=lambda c: [("a motion of its own", Imp(c.ret, And(c.arg(2).path >= c.old.st.alloc, c.arg(2).path < c.st.alloc, RSP(c.arg(2).path), c.arg(3) >= 0)))]))
    ex.add(Contract("Planner::AStarHeuristic::GetHeuristicValue", assumed=True, note="any value"))
    ex.add(Contract("Planner::Random::SampleUniform", assumed=True, note="any value"))
    ex.verify(neighbours_contract())
    return ex


ACC = z3.Function("validator_accepts_object", I, B)
RSCOST = z3.Function("reeds_shepp_cost", I, R, R, R, R)


def group_rschild():
    ex = verifier("hybrid.cpp")
    RSC = "Planner::PathReedsShepp"
    ex.add(Contract("Planner::StateValidatorOccupancyMap::IsPathValid", nparams=2, assumed=True, note="the validator's verdict (C13)", result=lambda c: ACC(c.arglv(0).ref)))
    ex.add(Contract("Planner::ReedsShepp::Solver::GetOptimalPath", assumed=True, note="C06"))
    ex.add(Contract(RSC + "::Interpolate", assumed=True, note="C07"))
    ex.add(Contract(RSC + "::GetDirection", assumed=True, note="C07"))
    ex.add(Contract("Planner::Pose2::WrapTheta", nparams=0, assumed=True, note="C15"))
    ex.add(Contract("Planner::ReedsShepp::PathSegment::GetLength", assumed=True, note="C06"))
    ex.add(Contract(RSC + "::ComputeCost", assumed=True, note="the price of the path with these multipliers, C06", result=lambda c: RSCOST(c._this.ref, c.arg(0), c.arg(1), c.arg(2)), ensures=lambda c: [("not negative", Imp(And(c.arg(0) >= 0, c.arg(1) >= 0, c.arg(2) >= 0), c.ret >= 0))]))
    ex.add(Contract(SP + "GetVoronoiCost", result=lambda c: z3.Function("voronoi_of", I, R)(c.arglv(0).ref), ensures=lambda c: [("never negative", c.ret >= 0)]))

    def post(c):
        p = c.this.m_param
        path = c.arg(2).path
        m = c.deref(path, RSC)
        return [("only a path the validator accepted is offered", Imp(c.ret, ACC(path))),
                ("it is a path of its own from the state", Imp(c.ret, And(path >= c.old.st.alloc, path < c.st.alloc, samepose(m.m_init, state_pose(c.old.arg(0)))))),
                ("with the minimum turning radius", Imp(c.ret, m.m_minTurningRadius == p.minTurningRadius)),
                ("the child is its end", Imp(c.ret, samepose(state_pose(c.arg(1)), m.m_final))),
                ("it costs what the path costs plus the Voronoi cost", Imp(c.ret, c.arg(3) == RSCOST(path, p.directionSwitchingCost, p.reverseCostMultiplier, p.forwardCostMultiplier) + z3.Function("voronoi_of", I, R)(path))),
                ("costs are not negative", Imp(And(c.ret, p.forwardCostMultiplier >= 0, p.reverseCostMultiplier >= 0, p.directionSwitchingCost >= 0), c.arg(3) >= 0))]
    ex.verify(Contract(SP + "GetReedsSheppChild", requires=ready, ensures=post, modifies=lambda c: [c.arglv(1), c.arglv(2), c.arglv(3)], allocates=(RSC,)))
    return ex


def group_costs():
    ex = verifier("hybrid.cpp")
    for n in ("WorldPositionToGridCell", "IsInsideMap"):
        ex.add(Contract("Planner::OccupancyMap::" + n, assumed=True, note="proved in C11"))
    ex.add(Contract("Planner::GVD::GetPathCost", assumed=True, note="between 0 and 1, proved in C12", ensures=lambda c: [("a potential", And(0 <= c.ret, c.ret <= 1))]))
    ex.add(Contract("Planner::Path::Interpolate", nparams=1, assumed=True, note="interface of a path, proved for the elementary paths in C07",
                    requires=lambda c: [("a ratio between 0 and 1", And(0 <= c.arg(0), c.arg(0) <= 1))]))
    reals = lambda c: [v for v in (c.st.store.get(k) for n, k in c.frame.order) if z3.is_expr(v) and v.sort() == R]
    ex.verify(Contract(SP + "GetVoronoiCost", requires=lambda c: [("initialised", And(c.this.m_voroFieldDiagResolution > 0, c.this.m_param.voronoiCostMultiplier >= 0, c.this.m_gvd > 0, c.this.m_occupancyMap > 0))],
                       ensures=lambda c: [("never negative", c.ret >= 0)],
                       loops=[Loop(lambda c: [("what is summed up is not negative", And(*[v >= 0 for v in reals(c) if not v.eq(c.arg(0).m_length)]))])]))
    return ex


def group_propagator():
    ex = verifier("hybrid.cpp")
    ex.add(angle_contract())
    ex.verify(ctor_contract())
    return ex


def groups():
    return [dict(name="bicycle model", run=group_model), dict(name="generated motions", run=group_propagator),
            dict(name="constant steering", run=group_child), dict(name="Voronoi cost", run=group_costs),
            dict(name="neighbours", run=group_neighbours),
            dict(name="Reeds-Shepp children", run=group_rschild)]
