from .util import *

HARNESS = "c07.cpp"
SECONDS = 5
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["a Reeds-Shepp segment has motions of finite non-negative length followed by invalid ones and states their total length, and the turning radius is positive (what PathSegment::AddMotion builds)"]

S = "PlannerSpec::"


def unit(*i):
    return lambda c: [("ratios between 0 and 1", And(*[And(0 <= c.arg(k), c.arg(k) <= 1) for k in i]))]


def same(a, b):
    return And(a.position.x == b.position.x, a.position.y == b.position.y, a.theta == b.theta)


def dist2(a, b):
    return (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y)


def lin(a, b, s):
    return a + s * (b - a)


def group_r2():
    ex = verifier("paths.cpp")
    def V_(n, post, req=None):
        ex.verify(Contract(S + n, requires=req or (lambda c: []), ensures=post))
    V_("R2At", lambda c: [("the point at that ratio of the segment", And(c.ret.x == lin(c.arg(0).x, c.arg(1).x, c.arg(2)), c.ret.y == lin(c.arg(0).y, c.arg(1).y, c.arg(2))))])
    V_("R2Cut", lambda c: [("agrees with the original path", And(c.ret.x == lin(c.arg(0).x, c.arg(1).x, c.arg(2) * c.arg(3)), c.ret.y == lin(c.arg(0).y, c.arg(1).y, c.arg(2) * c.arg(3))))])
    V_("R2Init", lambda c: [("the initial state is unchanged", And(c.ret.x == c.arg(0).x, c.ret.y == c.arg(0).y))])
    V_("R2Final", lambda c: [("the path ends at its goal", And(c.ret.x == c.arg(1).x, c.ret.y == c.arg(1).y))])
    V_("R2CutFinal", lambda c: [("the final state is the one that was at that ratio", And(c.ret.x == lin(c.arg(0).x, c.arg(1).x, c.arg(2)), c.ret.y == lin(c.arg(0).y, c.arg(1).y, c.arg(2))))])
    V_("R2Length", lambda c: [("the length is the distance", And(c.ret >= 0, c.ret * c.ret == dist2(c.arg(0), c.arg(1))))])
    V_("R2CutLength", lambda c: [("the length is scaled", And(c.ret >= 0, c.ret * c.ret == c.arg(2) * c.arg(2) * dist2(c.arg(0), c.arg(1))))], unit(2))
    return ex


def group_se2():
    ex = verifier("paths.cpp")
    def V_(n, post, req=None):
        ex.verify(Contract(S + n, requires=req or (lambda c: []), ensures=post))
    pos = lambda c, s: And(c.ret.position.x == lin(c.arg(0).position.x, c.arg(1).position.x, s), c.ret.position.y == lin(c.arg(0).position.y, c.arg(1).position.y, s))
    V_("SE2At", lambda c: [("the position at that ratio of the segment", pos(c, c.arg(2))), ("ratio 0 is the initial state", Imp(c.arg(2) == 0, same(c.ret, c.arg(0)))), ("ratio 1 is the final state", Imp(c.arg(2) == 1, same(c.ret, c.arg(1)))),
                           ("the heading stays between those of the ends", Imp(And(0 <= c.arg(2), c.arg(2) <= 1), And(Or(c.ret.theta >= c.arg(0).theta, c.ret.theta >= c.arg(1).theta), Or(c.ret.theta <= c.arg(0).theta, c.ret.theta <= c.arg(1).theta))))])
    V_("SE2Cut", lambda c: [("agrees with the original path", pos(c, c.arg(2) * c.arg(3)))])
    V_("SE2CutTheta", lambda c: [("the heading agrees with the original path", c.ret == 0)])
    V_("SE2Init", lambda c: [("the initial state is unchanged", same(c.ret, c.arg(0)))])
    V_("SE2Final", lambda c: [("the path ends at its goal", same(c.ret, c.arg(1)))])
    V_("SE2CutFinal", lambda c: [("the final state is the one that was at that ratio", c.ret)])
    V_("SE2Length", lambda c: [("the length is the distance", And(c.ret >= 0, c.ret * c.ret == dist2(c.arg(0).position, c.arg(1).position)))])
    V_("SE2CutLength", lambda c: [("the length is scaled", And(c.ret >= 0, c.ret * c.ret == c.arg(2) * c.arg(2) * dist2(c.arg(0).position, c.arg(1).position)))], unit(2))
    return ex


def direction_arg(i):
    return lambda c: [("a direction", And(c.arg(i) >= 0, c.arg(i) <= 2))]


def normal(t):
    return And(t >= -PI, t <= PI)


def steer_contract():
    """ConstantSteer is a function of its inputs; what it computes is C17's contract."""
    fs = {n: z3.Function("steered_" + n, R, R, R, R, R, R, R, I, R) for n in "xyt"}
    def res(c):
        f, m = c.arg(0), c.this
        a = [m.m_wheelbase, m.m_rearToCenter, f.position.x, f.position.y, f.theta, c.arg(1), c.arg(2), c.arg(3)]
        p = c.arg(0)
        return V({"position": V({"x": fs["x"](*a), "y": fs["y"](*a)}), "theta": fs["t"](*a)})
    def still(c):
        return And(c.arg(2) == 0, normal(c.arg(0).theta), c.this.m_wheelbase > 0)
    def hints(c):
        if c.calling:
            return []
        m, f = c.this, c.arg(0)
        t = TAN(c.arg(1))
        beta = ATAN(m.m_rearToCenter * t / m.m_wheelbase)
        cb = COS(beta)
        out = [("a slip angle inside a quarter turn", cb > 0)]
        return out + [("no distance, same " + n, Imp(still(c), g)) for n, g in (("heading", c.ret.theta == f.theta), ("x", c.ret.position.x == f.position.x), ("y", c.ret.position.y == f.position.y))]
    return Contract("Planner::KinematicBicycleModel::ConstantSteer", nparams=4, result=res, note="deterministic: reads nothing but the model, the pose and the motion", hints=hints,
                    ensures=lambda c: [("no distance, no motion", Imp(still(c), same(c.ret, c.arg(0))))])


def group_cs():
    ex = verifier("paths.cpp")
    con = steer_contract()
    from .C15 import wrap_real
    ex.add(wrap_real())
    ex.verify(con)
    ex.add(con)
    exists = lambda c: [("a model", c.arg(0) != 0)]
    def V_(n, post, req=None):
        ex.verify(Contract(S + n, requires=lambda c: exists(c) + ((req(c)) if req else []), ensures=post))
    V_("CSAt0", lambda c: [("ratio 0 is the initial state", Imp(And(normal(c.arg(1).theta), c.deref(c.arg(0), "Planner::KinematicBicycleModel").m_wheelbase > 0), same(c.ret, c.arg(1))))])
    V_("CSAt1", lambda c: [("ratio 1 is the final state", c.ret)])
    V_("CSCut", lambda c: [("the truncated path agrees with the original", c.ret)])
    V_("CSLength", lambda c: [("the stated length is the one travelled", c.ret == c.arg(3))])
    V_("CSCutLength", lambda c: [("the length is scaled", c.ret == c.arg(3) * c.arg(5))])
    V_("CSInit", lambda c: [("the path starts at the given pose", same(c.ret, c.arg(1)))])
    V_("CSDirection", lambda c: [("the direction is the given one", c.ret == c.arg(4))])
    return ex


N = 5


def motions(g):
    return [sel(g.m_motions, z3.IntVal(i)) if not isinstance(g.m_motions, V) else g.m_motions[str(i)] for i in range(N)]


def valid(m):
    return And(m.length != INF, m.direction != 2)


def segment_ok(g):
    ms = motions(g)
    out = [And(m.direction >= 0, m.direction <= 2, Imp(valid(m), And(m.steer >= 0, m.steer <= 2))) for m in ms]
    tot = z3.RealVal(0)
    for i, m in enumerate(ms):
        out.append(Imp(valid(m), And(m.length >= 0, m.length < INF)))
        if i:
            out.append(Imp(valid(m), valid(ms[i - 1])))
        tot = tot + z3.If(valid(m), m.length, z3.RealVal(0))
    out.append(g.m_length == tot)
    return And(*out)


def MOVE(start, R_, steer, dirn, l):
    fs = {n: z3.Function("moved_" + n, R, R, R, R, I, I, R, R) for n in "xyt"}
    a = [start.position.x, start.position.y, start.theta, R_, steer, dirn, l]
    return V({"position": V({"x": fs["x"](*a), "y": fs["y"](*a)}), "theta": fs["t"](*a)})


def move_contracts():
    mk = MOVE
    still = lambda li: (lambda c: [("no length, no motion", Imp(And(c.arg(li) == 0, normal(c.arg(0).theta)), same(c.ret, c.arg(0)))), ("normalised heading", normal(c.ret.theta))])
    st = Contract("Planner::PathReedsShepp::Straight", nparams=3, note="deterministic", ensures=still(2),
                  result=lambda c: mk(c.arg(0), c.this.m_minTurningRadius, z3.IntVal(1), c.arg(1), c.arg(2)))
    tu = Contract("Planner::PathReedsShepp::Turn", nparams=4, note="deterministic", ensures=still(3),
                  result=lambda c: mk(c.arg(0), c.this.m_minTurningRadius, c.arg(2), c.arg(1), c.arg(3)))
    return st, tu


def count_contract():
    def post(c):
        ms = motions(c.this)
        return [("the number of leading valid motions", And(c.ret >= 0, c.ret <= N, *[Imp(c.ret > i, valid(ms[i])) for i in range(N)], *[Imp(c.ret == i, Not(valid(ms[i]))) for i in range(N)]))]
    return Contract("Planner::ReedsShepp::PathSegment::GetNumMotions", ensures=post)


def path_ok(p):
    return And(segment_ok(p.m_pathSegment), p.m_minTurningRadius > 0, p.m_length == p.m_pathSegment.m_length * p.m_minTurningRadius, normal(p.m_init.theta))


def prefix(p, i):
    """Length of the first i motions."""
    return sum([m.length * p.m_minTurningRadius for m in motions(p.m_pathSegment)[:i]], z3.RealVal(0))


def reached(p, k, x):
    """Motion k is the one in force after travelling x."""
    ms = motions(p.m_pathSegment)
    return And(p.m_length > 0, valid(ms[k]), x <= prefix(p, k + 1), Or(x > prefix(p, k), And(*[m.length == 0 for m in ms[:k]])), ms[k].length > 0)


def start_of(p, k):
    """Pose at the start of motion k."""
    pose = p.m_init
    for m in motions(p.m_pathSegment)[:k]:
        nxt = MOVE(pose, p.m_minTurningRadius, m.steer, m.direction, m.length)
        pose = tmap(lambda a, b, m=m: z3.If(m.length == 0, a, b), pose, nxt)
    return pose


def at_distance(p, k, x):
    m = motions(p.m_pathSegment)[k]
    return MOVE(start_of(p, k), p.m_minTurningRadius, m.steer, m.direction, (x - prefix(p, k)) / p.m_minTurningRadius)


def rs_contracts():
    base = lambda c: [("a well-formed path", path_ok(c.this)), ("a ratio between 0 and 1", And(0 <= c.arg(0), c.arg(0) <= 1))]
    x = lambda c: c.arg(0) * c.old.this.m_length
    interp = Contract("Planner::PathReedsShepp::Interpolate", nparams=1, pred=lambda f: "vector" not in f.fntype, requires=base,
                      ensures=lambda c: [("a path without length stays at its initial state", Imp(c.this.m_length == 0, same(c.ret, c.this.m_init))),
                                         ("ratio 0 is the initial state", Imp(c.arg(0) == 0, same(c.ret, c.this.m_init)))] +
                      [("the pose at the travelled distance, on motion %d" % k, Imp(reached(c.this, k, x(c)), same(c.ret, at_distance(c.this, k, x(c))))) for k in range(N)])
    def cut(c):
        o, p = c.old.this, c.this
        mo, mp = motions(o.m_pathSegment), motions(p.m_pathSegment)
        eqm = lambda a, b: And(a.steer == b.steer, a.direction == b.direction, a.length == b.length)
        out = [("the initial state and the radius are unchanged", And(same(o.m_init, p.m_init), o.m_minTurningRadius == p.m_minTurningRadius)),
               ("the length is scaled", p.m_length == c.arg(0) * o.m_length),
               ("the path stays well formed", path_ok(p)),
               ("without length the end is the start", Imp(o.m_length == 0, And(same(p.m_final, p.m_init), *[eqm(a, b) for a, b in zip(mo, mp)])))]
        cuts, ends = [], []
        for k in range(N):
            cuts.append((Imp(reached(o, k, x(c)), And(*[eqm(mo[j], mp[j]) for j in range(k)],
                        mp[k].steer == mo[k].steer, mp[k].direction == mo[k].direction, mp[k].length * p.m_minTurningRadius == x(c) - prefix(o, k),
                        *[Not(valid(mp[j])) for j in range(k + 1, N)]))))
            ends.append(Imp(reached(o, k, x(c)), same(p.m_final, at_distance(o, k, x(c)))))
        return out + [("the motions before the cut are kept, the one it falls on is shortened, the others are gone", And(*cuts)), *[("the final state is the pose at the cut, on motion %d" % k, e) for k, e in enumerate(ends)]]
    trunc = Contract("Planner::PathReedsShepp::Truncate", requires=base, modifies=lambda c: [c._this], ensures=cut)
    dirn = Contract("Planner::PathReedsShepp::GetDirection", requires=base,
                    ensures=lambda c: [("no direction without length", Imp(c.this.m_length == 0, c.ret == 2))] +
                    [("the direction of the motion reached", And(*[Imp(reached(c.this, k, x(c)), Imp(x(c) > 0, c.ret == motions(c.this.m_pathSegment)[k].direction)) for k in range(N)]))])
    return interp, trunc, dirn


def group_rs_cut():
    ex = verifier("paths.cpp")
    st, tu = move_contracts()
    from .C15 import wrap_real
    ex.add(wrap_real(), st, tu)
    cons = rs_contracts()
    ex.split_paths = 40
    for c in cons:
        ex.verify(c)
    ex.split_paths = 8
    ex.add(*cons)
    def ok(*ratios):
        return lambda c: [("a well-formed segment", segment_ok(c.arg(1))), ("positive radius", c.arg(2) > 0), ("normalised heading", normal(c.arg(0).theta))] + unit(*ratios)(c)
    def V_(n, post, req):
        ex.verify(Contract(S + n, requires=req, ensures=post))
    # case split over the motion that is cut (k) and the motion the query falls on (j)
    def path(c):
        return V({"m_pathSegment": c.arg(1), "m_minTurningRadius": c.arg(2), "m_length": c.arg(1).m_length * c.arg(2), "m_init": c.arg(0)})
    def case(k, j):
        return lambda c: ok(3, 4)(c) + [("after the start", And(c.arg(3) > 0, c.arg(4) > 0)), ("cut in motion %d, queried on motion %d" % (k, j),
            And(reached(path(c), k, c.arg(3) * path(c).m_length), reached(path(c), j, c.arg(4) * c.arg(3) * path(c).m_length)))]
    for k in range(N):
        for j in range(k + 1):
            V_("RSCutDirection", lambda c: [("directions agree with the original path", c.ret)], case(k, j))
            V_("RSCut", lambda c: [("the truncated path agrees with the original", c.ret)], case(k, j))
    V_("RSCut", lambda c: [("the truncated path agrees with the original at its start", c.ret)], lambda c: ok(3, 4)(c) + [("degenerate", Or(c.arg(3) == 0, c.arg(4) == 0, c.arg(1).m_length == 0))])
    g = ex.fresh(ex.ty.parse("Planner::ReedsShepp::PathSegment"), "g")
    r, rad = fresh_real(), fresh_real()
    p = V({"m_pathSegment": g, "m_minTurningRadius": rad, "m_length": g.m_length * rad, "m_init": None})
    for n, hyp, x in (("cut", [], r * p.m_length),):
        ex.lemma("every travelled distance falls on a motion", [segment_ok(g), rad > 0, g.m_length > 0, r > 0, r <= 1], Or(*[reached(p, k, x) for k in range(N)]))
    y = fresh_real()
    ex.lemma("a place before the cut falls on the motion cut or an earlier one", [segment_ok(g), rad > 0, g.m_length > 0, y <= r],
             And(*[Not(And(reached(p, k, r), reached(p, j, y))) for k in range(N) for j in range(k + 1, N)]))
    return ex


def group_rs():
    ex = verifier("paths.cpp")
    st, tu = move_contracts()
    from .C15 import wrap_real
    ex.add(wrap_real())
    ex.verify(st)
    ex.verify(tu)
    ex.add(st, tu)
    def ok(*ratios):
        return lambda c: [("a well-formed segment", segment_ok(c.arg(1))), ("positive radius", c.arg(2) > 0), ("normalised heading", normal(c.arg(0).theta))] + unit(*ratios)(c)
    def V_(n, post, req):
        ex.verify(Contract(S + n, requires=req, ensures=post))
    V_("RSAt", lambda c: [("ratio 0 is the initial state", Imp(c.arg(3) == 0, same(c.ret, c.arg(0))))], ok(3))
    V_("RSAt1", lambda c: [("ratio 1 is the final state", c.ret)], ok())
    V_("RSLength", lambda c: [("the length is the total length of the motions times the turning radius", c.ret == c.arg(1).m_length * c.arg(2))], ok())
    V_("RSCutLength", lambda c: [("the length is scaled", c.ret == c.arg(3) * c.arg(1).m_length * c.arg(2))], ok(3))
    V_("RSCutEnds", lambda c: [("the truncated path has the ends it should", c.ret)], ok(3))
    def cum(c, i):
        return sum([motions(c.arg(1))[k].length for k in range(i + 1)], z3.RealVal(0)) * c.arg(2)
    def dirpost(c):
        ms = motions(c.arg(1))
        x = c.arg(3) * c.arg(1).m_length * c.arg(2)
        return [("the direction is that of the motion reached at this distance", And(*[Imp(And(valid(ms[i]), c.arg(1).m_length > 0, x <= cum(c, i), *([x > cum(c, i - 1)] if i else [])), c.ret == ms[i].direction) for i in range(N)]))]
    V_("RSDirection", dirpost, ok(3))
    def cusps(c):
        ms, g = motions(c.arg(1)), c.arg(1)
        r = fresh_real()
        norm = lambda i: sum([m.length for m in ms[:i]], z3.RealVal(0))
        change = lambda i: And(valid(ms[i]), ms[i].direction != ms[i - 1].direction)
        has = lambda x: sel(c.ret.f["has"], x)
        rad, full = c.arg(2), g.m_length * c.arg(2)
        at_ = lambda i: sum([m.length * rad for m in ms[:i]], z3.RealVal(0))
        return [("change of direction %d is reported at its place" % i, Imp(And(g.m_length > 0, change(i)), has(at_(i) / full))) for i in range(1, N)] + \
               [("only changes of direction are reported", z3.ForAll([r], Imp(has(r), Or(*[And(change(i), r == at_(i) / full) for i in range(1, N)]))))]
    ex.split_paths = 40
    n = count_contract()
    ex.verify(n)
    ex.add(n)
    for k in range(N + 1):
        V_("RSCusps", cusps, lambda c: ok()(c) + [("exactly %d motions" % k, And(*[valid(m) for m in motions(c.arg(1))[:k]], *[Not(valid(m)) for m in motions(c.arg(1))[k:]]))])
    return ex


def groups():
    return [dict(name="straight lines", run=group_r2), dict(name="planar pose lines", run=group_se2), dict(name="constant steering", run=group_cs), dict(name="Reeds-Shepp paths", run=group_rs), dict(name="Reeds-Shepp truncation", run=group_rs_cut)]
