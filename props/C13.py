from .util import *
from .C15 import wrap_real, samedir, normal
from .C11 import mapinv, local_cell, in_grid

HARNESS = "c13.cpp"
SECONDS = 6
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["a path is a fixed function from ratios to states (interface of Path, proved for the elementary and composite paths in C07 and C08)",
               "the map and the validator's parameters do not change while a path is checked"]
VAL = "Planner::StateValidatorOccupancyMap::"
MAP = "Planner::OccupancyMap"


def within(sp, st):
    lo, hi = sp.bounds["0"], sp.bounds["1"]
    return And(*[And(l <= v, v <= u) for l, v, u in ((lo.position.x, st.position.x, hi.position.x), (lo.position.y, st.position.y, hi.position.y), (lo.theta, st.theta, hi.theta))])


def space(c, m):
    return c.deref(m.m_stateSpace, "Planner::StateSpaceSE2")


INB = z3.Function("within_bounds", I, R, R, R, B)


def bounds_contract(name, assumed):
    return Contract(name, assumed=assumed, note="discharged for the planar pose space by the group on bounds (and in C14)" if assumed else "",
                    ensures=lambda c: [("each coordinate lies within its bounds", c.ret == within(c.this, c.arg(0)))])


def group_bounds():
    ex = verifier("validator.cpp")
    ex.verify(bounds_contract("Planner::StateSpaceSE2::ValidateBounds", False))
    return ex


DIST = z3.Function("cell_clearance", I, I, R)


def alive(c, r):
    return And(r > 0, r < c.st.alloc)


def group_state():
    ex = verifier("validator.cpp")
    ex.add(wrap_real())
    ex.add(bounds_contract("Planner::StateSpace::ValidateBounds", True))

    def req(c):
        m = c.deref(c.this.m_map, MAP)
        d = c.deref(m.m_obstacleDistanceMap, "Planner::GVD::ObstacleDistanceMap")
        return [("a map and a state space", And(alive(c, c.this.m_map), alive(c, c.this.m_stateSpace), alive(c, m.m_obstacleDistanceMap), mapinv(m))),
                ("the distance map has the size of the map", And(d.m_distance.rows == m.m_rows, d.m_distance.columns == m.m_columns, forall(2, lambda i, j: z3.Select(z3.Select(d.m_distance.cells, i), j) >= 0)))]

    def post(c):
        m = c.deref(c.this.m_map, MAP)
        sp = space(c, c.this)
        d = c.deref(m.m_obstacleDistanceMap, "Planner::GVD::ObstacleDistanceMap")
        s = c.arg(0)
        i, j = fresh_int(), fresh_int()
        lx, ly = s.position.x - m.m_localOrigin.x, s.position.y - m.m_localOrigin.y
        w = c.ret
        lo, hi = sp.bounds["0"], sp.bounds["1"]
        inb = And(lo.position.x <= lx, lx <= hi.position.x, lo.position.y <= ly, ly <= hi.position.y)
        t = s.theta
        head = z3.If(normal(t), And(lo.theta <= t, t <= hi.theta), z3.BoolVal(True))
        cellv = lambda i, j: z3.Select(z3.Select(d.m_distance.cells, i), j)
        return [("an accepted state lies within the bounds", Imp(w, And(inb, head))),
                ("an accepted state lies on the map, where the obstacle distance is at least the safety radius",
                 z3.ForAll([i, j], Imp(And(w, local_cell(m, lx, ly, i, j)), And(in_grid(m, i, j), SQRT(z3.ToReal(cellv(i, j))) * d.resolution >= c.this.minSafeRadius)))),
                ("such a state is accepted", z3.ForAll([i, j], Imp(And(normal(t), inb, head, local_cell(m, lx, ly, i, j), in_grid(m, i, j), SQRT(z3.ToReal(cellv(i, j))) * d.resolution >= c.this.minSafeRadius), w)))]
    ex.verify(Contract(VAL + "IsStateValid", requires=req, ensures=post))
    return ex


ACC = z3.Function("accepted", R, R, R, B)
AT = {k: z3.Function("path_at_" + k, I, R, R) for k in "xyt"}


def group_path():
    ex = verifier("validator.cpp")
    CELL = {k: z3.Function("cell_" + k, R, R, I) for k in ("row", "col")}
    ex.add(Contract(VAL + "IsStateValid", assumed=True, note="proved in the group on states", result=lambda c: ACC(c.arg(0).position.x, c.arg(0).position.y, c.arg(0).theta)))
    ex.add(Contract(MAP + "::WorldPositionToGridCell", nparams=2, assumed=True, note="C11", result=lambda c: V({k: CELL[k](c.arg(0).x, c.arg(0).y) for k in ("row", "col")})))
    ex.add(Contract("Planner::GVD::ObstacleDistanceMap::GetDistanceToNearestObstacle", nparams=1, assumed=True, note="reads the cell's distance; C12", result=lambda c: DIST(c.arg(0).row, c.arg(0).col)))

    def travelled(c, ref, L, ratio):
        # the distance travelled at that ratio; length/L*L is length
        if z3.is_app_of(ratio, z3.Z3_OP_DIV) and ratio.arg(1).eq(L):
            return z3.If(L == 0, z3.RealVal(0), ratio.arg(0))
        return ratio * L

    def pose(ref, x):
        return V({"position": V({"x": AT["x"](ref, x), "y": AT["y"](ref, x)}), "theta": AT["t"](ref, x)})
    ex.add(Contract("Planner::Path::Interpolate", nparams=1, pred=lambda f: "vector" not in f.fntype, assumed=True, note="the state of the path after that distance",
                    result=lambda c: pose(z3.IntVal(0), travelled(c, None, c.this.m_length, c.arg(0))),
                    requires=lambda c: [("a ratio between 0 and 1", Imp(c.this.m_length > 0, And(0 <= c.arg(0), c.arg(0) <= 1)))]))
    X = z3.Real("any_distance")

    def acc(ref, s):
        return ACC(AT["x"](ref, s), AT["y"](ref, s), AT["t"](ref, s))

    def mx(a, b): return z3.If(a >= b, a, b)
    def mn(a, b): return z3.If(a <= b, a, b)

    def step(c, ref, s):
        v = c.this
        m = c.deref(v.m_map, MAP)
        x, y = AT["x"](ref, s), AT["y"](ref, s)
        lo, hi = space(c, v).bounds["0"].position, space(c, v).bounds["1"].position
        lx, ly = x - m.m_localOrigin.x, y - m.m_localOrigin.y
        border = mn(mn(lx - lo.x, hi.x - lx), mn(ly - lo.y, hi.y - ly))
        clear = DIST(CELL["row"](x, y), CELL["col"](x, y)) - v.minSafeRadius
        return mx(v.minPathInterpolationDistance, mn(clear, border))

    def pref(c):
        return z3.IntVal(0)          # the path under check

    def covered(c, upto):
        ref = pref(c)
        s = fresh_real()
        return Imp(And(0 <= X, X < upto), z3.Exists([s], And(0 <= s, s <= X, acc(ref, s), X < s + step(c, ref, s)), patterns=[AT["x"](ref, s)]))

    def inv(c):
        ref = pref(c)
        ln, lv = c.var("length"), c.var("lastValidLength")
        L = c.arg(0).m_length
        return [("distances", And(0 <= lv, lv <= ln, L > 0)),
                ("the last sample was accepted and the next one is within its clearance", Or(And(lv == 0, ln == 0), And(acc(ref, lv), lv < L, ln == lv + step(c, ref, lv)))),
                ("the start was accepted", Or(ln == 0, acc(ref, z3.RealVal(0)))),
                ("no stretch so far is unsampled for longer than allowed", covered(c, ln))]

    def post(c):
        ref = pref(c)
        p = c.arg(0)
        L = p.m_length
        last = c.arglv(1)
        given = Not(last.null)
        r = c.deref(last)
        d = z3.Real("reported")
        fin = ACC(p.m_final.position.x, p.m_final.position.y, p.m_final.theta)
        ini = ACC(p.m_init.position.x, p.m_init.position.y, p.m_init.theta)
        return [("an accepted path ends at an accepted state", Imp(And(c.ret, L > 0), fin)),
                ("an accepted path starts at an accepted state", Imp(And(c.ret, L > 0), acc(ref, z3.RealVal(0)))),
                ("a path without length is accepted iff its state is", Imp(L == 0, c.ret == ini)),
                ("no stretch of an accepted path is unsampled for longer than allowed", Imp(And(c.ret, L > 0), covered(c, L))),
                ("the reported ratio of an accepted path is 1", Imp(And(c.ret, given), r == 1)),
                ("the reported ratio is between 0 and 1", Imp(given, And(0 <= r, r <= 1))),
                ("on rejection the reported place is an accepted state, or the start", Imp(And(Not(c.ret), given, L > 0), Or(r == 0, z3.Exists([d], And(d == r * L, acc(ref, d)))))),
                ("on rejection everything before the reported place was covered", Imp(And(Not(c.ret), given, L > 0), covered(c, r * L))),
                ("on rejection the state after the reported place is rejected", Imp(And(Not(c.ret), given, L > 0), Or(Not(fin), Not(acc(ref, z3.RealVal(0))), z3.Exists([d], And(d == r * L, Not(acc(ref, d + step(c, ref, d))))))))]
    def req(c):
        m = c.deref(c.this.m_map, MAP)
        return [("a map and a state space", And(alive(c, c.this.m_map), alive(c, c.this.m_stateSpace), alive(c, m.m_obstacleDistanceMap))),
                ("a positive minimum step", c.this.minPathInterpolationDistance > 0), ("a path has no negative length", c.arg(0).m_length >= 0)]
    ex.verify(Contract(VAL + "IsPathValid", nparams=2, pred=lambda f: "float" in f.fntype, requires=req, ensures=post, modifies=lambda c: [c.arglv(1).lv], loops=[Loop(inv)]))
    return ex


def group_free():
    ex = verifier("validator.cpp")
    ex.add(bounds_contract("Planner::StateSpace::ValidateBounds", True))
    ex.verify(Contract("Planner::StateValidatorFree::IsStateValid", requires=lambda c: [("a state space", alive(c, c.this.m_stateSpace))],
                       ensures=lambda c: [("accepted iff within the bounds", c.ret == within(c.deref(c.this.m_stateSpace, "Planner::StateSpaceSE2"), c.arg(0)))]))
    verdict, ratio = z3.Bool("verdict"), z3.Real("last_ratio")
    ex.add(Contract("Planner::StateValidator::IsPathValid", nparams=2, pred=lambda f: "float" in f.fntype, assumed=True, note="interface, discharged by the group on paths",
                    modifies=lambda c: [c.arglv(1).lv], result=lambda c: verdict, ensures=lambda c: [("the ratio", And(c.deref(c.arglv(1)) == ratio, 0 <= ratio, ratio <= 1))]))
    ex.add(Contract("Planner::Path::Interpolate", nparams=1, pred=lambda f: "vector" not in f.fntype, assumed=True, note="the state of the path at that ratio",
                    result=lambda c: V({"position": V({k: AT[k](z3.IntVal(0), c.arg(0)) for k in "xy"}), "theta": AT["t"](z3.IntVal(0), c.arg(0))}),
                    requires=lambda c: [("a ratio between 0 and 1", And(0 <= c.arg(0), c.arg(0) <= 1))]))

    def post(c):
        last = c.arg(1)
        s = c.deref(last, "Planner::Pose2<double>")
        z = z3.IntVal(0)
        return [("the verdict is that of the ratio", c.ret == verdict),
                ("the reported state is the one at the reported ratio", Imp(last != 0, And(s.position.x == AT["x"](z, ratio), s.position.y == AT["y"](z, ratio), s.theta == AT["t"](z, ratio))))]
    ex.verify(Contract("Planner::StateValidator::IsPathValid", nparams=2, pred=lambda f: "float" not in f.fntype, ensures=post, noframe=True))
    return ex


def groups():
    return [dict(name="bounds", run=group_bounds), dict(name="states", run=group_state), dict(name="paths", run=group_path), dict(name="free validator", run=group_free)]
