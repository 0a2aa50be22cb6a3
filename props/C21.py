from .util import *
from .C05 import nb_pos, inside, adj, VALID, DIAG, EQ, NE, GETNB, OCC, occ_contract
from .C15 import wrap_real, normal
from .C11 import mapinv, local_cell, in_grid

HARNESS = "c21.cpp"
SECONDS = 10
OPT = "-O2"
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["the occupancy of the map does not change while the table of costs is computed, and the map keeps the size it had when the heuristic was made",
               "the table stores the costs in single precision; the proof computes with real numbers",
               "the Reeds-Shepp costs stored in the table of the obstacle-free heuristic are C06's"]
OH, NH = "Planner::ObstaclesHeuristic", "Planner::NonHolonomicHeuristic"
FR = "Planner::Frontier<Planner::GridCell<float>, Planner::ObstaclesHeuristic::CompareCell, Planner::ObstaclesHeuristic::HashCell, Planner::ObstaclesHeuristic::EqualCell, std::vector<Planner::GridCell<float>>>"
AH = "Planner::AStarHeuristic<int>"
WRAP = z3.Function("wrapped_heading", R, R)
MAP = "Planner::OccupancyMap"
NOTHROW = dict(may_throw=lambda c: z3.BoolVal(False))

# ---- combination and adaptation -------------------------------------------------------------------------------
VALUE = z3.Function("value_of_member", I, I, I, R)      # heuristic, its goal, state


def goal_of(c, h): return c.deref(h, AH).goal


def members():
    r = lambda c: c._this.ref
    g = lambda c: c.ex.heap_of(c.st, AH).f["goal"]
    return [Contract(AH + "::GetHeuristicValue", assumed=True, heap_this=True, result=lambda c: VALUE(r(c), goal_of(c, r(c)), c.arg(0)), note="any function of the heuristic, its goal and the state"),
            Contract(AH + "::SetGoal", assumed=True, heap_this=True, modifies=lambda c: [("heap", AH, "goal")],
                     ensures=lambda c: [("its goal is set", goal_of(c, r(c)) == c.arg(0)), ("no other", forall(1, lambda h: Imp(h != r(c), sel(g(c), h) == sel(g(c.old), h))))],
                     note="sets the goal of this heuristic (the concrete ones are in the group on functions)")]


def astar():
    ex = verifier("astar.cpp")
    ex.ghost_fields = {AH: {"goal": I}}
    ex.add(*members())
    return ex


def group_combined():
    ex = astar()
    CH = "Planner::AStarCombinedHeuristic<int>"
    hs = lambda c: c.this.m_heuristics
    val = lambda c, i: VALUE(at(hs(c), i), goal_of(c, at(hs(c), i)), c.arg(0))
    some = lambda c: [("members", all_int(0, hs(c).len, lambda i: And(at(hs(c), i) > 0, at(hs(c), i) < c.st.alloc)))]

    def vinv(c):
        p, v = loop_index(c), c.var("value")
        return [("range", And(0 <= p, p <= hs(c).len)), ("no member is larger", all_int(0, p, lambda i: val(c, i) <= v)),
                ("one of them, or the start value", z3.If(p == 0, v == -INF, Or(v == -INF, ex_int(0, p, lambda i: v == val(c, i)))))]
    ex.verify(Contract(CH + "::GetHeuristicValue", requires=lambda c: some(c) + [("finite values", all_int(0, hs(c).len, lambda i: val(c, i) > -INF))],
                       ensures=lambda c: [("no member is larger", all_int(0, hs(c).len, lambda i: val(c, i) <= c.ret)),
                                          ("the value of a member", Imp(hs(c).len > 0, ex_int(0, hs(c).len, lambda i: c.ret == val(c, i)))),
                                          ("without members: minus infinity", Imp(hs(c).len == 0, c.ret == -INF))],
                       loops=[Loop(vinv, variant=lambda c: hs(c).len - loop_index(c))]))
    mine = lambda c, n, h: ex_int(0, n, lambda i: at(hs(c), i) == h)
    def ginv(c):
        p = loop_index(c)
        return [("range", And(0 <= p, p <= hs(c).len)), ("so far", all_int(0, p, lambda i: goal_of(c, at(hs(c), i)) == c.arg(0))),
                ("other heuristics keep their goal", forall(1, lambda h: Imp(Not(mine(c, hs(c).len, h)), goal_of(c, h) == goal_of(c.old, h))))]
    ex.verify(Contract(CH + "::SetGoal", requires=some, modifies=lambda c: [("heap", AH, "goal")],
                       ensures=lambda c: [("the goal of every member is set", all_int(0, hs(c).len, lambda i: goal_of(c, at(hs(c), i)) == c.arg(0))),
                                          ("other heuristics keep their goal", forall(1, lambda h: Imp(Not(mine(c, hs(c).len, h)), goal_of(c, h) == goal_of(c.old, h))))],
                       loops=[Loop(ginv, variant=lambda c: hs(c).len - loop_index(c))]))
    ex.verify(Contract(CH + "::Add", nparams=1, modifies=lambda c: [Fld(c._this, "m_heuristics")],
                       ensures=lambda c: [("one more member", hs(c).len == hs(c.old).len + 1), ("the added one", at(hs(c), hs(c.old).len) == c.arg(0)),
                                          ("the others stay", all_int(0, hs(c.old).len, lambda i: at(hs(c), i) == at(hs(c.old), i)))]))
    return ex


def group_adapted():
    ex = astar()
    A = "Planner::AStarHeuristicAdapter<int, int, Project>"
    proj = lambda c, x: callfn([c.this.m_funcAdapter, x], I)
    ok = lambda c: [("a heuristic", And(c.this.m_heuristic > 0, c.this.m_heuristic < c.st.alloc))]
    ex.verify(Contract(A + "::GetHeuristicValue", requires=ok, ensures=lambda c: [("the adapted heuristic at the projected state", c.ret == VALUE(c.this.m_heuristic, goal_of(c, c.this.m_heuristic), proj(c, c.arg(0))))]))
    ex.verify(Contract(A + "::SetGoal", requires=ok, modifies=lambda c: [("heap", AH, "goal")],
                       ensures=lambda c: [("the projected goal is set", goal_of(c, c.this.m_heuristic) == proj(c, c.arg(0)))]))
    EST = lambda c, x, g: callfn([c.this.m_func, x, g], R)
    ex.verify(Contract("Planner::AStarConcreteHeuristic<int>::SetGoal", modifies=lambda c: [Fld(c._this, "m_goal")], ensures=lambda c: [("the goal is stored", c.this.m_goal == c.arg(0))]))
    ex.verify(Contract("Planner::AStarConcreteHeuristicFcn<int, Estimate>::GetHeuristicValue", ensures=lambda c: [("the function of state and goal, in this order", c.ret == EST(c, c.arg(0), c.this.m_goal))]))
    return ex


# ---- the table without obstacles ------------------------------------------------------------------------------
def table(h):
    """the lookup table has the stated dimensions"""
    v = h.m_values
    i, j = fresh_int("i"), fresh_int("j")
    nx, ny, na = h.numSpatialX, h.numSpatialY, h.numAngular
    return And(v.len == nx, all_int(0, nx, lambda i: And(at(v, i).len == ny, all_int(0, ny, lambda j: at(at(v, i), j).len == na))))


def sizes(h):
    """the number of headings covers the circle"""
    n = z3.ToReal(h.numAngular)
    return And(h.angularResolution > 0, h.spatialResolution > 0, h.numAngular >= 1, n * h.angularResolution >= 2 * PI, (n - 1) * h.angularResolution < 2 * PI)


def arrays(ex):
    r = Ty("real")
    v1 = Ty("vec", [r])
    v2 = Ty("vec", [v1])
    ex.ty.overrides = {r"double \*\*\*": Ty("vec", [v2]), r"double \*\*": v2}
    ex.ty.overrides[r"double \*"] = v1
    ex.ty.cache.clear()
    ex.ty.shape_cache.clear()


def group_table():
    ex = verifier("heuristics.cpp")
    arrays(ex)
    ex.add(wrap_real())

    def post(c):
        h = c.this
        dx, dy = h.m_goal.position.x - c.arg(0).position.x, h.m_goal.position.y - c.arg(0).position.y
        m = z3.If(h.reverseCostMultiplier < h.forwardCostMultiplier, h.reverseCostMultiplier, h.forwardCostMultiplier)
        re = z3.ToReal
        t, u = h.m_goal, c.arg(0)
        rx = COS(u.theta) * dx + SIN(u.theta) * dy
        ry = COS(u.theta) * dy - SIN(u.theta) * dx
        w = WRAP(t.theta - u.theta)
        a = z3.If(w < 0, w + 2 * PI, w)
        rnd = lambda x: z3.If(x >= 0, z3.ToInt(x + RealV("1/2")), -z3.ToInt(-x + RealV("1/2")))
        i, j, k = rnd((rx + h.offsetX) / h.spatialResolution), rnd((ry + h.offsetY) / h.spatialResolution), rnd(a / h.angularResolution)
        on = And(0 <= i, i < h.numSpatialX, 0 <= j, j < h.numSpatialY)
        return [("in the table: the entry nearest to the goal as seen from the state", Imp(on, c.ret == at(at(at(h.m_values, i), j), z3.If(k == h.numAngular, 0, k)))),
                ("outside the table: the straight-line distance at the lower price", Imp(Not(on), c.ret == m * SQRT(rx * rx + ry * ry)))]
    ex.verify(Contract(NH + "::GetHeuristicValue", requires=lambda c: [("the table has its stated size", table(c.this)), ("the headings cover the circle", sizes(c.this))], ensures=post))
    return ex



# ---- the obstacle heuristic -----------------------------------------------------------------------------------
def cells(g, r, c): return sel(g.cells, r, c)
def cost(h, r, c): return cells(h.m_cost, r, c)
def seen(h, r, c): return cells(h.m_explored, r, c)
def the_map(c): return c.deref(c.this.m_map, MAP)


def made(c):
    m = the_map(c)
    return [("the tables have the size of the map", And(c.this.m_map > 0, c.this.m_map < c.st.alloc, m.m_rows > 0, m.m_columns > 0, *[And(g.rows == m.m_rows, g.columns == m.m_columns) for g in (c.this.m_cost, c.this.m_explored)]))]


def in_map(c, r, k): return inside(r, k, the_map(c).m_rows, the_map(c).m_columns)
def occupied(c, r, k): return OCC(c.this.m_map, r, k)


def legal(c, r, k, r2, k2):
    """a move of the grid"""
    m = the_map(c)
    return And(adj(r, k, m.m_rows, m.m_columns, r2, k2), Not(occupied(c, r2, k2)), Not(And(r != r2, k != k2, occupied(c, r2, k), occupied(c, r, k2))))


def step(r, k, r2, k2): return z3.If(Or(r == r2, k == k2), z3.RealVal(1), SQRT(z3.RealVal(2)))


def where():
    def post(c):
        m, p, w = c.this, c.arg(0), c.ret
        lx, ly = p.x - m.m_localOrigin.x, p.y - m.m_localOrigin.y
        i, j = fresh_int(), fresh_int()
        return [("a cell of the grid or the invalid cell", Or(in_grid(m, w.row, w.col), And(w.row == -1, w.col == -1))), ("the same cell for the same position", And(w.row == CELL["row"](p.x, p.y), w.col == CELL["col"](p.x, p.y)))]
    return Contract(MAP + "::WorldPositionToGridCell", nparams=2, pred=lambda f: "Point" in (f.fntype or "") or "Matrix" in (f.fntype or ""), assumed=True, note="proved in C11: the cell that contains the position", ensures=post)


CELL = {k: z3.Function("cell_" + k, R, R, I) for k in ("row", "col")}


def obstacle_tu():
    ex = verifier("heuristics.cpp")
    ex.ty.keyfns = {r"EqualCell": ([I, I], lambda s, st, v: [v.position.row, v.position.col])}
    for k in (VALID, DIAG, EQ, NE, GETNB):
        k2 = Contract(k.name, nparams=k.nparams, pred=k.pred, requires=k.requires, ensures=k.ensures, assumed=True, note="proved in C05")
        ex.add(k2)
    ex.add(occ_contract(), where())
    return ex


def group_obstacle_value():
    ex = obstacle_tu()

    def post(c):
        h, p = c.this, c.arg(0).position
        r, k = CELL["row"](p.x, p.y), CELL["col"](p.x, p.y)
        dx, dy = h.m_goal.position.x - p.x, h.m_goal.position.y - p.y
        e = SQRT(dx * dx + dy * dy)
        v = cost(h, r, k) * h.costMultiplier - h.diagonalResolution
        return [("off the map or not reached: the straight-line distance", Imp(Or(r < 0, k < 0, Not(seen(h, r, k))), c.ret == e)),
                ("on a reached cell: its route less one diagonal, or the straight-line distance if that is larger", Imp(And(r >= 0, k >= 0, seen(h, r, k)), c.ret == z3.If(v > e, v, e)))]
    ex.verify(Contract(OH + "::GetHeuristicValue", requires=made, ensures=post))
    return ex


def has(f, r, k): return sel(f.m_set.f["has"], r, k)
def val(f, r, k): return sel(f.m_set.f["el"], r, k).value
def pos(e): return (e.position.row, e.position.col)


def keyed(f):
    r, k = fresh_int("r"), fresh_int("k")
    return [("found by position", z3.ForAll([r, k], Imp(has(f, r, k), And(sel(f.m_set.f["el"], r, k).position.row == r, sel(f.m_set.f["el"], r, k).position.col == k)))), ("size", f.m_vec.len >= 0),
            ("empty or not", (f.m_vec.len == 0) == z3.ForAll([r, k], Not(has(f, r, k))))]


def list_contracts():
    """the priority list (C01) with the order and the key of the grid search"""
    def same_but(c, r0, k0):
        f, w = c.this, c.old.this
        r, k = fresh_int("r"), fresh_int("k")
        return z3.ForAll([r, k], Imp(Or(r != r0, k != k0), And(has(f, r, k) == has(w, r, k), Imp(has(w, r, k), val(f, r, k) == val(w, r, k)))))
    key = lambda c: pos(c.old.arg(0))
    pre = lambda c: keyed(c.this)

    def push(c):
        return [("the element is found", And(has(c.this, *key(c)), val(c.this, *key(c)) == z3.If(has(c.old.this, *key(c)), val(c.old.this, *key(c)), c.old.arg(0).value))), ("the others are as before", same_but(c, *key(c)))] + keyed(c.this)

    def remove(c):
        return [("the key is gone", Not(has(c.this, *key(c)))), ("the others are as before", same_but(c, *key(c)))] + keyed(c.this)

    def pop(c):
        r, k, w = fresh_int("r"), fresh_int("k"), c.old.this
        return [("a cheapest element", And(has(w, *pos(c.ret)), val(w, *pos(c.ret)) == c.ret.value, z3.ForAll([r, k], Imp(has(w, r, k), c.ret.value <= val(w, r, k))))),
                ("it is gone", Not(has(c.this, *pos(c.ret)))), ("the others are as before", same_but(c, *pos(c.ret)))] + keyed(c.this)

    def handle(c):
        nm = "found:%s" % fresh_int("f")
        c.st.store[nm] = sel(c.this.m_set.f["el"], *pos(c.arg(0)))
        return Ptr(Var(nm), Not(has(c.this, *pos(c.arg(0)))))
    mod = dict(modifies=lambda c: [c._this])
    mk = lambda n, **kw: Contract(FR + "::" + n, assumed=True, note="proved in C01 for every order and key", **NOTHROW, **kw)
    return [mk("Push", requires=pre, ensures=push, **mod), mk("Remove", requires=pre, ensures=remove, **mod),
            mk("Pop", requires=lambda c: pre(c) + [("not empty", c.this.m_vec.len > 0)], ensures=pop, **mod),
            mk("Find", requires=pre, result=handle, ensures=lambda c: [("found iff present", c.ret.null == Not(has(c.this, *pos(c.arg(0)))))]),
            mk("Empty", requires=pre, ensures=lambda c: [("empty iff nothing is present", c.ret == (c.this.m_vec.len == 0))])]


def group_order():
    ex = verifier("heuristics.cpp")
    ex.add(EQ)
    ex.verify(Contract(OH + "::CompareCell::operator()", ensures=lambda c: [("ordered by falling cost: the cheapest is the last", c.ret == (c.arg(0).value > c.arg(1).value))]))
    ex.verify(Contract(OH + "::EqualCell::operator()", ensures=lambda c: [("the key is the position", c.ret == And(c.arg(0).position.row == c.arg(1).position.row, c.arg(0).position.col == c.arg(1).position.col))]))
    return ex


def group_update():
    ex = obstacle_tu()
    ex.add(*list_contracts())
    S0 = lambda c: [CELL[k](c.arg(0).position.x, c.arg(0).position.y) for k in ("row", "col")]

    def search(c, f, upto=None):
        h = c.this
        r, k, r2, k2 = [fresh_int(x) for x in ("r", "k", "u", "v")]
        s = S0(c)
        reached = lambda r, k: Or(seen(h, r, k), has(f, r, k))
        done = lambda r, k, r2, k2: And(reached(r2, k2), cost(h, r2, k2) <= cost(h, r, k) + step(r, k, r2, k2))
        apart = [] if upto is None else [Or(r != upto[0], k != upto[1])]
        out = keyed(f) + [("reached cells are free cells of the map, or the goal", z3.ForAll([r, k], Imp(Or(has(f, r, k), And(in_map(c, r, k), seen(h, r, k))), And(in_map(c, r, k), Or(Not(occupied(c, r, k)), And(r == s[0], k == s[1])))))),
               ("the frontier holds the costs of the table", z3.ForAll([r, k], Imp(has(f, r, k), And(val(f, r, k) == cost(h, r, k), Not(seen(h, r, k)), cost(h, r, k) >= 0)))),
               ("finished cells are no costlier than the frontier", z3.ForAll([r, k, r2, k2], Imp(And(in_map(c, r, k), seen(h, r, k), has(f, r2, k2)), cost(h, r, k) <= cost(h, r2, k2)))),
               ("costs are not negative", z3.ForAll([r, k], Imp(And(in_map(c, r, k), seen(h, r, k)), cost(h, r, k) >= 0))),
               ("the moves of a finished cell are accounted for", z3.ForAll([r, k, r2, k2], Imp(And(in_map(c, r, k), seen(h, r, k), legal(c, r, k, r2, k2), *apart), done(r, k, r2, k2)))),
               ("a route leads to every reached cell", z3.ForAll([r, k], Imp(And(in_map(c, r, k), reached(r, k), Or(r != s[0], k != s[1])),
                    z3.Exists([r2, k2], And(in_map(c, r2, k2), seen(h, r2, k2), legal(c, r2, k2, r, k), cost(h, r, k) == cost(h, r2, k2) + step(r2, k2, r, k)))))),
               ("the goal", And(reached(*s), cost(h, *s) == 0, in_map(c, *s))),
               ("other cells have no cost", z3.ForAll([r, k], Imp(And(in_map(c, r, k), Not(reached(r, k))), cost(h, r, k) == INF)))]
        if upto is not None:
            cell, p, ns = upto[:2], upto[2], upto[3]
            out.append(("the cell", And(in_map(c, *cell), seen(h, *cell), z3.ForAll([r, k], Imp(And(in_map(c, r, k), seen(h, r, k)), cost(h, r, k) <= cost(h, *cell))))))
            for i in range(8):              # at most eight neighbours
                n = (z3.Select(ns.a.row, z3.IntVal(i)), z3.Select(ns.a.col, z3.IntVal(i)))
                out.append(("the move to neighbour %d is accounted for" % i, Imp(And(i < p, legal(c, *cell, *n)), done(*cell, *n))))
        return out
    front = lambda c: c.var("frontier")

    def inner(c):
        cell = c.var("cell")
        p = loop_index(c)
        ns = c.var("__range")
        return search(c, front(c), (cell.row, cell.col, p, ns)) + [("range", And(0 <= p, p <= ns.len))] + [("neighbours: " + l, f) for l, f in nb_pos(cell.row, cell.col, the_map(c).m_rows, the_map(c).m_columns, ns)]

    def all_done(c):
        h, f, cell = c.this, front(c), c.var("cell")
        r2, k2 = fresh_int("u"), fresh_int("v")
        return [("all moves of the cell are done", Imp(loop_index(c) == c.var("__range").len, z3.ForAll([r2, k2], Imp(legal(c, cell.row, cell.col, r2, k2),
                And(Or(seen(h, r2, k2), has(f, r2, k2)), cost(h, r2, k2) <= cost(h, cell.row, cell.col) + step(cell.row, cell.col, r2, k2))))))]

    def clear(c, rows, cols=None):
        r, k = fresh_int("r"), fresh_int("k")
        m = the_map(c)
        w = [r < rows] if cols is None else [Or(r < rows, And(r == rows, k < cols))]
        return [("cleared so far", z3.ForAll([r, k], Imp(And(in_map(c, r, k), *w), And(cost(c.this, r, k) == INF, Not(seen(c.this, r, k)))))), ("rows", And(0 <= rows, rows <= m.m_rows))] + ([] if cols is None else [("columns", And(rows < m.m_rows, 0 <= cols, cols <= m.m_columns))])

    def post(c):
        h = c.this
        s = S0(c)
        r, k, r2, k2 = [fresh_int(x) for x in ("r", "k", "u", "v")]
        fin = lambda r, k: And(in_map(c, r, k), seen(h, r, k))
        on = And(s[0] >= 0, s[1] >= 0)
        return [("goal off the map: nothing is reached", Imp(Not(on), z3.ForAll([r, k], Not(fin(r, k))))),
                ("the goal costs nothing", Imp(on, And(fin(*s), cost(h, *s) == 0))),
                ("only free cells, and the goal, are reached", z3.ForAll([r, k], Imp(fin(r, k), Or(Not(occupied(c, r, k)), And(r == s[0], k == s[1]))))),
                ("whatever a legal move reaches is reached, and no move offers a shorter route", z3.ForAll([r, k, r2, k2], Imp(And(fin(r, k), legal(c, r, k, r2, k2)), And(fin(r2, k2), cost(h, r2, k2) <= cost(h, r, k) + step(r, k, r2, k2))))),
                ("the cost is that of a legal route", z3.ForAll([r, k], Imp(And(fin(r, k), Or(r != s[0], k != s[1])),
                    z3.Exists([r2, k2], And(fin(r2, k2), legal(c, r2, k2, r, k), cost(h, r, k) == cost(h, r2, k2) + step(r2, k2, r, k)))))),
                ("cells that were not reached have no finite cost", z3.ForAll([r, k], Imp(And(in_map(c, r, k), Not(seen(h, r, k))), cost(h, r, k) == INF)))]
    ex.verify(Contract(OH + "::Update", requires=made, ensures=post, modifies=lambda c: [Fld(c._this, "m_cost"), Fld(c._this, "m_explored")], noframe=True,
                       loops=[Loop(lambda c: clear(c, c.var("r")) + made(c), variant=lambda c: the_map(c).m_rows - c.var("r")),
                              Loop(lambda c: clear(c, c.var("r"), c.var("c")) + made(c), variant=lambda c: the_map(c).m_columns - c.var("c")),
                              Loop(lambda c: search(c, front(c)) + made(c), forget=True),
                              Loop(lambda c: inner(c) + made(c), variant=lambda c: c.var("__range").len - loop_index(c), lemma=all_done, forget=True)]))
    return ex


RS_COST = z3.Function("cheapest_cost", *[R] * 10, R)      # start, goal, radius, prices (C06)
PATH_COST = z3.Function("path_cost", *[R] * 6, R)


def entry(h, i, j, k):
    """what the table holds: the cost of driving from the origin to the pose of the entry"""
    re = z3.ToReal
    return RS_COST(0, 0, 0, re(i) * h.spatialResolution - h.offsetX, re(j) * h.spatialResolution - h.offsetY, WRAP(re(k) * h.angularResolution), h.minTurningRadius, h.reverseCostMultiplier, h.forwardCostMultiplier, h.directionSwitchingCost)


def group_fill():
    ex = verifier("heuristics.cpp")
    arrays(ex)
    ex.add(wrap_real())
    pc = lambda p, *a: PATH_COST(p.m_length, p.m_motions["0"].length, *a)
    ex.add(Contract("Planner::ReedsShepp::Solver::GetOptimalPath", assumed=True, note="a cheapest path from start to goal, by its cost (C06)", nparams=7,
                    ensures=lambda c: [("cheapest", pc(c.ret, *[c.arg(i) for i in (2, 3, 4, 5)]) == RS_COST(*[x for p in (c.arg(0), c.arg(1)) for x in (p.position.x, p.position.y, p.theta)], *[c.arg(i) for i in (2, 3, 4, 5)]))]),
           Contract("Planner::ReedsShepp::PathSegment::ComputeCost", assumed=True, note="C06", result=lambda c: pc(c.this, *[c.arg(i) for i in range(4)])))
    H = lambda c: c.deref(c.var("heuristic"), NH)
    V3 = lambda c, i, j, k: at(at(at(H(c).m_values, i), j), k)
    def filled(c, i, j=None, k=None):
        h = H(c)
        nx, ny, na = h.numSpatialX, h.numSpatialY, h.numAngular
        a, b, d = fresh_int("a"), fresh_int("b"), fresh_int("d")
        w = a < i
        if j is not None:
            w = Or(w, And(a == i, b < j))
        if k is not None:
            w = Or(w, And(a == i, b == j, d < k))
        out = [("range", And(0 <= i, i <= nx)), ("the table has its stated size", table(h)), ("filled so far", z3.ForAll([a, b, d], Imp(And(0 <= a, a < nx, 0 <= b, b < ny, 0 <= d, d < na, w), V3(c, a, b, d) == entry(h, a, b, d))))]
        if j is not None:
            out.append(("range of columns", And(i < nx, 0 <= j, j <= ny)))
        if k is not None:
            out.append(("range of headings", And(j < ny, 0 <= k, k <= na)))
        return out

    def post(c):
        h = c.deref(c.ret, NH)
        a, b, d = fresh_int("a"), fresh_int("b"), fresh_int("d")
        lo, hi = c.arg(0)["0"].position, c.arg(0)["1"].position
        re = z3.ToReal
        return [("every entry holds the cost of driving from the origin to its pose", z3.ForAll([a, b, d], Imp(And(0 <= a, a < h.numSpatialX, 0 <= b, b < h.numSpatialY, 0 <= d, d < h.numAngular), at(at(at(h.m_values, a), b), d) == entry(h, a, b, d)))),
                ("the table has its stated size", table(h)), ("the headings cover the circle", sizes(h)),
                ("the table covers the bounds", And(re(h.numSpatialX) * h.spatialResolution >= hi.x - lo.x, re(h.numSpatialY) * h.spatialResolution >= hi.y - lo.y)),
                ("the prices are those given", And(h.spatialResolution == c.arg(1), h.angularResolution == c.arg(2), h.minTurningRadius == c.arg(3), h.reverseCostMultiplier == c.arg(4), h.forwardCostMultiplier == c.arg(5), h.directionSwitchingCost == c.arg(6)))]
    ctor = Contract(NH + "::NonHolonomicHeuristic", assumed=True, note="proved in the group on making the table", requires=lambda c: [("resolutions", And(c.arg(0) > 0, c.arg(1) > 0)), ("sizes", And(c.arg(6) >= 1, c.arg(7) >= 1))],
                    ensures=lambda c: [("made", made_table(c))])
    ex.add(ctor)
    ex.verify(Contract(NH + "::Build", requires=lambda c: [("resolutions", And(c.arg(1) > 0, c.arg(2) > 0)), ("bounds", And(*[c.arg(0)["1"].position.f[x] > c.arg(0)["0"].position.f[x] for x in "xy"]))], ensures=post, allocates=(NH,), noframe=True,
                       loops=[Loop(lambda c: filled(c, c.var("i"))), Loop(lambda c: filled(c, c.var("i"), c.var("j"))), Loop(lambda c: filled(c, c.var("i"), c.var("j"), c.var("k")))]))
    return ex


def made_table(c):
    h = c.this
    return And(table(h), sizes(h), h.numSpatialX == c.arg(6), h.numSpatialY == c.arg(7), *[h.f[n] == c.arg(i) for i, n in enumerate(("spatialResolution", "angularResolution", "minTurningRadius", "reverseCostMultiplier", "forwardCostMultiplier", "directionSwitchingCost"))])


def group_build():
    ex = verifier("heuristics.cpp")
    arrays(ex)
    nx, ny, na = (lambda c: c.this.numSpatialX), (lambda c: c.this.numSpatialY), (lambda c: c.this.numAngular)
    v = lambda c: c.this.m_values

    def rows(c, i, upto=None):
        return [("range", And(0 <= i, i <= nx(c))), ("allocated so far", And(v(c).len == nx(c), all_int(0, i, lambda p: And(at(v(c), p).len == ny(c), all_int(0, ny(c), lambda q: at(at(v(c), p), q).len == na(c))))))]
    ex.verify(Contract(NH + "::NonHolonomicHeuristic", requires=lambda c: [("resolutions", And(c.arg(0) > 0, c.arg(1) > 0)), ("sizes", And(c.arg(6) >= 1, c.arg(7) >= 1))],
                       ensures=lambda c: [("the table has its stated size", table(c.this)), ("the headings cover the circle", sizes(c.this)), ("as asked", made_table(c))],
                       loops=[Loop(lambda c: rows(c, c.var("i"))), Loop(lambda c: rows(c, c.var("i")) + [("columns", And(0 <= c.var("j"), c.var("j") <= ny(c), c.var("i") < nx(c), at(v(c), c.var("i")).len == ny(c), all_int(0, c.var("j"), lambda q: at(at(v(c), c.var("i")), q).len == na(c))))])]))
    return ex



def group_obstacle_made():
    ex = verifier("heuristics.cpp")

    def post(c):
        m, h = c.deref(c.arg(0), MAP), c.this
        lo = z3.If(c.arg(1) < c.arg(2), c.arg(1), c.arg(2))
        return [("the tables have the size of the map", And(*[And(g.rows == m.m_rows, g.columns == m.m_columns) for g in (h.m_cost, h.m_explored)])),
                ("a cell of the route is priced at the lower multiplier", h.costMultiplier == lo * m.resolution), ("the diagonal of a cell", h.diagonalResolution == SQRT(z3.RealVal(2)) * m.resolution),
                ("nothing is reached yet", forall(2, lambda r, k: Imp(inside(r, k, m.m_rows, m.m_columns), Not(seen(h, r, k))))), ("the map", h.m_map == c.arg(0))]
    ex.verify(Contract(OH + "::ObstaclesHeuristic", requires=lambda c: [("a map with cells", And(c.arg(0) > 0, c.arg(0) < c.st.alloc, c.deref(c.arg(0), MAP).m_rows > 0, c.deref(c.arg(0), MAP).m_columns > 0))], ensures=post))
    return ex


def groups():
    return [dict(name="the combined heuristic", run=group_combined), dict(name="adapted heuristics and functions", run=group_adapted), dict(name="lookup in the table without obstacles", run=group_table),
            dict(name="making the table without obstacles", run=group_build), dict(name="filling the table without obstacles", run=group_fill),
            dict(name="making the obstacle heuristic", run=group_obstacle_made), dict(name="value of the obstacle heuristic", run=group_obstacle_value), dict(name="order and key of the grid search", run=group_order), dict(name="routes of the grid search", run=group_update)]
