from .util import *

HARNESS = "c09.cpp"
SECONDS = 5
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["an obstacle or the map is not moved or resized while the obstacle is in the map (its boundary cells stay what they were)",
               "there are fewer than 2^31 obstacles, so that identifiers fit an int"]
LIST = "Planner::ObstacleListOccupancyMap::"
GRID = "Planner::Grid<int>"
COVER = z3.Function("boundary_cell_of", I, I, I, B)       # obstacle, row, column


def fresh_id(fits=False):
    return Contract("Planner::FindSmallestIDAvailable", ensures=lambda c: [("an identifier that is not in use", And(c.ret >= 0, Not(sel(c.arg(0).f["has"], c.ret))))] + ([("it fits an int", c.ret < 2**31)] if fits else []),
                    assumed=fits, note="proved in the group on identifiers; that it fits an int is assumed",
                    requires=lambda c: [("identifiers are not negative", forall(1, lambda i: Imp(sel(c.arg(0).f["has"], i), i >= 0)))])


def cell(c, m, r, k):
    g = c.deref(m.m_occupancyMatrix, GRID)
    return z3.Select(z3.Select(g.cells, r), k)


def has(m, o): return sel(m.m_obstacles.f["has"], o)
def ident(m, o): return sel(m.m_obstacles.f["val"], o)
def used(m, i): return sel(m.m_obstacleIDs.f["has"], i)


def inside(m, r, k): return And(0 <= r, r < m.m_rows, 0 <= k, k < m.m_columns)


def named(c, m):
    """every occupied cell names an obstacle of the map that covers it"""
    r, k, o = fresh_int(), fresh_int(), fresh_int()
    return z3.ForAll([r, k], Imp(And(inside(m, r, k), cell(c, m, r, k) >= 0), z3.Exists([o], And(has(m, o), ident(m, o) == cell(c, m, r, k), COVER(o, r, k)))))


def invariant(c, m):
    r, k, o, p, i = [fresh_int() for _ in range(5)]
    g = c.deref(m.m_occupancyMatrix, GRID)
    alive = lambda x: And(x > 0, x < c.st.alloc)
    return [("the matrix has the size of the map", And(g.rows == m.m_rows, g.columns == m.m_columns, alive(m.m_occupancyMatrix), alive(m.m_obstacleDistanceMap))),
            ("obstacles are objects", z3.ForAll([o], Imp(has(m, o), alive(o)))),
            ("an occupied cell names an obstacle that covers it", named(c, m)),
            ("a covered cell is occupied", z3.ForAll([o, r, k], Imp(And(has(m, o), COVER(o, r, k)), cell(c, m, r, k) >= 0))),
            ("obstacles have different identifiers", z3.ForAll([o, p], Imp(And(has(m, o), has(m, p), ident(m, o) == ident(m, p)), o == p))),
            ("identifiers in use are those of the obstacles", And(z3.ForAll([o], Imp(has(m, o), And(ident(m, o) >= 0, ident(m, o) < 2**31, used(m, ident(m, o))))), z3.ForAll([i], Imp(used(m, i), z3.Exists([o], And(has(m, o), ident(m, o) == i)))), z3.ForAll([i], Imp(used(m, i), i >= 0))))]


def boundary():
    def post(c):
        o = c._this.ref
        m = c.arg(0)
        r, k, i = fresh_int(), fresh_int(), fresh_int()
        return [("boundary cells lie inside the map", all_int(0, c.ret.len, lambda i: And(inside(m, at(c.ret, i).row, at(c.ret, i).col), COVER(o, at(c.ret, i).row, at(c.ret, i).col)))),
                ("all of them are listed", And(c.ret.len >= 0, z3.ForAll([r, k], Imp(COVER(o, r, k), z3.Exists([i], And(0 <= i, i < c.ret.len, at(c.ret, i).row == r, at(c.ret, i).col == k))))))]
    return Contract("Planner::Obstacle::GetBoundaryGridCellPosition", assumed=True, note="the boundary cells inside the map, always the same ones for an obstacle that is not moved (C10)", ensures=post)


def distance_map(n):
    return Contract("Planner::GVD::ObstacleDistanceMap::" + n, assumed=True, note="edits the distance map only (C12)", modifies=lambda c: [c._this],
                    requires=lambda c: [])


def setup():
    ex = verifier("map.cpp")
    ex.add(fresh_id(True))
    ex.add(boundary())
    for n in ("SetObstacle", "UnsetObstacle"):
        ex.add(distance_map(n))
    return ex


def group_ids():
    ex = verifier("map.cpp")
    ex.verify(fresh_id())
    return ex


def unchanged_map(c, but=None):
    m, w = c.this, c.old.this
    o = fresh_int()
    keep = lambda x: True if but is None else x != but
    return z3.ForAll([o], Imp(keep(o), And(has(m, o) == has(w, o), Imp(has(m, o), ident(m, o) == ident(w, o)))))


def same_matrix(c):
    r, k = fresh_int(), fresh_int()
    return z3.ForAll([r, k], cell(c, c.this, r, k) == cell(c.old, c.old.this, r, k))


def vec_of(c):
    """the list of cells the loop runs over"""
    for n, key in reversed(c.frame.order):
        if n == "__range":
            return c.ex.read(c.st, c.st.store[key]) if not isinstance(c.st.store[key], V) else c.st.store[key]
    raise AttachError("no range")


def basics(c):
    m, w = c.this, c.old.this
    g = c.deref(m.m_occupancyMatrix, GRID)
    return [("the map keeps its size", And(m.m_rows == w.m_rows, m.m_columns == w.m_columns, g.rows == m.m_rows, g.columns == m.m_columns, m.m_occupancyMatrix == w.m_occupancyMatrix, m.m_obstacleDistanceMap == w.m_obstacleDistanceMap))]


def listed(c, v, obst):
    return all_int(0, v.len, lambda i: And(inside(c.this, at(v, i).row, at(v, i).col), COVER(obst, at(v, i).row, at(v, i).col)))


def written(c, val, obst, before):
    """cells of the list up to the position carry val; the others are as before"""
    m = c.this
    pos, v = c.var("__pos"), vec_of(c)
    r, k = fresh_int(), fresh_int()
    return [("the position", pos >= 0),
            ("the list holds boundary cells", listed(c, v, obst)),
            ("the cells so far are marked", all_int(0, pos, lambda i: Imp(i < v.len, cell(c, m, at(v, i).row, at(v, i).col) == val))),
            ("only boundary cells are marked", z3.ForAll([r, k], Or(cell(c, m, r, k) == before(r, k), And(cell(c, m, r, k) == val, COVER(obst, r, k)))))]


def group_add():
    ex = setup()

    def inv(c):
        m = c.this
        o = c.arg(0)
        return basics(c) + [("the obstacle is recorded", And(has(m, o), unchanged_map(c, o), ident(m, o) >= 0, ident(m, o) < 2**31, Not(used(c.old.this, ident(m, o))), m.m_obstacles.f["n"] == c.old.this.m_obstacles.f["n"] + 1)),
                            ("its identifier is in use", forall(1, lambda i: used(m, i) == Or(used(c.old.this, i), i == ident(m, o))))] + \
            written(c, ident(m, o), o, lambda r, k: cell(c.old, c.old.this, r, k))

    def post(c):
        m, w, o = c.this, c.old.this, c.arg(0)
        return [("it is refused iff it is already in the map", c.ret == Not(has(w, o))),
                ("it is in the map afterwards", has(m, o)),
                ("other obstacles stay with their identifiers", unchanged_map(c, o)),
                ("the count", m.m_obstacles.f["n"] == w.m_obstacles.f["n"] + z3.If(c.ret, 1, 0)),
                ("a refusal changes nothing", Imp(Not(c.ret), And(same_matrix(c), ident(m, o) == ident(w, o), forall(1, lambda i: used(m, i) == used(w, i)))))] + \
            [("preserved: " + n, f) for n, f in invariant(c, m)]
    ex.verify(Contract(LIST + "AddObstacle", noframe=True, heap_this=True, requires=lambda c: invariant(c, c.this) + [("an obstacle", And(c.arg(0) > 0, c.arg(0) < c.st.alloc))], ensures=post,
                       may_throw=lambda c: z3.BoolVal(False), loops=[Loop(inv, forget=True)]))
    return ex


def group_remove():
    ex = setup()

    def removed(c):
        m, w, o = c.this, c.old.this, c.arg(0)
        return basics(c) + [("the obstacle is gone", And(has(w, o), Not(has(m, o)), unchanged_map(c, o), m.m_obstacles.f["n"] == w.m_obstacles.f["n"] - 1)),
                            ("its identifier is free", forall(1, lambda i: used(m, i) == And(used(w, i), i != ident(w, o))))]

    def inv1(c):
        return removed(c) + written(c, z3.IntVal(-1), c.arg(0), lambda r, k: cell(c.old, c.old.this, r, k))

    def elsewhere(c):
        m, w, ob = c.this, c.old.this, c.arg(0)
        r, k = fresh_int(), fresh_int()
        return [("cells of other obstacles stay occupied", z3.ForAll([r, k], Imp(And(inside(m, r, k), Not(COVER(ob, r, k)), cell(c.old, w, r, k) >= 0), cell(c, m, r, k) >= 0)))]

    def inv2(c):
        m = c.this
        vis = c.var("__visited").f["has"]
        o, r, k = fresh_int(), fresh_int(), fresh_int()
        return removed(c) + elsewhere(c) + [("an occupied cell names an obstacle that covers it", named(c, m)),
                             ("only obstacles of the map were visited", z3.ForAll([o], Imp(sel(vis, o), has(m, o)))),
                             ("the cells of the visited obstacles are occupied", z3.ForAll([o, r, k], Imp(And(sel(vis, o), COVER(o, r, k)), cell(c, m, r, k) >= 0)))]

    def inv2in(c):
        m = c.this
        cur = c.var("__key").f["0"]
        v = vec_of(c)
        pos = c.var("__pos")
        return inv2(c) + [("the position", pos >= 0), ("the list holds boundary cells", listed(c, v, cur)), ("the obstacle is in the map", has(m, cur)), ("the cells so far are occupied", all_int(0, pos, lambda i: Imp(i < v.len, cell(c, m, at(v, i).row, at(v, i).col) >= 0)))]

    def inv3(c):
        m = c.this
        o, r, k = fresh_int(), fresh_int(), fresh_int()
        return removed(c) + [("the position", c.var("__pos") >= 0), ("an occupied cell names an obstacle that covers it", named(c, m)), ("a covered cell is occupied", z3.ForAll([o, r, k], Imp(And(has(m, o), COVER(o, r, k)), cell(c, m, r, k) >= 0)))]

    def post(c):
        m, w, o = c.this, c.old.this, c.arg(0)
        return [("it is refused iff it is not in the map", c.ret == has(w, o)),
                ("it is not in the map afterwards", Not(has(m, o))),
                ("other obstacles stay with their identifiers", unchanged_map(c, o)),
                ("the count", m.m_obstacles.f["n"] == w.m_obstacles.f["n"] - z3.If(c.ret, 1, 0)),
                ("a refusal changes nothing", Imp(Not(c.ret), And(same_matrix(c), forall(1, lambda i: used(m, i) == used(w, i)))))] + \
            [("preserved: " + n, f) for n, f in invariant(c, m)]
    ex.verify(Contract(LIST + "RemoveObstacle", noframe=True, heap_this=True, requires=lambda c: invariant(c, c.this) + [("an obstacle", And(c.arg(0) > 0, c.arg(0) < c.st.alloc))], ensures=post,
                       may_throw=lambda c: z3.BoolVal(False), loops=[Loop(inv1), Loop(inv2), Loop(inv2in), Loop(inv3)]))
    return ex


def group_query():
    ex = setup()
    ex.verify(Contract(LIST + "IsOccupied", heap_this=True, requires=lambda c: invariant(c, c.this) + [("a cell of the map", inside(c.this, c.arg(0).row, c.arg(0).col))], may_throw=lambda c: z3.BoolVal(False),
                       ensures=lambda c: [("occupied iff some obstacle covers the cell", c.ret == z3.Exists([o_], And(has(c.this, o_), COVER(o_, c.arg(0).row, c.arg(0).col))))]))
    ex.verify(Contract(LIST + "GetNumObstacles", requires=lambda c: [("an int can count them", c.this.m_obstacles.f["n"] < 2**31)], ensures=lambda c: [("the number of obstacles", c.ret == c.this.m_obstacles.f["n"])]))
    return ex


o_ = z3.Int("some_obstacle")


def groups():
    return [dict(name="identifiers", run=group_ids), dict(name="adding", run=group_add), dict(name="removing", run=group_remove), dict(name="queries", run=group_query)]
