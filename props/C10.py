from .util import *

HARNESS = "c10.cpp"
SECONDS = 5
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["cell coordinates stay far from the limits of int", "a polygon has fewer than 2^31 vertices"]
MAP = "Planner::OccupancyMap"
CELL = {k: z3.Function("world_cell_" + k, R, R, I) for k in ("row", "col")}
# Bresenham's steps along the longer axis as a recursive definition: K(s) steps along the shorter axis and the error term E(s) after s steps
K = z3.Function("minor_steps", I, I)
E = z3.Function("error_term", I, I)
STEP = z3.Function("step_of_the_definition", I, B)


def cell_of():
    return Contract(MAP + "::WorldPositionToGridCell", nparams=2, assumed=True, note="the unbounded cell of a position: proved in C11",
                    result=lambda c: V({k: CELL[k](c.arg(0).x, c.arg(0).y) for k in ("row", "col")}),
                    requires=lambda c: [("unbounded", Not(c.arg(1)))])


def Abs(x): return z3.If(x >= 0, x, -x)


class Line:
    """The ideal line between two cells, from the end with the smaller coordinate along the longer axis."""

    def __init__(s, c):
        p, q = c.arg(1), c.arg(2)
        r0, c0, r1, c1 = CELL["row"](p.x, p.y), CELL["col"](p.x, p.y), CELL["row"](q.x, q.y), CELL["col"](q.x, q.y)
        s.steep = Abs(c1 - c0) > Abs(r1 - r0)
        a0, b0 = z3.If(s.steep, c0, r0), z3.If(s.steep, r0, c0)
        a1, b1 = z3.If(s.steep, c1, r1), z3.If(s.steep, r1, c1)
        swap = a0 > a1
        s.x0, s.x1 = z3.If(swap, a1, a0), z3.If(swap, a0, a1)
        s.y0, s.y1 = z3.If(swap, b1, b0), z3.If(swap, b0, b1)
        s.dx, s.dy = s.x1 - s.x0, Abs(s.y1 - s.y0)
        s.dir = z3.If(s.y0 < s.y1, z3.IntVal(1), z3.IntVal(-1))
        s.ends = (r0, c0, r1, c1)

    def row(s, t): return z3.If(s.steep, s.minor(t), s.x0 + t)
    def col(s, t): return z3.If(s.steep, s.x0 + t, s.minor(t))
    def minor(s, t): return z3.If(s.y0 < s.y1, s.y0 + K(t), s.y0 - K(t))
    def step(s, e): return z3.If(s.steep, e.col, e.row) - s.x0
    def is_at(s, e, t): return And(e.row == s.row(t), e.col == s.col(t))

    def definition(s):
        t = fresh_int("s")
        down = E(t) < s.dy
        return And(K(0) == 0, E(0) == s.dx / 2, z3.ForAll([t], Imp(t >= 0, And(STEP(t), K(t + 1) == K(t) + z3.If(down, 1, 0), E(t + 1) == E(t) - s.dy + z3.If(down, s.dx, 0))), patterns=[STEP(t)]))

    def near(s, upto):
        t = fresh_int("s")
        return z3.ForAll([t], Imp(And(0 <= t, t < upto), And(2 * (K(t) * s.dx - t * s.dy) <= s.dx, 2 * (t * s.dy - K(t) * s.dx) <= s.dx)), patterns=[K(t)])


def inside(m, r, k): return And(0 <= r, r < m.m_rows, 0 <= k, k < m.m_columns)


def drawn(c, l, upto):
    m, old = c.arg(0), c.old.arg(3)
    line = c.arg(3)
    i, j, t = fresh_int("i"), fresh_int("j"), fresh_int("s")
    e = lambda i: at(line, i)
    return [("cells already in the output are kept", And(line.len >= old.len, all_int(0, old.len, lambda i: And(e(i).row == at(old, i).row, e(i).col == at(old, i).col)))),
            ("every new cell is one of the line inside the map", all_int(old.len, line.len, lambda i: And(0 <= l.step(e(i)), l.step(e(i)) < upto, l.is_at(e(i), l.step(e(i))), inside(m, e(i).row, e(i).col)))),
            ("in the order of the line, one per step", z3.ForAll([i, j], Imp(And(old.len <= i, i < j, j < line.len), l.step(e(i)) < l.step(e(j))))),
            ("exactly the cells outside the map are dropped", z3.ForAll([t], Imp(And(0 <= t, t < upto, inside(m, l.row(t), l.col(t))), z3.Exists([i], And(old.len <= i, i < line.len, l.is_at(e(i), t))))))]


def raster_contract():
    def inv(c):
        l = Line(c)
        t = c.var("x") - l.x0
        return drawn(c, l, t) + [("the position along the longer axis", And(0 <= t, t <= l.dx + 1)),
                                 ("the position along the shorter axis", c.var("y") == l.minor(t)),
                                 ("the error term", And(c.var("err") == E(t), E(t) == l.dx / 2 - t * l.dy + K(t) * l.dx, Imp(l.dx > 0, And(0 <= E(t), E(t) < l.dx)), Imp(l.dx == 0, And(E(t) == 0, K(t) == 0)))),
                                 ("steps", And(K(t) >= 0, STEP(t))),
                                 ("the cells so far are within half a cell of the ideal line", l.near(t)),
                                 ("the end of the line", Imp(t == l.dx + 1, K(l.dx) == l.dy))]

    def post(c):
        l = Line(c)
        t = fresh_int("s")
        return drawn(c, l, l.dx + 1) + [("every cell is within half a cell of the ideal line", l.near(l.dx + 1)),
                                        ("the line starts at one end", And(l.row(z3.IntVal(0)) == z3.If(l.steep, l.y0, l.x0), l.col(z3.IntVal(0)) == z3.If(l.steep, l.x0, l.y0))),
                                        ("the line ends at the other end", And(l.row(l.dx) == z3.If(l.steep, l.y1, l.x1), l.col(l.dx) == z3.If(l.steep, l.x1, l.y1))),
                                        ("consecutive cells touch", z3.ForAll([t], Imp(And(0 <= t, STEP(t)), And(K(t) <= K(t + 1), K(t + 1) <= K(t) + 1)), patterns=[STEP(t)]))]
    return Contract("Planner::Shape::RasterizeLine", ensures=post, modifies=lambda c: [c.arglv(3)],
                    facts=lambda c: [Line(c).definition()], loops=[Loop(inv)])


def group_line():
    ex = verifier("map.cpp")
    ex.add(cell_of())
    ex.verify(raster_contract())
    return ex


# ---- outlines --------------------------------------------------------------------------------------
ON = z3.Function("on_rasterised_segment", I, I, R, R, R, R, B)   # row, column, end points: the cells of the group on lines


def kept(new, old, same):
    return ("what is already in the output is kept", And(new.len >= old.len, all_int(0, old.len, lambda i: same(at(new, i), at(old, i)))))


def same_cell(a, b): return And(a.row == b.row, a.col == b.col)
def same_point(a, b): return And(a.x == b.x, a.y == b.y)


def added(new, old, belongs):
    """the new cells are exactly those of the predicate"""
    r, k, i = fresh_int(), fresh_int(), fresh_int()
    return [("every new cell belongs to the outline", all_int(old.len, new.len, lambda i: belongs(at(new, i).row, at(new, i).col))),
            ("every cell of the outline is listed", z3.ForAll([r, k], Imp(belongs(r, k), z3.Exists([i], And(old.len <= i, i < new.len, at(new, i).row == r, at(new, i).col == k)))))]


def segment():
    def post(c):
        p, q = c.arg(1), c.arg(2)
        new, old = c.arg(3), c.old.arg(3)
        return [kept(new, old, same_cell)] + added(new, old, lambda r, k: ON(r, k, p.x, p.y, q.x, q.y))
    return Contract("Planner::Shape::RasterizeLine", assumed=True, note="proved in the group on lines (the predicate names its cells)", ensures=post, modifies=lambda c: [c.arglv(3)])


def placed(c, v, pose):
    """vertex v of the shape at the pose"""
    from dv.std import COS, SIN
    th = pose.theta
    x, y = v.x, v.y
    return COS(th) * x - SIN(th) * y + pose.position.x, SIN(th) * x + COS(th) * y + pose.position.y


def vertices(assumed=False):
    def parts(c, n):
        new, old = c.arg(1), c.old.arg(1)
        vs = c.this.m_vertices
        def here(i):
            x, y = placed(c, at(vs, i), c.arg(0))
            return And(at(new, old.len + i).x == x, at(new, old.len + i).y == y)
        return [kept(new, old, same_point), ("the vertices so far are at the pose", And(new.len == old.len + n, all_int(0, n, here)))]

    def inv(c): return parts(c, c.var("__pos")) + [("position", And(0 <= c.var("__pos"), c.var("__pos") <= c.this.m_vertices.len))]
    return Contract("Planner::PolygonShape::GetVerticesPosition", ensures=lambda c: parts(c, c.this.m_vertices.len), modifies=lambda c: [c.arglv(1)], loops=[] if assumed else [Loop(inv)],
                    assumed=assumed, note="proved in the group on vertices")


def group_vertices():
    ex = verifier("map.cpp")
    ex.verify(vertices())
    return ex


def group_polygon():
    ex = verifier("map.cpp")
    ex.add(segment())
    ex.add(vertices(True))

    PX, PY, NEXT = z3.Function("placed_x", I, R), z3.Function("placed_y", I, R), z3.Function("next_vertex", I, I)

    def edge(c, i, r, k):
        return ON(r, k, PX(i), PY(i), PX(NEXT(i)), PY(NEXT(i)))

    def definitions(c):
        """names for the vertices at the pose and for the vertex after another one"""
        i = fresh_int()
        x, y = placed(c, at(c.this.m_vertices, i), c.arg(1))
        return [z3.ForAll([i], And(PX(i) == x, PY(i) == y), patterns=[PX(i)]), z3.ForAll([i], NEXT(i) == z3.If(i + 1 == c.this.m_vertices.len, 0, i + 1), patterns=[NEXT(i)])]

    def outline(c, upto):
        new, old = c.arg(2), c.old.arg(2)
        i, j, r, k = fresh_int(), fresh_int(), fresh_int(), fresh_int()
        return [kept(new, old, same_cell),
                ("every new cell lies on an edge", all_int(old.len, new.len, lambda i: z3.Exists([j], And(0 <= j, j < upto, edge(c, j, at(new, i).row, at(new, i).col))))),
                ("every cell of an edge is listed", z3.ForAll([j, r, k], Imp(And(0 <= j, j < upto, edge(c, j, r, k)), z3.Exists([i], And(old.len <= i, i < new.len, at(new, i).row == r, at(new, i).col == k)))))]

    def inv(c):
        vs, n = c.var("vertices"), c.this.m_vertices.len
        here = lambda i: And(at(vs, i).x == PX(i), at(vs, i).y == PY(i))
        return outline(c, c.var("i")) + [("the vertices at the pose", And(vs.len == n, all_int(0, n, here))),
                                         ("the edge at hand", Imp(c.var("i") < n, And(here(c.var("i")), here(NEXT(c.var("i"))), (c.var("i") + 1) % n == NEXT(c.var("i")), c.var("i") % n == c.var("i")))), ("counter", And(0 <= c.var("i"), c.var("i") <= n))]
    ex.verify(Contract("Planner::PolygonShape::GetGridCellsPosition", requires=lambda c: [("fewer than 2^31 vertices", c.this.m_vertices.len < 2**31)],
                       ensures=lambda c: outline(c, c.this.m_vertices.len), facts=definitions, modifies=lambda c: [c.arglv(2)], loops=[Loop(inv)]))
    return ex


def group_shapes():
    ex = verifier("map.cpp")

    def rectangle(c):
        vs, dx, dy = c.this.m_vertices, c.arg(0), c.arg(1)
        corner = lambda i, sx, sy: And(at(vs, i).x == sx * dx / 2, at(vs, i).y == sy * dy / 2)
        return [("the four corners in turn", And(vs.len == 4, corner(0, 1, 1), corner(1, -1, 1), corner(2, -1, -1), corner(3, 1, -1)))]
    ex.verify(Contract("Planner::RectangleShape::RectangleShape", nparams=2, ensures=rectangle))

    def regular(radius):
        def upto(c, n):
            vs = c.this.m_vertices
            a = lambda i: 2 * PI * z3.ToReal(i) / z3.ToReal(c.arg(1))
            return [("the vertices so far, evenly spaced on the circle", And(vs.len == n, all_int(0, n, lambda i: And(at(vs, i).x == radius(c) * COS(a(i)), at(vs, i).y == radius(c) * SIN(a(i))))))]
        def inv(c): return upto(c, c.var("i")) + [("counter", And(0 <= c.var("i"), c.var("i") <= c.arg(1)))] + ([("the radius", c.var("radius") == radius(c))])
        return dict(nparams=2, requires=lambda c: [("at least three vertices", c.arg(1) >= 3)], ensures=lambda c: upto(c, c.arg(1)), loops=[Loop(inv)])
    ex.verify(Contract("Planner::RegularPolygonShape::RegularPolygonShape", **regular(lambda c: c.old.arg(0))))
    ex.verify(Contract("Planner::CircleShape::CircleShape", **regular(lambda c: c.old.arg(0) * (1 / COS(PI / z3.ToReal(c.arg(1)))))))
    return ex


# ---- composite shapes and obstacles ------------------------------------------------------------------
OUT = z3.Function("on_outline_of", I, I, I, R, R, R, B)             # shape, row, column, pose
NV = z3.Function("vertices_of", I, I)
VX = {k: z3.Function("vertex_%s_of" % k, I, I, R, R, R, R) for k in "xy"}


def pose_of(p): return (p.position.x, p.position.y, p.theta)


def shape_cells():
    return Contract("Planner::Shape::GetGridCellsPosition", assumed=True, note="appends the outline of the shape at the pose (proved for polygons and composite shapes)",
                    ensures=lambda c: [kept(c.arg(2), c.old.arg(2), same_cell)] + added(c.arg(2), c.old.arg(2), lambda r, k: OUT(c._this.ref, r, k, *pose_of(c.arg(1)))), modifies=lambda c: [c.arglv(2)])


def shape_vertices():
    def post(c):
        new, old, s = c.arg(1), c.old.arg(1), c._this.ref
        return [kept(new, old, same_point), ("its vertices follow", And(NV(s) >= 0, new.len == old.len + NV(s), all_int(0, NV(s), lambda i: And(at(new, old.len + i).x == VX["x"](s, i, *pose_of(c.arg(0))), at(new, old.len + i).y == VX["y"](s, i, *pose_of(c.arg(0)))))))]
    return Contract("Planner::Shape::GetVerticesPosition", assumed=True, note="appends the vertices of the shape at the pose (proved for polygons)", ensures=post, modifies=lambda c: [c.arglv(1)])


def group_composite():
    ex = verifier("map.cpp")
    ex.add(shape_cells())
    ex.add(shape_vertices())
    children = lambda c: c.this.m_children

    def outline(c, upto):
        new, old = c.arg(2), c.old.arg(2)
        i, j, r, k = fresh_int(), fresh_int(), fresh_int(), fresh_int()
        on = lambda j, r, k: And(0 <= j, j < upto, OUT(at(children(c), j), r, k, *pose_of(c.arg(1))))
        return [kept(new, old, same_cell),
                ("every new cell is on the outline of a part", all_int(old.len, new.len, lambda i: z3.Exists([j], on(j, at(new, i).row, at(new, i).col)))),
                ("the outline of every part is listed", z3.ForAll([j, r, k], Imp(on(j, r, k), z3.Exists([i], And(old.len <= i, i < new.len, at(new, i).row == r, at(new, i).col == k)))))]
    pos = lambda c: [("position", And(0 <= c.var("__pos"), c.var("__pos") <= children(c).len))]
    parts = lambda c: [("every part exists", all_int(0, children(c).len, lambda j: at(children(c), j) > 0))]
    ex.verify(Contract("Planner::CompositeShape::GetGridCellsPosition", requires=parts, ensures=lambda c: outline(c, children(c).len), modifies=lambda c: [c.arglv(2)],
                       loops=[Loop(lambda c: outline(c, c.var("__pos")) + pos(c))]))

    def points(c, upto):
        new, old = c.arg(1), c.old.arg(1)
        i, j, t = fresh_int(), fresh_int(), fresh_int()
        p = pose_of(c.arg(0))
        return [kept(new, old, same_point), ("every vertex of every part is listed", z3.ForAll([j, t], Imp(And(0 <= j, j < upto, 0 <= t, t < NV(at(children(c), j))), z3.Exists([i], And(old.len <= i, i < new.len, at(new, i).x == VX["x"](at(children(c), j), t, *p), at(new, i).y == VX["y"](at(children(c), j), t, *p))))))]
    ex.verify(Contract("Planner::CompositeShape::GetVerticesPosition", requires=parts, ensures=lambda c: points(c, children(c).len), modifies=lambda c: [c.arglv(1)],
                       loops=[Loop(lambda c: points(c, c.var("__pos")) + pos(c))]))
    ex.verify(Contract("Planner::CompositeShape::Add", modifies=lambda c: [c._this], ensures=lambda c: [("the part is added last", And(children(c).len == children(c.old).len + 1, at(children(c), children(c.old).len) == c.arg(0), all_int(0, children(c.old).len, lambda i: at(children(c), i) == at(children(c.old), i))))]))
    return ex


def group_obstacle():
    ex = verifier("map.cpp")
    ex.add(shape_cells())
    ex.add(shape_vertices())
    there = lambda c: [("it has a shape", c.this.m_shape > 0)]

    def cells(c):
        class Empty: len = z3.IntVal(0)
        return added(c.ret, Empty, lambda r, k: OUT(c.this.m_shape, r, k, *pose_of(c.this.m_pose)))
    ex.verify(Contract("Planner::Obstacle::GetBoundaryGridCellPosition", requires=there, ensures=cells))
    ex.verify(Contract("Planner::Obstacle::GetBoundaryWorldPosition", requires=there, ensures=lambda c: [("the vertices of the shape at the obstacle's pose", And(c.ret.len == NV(c.this.m_shape), all_int(0, c.ret.len, lambda i: And(at(c.ret, i).x == VX["x"](c.this.m_shape, i, *pose_of(c.this.m_pose)), at(c.ret, i).y == VX["y"](c.this.m_shape, i, *pose_of(c.this.m_pose))))))]))
    ex.verify(Contract("Planner::Obstacle::SetPose", modifies=lambda c: [c._this], ensures=lambda c: [("the pose", And(*[a == b for a, b in zip(pose_of(c.this.m_pose), pose_of(c.arg(0)))])), ("same shape", c.this.m_shape == c.old.this.m_shape)]))
    ex.verify(Contract("Planner::Obstacle::SetShape", modifies=lambda c: [c._this], ensures=lambda c: [("the shape", c.this.m_shape == c.arg(0)), ("same pose", And(*[a == b for a, b in zip(pose_of(c.this.m_pose), pose_of(c.old.this.m_pose))]))]))
    return ex


def groups():
    return [dict(name="line", run=group_line), dict(name="vertices", run=group_vertices), dict(name="polygon", run=group_polygon),
            dict(name="shapes", run=group_shapes), dict(name="composite", run=group_composite), dict(name="obstacle", run=group_obstacle)]
