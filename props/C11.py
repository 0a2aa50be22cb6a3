from .util import *

HARNESS = "c11.cpp"
SECONDS = 4
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["the resolution is positive (precondition)", "cell*resolution is exact: the code computes it in float"]

MAP = "Planner::OccupancyMap"


def mapinv(m):
    return And(m.resolution > 0, m.m_worldGridOrigin.x == m.m_localOrigin.x + m.m_localGridOrigin.x, m.m_worldGridOrigin.y == m.m_localOrigin.y + m.m_localGridOrigin.y)


def inv_arg(c):
    return [("map invariant", mapinv(c.arg(0)))]


def cell_is(r, c):
    return And(r.row == c.row, r.col == c.col)


def local_cell(m, x, y, row, col):
    """row/col is the cell containing local position (x, y)."""
    r = m.resolution
    gx, gy = x - m.m_localGridOrigin.x, y - m.m_localGridOrigin.y
    return And(z3.ToReal(row) * r <= gx, gx < (z3.ToReal(row) + 1) * r, z3.ToReal(col) * r <= gy, gy < (z3.ToReal(col) + 1) * r)


def in_grid(m, row, col):
    return And(row >= 0, row < m.m_rows, col >= 0, col < m.m_columns)


def group_frames():
    ex = verifier("occmap.cpp")
    S = "PlannerSpec::"
    for n in ("LocalRoundTrip", "WorldRoundTrip"):
        ex.verify(Contract(S + n, requires=lambda c: inv_arg(c) + [("a point of the cell", And(0 <= c.arg(2), c.arg(2) < c.arg(0).resolution, 0 <= c.arg(3), c.arg(3) < c.arg(0).resolution))],
                           ensures=lambda c: [("a point of a cell is converted back to that cell", cell_is(c.ret, c.arg(1)))]))
    for n in ("LocalWorldLocal", "WorldLocalWorld"):
        ex.verify(Contract(S + n, requires=inv_arg, ensures=lambda c: [("world and local conversions are inverse", And(c.ret.x == c.arg(1).x, c.ret.y == c.arg(1).y))]))
    ex.verify(Contract(S + "LocalWorldLocal2", requires=inv_arg, ensures=lambda c: [("world and local conversions are inverse", And(c.ret.x == c.arg(1), c.ret.y == c.arg(2)))]))
    for n in ("CellOfLocal", "CellOfLocal2", "CellOfWorldOfLocal", "CellOfWorldOfLocal2"):
        def post(c):
            m, p = c.arg(0), c.arg(1)
            i, j = fresh_int(), fresh_int()
            return [("unbounded: the cell that contains the position", Imp(Not(c.arg(2)), local_cell(m, p.x, p.y, c.ret.row, c.ret.col))),
                    ("bounded: that cell if it is in the grid, else the invalid cell", Imp(c.arg(2), z3.ForAll([i, j], Imp(local_cell(m, p.x, p.y, i, j),
                        z3.If(in_grid(m, i, j), And(c.ret.row == i, c.ret.col == j), And(c.ret.row == -1, c.ret.col == -1))))))]
        ex.verify(Contract(S + n, requires=inv_arg, ensures=post))
    for n in ("WorldOfCellMinusLocal", "WorldOfCellMinusLocal2"):
        ex.verify(Contract(S + n, requires=inv_arg, ensures=lambda c: [("a cell's world position is the translation of its local position", And(c.ret.x == 0, c.ret.y == 0))]))
    ex.verify(Contract(S + "InsideIffCellInside", requires=inv_arg, ensures=lambda c: [("inside iff its cell is a cell of the grid", c.ret)]))
    def wpost(c):
        m, p = c.arg(0), c.arg(1)
        i, j = fresh_int(), fresh_int()
        return [("conversion is bounded by default", z3.ForAll([i, j], Imp(local_cell(m, p.x - m.m_localOrigin.x, p.y - m.m_localOrigin.y, i, j),
                        z3.If(in_grid(m, i, j), And(c.ret.row == i, c.ret.col == j), And(c.ret.row == -1, c.ret.col == -1)))))]
    ex.verify(Contract(S + "DefaultBounded", requires=inv_arg, ensures=wpost))
    isinside = Contract(MAP + "::IsInsideMap", nparams=1, pred=lambda f: "GridCellPosition" in f.fntype,
                        ensures=lambda c: [("inside iff both indices are within the grid", c.ret == in_grid(c.this, c.arg(0).row, c.arg(0).col))])
    ex.verify(isinside)
    return ex


def group_place():
    ex = verifier("occmap.cpp")
    ex.verify(Contract(MAP + "::SetPosition", noframe=True, requires=lambda c: [("map invariant", mapinv(c.this))],
                       ensures=lambda c: [("the frames stay consistent", mapinv(c.this)), ("the map is at the given position", And(c.this.m_localOrigin.x == c.arg(0).x, c.this.m_localOrigin.y == c.arg(0).y)),
                                          ("its size is unchanged", And(c.this.m_rows == c.old.this.m_rows, c.this.m_columns == c.old.this.m_columns, c.this.m_localGridOrigin.x == c.old.this.m_localGridOrigin.x, c.this.m_localGridOrigin.y == c.old.this.m_localGridOrigin.y))]))
    return ex


def group_init():
    ex = verifier("map.cpp")
    def post(c):
        m, w, h = c.this, c.arg(0), c.arg(1)
        r = m.resolution
        g = c.deref(m.m_occupancyMatrix, "Planner::Grid<int>")
        return [("the frames are consistent", mapinv(m)),
                ("the grid is centred on the local origin", And(m.m_localGridOrigin.x * 2 == -w, m.m_localGridOrigin.y * 2 == -h)),
                ("the grid covers the map, with less than one cell to spare", And(z3.ToReal(m.m_rows) * r >= w, (z3.ToReal(m.m_rows) - 1) * r < w, z3.ToReal(m.m_columns) * r >= h, (z3.ToReal(m.m_columns) - 1) * r < h)),
                ("the occupancy matrix has the size of the grid and every cell is free", And(g.rows == m.m_rows, g.columns == m.m_columns, forall(2, lambda i, j: Imp(And(0 <= i, i < m.m_rows, 0 <= j, j < m.m_columns), z3.Select(z3.Select(g.cells, i), j) < 0)))),
                ("the map stays where it is", And(m.m_localOrigin.x == c.old.this.m_localOrigin.x, m.m_localOrigin.y == c.old.this.m_localOrigin.y))]
    ex.verify(Contract(MAP + "::InitializeSize", noframe=True, requires=lambda c: [("positive sizes", And(c.this.resolution > 0, c.arg(0) > 0, c.arg(1) > 0))], ensures=post))
    return ex


def groups():
    return [dict(name="conversions between frames", run=group_frames), dict(name="placing the map", run=group_place), dict(name="sizing the map", run=group_init)]
