from .util import *

HARNESS = "c05.cpp"
SECONDS = 6
BOUNDED = "none of the listed functions; the harness additionally enumerates all 3x3..4x4 occupancy patterns and random larger grids"


def adj(row, col, rows, cols, x, y):
    return And(x >= row - 1, x <= row + 1, y >= col - 1, y <= col + 1, Or(x != row, y != col), x >= 0, x < rows, y >= 0, y < cols)


def nb_pos(row, col, rows, cols, v):
    """A result vector lists exactly the neighbours, each once."""
    cell = lambda i: (z3.Select(v.a.row, i), z3.Select(v.a.col, i))
    i, j, x, y = fresh_int(), fresh_int(), fresh_int(), fresh_int()
    return [
        ("every listed cell is an adjacent cell of the grid", z3.ForAll([i], Imp(And(0 <= i, i < v.len), adj(row, col, rows, cols, *cell(i))))),
        ("no cell is listed twice", z3.ForAll([i, j], Imp(And(0 <= i, i < j, j < v.len), Or(cell(i)[0] != cell(j)[0], cell(i)[1] != cell(j)[1])))),
        ("every adjacent cell of the grid is listed", z3.ForAll([x, y], Imp(adj(row, col, rows, cols, x, y),
            Or(*[And(k < v.len, cell(z3.IntVal(k))[0] == x, cell(z3.IntVal(k))[1] == y) for k in range(8)])))),
        ("at most eight", And(v.len >= 0, v.len <= 8)),
    ]


def inside(r, c, rows, cols):
    return And(r >= 0, c >= 0, r < rows, c < cols)


CELL = "Planner::GridCellPosition"
GETNB = Contract(CELL + "::GetNeighbors",
                 requires=lambda c: [("the cell lies in the grid", Or(c.this.row < 0, c.this.col < 0, inside(c.this.row, c.this.col, c.arg(0), c.arg(1))))],
                 ensures=lambda c: [(l, Imp(And(c.this.row >= 0, c.this.col >= 0), f)) for l, f in nb_pos(c.this.row, c.this.col, c.arg(0), c.arg(1), c.ret)]
                 + [("an invalid cell has no neighbours", Imp(Or(c.this.row < 0, c.this.col < 0), c.ret.len == 0)), ("size", c.ret.len >= 0)])
VALID = Contract(CELL + "::IsValid", ensures=lambda c: [("valid iff both coordinates non-negative", c.ret == And(c.this.row >= 0, c.this.col >= 0))])
ADJ = Contract(CELL + "::IsAdjacentTo",
               requires=lambda c: [("both cells valid", And(c.this.row >= 0, c.this.col >= 0, c.arg(0).row >= 0, c.arg(0).col >= 0))],
               ensures=lambda c: [("adjacent iff one step away", c.ret == And(c.this.row - c.arg(0).row <= 1, c.this.row - c.arg(0).row >= -1,
                   c.this.col - c.arg(0).col <= 1, c.this.col - c.arg(0).col >= -1, Or(c.this.row != c.arg(0).row, c.this.col != c.arg(0).col)))])
DIAG = Contract(CELL + "::IsDiagonalTo",
                requires=lambda c: [("both cells valid", And(c.this.row >= 0, c.this.col >= 0, c.arg(0).row >= 0, c.arg(0).col >= 0))],
                ensures=lambda c: [("diagonal iff both coordinates differ", c.ret == And(c.this.row != c.arg(0).row, c.this.col != c.arg(0).col))])
EQ = Contract("Planner::operator==", nparams=2, pred=lambda f: "GridCellPosition" in f.fntype,
              ensures=lambda c: [("equal iff same row and column", c.ret == And(c.arg(0).row == c.arg(1).row, c.arg(0).col == c.arg(1).col))])
NE = Contract("Planner::operator!=", nparams=2, pred=lambda f: "GridCellPosition" in f.fntype,
              ensures=lambda c: [("different iff not equal", c.ret == Not(And(c.arg(0).row == c.arg(1).row, c.arg(0).col == c.arg(1).col)))])

OCC = z3.Function("occupied", I, I, I, B)


def occ_contract():
    return Contract("Planner::OccupancyMap::IsOccupied", assumed=True, note="interface of the occupancy map: a pure function of map and cell, to be asked only for cells of the grid (implementations: C09)",
                    requires=lambda c: [("queried cell lies in the grid", inside(c.arg(0).row, c.arg(0).col, c.this.m_rows, c.this.m_columns))],
                    result=lambda c: OCC(c._this.ref, c.arg(0).row, c.arg(0).col))


def group_cells():
    ex = verifier("grid.cpp")
    ex.add(EQ, NE)
    for con in (EQ, NE):
        ex.verify(con)
    ex.add(VALID)
    for con in (VALID, ADJ, DIAG, GETNB):
        ex.verify(con)
    return ex


def group_grid():
    ex = verifier("grid.cpp")
    ex.add(GETNB)
    con = Contract("Planner::Grid::GetNeighbors",
                   requires=lambda c: [("the cell lies in the grid", inside(c.arg(0).row, c.arg(0).col, c.this.rows, c.this.columns))],
                   ensures=lambda c: nb_pos(c.arg(0).row, c.arg(0).col, c.this.rows, c.this.columns, c.ret))
    ex.verify(con)
    return ex


def group_moves():
    ex = verifier("grid.cpp")
    ex.add(GETNB, DIAG, occ_contract())
    def legal(c, r, col):
        st, m = c.arg(0), c.this.m_map
        return And(adj(st.row, st.col, rows(c), cols(c), r, col), Not(OCC(m, r, col)),
                   Not(And(r != st.row, col != st.col, OCC(m, r, st.col), OCC(m, st.row, col))))

    def rows(c):
        return c.deref(c.this.m_map, "Planner::OccupancyMap").m_rows

    def cols(c):
        return c.deref(c.this.m_map, "Planner::OccupancyMap").m_columns

    def cost(c, r, col):
        return callfn([c.this.m_pathCostFcn, c.arg(0).row, c.arg(0).col, r, col], R)

    def inv(c):
        out, nb, k = vec_out(c), range_vec(c), c.var("__pos")
        j, j2 = fresh_int(), fresh_int()
        return [
            ("position in range", And(0 <= k, k <= nb.len, nb.len <= 8)),
            ("collected moves are legal, with their cost", all_int(0, out.len, lambda i: And(legal(c, at(out, i)["0"].row, at(out, i)["0"].col),
                at(out, i)["2"] == cost(c, at(out, i)["0"].row, at(out, i)["0"].col)))),
            ("size", And(out.len >= 0, out.len <= k)),
            ("every collected move is one of the visited neighbours", all_int(0, out.len, lambda i: Or(*[And(z3.IntVal(q) < k, at(out, i)["0"].row == at(nb, z3.IntVal(q)).row, at(out, i)["0"].col == at(nb, z3.IntVal(q)).col) for q in range(8)]))),
            ("no move twice", z3.ForAll([j, j2], Imp(And(0 <= j, j < j2, j2 < out.len), Or(at(out, j)["0"].row != at(out, j2)["0"].row, at(out, j)["0"].col != at(out, j2)["0"].col)))),
            ("every visited legal neighbour is collected", And(*[Imp(And(z3.IntVal(q) < k, legal(c, at(nb, z3.IntVal(q)).row, at(nb, z3.IntVal(q)).col)),
                Or(*[And(p < out.len, at(out, z3.IntVal(p))["0"].row == at(nb, z3.IntVal(q)).row, at(out, z3.IntVal(p))["0"].col == at(nb, z3.IntVal(q)).col) for p in range(8)])) for q in range(8)])),
        ] + [("neighbours: " + l, f) for l, f in nb_pos(c.arg(0).row, c.arg(0).col, rows(c), cols(c), nb)]

    def vec_out(c):
        # the vector of tuples being built: the only local of that type
        for n, key in reversed(c.frame.order):
            v = c.st.store.get(key)
            if isinstance(v, V) and "a" in v.f and isinstance(v.f["a"], V) and "2" in v.f["a"].f:
                return v
        raise AttachError("result vector not found")

    def range_vec(c):
        return c.var("__range")

    con = Contract("Planner::AStarStatePropagatorFcnN2::GetNeighborStates",
                   requires=lambda c: [("a map is attached", c.this.m_map > 0), ("the cell lies in the grid", inside(c.arg(0).row, c.arg(0).col, rows(c), cols(c)))],
                   ensures=lambda c: [
                       ("every offered move is legal and carries the caller's cost", all_int(0, c.ret.len, lambda i: And(legal(c, at(c.ret, i)["0"].row, at(c.ret, i)["0"].col),
                           at(c.ret, i)["2"] == cost(c, at(c.ret, i)["0"].row, at(c.ret, i)["0"].col)))),
                       ("every legal move is offered", forall(2, lambda x, y: Imp(legal(c, x, y), Or(*[And(p < c.ret.len, at(c.ret, z3.IntVal(p))["0"].row == x, at(c.ret, z3.IntVal(p))["0"].col == y) for p in range(8)])))),
                       ("no move is offered twice", forall(2, lambda a, b: Imp(And(0 <= a, a < b, b < c.ret.len), Or(at(c.ret, a)["0"].row != at(c.ret, b)["0"].row, at(c.ret, a)["0"].col != at(c.ret, b)["0"].col)))),
                   ],
                   loops=[Loop(inv)])
    ex.verify(con)
    return ex


def groups():
    return [dict(name="cell predicates and neighbour enumeration", run=group_cells),
            dict(name="Grid::GetNeighbors", run=group_grid),
            dict(name="AStarStatePropagatorFcnN2::GetNeighborStates", run=group_moves)]
