from .util import *
from .C05 import nb_pos, inside, adj, VALID, EQ, NE, GETNB

HARNESS = "c12.cpp"
OPT = "-O2"
SECONDS = 12
BOUNDED = "that the waves come to an end"
ASSUMPTIONS = ["a map has at most 32767 rows and columns (squared distances fit an int)", "the occupancy grid has the size of the distance map (it is given to its constructor)",
               "which queued cell comes first is left open: the proofs hold for every order of the queue"]
O, VM, PC = "Planner::GVD::ObstacleDistanceMap", "Planner::GVD::VoronoiDistanceMap", "Planner::GVD::PathCostMap"
SQ = z3.Function("squared_distance", I, I, I, I, I)
MAX = 2 ** 31 - 1
LIM = 32767


def q(*names): return [fresh_int(n) for n in names]
def cell(g, r, k): return sel(g.cells, r, k)


def sq_facts():
    a, b, x, y = z3.Ints("a!sq b!sq x!sq y!sq")
    small = And(*[And(0 <= v, v < LIM) for v in (a, b, x, y)])
    t = SQ(a, b, x, y)
    return [z3.ForAll([a, b, x, y], And(t >= 0, (t == 0) == And(a == x, b == y), Imp(small, t < MAX), t == SQ(x, y, a, b), z3.If(And(a - x <= 1, x - a <= 1, b - y <= 1, y - b <= 1), t <= 2, t >= 4)), patterns=[t])]


def sq():
    d = lambda c: (c.arg(0).row - c.arg(1).row, c.arg(0).col - c.arg(1).col)
    def post(c):
        dr, dc = d(c)
        w = And(*[And(-LIM < v, v < LIM) for v in (dr, dc)])
        return [("the squared distance", c.ret == dr * dr + dc * dc), ("not negative", c.ret >= 0), ("zero for the same cell only", (c.ret == 0) == And(dr == 0, dc == 0)), ("an int", Imp(w, c.ret < MAX)), ("same either way", c.ret == (-dr) * (-dr) + (-dc) * (-dc)), ("neighbours", z3.If(And(-1 <= dr, dr <= 1, -1 <= dc, dc <= 1), c.ret <= 2, c.ret >= 4))]
    return Contract("Planner::SquaredDistance", ensures=post)


def sq_abs():
    return Contract("Planner::SquaredDistance", assumed=True, note="proved in the group on cells", result=lambda c: SQ(c.arg(0).row, c.arg(0).col, c.arg(1).row, c.arg(1).col))


# ---- what a distance map is ------------------------------------------------------------------------------------
def near(m): return m.f["m_obstacle"] if "m_obstacle" in m.f else m.f["m_edge"]
def valid(p): return And(p.row >= 0, p.col >= 0)
def src(m, r, k): return cell(near(m), r, k)
def own(m, r, k): return And(src(m, r, k).row == r, src(m, r, k).col == k)
def cnt(m, r, k): return sel(m.m_open.f["cnt"], r, k)
def ins(m, r, k): return inside(r, k, m.rows, m.columns)


def size(m):
    return [("the grids have the size of the map", And(0 < m.rows, m.rows <= LIM, 0 < m.columns, m.columns <= LIM, *[And(g.rows == m.rows, g.columns == m.columns) for n, g in m.f.items() if isinstance(g, V) and "cells" in g.f]))]


def exact(m):
    r, k = q("r", "k")
    p, d = src(m, r, k), cell(m.m_distance, r, k)
    return [("the distance of a cell is the distance to the cell it names, the maximum if it names none", z3.ForAll([r, k], Imp(ins(m, r, k), And(valid(p) == (d < MAX), d >= 0, d <= MAX, Imp(valid(p), And(ins(m, p.row, p.col), d == SQ(p.row, p.col, r, k)))))))]


def queue(m):
    r, k = q("r", "k")
    return [("queued cells lie in the map", z3.ForAll([r, k], And(cnt(m, r, k) >= 0, Imp(cnt(m, r, k) > 0, ins(m, r, k)))))]


def waiting(m, but=None, part=0):
    """cells that wait are queued, once more if they are also to be raised"""
    r, k = q("r", "k")
    raised, proc = cell(m.m_toRaise, r, k), cell(m.m_toProcess, r, k)
    ex = [] if but is None else [Or(r != but[0], k != but[1])]
    out = [("a cell to raise waits", z3.ForAll([r, k], Imp(And(ins(m, r, k), raised, *ex), And(proc, cnt(m, r, k) >= 1)))),
           ("an obstacle that waits is queued", z3.ForAll([r, k], Imp(And(ins(m, r, k), own(m, r, k), proc, *ex), cnt(m, r, k) >= z3.If(raised, z3.IntVal(2), z3.IntVal(1)))))]
    return out


def no_raise(m):
    r, k = q("r", "k")
    return z3.ForAll([r, k], Imp(ins(m, r, k), Not(cell(m.m_toRaise, r, k))))


def closest(m, but=None):
    """without removals: every named cell is an obstacle, and no neighbour's is closer"""
    r, k, x, y = q("r", "k", "x", "y")
    p = src(m, r, k)
    ex = [] if but is None else [Or(r != but[0], k != but[1])]
    return [("nothing is to be raised", no_raise(m)), ("a named cell is an obstacle", z3.ForAll([r, k], Imp(And(ins(m, r, k), valid(p)), own(m, p.row, p.col)))),
            ("a waiting cell names one", z3.ForAll([r, k], Imp(And(ins(m, r, k), cell(m.m_toProcess, r, k)), And(valid(p), cnt(m, r, k) > 0)))),
            ("the obstacle of a finished cell is not closer to a neighbour than the neighbour's own", z3.ForAll([r, k, x, y], Imp(And(ins(m, r, k), Not(cell(m.m_toProcess, r, k)), valid(p), adj(r, k, m.rows, m.columns, x, y), *ex), cell(m.m_distance, x, y) <= SQ(p.row, p.col, x, y))))]


def whole(m): return size(m) + exact(m) + queue(m)


def same_own(m, w):
    r, k = q("r", "k")
    return z3.ForAll([r, k], Imp(ins(m, r, k), own(m, r, k) == own(w, r, k)))


# ---- the map of obstacles and its map of edges ------------------------------------------------------------------
def voro(c): return c.deref(c.this.m_voronoiMap, VM)


def apart(c, but=None):
    """a finished obstacle cell is not an edge"""
    m, v = c.this, voro(c)
    r, k = q("r", "k")
    ex = [] if but is None else [Or(r != but[0], k != but[1])]
    has = c.this.m_voronoiMap != 0
    return [("the map of edges", Imp(has, And(c.this.m_voronoiMap > 0, c.this.m_voronoiMap < c.st.alloc, v.rows == m.rows, v.columns == m.columns, *[f for _, f in whole(v)]))),
            ("a finished obstacle is not an edge", Imp(has, z3.ForAll([r, k], Imp(And(ins(m, r, k), own(m, r, k), Not(cell(m.m_toProcess, r, k)), *ex), Not(own(v, r, k))))))]


def occupancy(c):
    g = c.deref(c.this.m_occupancy, "Planner::Grid<int>")
    return [("the occupancy grid has the size of the map", And(c.this.m_occupancy > 0, c.this.m_occupancy < c.st.alloc, g.rows == c.this.rows, g.columns == c.this.columns))]


def tu():
    ex = verifier("map.cpp")
    ex.ty.keyfns = {r"^pq|^Ty\(.?pq|priority_queue": ([I, I], lambda s, st, v: [v.position.row, v.position.col])}
    for k in (VALID, EQ, NE, GETNB):
        ex.add(Contract(k.name, nparams=k.nparams, pred=k.pred, requires=k.requires, ensures=k.ensures, assumed=True, note="proved in C05"))
    return ex


def abstract(ex):
    ex.add(sq_abs())
    for f in sq_facts():
        ex.axiom(f)
    return ex


def at_cell(c): return ("the cell lies in the map", ins(c.this, c.arg(0).row, c.arg(0).col))


def others(c):
    m, w, a = c.this, c.old.this, c.arg(0)
    r, k = q("r", "k")
    return z3.ForAll([r, k], Imp(And(ins(m, r, k), Or(r != a.row, k != a.col)), And(src(m, r, k).row == src(w, r, k).row, src(m, r, k).col == src(w, r, k).col, cell(m.m_distance, r, k) == cell(w.m_distance, r, k), cell(m.m_toRaise, r, k) == cell(w.m_toRaise, r, k),
                                                                   cell(m.m_toProcess, r, k) == cell(w.m_toProcess, r, k))))


def edits(cls):
    put, take = ("SetObstacle", "UnsetObstacle") if cls == O else ("SetEdge", "UnsetEdge")
    extra = (lambda c: apart(c)) if cls == O else (lambda c: [])
    inv = lambda c: whole(c.this) + extra(c) + waiting(c.this)
    if cls == VM:
        inv = lambda c: whole(c.this)
    a = lambda c: (c.arg(0).row, c.arg(0).col)
    mods = lambda c: [Fld(c._this, n) for n in ("m_obstacle" if cls == O else "m_edge", "m_distance", "m_open", "m_toProcess", "m_toRaise")]
    return [Contract(cls + "::" + put, requires=lambda c: [at_cell(c)] + inv(c), modifies=mods,
                     ensures=lambda c: inv(c) + [("the cell is its own nearest, at distance zero", And(own(c.this, *a(c)), cell(c.this.m_distance, *a(c)) == 0)), ("it waits", And(cell(c.this.m_toProcess, *a(c)), cnt(c.this, *a(c)) >= 1)), ("no other cell changes", others(c))] +
                     ([("no removal, no loss: " + l, Imp(And(*[f for _, f in closest(c.old.this)]), f2)) for l, f2 in closest(c.this)] if cls == O else [])),
            Contract(cls + "::" + take, requires=lambda c: [at_cell(c)] + inv(c), modifies=mods,
                     ensures=lambda c: inv(c) + [("the cell names none and its distance is the maximum", And(Not(valid(src(c.this, *a(c)))), cell(c.this.m_distance, *a(c)) == MAX)), ("no other cell changes", others(c))])]


def check_voro():
    def pre(c):
        m = c.this
        s, n = c.arg(0), c.arg(1)
        return size(m) + exact(m) + occupancy(c) + apart(c)[:1] + [("a map of edges", m.m_voronoiMap != 0), ("neighbours", And(ins(m, s.row, s.col), adj(s.row, s.col, m.rows, m.columns, n.row, n.col))), ("both name an obstacle", And(valid(src(m, s.row, s.col)), valid(src(m, n.row, n.col))))]
    def post(c):
        v, w = voro(c), voro(c.old)
        r, k = q("r", "k")
        return apart(c)[:1] + [("an obstacle's cell does not become an edge", z3.ForAll([r, k], Imp(And(ins(c.this, r, k), own(c.this, r, k), own(v, r, k)), own(w, r, k)))), ("size", And(c.this.m_voro.rows == c.old.this.m_voro.rows, c.this.m_voro.columns == c.old.this.m_voro.columns))]
    return Contract(O + "::CheckVoro", requires=pre, ensures=post, modifies=lambda c: [Fld(c._this, "m_voro"), Heap(VM, c.this.m_voronoiMap)])


def update_edges():
    cellv = lambda c: c.var("s")
    inv = lambda c: whole(c.this) + [("the same edges as before", same_own(c.this, c.old.this))]
    def loop(c):
        s, p, ns = cellv(c), loop_index(c), c.var("__range")
        return inv(c) + [("the cell", ins(c.this, s.row, s.col)), ("range", And(0 <= p, p <= ns.len))] + [("neighbours: " + l, f) for l, f in nb_pos(s.row, s.col, c.this.rows, c.this.columns, ns)]
    def low(c):
        s = cellv(c)
        e = src(c.this, s.row, s.col)
        return loop(c) + [("the cell names an edge", And(valid(e), own(c.this, e.row, e.col)))]
    var = lambda c: c.var("__range").len - loop_index(c)
    return Contract(VM + "::Update", requires=lambda c: whole(c.this), ensures=inv, modifies=lambda c: [c._this], loops=[Loop(inv), Loop(loop, variant=var), Loop(low, variant=var)])


def update_obstacles():
    cellv = lambda c: c.var("s")
    def inv(c, but=None):
        nr = And(*[f for _, f in closest(c.old.this)])
        m = c.this
        return whole(m) + occupancy(c) + apart(c) + [("the same obstacles as before", same_own(m, c.old.this))] + waiting(m, but) + [("no removal: " + l, Imp(nr, f)) for l, f in closest(m, but)]
    def loop(c):
        s, p, ns = cellv(c), loop_index(c), c.var("__range")
        return [("the cell", ins(c.this, s.row, s.col)), ("range", And(0 <= p, p <= ns.len))] + [("neighbours: " + l, f) for l, f in nb_pos(s.row, s.col, c.this.rows, c.this.columns, ns)]
    def raising(c):
        s = cellv(c)
        m = c.this
        at = (s.row, s.col)
        return [x for x in inv(c, at) if not x[0].startswith("no removal")] + loop(c) + [("raised cells exist after a removal only", Not(And(*[f for _, f in closest(c.old.this)]))), ("the raised cell", And(cell(m.m_toRaise, *at), cell(m.m_toProcess, *at), Imp(own(m, *at), cnt(m, *at) >= 1)))]
    def low(c):
        s, m, p, ns = cellv(c), c.this, loop_index(c), c.var("__range")
        e = src(m, s.row, s.col)
        nr = And(*[f for _, f in closest(c.old.this)])
        out = inv(c, (s.row, s.col)) + loop(c) + [("the cell names an obstacle", And(valid(e), own(m, e.row, e.col))), ("the cell is done", And(Not(cell(m.m_toProcess, s.row, s.col)), Not(cell(m.m_toRaise, s.row, s.col))))]
        for i in range(8):
            n = (z3.Select(ns.a.row, z3.IntVal(i)), z3.Select(ns.a.col, z3.IntVal(i)))
            out.append(("neighbour %d has nothing closer" % i, Imp(And(nr, i < p), cell(m.m_distance, *n) <= SQ(e.row, e.col, *n))))
        return out
    def done(c):
        s, m = cellv(c), c.this
        e = src(m, s.row, s.col)
        x, y = q("x", "y")
        nr = And(*[f for _, f in closest(c.old.this)])
        return [("no neighbour has something closer", Imp(And(nr, loop_index(c) == c.var("__range").len), z3.ForAll([x, y], Imp(adj(s.row, s.col, m.rows, m.columns, x, y), cell(m.m_distance, x, y) <= SQ(e.row, e.col, x, y)))))]
    def post(c):
        m, w = c.this, c.old.this
        r, k, x, y = q("r", "k", "x", "y")
        p = src(m, r, k)
        nr = And(*[f for _, f in closest(w)])
        v = voro(c)
        return whole(m) + apart(c)[:1] + [("the same obstacles as before", same_own(m, w)), ("the queue is empty", m.m_open.n == 0), ("an obstacle cell has distance zero", z3.ForAll([r, k], Imp(And(ins(m, r, k), own(m, r, k)), cell(m.m_distance, r, k) == 0))),
                ("no obstacle cell is an edge", Imp(m.m_voronoiMap != 0, z3.ForAll([r, k], Imp(And(ins(m, r, k), own(m, r, k)), Not(own(v, r, k)))))),
                ("without removals every named cell is an obstacle", Imp(nr, z3.ForAll([r, k], Imp(And(ins(m, r, k), valid(p)), own(m, p.row, p.col))))),
                ("without removals no neighbour's obstacle is closer", Imp(nr, z3.ForAll([r, k, x, y], Imp(And(ins(m, r, k), valid(p), adj(r, k, m.rows, m.columns, x, y)), cell(m.m_distance, x, y) <= SQ(p.row, p.col, x, y)))))] + [("again: " + l, f) for l, f in waiting(m)] + [("again: " + l, Imp(nr, f)) for l, f in closest(m)]
    var = lambda c: c.var("__range").len - loop_index(c)
    return Contract(O + "::Update", requires=lambda c: whole(c.this) + occupancy(c) + apart(c) + waiting(c.this), ensures=post, modifies=lambda c: [c._this] + [("heap", VM, n) for n in ("rows", "columns", "resolution", "m_distance", "m_edge", "m_toRaise", "m_toProcess", "m_open")],
                    loops=[Loop(inv, forget=True), Loop(raising, variant=var, forget=True), Loop(low, variant=var, lemma=done, forget=True)])


def assumed(k):
    k.assumed, k.note = True, "proved in another group"
    return k


def group_voro():
    ex = abstract(tu())
    ex.add(*[assumed(k) for k in edits(VM)])
    ex.verify(check_voro())
    return ex


def group_edges():
    ex = abstract(tu())
    ex.verify(update_edges())
    return ex


def group_obstacles():
    ex = abstract(tu())
    ex.add(assumed(check_voro()), *[assumed(k) for k in edits(VM)])
    ex.verify(update_obstacles())
    return ex


def group_made():
    ex = abstract(tu())
    post = lambda c: whole(c.this) + waiting(c.this) + closest(c.this) + [("no cell names an obstacle, all distances are maximal", (lambda r, k: z3.ForAll([r, k], Imp(ins(c.this, r, k), And(Not(valid(src(c.this, r, k))), cell(c.this.m_distance, r, k) == MAX))))(*q("r", "k"))), ("no map of edges yet", c.this.m_voronoiMap == 0)]
    grid = lambda c: c.deref(c.arg(0), "Planner::Grid<int>")
    ex.verify(Contract(O + "::ObstacleDistanceMap", requires=lambda c: [("an occupancy grid", And(c.arg(0) > 0, c.arg(0) < c.st.alloc, grid(c).rows > 0, grid(c).rows <= LIM, grid(c).columns > 0, grid(c).columns <= LIM))], ensures=lambda c: post(c) + occupancy(c)))
    ex.verify(Contract(VM + "::VoronoiDistanceMap", requires=lambda c: [("a size", And(c.arg(0) > 0, c.arg(0) <= LIM, c.arg(1) > 0, c.arg(1) <= LIM))], ensures=lambda c: whole(c.this)))
    return ex


def group_potential():
    ex = abstract(tu())
    ex.ty.overrides = {r"float \*": Ty("vec", [Ty("real")])}
    ex.ty.cache.clear()
    ex.ty.shape_cache.clear()
    a, b, x, y, n = z3.Ints("a!ix b!ix x!ix y!ix n!ix")
    IX = z3.Function("index_of_cell", I, I, I, I)
    one = And(0 <= b, b < n, 0 <= y, y < n)
    ex.axiom(z3.ForAll([a, b, n], IX(a, b, n) == a * n + b, patterns=[IX(a, b, n)]))
    ex.axiom(z3.ForAll([a, b, x, y, n], Imp(And(one, IX(a, b, n) == IX(x, y, n)), And(a == x, b == y)), patterns=[z3.MultiPattern(IX(a, b, n), IX(x, y, n))]))
    m, v = (lambda c: c.arg(0)), (lambda c: c.arg(1))
    def pre(c):
        r, k = q("r", "k")
        return size(m(c)) + exact(m(c)) + size(v(c)) + exact(v(c)) + [("one size", And(c.this.rows == m(c).rows, c.this.columns == m(c).columns, v(c).rows == m(c).rows, v(c).columns == m(c).columns)), ("one resolution", And(m(c).resolution > 0, v(c).resolution == m(c).resolution)),
                ("one value per cell", c.this.m_data.len == c.this.rows * c.this.columns), ("parameters", And(c.this.alpha > 0, c.this.dMax > 0)), ("no cell is an obstacle and an edge", z3.ForAll([r, k], Imp(ins(m(c), r, k), Not(And(own(m(c), r, k), own(v(c), r, k))))))]
    def ok(c, r, k):
        p = at(c.this.m_data, IX(r, k, c.this.columns))
        d = SQRT(z3.ToReal(cell(m(c).m_distance, r, k))) * m(c).resolution
        return [("zero from the cut-off distance on", Imp(d >= c.this.dMax, p == 0))]
    def formula(c, r, k):
        d, v_ = [SQRT(z3.ToReal(cell(g.m_distance, r, k))) * g.resolution for g in (m(c), v(c))]
        al, mx = c.this.alpha, c.this.dMax
        return at(c.this.m_data, IX(r, k, c.this.columns)) == z3.If(Or(d >= mx, v_ == INF), z3.RealVal(0), (al / (al + d)) * (v_ / (d + v_)) * (((d - mx) * (d - mx)) / (mx * mx)))
    def upto(c, rows, cols=None):
        r, k = q("r", "k")
        w = [r < rows] if cols is None else [Or(r < rows, And(r == rows, k < cols))]
        return [("potentials so far", z3.ForAll([r, k], Imp(And(inside(r, k, c.this.rows, c.this.columns), *w), formula(c, r, k))))] + [("rows", And(0 <= rows, rows <= c.this.rows)), ("size", And(c.this.rows == c.old.this.rows, c.this.columns == c.old.this.columns, c.this.m_data.len == c.this.rows * c.this.columns, c.this.alpha == c.old.this.alpha, c.this.dMax == c.old.this.dMax))] + ([] if cols is None else [("index", And(IX(rows, cols, c.this.columns) >= 0, Imp(cols < c.this.columns, IX(rows, cols, c.this.columns) < c.this.m_data.len))), ("columns", And(rows < c.this.rows, 0 <= cols, cols <= c.this.columns))])
    def post(c):
        r, k = q("r", "k")
        return [(l, z3.ForAll([r, k], Imp(inside(r, k, c.this.rows, c.this.columns), f))) for l, f in ok(c, r, k) + [("the stated potential", formula(c, r, k))]]
    ex.verify(Contract(PC + "::Update", requires=pre, ensures=post, modifies=lambda c: [c._this], loops=[Loop(lambda c: upto(c, c.var("r"))), Loop(lambda c: upto(c, c.var("r"), c.var("c")))]))
    return ex


def group_cells():
    ex = tu()
    ex.verify(sq())
    al, d, w, mx, a, b, c = z3.Reals("alpha to_obstacle to_edge cutoff f g h")
    unit = lambda x: And(0 <= x, x <= 1)
    pos = [al > 0, d >= 0, w >= 0, d + w > 0, mx > 0, d < mx]
    ex.lemma("potential: the first factor lies between 0 and 1", pos, unit(al / (al + d)))
    ex.lemma("potential: the second factor lies between 0 and 1", pos, unit(w / (d + w)))
    ex.lemma("potential: the third factor lies between 0 and 1", pos, unit(((d - mx) * (d - mx)) / (mx * mx)))
    ex.lemma("potential: so does their product", [unit(a), unit(b), unit(c)], unit(a * b * c))
    return ex


def group_edits():
    ex = abstract(tu())
    for cls in (VM, O):
        for k in edits(cls):
            ex.verify(k)
    return ex


def groups():
    return [dict(name="cells", run=group_cells), dict(name="new maps", run=group_made), dict(name="potential", run=group_potential), dict(name="edits", run=group_edits), dict(name="edge candidates", run=group_voro), dict(name="waves of edges", run=group_edges), dict(name="waves of obstacles", run=group_obstacles)]
