from .util import *

HARNESS = "c08.cpp"
SECONDS = 5
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["the pieces of a composite path are distinct objects with non-negative lengths (as the search builds them)",
               "every piece behaves as an elementary path (its interface contract here is what C07 proves for the elementary paths)"]

PC = "Planner::PathComposite::"
CLS = "Planner::PathNonHolonomic<Planner::Pose2<double>>"

CX, CY, CT = [z3.Function("curve_" + n, I, R, R) for n in "xyt"]
DIR = z3.Function("curve_direction", I, R, I)
CUSP = z3.Function("curve_cusp", I, R, B)


def curve(ref, x):
    return V({"position": V({"x": CX(ref, x), "y": CY(ref, x)}), "theta": CT(ref, x)})


def same(a, b):
    return And(a.position.x == b.position.x, a.position.y == b.position.y, a.theta == b.theta)


def unit(c):
    return [("a ratio between 0 and 1", And(0 <= c.arg(0), c.arg(0) <= 1))]


def interface():
    """What a composite path may rely on for its pieces."""
    ln = lambda c: c.this.m_length
    interp = Contract("Planner::Path::Interpolate", nparams=1, pred=lambda f: "vector" not in f.fntype, assumed=True, note="interface of a piece, proved for the elementary paths in C07",
                      requires=unit, ensures=lambda c: [("the state at that distance", And(same(c.ret, curve(c._this.ref, c.arg(0) * ln(c))), Imp(c.arg(0) == 1, same(c.ret, c.this.m_final)), Imp(c.arg(0) == 0, same(c.ret, c.this.m_init))))])
    trunc = Contract("Planner::Path::Truncate", nparams=1, assumed=True, note="interface of a piece, proved for the elementary paths in C07", requires=unit, modifies=lambda c: [c._this],
                     ensures=lambda c: [("cut", And(c.this.m_length == c.arg(0) * c.old.this.m_length, same(c.this.m_init, c.old.this.m_init), same(c.this.m_final, curve(c._this.ref, c.arg(0) * c.old.this.m_length))))])
    dirn = Contract("Planner::PathNonHolonomic::GetDirection", nparams=1, assumed=True, note="interface of a piece, proved for the elementary paths in C07", requires=unit,
                    ensures=lambda c: [("the direction there", And(c.ret == DIR(c._this.ref, c.arg(0) * ln(c)), c.ret >= 0, c.ret <= 2))])
    def cuspset(c):
        r = fresh_real()
        return [("the cusps", z3.ForAll([r], sel(c.ret.f["has"], r) == CUSP(c._this.ref, r), patterns=[CUSP(c._this.ref, r)]))]
    cusp = Contract("Planner::PathNonHolonomic::GetCuspPointRatios", nparams=0, assumed=True, note="interface of a piece, proved for the Reeds-Shepp path in C07", ensures=cuspset)
    return interp, trunc, dirn, cusp


def n_(p):
    return p.m_paths.len


def info(p, i):
    return at(p.m_paths, i).f["0"]


def ref(p, i):
    return at(p.m_paths, i).f["1"]


def piece(c, p, i):
    return c.deref(ref(p, i), CLS)


def well(c):
    """The composite's own bookkeeping."""
    p = c.this
    n = n_(p)
    q = lambda i: piece(c, p, i)
    return [("bookkeeping", And(n >= 0,
            all_int(0, n, lambda i: And(ref(p, i) > 0, ref(p, i) < c.st.alloc, q(i).m_length >= 0, info(p, i).finalLength == info(p, i).initLength + q(i).m_length)),
            all_int(1, n, lambda i: info(p, i).initLength == info(p, i - 1).finalLength),
            forall(2, lambda i, j: Imp(And(0 <= i, i < j, j < n), And(ref(p, i) != ref(p, j), info(p, i).finalLength <= info(p, j).initLength)))),),
            ("it spans its pieces", And(Imp(n == 0, p.m_length == 0),
                Imp(n > 0, And(info(p, 0).initLength == 0, p.m_length == info(p, n - 1).finalLength, same(p.m_init, q(0).m_init), same(p.m_final, q(n - 1).m_final)))))]


def in_force(p, i, x):
    return And(0 <= i, i < n_(p), info(p, i).initLength <= x, x < info(p, i).finalLength)


def group():
    ex = verifier("composite.cpp")
    for k in interface():
        ex.add(k)
    old = lambda c: c.old.this

    def push_post(c):
        p, o = c.this, c.old.this
        n = n_(o)
        new = c.deref(c.arg(0), CLS)
        return [("one piece is appended", And(n_(p) == n + 1, ref(p, n) == c.arg(0), all_int(0, n, lambda i: And(ref(p, i) == ref(o, i), info(p, i).initLength == info(o, i).initLength, info(p, i).finalLength == info(o, i).finalLength)))),
                ("the length grows by that of the piece", p.m_length == o.m_length + new.m_length),
                ("it ends where the last piece ends", same(p.m_final, new.m_final)),
                ("it starts where the first piece starts", Imp(n > 0, same(p.m_init, o.m_init))), ("and where the new piece starts when it was empty", Imp(n == 0, same(p.m_init, new.m_init)))]
    push = Contract(PC + "PushBack", inv=well, modifies=lambda c: [c._this],
                    requires=lambda c: [("a piece that is not yet in the path", And(c.arg(0) > 0, c.arg(0) < c.st.alloc, c.deref(c.arg(0), CLS).m_length >= 0, all_int(0, n_(c.this), lambda i: ref(c.this, i) != c.arg(0))))], ensures=push_post)
    ex.verify(push)

    x = lambda c: c.arg(0) * c.old.this.m_length
    def find_post(c):
        it, r = c.ret.f["0"], c.ret.f["1"]
        p = c.this
        i = it.i
        q = piece(c, p, i)
        return [("the end means the end of the path", Imp(i == n_(p), And(r == 1, x(c) == p.m_length))),
                ("otherwise the piece in force", Imp(i != n_(p), in_force(p, i, x(c)))),
                ("and the ratio inside it", Imp(i != n_(p), And(0 <= r, r <= 1, r * q.m_length == x(c) - info(p, i).initLength))), ("a position in the list", And(0 <= i, i <= n_(p)))]
    def find_result(c):
        from dv.core import It, Fld
        return V({"0": It(Fld(c._this, "m_paths"), fresh_int("piece")), "1": fresh_real("pieceratio")})
    find = Contract(PC + "FindSegment", inv=well, requires=unit, ensures=find_post, result=find_result, facts=lambda c: find_facts(c))
    def find_facts(c):
        p = c.this
        n = n_(p)
        # the list is ordered by finalLength, a consequence of the bookkeeping (proved as a lemma below)
        return []
    ex.verify(find)
    ex.add(find)

    def interp_post(c):
        i = fresh_int()
        p = c.this
        return [("the state at that distance on the piece in force", z3.ForAll([i], Imp(in_force(p, i, x(c)), same(c.ret, curve(ref(p, i), x(c) - info(p, i).initLength))))),
                ("the end of the last piece at the end", Imp(x(c) == p.m_length, same(c.ret, p.m_final)))]
    ex.verify(Contract(PC + "Interpolate", nparams=1, pred=lambda f: "vector" not in f.fntype, inv=well, requires=lambda c: unit(c) + [("not empty", n_(c.this) > 0)], ensures=interp_post))

    def dir_post(c):
        i = fresh_int()
        p = c.this
        return [("the direction of the piece in force", z3.ForAll([i], Imp(in_force(p, i, x(c)), c.ret == DIR(ref(p, i), x(c) - info(p, i).initLength)))),
                ("none without pieces", Imp(n_(p) == 0, c.ret == 2)),
                ("that of the last piece at the end", Imp(And(n_(p) > 0, x(c) == p.m_length), c.ret == DIR(ref(p, n_(p) - 1), piece(c, p, n_(p) - 1).m_length)))]
    ex.verify(Contract("Planner::PathSE2CompositeNonHolonomic::GetDirection", inv=well, requires=unit, ensures=dir_post))

    def trunc_post(c):
        p, o = c.this, c.old.this
        k = fresh_int()
        kept = lambda i: And(ref(p, i) == ref(o, i), info(p, i).initLength == info(o, i).initLength)
        return [("the length is scaled", p.m_length == x(c)), ("the start stays", Imp(n_(o) > 0, same(p.m_init, o.m_init))),
                ("what lies before the cut is kept, the piece cut is shortened and the rest is gone", z3.ForAll([k], Imp(in_force(o, k, x(c)),
                    And(n_(p) == k + 1, all_int(0, k + 1, kept), all_int(0, k, lambda i: piece(c, p, i).m_length == piece(c.old, o, i).m_length), same(p.m_final, curve(ref(o, k), x(c) - info(o, k).initLength)))))),
                ("cutting at the end changes nothing", Imp(x(c) == o.m_length, And(n_(p) == n_(o), all_int(0, n_(o), lambda i: And(kept(i), piece(c, p, i).m_length == piece(c.old, o, i).m_length)), same(p.m_final, o.m_final))))]
    ex.verify(Contract(PC + "Truncate", inv=well, requires=unit, modifies=lambda c: [c._this], noframe=True, ensures=trunc_post))

    # cusps: the direction in force before piece i is that at the end of the last piece before it that has a length
    prev = z3.Function("direction_before", I, I)
    def prev_facts(c):
        p = c.this
        i = fresh_int()
        q = piece(c, p, i)
        return [prev(z3.IntVal(0)) == 2, z3.ForAll([i], Imp(And(0 <= i, i < n_(p)), prev(i + 1) == z3.If(q.m_length == 0, prev(i), DIR(ref(p, i), q.m_length))), patterns=[prev(i + 1)])]
    def is_cusp(c, p, i, r):
        q = piece(c, p, i)
        d = fresh_real()
        ratio = lambda y: y / p.m_length
        return And(q.m_length != 0, Or(And(prev(i) != 2, prev(i) != DIR(ref(p, i), z3.RealVal(0)), r == ratio(info(p, i).initLength)),
                                       z3.Exists([d], And(CUSP(ref(p, i), d), r == ratio(info(p, i).initLength + d * q.m_length)))))
    def sound(c, k, also=None):
        p = c.this
        r, i = fresh_real(), fresh_int()
        has = sel(c.var("ratios").f["has"], r)
        alts = [z3.Exists([i], And(0 <= i, i < k, is_cusp(c, p, i, r)))] + ([also(r)] if also else [])
        return z3.ForAll([r], Imp(has, Or(*alts)))
    def complete(c, rs, k):
        p = c.this
        i, d = fresh_int(), fresh_real()
        q = piece(c, p, i)
        return (z3.ForAll([i], Imp(And(0 <= i, i < k, q.m_length != 0, prev(i) != 2, prev(i) != DIR(ref(p, i), z3.RealVal(0))), sel(rs, info(p, i).initLength / p.m_length))),
                   z3.ForAll([i, d], Imp(And(0 <= i, i < k, q.m_length != 0, CUSP(ref(p, i), d)), sel(rs, (info(p, i).initLength + d * q.m_length) / p.m_length)), patterns=[CUSP(ref(p, i), d)]))
    def outer(c):
        p = c.this
        k = c.var("__pos")
        return [("position", And(0 <= k, k <= n_(p))), ("the length travelled", c.var("length") == z3.If(k == 0, 0, info(p, k - 1).finalLength)), ("the direction in force", c.var("prevDirection") == prev(k)),
                ("every junction cusp so far is reported", complete(c, c.var("ratios").f["has"], k)[0]), ("every inner cusp so far is reported", complete(c, c.var("ratios").f["has"], k)[1]), ("only cusps are reported", sound(c, k))]
    def inner(c):
        p = c.this
        k = c.var("__pos")
        d = fresh_real()
        q = piece(c, p, k)
        r = fresh_real()
        cond = And(prev(k) != 2, prev(k) != DIR(ref(p, k), z3.RealVal(0)))
        return [("every junction cusp so far is reported", And(complete(c, c.var("ratios").f["has"], k)[0], Imp(cond, sel(c.var("ratios").f["has"], info(p, k).initLength / p.m_length)))), ("every inner cusp so far is reported", complete(c, c.var("ratios").f["has"], k)[1]),
                ("every cusp of this piece visited is reported", z3.ForAll([d], Imp(sel(c.var("__visited").f["has"], d), And(CUSP(ref(p, k), d), sel(c.var("ratios").f["has"], (info(p, k).initLength + d * q.m_length) / p.m_length))))),
                ("only cusps are reported", sound(c, k + 1))]
    def cusp_post(c):
        p = c.this
        r, i = fresh_real(), fresh_int()
        rs = c.ret.f["has"]
        return [("every cusp is reported at its place on the composite", And(*complete(c, rs, n_(p)))),
                ("only cusps are reported", z3.ForAll([r], Imp(sel(rs, r), z3.Exists([i], And(0 <= i, i < n_(p), is_cusp(c, p, i, r))))))]
    ex.verify(Contract("Planner::PathSE2CompositeNonHolonomic::GetCuspPointRatios", inv=well, facts=prev_facts, ensures=cusp_post, loops=[Loop(outer), Loop(inner)]))
    return ex


def groups():
    return [dict(name="composite paths", run=group)]
