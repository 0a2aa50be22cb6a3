from .util import *

HARNESS = "c06.cpp"
OPT = "-O2"
SECONDS = 8
BOUNDED = "machine rounding (the proofs are over the reals) is only exercised by the harness, which also compares the paths with its own copy of the 48 words"
ASSUMPTIONS = ["the double and float arithmetic of the solver is real arithmetic; infinity is larger than every finite value; a length or price that is not a number (0/0 when two turn centres coincide) compares false and is never selected",
               "the goal is at most 1e100 turning radii away",
               "sin, cos, atan2, asin, acos, sqrt and fmod are the mathematical functions (addition theorems, ranges and defining equations are used)",
               "where the words are compared (groups selection and optimum), 'the word reaches the pose', 'the segment is the word' and 'the mirror images of the goal' are names for the formulas proved in the groups words, mirror images, segments, goals and lengths; the functions called there are functions of their arguments",
               "a word applies where the centres of its first and last turn are at a distance that its construction allows; the words of the first three kinds are only used with turns of at most half a circle, as the code restricts them"]

NS = "Planner::ReedsShepp::"
PR = NS + "Private::"
L_, S_, R_ = 0, 1, 2
F_, B_ = 0, 1
STEER, DIR = {"L": L_, "S": S_, "R": R_}, {"f": F_, "b": B_}
Q = "q"       # a quarter turn
# the twelve base words: steering and direction of each motion, and which of t, u, v (or a quarter turn) is its length
WORDS = [("LfSfLf", "Lf Sf Lf", "tuv"), ("LfSfRf", "Lf Sf Rf", "tuv"), ("LfRbLf", "Lf Rb Lf", "tuv"), ("LfRbLb", "Lf Rb Lb", "tuv"), ("LfRfLb", "Lf Rf Lb", "tuv"),
         ("LfRufLubRb", "Lf Rf Lb Rb", "tuuv"), ("LfRubLubRf", "Lf Rb Lb Rf", "tuuv"), ("LfRbpi2SbLb", "Lf Rb Sb Lb", "tquv"), ("LfRbpi2SbRb", "Lf Rb Sb Rb", "tquv"),
         ("LfSfRfpi2Lb", "Lf Sf Rf Lb", "tuqv"), ("LfSfLfpi2Rb", "Lf Sf Lf Rb", "tuqv"), ("LfRbpi2SbLbpi2Rf", "Lf Rb Sb Lb Rf", "tquqv")]


def motions(b, flip=False, mirror=False):
    out = []
    for m, l in zip(WORDS[b][1].split(), WORDS[b][2]):
        s, d = STEER[m[0]], DIR[m[1]]
        out.append(((2 - s) if mirror else s, (1 - d) if flip else d, l))
    return out


def lengths(t, u, v):
    return {"t": t, "u": u, "v": v, "q": PI / 2}


def follow(ms, ln):
    """where a vehicle of unit turning radius ends that starts at the origin: x, y, heading"""
    x, y, h = z3.RealVal(0), z3.RealVal(0), z3.RealVal(0)
    for s, d, l in ms:
        l = ln[l] if d == F_ else -ln[l]
        if s == S_:
            x, y = x + l * COS(h), y + l * SIN(h)
        else:
            k = 1 if s == L_ else -1
            n = h + k * l
            x, y, h = x + k * (SIN(n) - SIN(h)), y - k * (COS(n) - COS(h)), n
    return x, y, h


def total(b, t, u, v):
    ln = lengths(t, u, v)
    return z3.Sum([ln[l] for l in WORDS[b][2]])


FAR = z3.RealVal(10 ** 100)


def bounded(c):
    p = c.arg(0).position
    return [("coordinates are at most 1e100 radii", And(p.x <= FAR, p.x >= -FAR, p.y <= FAR, p.y >= -FAR))]


def applies(b, g, t, u, v):
    """where the construction of the word is possible: the distance of the centres of the first and the last turn, and the turns of the words that are kept within half a turn"""
    k = 1 if b in (0, 2, 3, 4, 7, 9) else -1       # the last turn is a left one
    x, y = g.position.x - k * SIN(g.theta), g.position.y - 1 + k * COS(g.theta)
    d = x * x + y * y
    half = lambda *a: And(*[And(0 <= q, q <= PI) for q in a])
    return [half(t, v), And(d >= 4, half(t, v)), And(d <= 16, half(t, u, v)), d <= 16, And(0 < d, d <= 16), d <= 16, And(4 <= d, d <= 20), d >= 8, d >= 4, d >= 8, d >= 4, d >= 20][b]


def base_word(b):
    name = WORDS[b][0]

    def post(c):
        g, t, u, v = c.arg(0), c.arg(1), c.arg(2), c.arg(3)
        x, y, h = follow(motions(b), lengths(t, u, v))
        ok = c.ret < INF
        return [("the heading of the goal is reached", Imp(ok, And(SIN(h) == SIN(g.theta), COS(h) == COS(g.theta)))),
                ("the goal is reached (x)", Imp(ok, x == g.position.x)), ("the goal is reached (y)", Imp(ok, y == g.position.y)),
                ("lengths are not negative", Imp(ok, And(t >= 0, u >= 0, v >= 0))),
                ("a length or infinite", c.ret <= INF),
                ("the length is the sum", Imp(ok, c.ret == total(b, t, u, v))),
                ("the word is found wherever it applies", Imp(applies(b, g, t, u, v), ok))]
    def hints(c):
        """relations between the triangle sides and the helper angle, for the formulas that use one"""
        def var(*ns):
            for n in ns:
                try:
                    return c.var(n)
                except Exception:
                    pass
            return z3.RealVal(0)
        u, al, xi, et = c.arg(2), var("alpha", "phi"), var("xi", "x"), var("eta", "y")
        rho = SQRT(xi * xi + et * et)
        eqs = {"LfSfRf": [And(rho * COS(al) == u, rho * SIN(al) == 2), rho == u * COS(al) + 2 * SIN(al), u * SIN(al) == 2 * COS(al)],
               "LfRfLb": [rho * SIN(al) == 2 * SIN(u), rho * COS(al) == 2 - 2 * COS(u)],
               "LfRubLubRf": [rho * SIN(al) == 2 * SIN(u), rho * COS(al) == 4 - 2 * COS(u)],
               "LfRbpi2SbLb": [And(rho * COS(al) == u + 2, rho * SIN(al) == 2), rho == (u + 2) * COS(al) + 2 * SIN(al), (u + 2) * SIN(al) == 2 * COS(al)],
               "LfSfRfpi2Lb": [And(rho * COS(al) == 2, rho * SIN(al) == u + 2), rho == (u + 2) * SIN(al) + 2 * COS(al), (u + 2) * COS(al) == 2 * SIN(al)],
               "LfRbpi2SbLbpi2Rf": [And(rho * COS(al) == u + 4, rho * SIN(al) == 2), rho == (u + 4) * COS(al) + 2 * SIN(al), (u + 4) * SIN(al) == 2 * COS(al)]}.get(name, [])
        return [("not further than the coordinates", And(rho >= 0, rho <= 3 * FAR))] + [("triangle %d" % i, Imp(c.ret < INF, e)) for i, e in enumerate(eqs)]
    return Contract(PR + name, nparams=4, hints=hints, soft=True, requires=bounded, ensures=post, modifies=lambda c: [c.arglv(1), c.arglv(2), c.arglv(3)])


def group_base(b):
    def run():
        ex = verifier("rs.cpp")
        ex.check_sqrt = False
        ex.verify(base_word(b))
        return ex
    return run


# ---- segments ---------------------------------------------------------------------------------------------
NM = 5
REACH = z3.Function("word_reaches", I, R, R, R, R, R, R, R, B)      # word, t, u, v, x, y, sine and cosine of the heading


def ms(g): return [sel(g.m_motions, z3.IntVal(i)) if not isinstance(g.m_motions, V) else g.m_motions[str(i)] for i in range(NM)]
def valid(m): return And(m.length != INF, m.direction != 2)


def is_word(g, b, k, t, u, v):
    """g lists the motions of word 4 b + k, and nothing else, and states their total length"""
    ln, tab, m = lengths(t, u, v), motions(b, k in (1, 3), k in (2, 3)), ms(g)
    out = [And(m[i].steer == s, m[i].direction == d, m[i].length == ln[l]) for i, (s, d, l) in enumerate(tab)]
    return And(*out, *[Not(valid(m[i])) for i in range(len(tab), NM)], g.m_length == total(b, t, u, v))


def usable(t, u, v): return And(*[And(x >= 0, x < INF) for x in (t, u, v)])


def segment(g):
    """finite non-negative motions first, invalid ones after them, and their total length"""
    m = ms(g)
    out = [And(Imp(valid(x), And(x.length >= 0, x.length < INF, Or(x.direction == 0, x.direction == 1), x.steer >= 0, x.steer <= 2))) for x in m]
    out += [Imp(valid(m[i]), valid(m[i - 1])) for i in range(1, NM)]
    return And(*out, g.m_length == z3.Sum([z3.If(valid(x), x.length, z3.RealVal(0)) for x in m]))


def group_segments():
    ex = verifier("rs.cpp")
    for b in range(12):
        ex.verify(Contract(PR + WORDS[b][0] + "Path", requires=lambda c: [("usable lengths", usable(c.arg(0), c.arg(1), c.arg(2)))],
                           ensures=lambda c, b=b: [("the motions of the word", is_word(c.ret, b, 0, c.arg(0), c.arg(1), c.arg(2))), ("a segment", segment(c.ret))]))
    def added(c):
        m, w = ms(c.this), ms(c.old.this)
        full = And(*[valid(x) for x in w])
        first = lambda i: And(Not(valid(w[i])), *[valid(w[j]) for j in range(i)])
        same = lambda j: And(m[j].steer == w[j].steer, m[j].direction == w[j].direction, m[j].length == w[j].length)
        return [("the motion is put after the others", And(*[Imp(first(i), And(m[i].steer == c.arg(0), m[i].direction == c.arg(1), m[i].length == c.arg(2), *[same(j) for j in range(NM) if j != i])) for i in range(NM)])),
                ("its length is added", c.this.m_length == c.old.this.m_length + c.arg(2))]
    ex.verify(Contract(NS + "PathSegment::AddMotion", requires=lambda c: [("there is room", Not(valid(ms(c.this)[NM - 1]))), ("a length", c.arg(2) >= 0)], ensures=added, modifies=lambda c: [c._this]))
    def flipped(d, s):
        def post(c):
            m, w = ms(c.this), ms(c.old.this)
            D = lambda x: z3.If(x == 0, 1, z3.If(x == 1, 0, x))
            S2 = lambda x: z3.If(x == 0, 2, z3.If(x == 2, 0, x))
            return [("every motion is changed and keeps its length", And(*[And(a.direction == (D(b.direction) if d else b.direction), a.steer == (S2(b.steer) if s else b.steer), a.length == b.length) for a, b in zip(m, w)])), ("the length stays", c.this.m_length == c.old.this.m_length)]
        return post
    known = lambda c: [("known motions", And(*[And(x.direction >= 0, x.direction <= 2, x.steer >= 0, x.steer <= 2) for x in ms(c.this)]))]
    ex.verify(Contract(NS + "PathSegment::TimeflipTransform", ensures=flipped(True, False), modifies=lambda c: [c._this]))
    ex.verify(Contract(NS + "PathSegment::ReflectTransform", ensures=flipped(False, True), modifies=lambda c: [c._this]))
    ex.verify(Contract(NS + "PathSegment::GetLength", ensures=lambda c: [("the normalised length times the radius", c.ret == c.this.m_length * c.arg(0))]))
    ex.verify(get_path())
    ex.verify(cost())
    return ex


def get_path():
    def post(c):
        t, u, v = c.arg(1), c.arg(2), c.arg(3)
        return [("the motions of word %d" % (4 * b + k), Imp(c.arg(0) == 4 * b + k, is_word(c.ret, b, k, t, u, v))) for b in range(12) for k in range(4)] + [("a segment", segment(c.ret))]
    return Contract(NS + "GetPath", nparams=4, requires=lambda c: [("a word", And(c.arg(0) >= 0, c.arg(0) < 48)), ("usable lengths", usable(c.arg(1), c.arg(2), c.arg(3)))], ensures=post)


def price(g, r, rev, fwd, sw):
    m = ms(g)
    out = [z3.RealVal(0)]
    for i, x in enumerate(m):
        p = x.length * r * z3.If(x.direction == 0, fwd, rev)
        if i:
            p = p + z3.If(x.direction != m[i - 1].direction, sw, z3.RealVal(0))
        out.append(z3.If(valid(x), p, z3.RealVal(0)))
    return z3.Sum(out)


def cost():
    def post(c):
        g = c.this
        return [("every motion by its direction, every change of direction once", Imp(valid(ms(g)[0]), c.ret == price(g, c.arg(0), c.arg(1), c.arg(2), c.arg(3)))), ("infinite without motions", Imp(Not(valid(ms(g)[0])), c.ret == INF))]
    return Contract(NS + "PathSegment::ComputeCost", requires=lambda c: [("a segment", segment(c.this))], ensures=post)


# ---- the solver -------------------------------------------------------------------------------------------
MIRROR = [(1, 1, 1), (-1, 1, -1), (1, -1, -1), (-1, -1, 1)]      # x, y, heading for k = 0 .. 3


def reaches(w, t, u, v, p): return REACH(w, t, u, v, p.position.x, p.position.y, SIN(p.theta), COS(p.theta))


def group_mirror():
    """following a flipped or mirrored word ends at the flipped or mirrored pose"""
    ex = verifier("rs.cpp")
    t, u, v = [z3.Real(n) for n in "tuv"]
    for b in range(12):
        x, y, h = follow(motions(b), lengths(t, u, v))
        for k in range(1, 4):
            mx, my, mh = MIRROR[k]
            X, Y, H2 = follow(motions(b, k in (1, 3), k in (2, 3)), lengths(t, u, v))
            ex.lemma("word %d ends where word %d ends, %s" % (4 * b + k, 4 * b, ("", "flipped", "mirrored", "flipped and mirrored")[k]), [], And(X == mx * x, Y == my * y, SIN(H2) == mh * SIN(h), COS(H2) == COS(h)))
    # following the motions with turning radius r from the start pose: the unit path, scaled and moved
    r, sx, sy, st = [z3.Real(n) for n in ("r", "sx", "sy", "st")]
    gx, gy, gt = [z3.Real(n) for n in ("gx", "gy", "gt")]
    X, Y = z3.Reals("X Y")
    nx, ny = (COS(st) * (gx - sx) + SIN(st) * (gy - sy)) / r, (COS(st) * (gy - sy) - SIN(st) * (gx - sx)) / r
    ex.lemma("the unit path scaled by the radius and moved to the start ends at the goal (x)", [r > 0, X == nx, Y == ny], sx + r * (COS(st) * X - SIN(st) * Y) == gx)
    ex.lemma("the unit path scaled by the radius and moved to the start ends at the goal (y)", [r > 0, X == nx, Y == ny], sy + r * (SIN(st) * X + COS(st) * Y) == gy)
    return ex


def mirror_facts():
    """what the lemmas on mirrored words say about 'reaches' (its definition: following the word ends at the pose)"""
    w, k = fresh_int("w"), None
    q = [fresh_real(n) for n in ("t", "u", "v", "x", "y", "s", "c")]
    out = []
    for k in range(4):
        mx, my, mh = MIRROR[k]
        out.append(z3.ForAll([w] + q, Imp(w % 4 == k, REACH(w, *q) == REACH(w - k, q[0], q[1], q[2], mx * q[3], my * q[4], mh * q[5], q[6])), patterns=[REACH(w, *q)]))
    return out


def total_of(w, t, u, v):
    e = total(11, t, u, v)
    for b in range(11):
        e = z3.If(w / 4 == b, total(b, t, u, v), e)
    return e


LEN, TT, UU, VV = [z3.Function("word_" + n, I, R, R, R, R) for n in ("length", "t", "u", "v")]     # of a word for a relative goal


def base_called(b):
    k = base_word(b)
    def post(c):
        t, u, v, ok = c.arg(1), c.arg(2), c.arg(3), c.ret < INF
        return [("reached", Imp(ok, reaches(z3.IntVal(4 * b), t, u, v, c.arg(0)))), ("usable", Imp(ok, And(t >= 0, u >= 0, v >= 0))), ("a length or infinite", c.ret <= INF), ("the length is the sum", Imp(ok, c.ret == total(b, t, u, v)))]
    return Contract(k.name, nparams=4, assumed=True, note="proved in the group on this word ('reached' abbreviates that following it ends at the pose)", requires=bounded, ensures=post, modifies=k.modifies)


def goals_ok(gs, p):
    return And(*[And(gs[k].position.x == MIRROR[k][0] * p[0], gs[k].position.y == MIRROR[k][1] * p[1], SIN(gs[k].theta) == MIRROR[k][2] * p[2], COS(gs[k].theta) == p[3]) for k in range(4)])


def arr(a, n): return [sel(a, z3.IntVal(i)) if not isinstance(a, V) else a[str(i)] for i in range(n)]


def relative(start, goal, r):
    a, b = goal, start
    x, y = (COS(b.theta) * (a.position.x - b.position.x) + SIN(b.theta) * (a.position.y - b.position.y)) / r, (COS(b.theta) * (a.position.y - b.position.y) - SIN(b.theta) * (a.position.x - b.position.x)) / r
    return x, y, SIN(a.theta - b.theta), COS(a.theta - b.theta)


def goal_array():
    return Contract(NS + "GetGoalArray", requires=near, ensures=lambda c: [("the goal seen from the start, in radii, and its mirror images", goals_ok(arr(c.ret, 4), relative(c.arg(0), c.arg(1), c.arg(2)))), bounded_pose(arr(c.ret, 4)[0])])


def group_goals():
    from .C15 import wrap_real
    ex = verifier("rs.cpp")
    ex.add(wrap_real())
    ex.verify(goal_array())
    return ex


def lengths_contract():
    def pre(c):
        gs = arr(c.arg(1), 4)
        p = gs[0]
        return [("a word", And(c.arg(0) >= 0, c.arg(0) < 48)), ("the goal and its mirror images", goals_ok(gs, (p.position.x, p.position.y, SIN(p.theta), COS(p.theta)))), bounded_pose(p)]
    def post(c):
        t, u, v, ok = c.arg(2), c.arg(3), c.arg(4), c.ret < INF
        p = arr(c.arg(1), 4)[0]
        return [("the word reaches the goal", Imp(ok, reaches(c.arg(0), t, u, v, p))), ("usable lengths", Imp(ok, usable(t, u, v))), ("a length or infinite", And(c.ret <= INF)), ("the length is the sum", Imp(ok, c.ret == total_of(c.arg(0), t, u, v)))]
    return Contract(NS + "GetMotionLengths", nparams=5, requires=pre, facts=lambda c: mirror_facts(), ensures=post, modifies=lambda c: [c.arglv(2), c.arglv(3), c.arglv(4)])


def bounded_pose(p): return ("coordinates are at most 1e100 radii", And(p.position.x <= FAR, p.position.x >= -FAR, p.position.y <= FAR, p.position.y >= -FAR))


def group_lengths():
    ex = verifier("rs.cpp")
    for b in range(12):
        ex.add(base_called(b))
    ex.verify(lengths_contract())
    return ex


LENW = z3.Function("length_of_word", *([I] + [R] * 12 + [R]))
COSTW = z3.Function("cost_of_word", *([I] + [R] * 16 + [R]))


def flat(gs): return [f for p in gs for f in (p.position.x, p.position.y, p.theta)]
def length_of(w, gs): return LENW(w, *flat(gs))


def chosen(c, gs, r, word, t, u, v, ln):
    """no word, or one that reaches the goal with these lengths"""
    return [("none or a word that reaches the goal", Or(And(word == -1, ln == INF), And(0 <= word, word < 48, ln == length_of(word, gs), ln < INF, usable(t, u, v), reachest(word, t, u, v, gs[0]), ln == total_of(word, t, u, v))))]


def goal_fn():
    """the mirror images are a function of the request"""
    fs = [[z3.Function("mirror_%d_%s" % (k, f), *([R] * 7 + [R])) for f in "xyt"] for k in range(4)]
    def of(start, goal, r):
        a = [start.position.x, start.position.y, start.theta, goal.position.x, goal.position.y, goal.theta, r]
        return [V({"position": V({"x": f[0](*a), "y": f[1](*a)}), "theta": f[2](*a)}) for f in fs]
    return of


GOALS = goal_fn()


def near(c):
    x, y = relative(c.arg(0), c.arg(1), c.arg(2))[:2]
    return [("a turning radius", c.arg(2) > 0), ("coordinates are at most 1e100 radii", And(x <= FAR, x >= -FAR, y <= FAR, y >= -FAR))]


# abbreviations used where the words are compared: the mirror images of a request, a request that is not too far away, a word that reaches a pose
IMAGES = z3.Function("images_of_the_goal", *([R] * 12 + [B]))
NEAR = z3.Function("not_too_far", *([R] * 7 + [B]))
REACHT = z3.Function("word_reaches_pose", *([I] + [R] * 6 + [B]))
def reachest(w, t, u, v, p): return REACHT(w, t, u, v, p.position.x, p.position.y, p.theta)
def request(c): return [c.arg(i) for i in range(2)], c.arg(2)
def near_(c): return [("a turning radius", c.arg(2) > 0), ("coordinates are at most 1e100 radii", NEAR(*[f for p in (c.arg(0), c.arg(1)) for f in (p.position.x, p.position.y, p.theta)], c.arg(2)))]


def solver_parts(ex, short=False):
    g = goal_array()
    def tie(c):
        return [("the images", IMAGES(*flat(arr(c.ret, 4)))), ("a function of the request", And(*[teq(a, b) for a, b in zip(arr(c.ret, 4), GOALS(c.arg(0), c.arg(1), c.arg(2)))]))]
    ex.add(Contract(g.name, requires=near_, ensures=tie, assumed=True, note="proved in the group on goals; reads nothing but its arguments"))
    k = lengths_contract()
    def kp(c):
        t, u, v, ok = c.arg(2), c.arg(3), c.arg(4), c.ret < INF
        return [("the word reaches the goal", Imp(ok, reachest(c.arg(0), t, u, v, arr(c.arg(1), 4)[0]))), ("usable lengths", Imp(ok, usable(t, u, v))), ("a length or infinite", And(c.ret <= INF)), ("the length is the sum", Imp(ok, c.ret == total_of(c.arg(0), t, u, v)))]
    ex.add(Contract(k.name, nparams=5, requires=lambda c: [("a word", And(c.arg(0) >= 0, c.arg(0) < 48)), ("the images of the goal", IMAGES(*flat(arr(c.arg(1), 4))))], ensures=lambda c: kp(c) + [("a function of the goals", And(c.ret == length_of(c.arg(0), arr(c.arg(1), 4)), *[c.arg(2 + i) == x for i, x in enumerate(tuv(c.arg(0), arr(c.arg(1), 4)))]))], modifies=k.modifies, assumed=True, note="proved in the group on lengths; reads nothing but its arguments"))
    p = get_path()
    pp = p.ensures if not short else lambda c: [("the motions of the word", And(isw(c.ret, c.arg(0), c.arg(1), c.arg(2), c.arg(3)), valid(ms(c.ret)[0])))]
    p.ensures = lambda c: pp(c) + [("a function of the word and the lengths", And(*[And(m.direction == PDIR[i](c.arg(0), c.arg(1), c.arg(2), c.arg(3)), m.length == PLEN[i](c.arg(0), c.arg(1), c.arg(2), c.arg(3))) for i, m in enumerate(ms(c.ret))]))]
    p.assumed, p.note = True, "proved in the group on segments; reads nothing but its arguments"
    ex.add(p)


def distance():
    def inv(c):
        w, gs = c.var("w"), arr(c.var("goals"), 4)
        ln = c.var("smallestLength")
        return [("position", And(0 <= w, w <= 48)), ("no word so far is shorter", all_int(0, w, lambda i: ln <= length_of(i, gs)))] + chosen(c, gs, c.arg(2), c.var("smallestWord"), c.var("t"), c.var("u"), c.var("v"), ln)
    def post(c):
        gs = GOALS(c.arg(0), c.arg(1), c.arg(2))
        r = c.arg(2)
        wl, ol = c.arglv(3), c.arglv(4)
        word, out = c.deref(wl), c.deref(ol)
        given = And(Not(wl.null), Not(ol.null))
        ln = fresh_real("ln")
        some = z3.Exists
        if not c.calling:           # the witness
            try:
                ln, some = c.var("smallestLength"), lambda x, f: f
            except Exception:
                pass
        parts = [("the length of the word times the radius", c.ret == ln * r), ("no word is shorter", all_int(0, 48, lambda i: ln <= length_of(i, gs))), ("the word", Imp(Not(wl.null), Or(And(word == -1, ln == INF), And(0 <= word, word < 48, ln == length_of(word, gs)))))]
        if some is z3.Exists:
            parts = [("no word is shorter", some([ln], And(*[g for _, g in parts])))]
        return parts + [
                ("the parameters are those of a word that reaches the goal", Imp(given, Or(word == -1, And(usable(out["0"], out["1"], out["2"]), reachest(word, out["0"], out["1"], out["2"], gs[0]), length_of(word, gs) == total_of(word, out["0"], out["1"], out["2"])))))]
    def mods(c):
        return [c.arglv(i).lv for i in (3, 4) if isinstance(c.arglv(i), Ptr)]
    return Contract(NS + "Solver::GetShortestDistance", requires=near_, ensures=post, modifies=mods, loops=[Loop(inv, variant=lambda c: 48 - c.var("w"))])


def shortest():
    def post(c):
        gs, (r, g) = GOALS(c.arg(0), c.arg(1), c.arg(2)), (c.arg(2), c.ret)
        w, t, u, v = fresh_int("w"), *[fresh_real(n) for n in "tuv"]
        found = lambda k: z3.Exists([t, u, v], And(is_word(g, k // 4, k % 4, t, u, v), reachest(z3.IntVal(k), t, u, v, gs[0])))
        some = Or(*[length_of(z3.IntVal(k), gs) < INF for k in range(48)])
        return [("the path is a word that reaches the goal, or no word does", Or(And(Not(valid(ms(g)[0])), Not(some)), *[found(k) for k in range(48)])),
                ("no word is shorter", Imp(valid(ms(g)[0]), all_int(0, 48, lambda i: g.m_length <= length_of(i, gs)))), ("a segment", segment(g))]
    return Contract(NS + "Solver::GetShortestPath", requires=near_, ensures=post, modifies=lambda c: [c.arglv(3).lv] if isinstance(c.arglv(3), Ptr) else [])


TUV = [z3.Function("%s_of_word" % n, *([I] + [R] * 12 + [R])) for n in "tuv"]
PDIR = [z3.Function("direction_%d_of_word" % i, I, R, R, R, I) for i in range(NM)]
PLEN = [z3.Function("length_%d_of_word" % i, I, R, R, R, R) for i in range(NM)]
PRICED = z3.Function("price_of_motions", *([I, R] * NM + [R] * 4 + [R]))


def tuv(w, gs): return [f(w, *flat(gs)) for f in TUV]
def price_seg(g, ps): return PRICED(*[x for m in ms(g) for x in (m.direction, m.length)], *ps)
def price_word(w, gs, ps): return PRICED(*[f(w, *tuv(w, gs)) for i in range(NM) for f in (PDIR[i], PLEN[i])], *ps)


ISWORD = z3.Function("segment_is_word", *([I] + [R] * 3 + [I, I, R] * NM + [R, B]))      # abbreviates is_word and segment


def isw(g, w, t, u, v): return ISWORD(w, t, u, v, *[x for m in ms(g) for x in (m.steer, m.direction, m.length)], g.m_length)


def optimal():
    ps = lambda c: [c.arg(i) for i in (2, 3, 4, 5)]
    def found(c, g, w, gs):
        l = tuv(w, gs)
        return And(0 <= w, w < 48, valid(ms(g)[0]), isw(g, w, *l), reachest(w, *l, gs[0]), length_of(w, gs) < INF)
    def inv(c):
        w, gs, best, g = c.var("w"), arr(c.var("goals"), 4), c.var("optimalCost"), c.var("optimalPath")
        word = c.var("optimalWord")
        return [("position", And(0 <= w, w <= 48)), ("no word so far is cheaper", all_int(0, w, lambda i: Imp(length_of(i, gs) < INF, best <= price_word(i, gs, ps(c))))),
                ("none or a word of that price", Or(And(word == -1, best == INF), And(best < INF, best == price_seg(g, ps(c)), found(c, g, word, gs))))]
    def post(c):
        gs, g = GOALS(c.arg(0), c.arg(1), c.arg(2)), c.ret
        w, some = fresh_int("w"), z3.Exists
        if not c.calling:           # the witness
            try:
                w, some = c.var("optimalWord"), lambda x, f: f
            except Exception:
                pass
        none = And(Not(valid(ms(g)[0])), all_int(0, 48, lambda i: Imp(length_of(i, gs) < INF, price_word(i, gs, ps(c)) >= INF)))
        return [("the path is a word that reaches the goal, or none has a finite price", Or(none, some([w], found(c, g, w, gs)))),
                ("no word is cheaper", Imp(valid(ms(g)[0]), all_int(0, 48, lambda i: Imp(length_of(i, gs) < INF, price_seg(g, ps(c)) <= price_word(i, gs, ps(c))))))]
    return Contract(NS + "Solver::GetOptimalPath", requires=near_, ensures=post, modifies=lambda c: [c.arglv(6).lv] if isinstance(c.arglv(6), Ptr) else [], loops=[Loop(inv, variant=lambda c: 48 - c.var("w"), constant=lambda ex, fr, st, n: fr.fn.qname.endswith("GetOptimalPath"))])


QV = [z3.Int('q_w')] + [z3.Real('q_' + n) for n in 'tuv']


def priced():
    k = cost()
    return Contract(k.name, requires=lambda c: [("a segment", z3.Exists(QV, isw(c.this, *QV)))], assumed=True, note="proved in the group on segments; the price depends on the motions and the prices only",
                    ensures=lambda c: [("a function of the motions", Imp(valid(ms(c.this)[0]), c.ret == price_seg(c.this, [c.arg(i) for i in range(4)])))])


def group_select():
    ex = verifier("rs.cpp")
    solver_parts(ex)
    ex.verify(distance())
    d = distance()
    d.assumed, d.loops, d.note = True, [], "proved above"
    ex.add(d)
    ex.verify(shortest())
    return ex


def group_optimal():
    ex = verifier("rs.cpp")
    solver_parts(ex, short=True)
    ex.add(priced())
    ex.verify(optimal())
    return ex


def groups():
    return [dict(name="word " + WORDS[b][0], run=group_base(b)) for b in range(12)] + [dict(name="segments", run=group_segments), dict(name="mirror images", run=group_mirror), dict(name="goals", run=group_goals), dict(name="lengths", run=group_lengths),
            dict(name="selection", run=group_select), dict(name="optimum", run=group_optimal)]
