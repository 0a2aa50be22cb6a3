from .util import *

HARNESS = "c15.cpp"
SECONDS = 5
BOUNDED = "none of the listed functions"

POSE = "Planner::Pose2"
isd = lambda f: "double" in (f.fntype or "") or (f.cls is not None and "double" in f.cls.name)


def samedir(a, b):
    return And(SIN(a) == SIN(b), COS(a) == COS(b))


def normal(t):
    return And(t >= -PI, t <= PI)


def x(p):
    return p.position.x


def y(p):
    return p.position.y


def wrap_real():
    def real_local(c):
        for n, key in reversed(c.frame.order):
            v = c.st.store.get(key)
            if z3.is_expr(v) and v.sort() == R:
                return v
        raise AttachError("no real local in WrapTheta")
    inv = lambda upper: (lambda c: [("the loop keeps the direction", samedir(real_local(c), c.this.theta)),
                                    ("a normalised heading is not touched", Imp(normal(c.this.theta), real_local(c) == c.this.theta))]
                         + ([("the upper bound is established", real_local(c) <= PI)] if upper else []))
    return Contract(POSE + "::WrapTheta", nparams=0, pred=lambda f: f.cls is not None and "int" not in f.cls.name,
                    result=lambda c: z3.Function("wrapped_heading", R, R)(c.this.theta), note="deterministic: reads nothing but the heading",
                    ensures=lambda c: [("normalised", normal(c.ret)), ("same direction", samedir(c.ret, c.this.theta)),
                                       ("a normalised heading is returned as it is", Imp(normal(c.this.theta), c.ret == c.this.theta))],
                    loops=[Loop(inv(False), variant=lambda c: z3.If(real_local(c) > -PI, real_local(c) + PI, z3.RealVal(0))),
                           Loop(inv(True), variant=lambda c: z3.If(real_local(c) < PI, PI - real_local(c), z3.RealVal(0)))])


def group_wrap():
    ex = verifier("pose.cpp")
    ex.verify(wrap_real())
    ex.verify(Contract(POSE + "::WrapTheta", nparams=0, pred=lambda f: f.cls is not None and "int" in f.cls.name,
                       ensures=lambda c: [("the integer heading is returned as it is", c.ret == c.this.theta)]))
    for n, a in (("MakeInt", None), ("MakeIntP", None)):
        px = (lambda c: c.arg(0)) if n == "MakeInt" else (lambda c: c.arg(0).x)
        py = (lambda c: c.arg(1)) if n == "MakeInt" else (lambda c: c.arg(0).y)
        pt = (lambda c: c.arg(2)) if n == "MakeInt" else (lambda c: c.arg(1))
        ex.verify(Contract("PlannerSpec::" + n, ensures=lambda c, px=px, py=py, pt=pt: [("a new integer pose has the given coordinates and heading", And(x(c.ret) == px(c), y(c.ret) == py(c), c.ret.theta == pt(c)))]))
    return ex


def group_arith():
    ex = verifier("pose.cpp")
    ex.add(wrap_real())
    for n in ("Make", "MakeP"):
        px = (lambda c: c.arg(0)) if n == "Make" else (lambda c: c.arg(0).x)
        py = (lambda c: c.arg(1)) if n == "Make" else (lambda c: c.arg(0).y)
        pt = (lambda c: c.arg(2)) if n == "Make" else (lambda c: c.arg(1))
        ex.verify(Contract("PlannerSpec::" + n, ensures=lambda c, px=px, py=py, pt=pt: [("a new pose has the given position", And(x(c.ret) == px(c), y(c.ret) == py(c))),
                                                                            ("a new pose has a normalised heading of the given direction", And(normal(c.ret.theta), samedir(c.ret.theta, pt(c))))]))
    def comp(c):
        a, b = c.arg(0), c.arg(1)
        return [("the position is rotated and translated", And(x(c.ret) == x(a) + COS(a.theta) * x(b) - SIN(a.theta) * y(b), y(c.ret) == y(a) + SIN(a.theta) * x(b) + COS(a.theta) * y(b))),
                ("the headings add up", And(normal(c.ret.theta), samedir(c.ret.theta, a.theta + b.theta)))]
    def diff(c):
        a, b = c.arg(0), c.arg(1)
        return [("the position difference is rotated back", And(x(c.ret) == COS(b.theta) * (x(a) - x(b)) + SIN(b.theta) * (y(a) - y(b)), y(c.ret) == COS(b.theta) * (y(a) - y(b)) - SIN(b.theta) * (x(a) - x(b)))),
                ("the headings are subtracted", And(normal(c.ret.theta), samedir(c.ret.theta, a.theta - b.theta)))]
    P = Contract("Planner::operator+", nparams=2, pred=lambda f: "Pose2" in f.fntype, ensures=comp)
    M = Contract("Planner::operator-", nparams=2, pred=lambda f: "Pose2" in f.fntype, ensures=diff)
    ex.verify(P)
    ex.verify(M)
    ex.add(P, M)
    ex.verify(Contract("PlannerSpec::RoundTrip", ensures=lambda c: [("a + (b - a) has the position of b", And(x(c.ret) == x(c.arg(1)), y(c.ret) == y(c.arg(1)))),
                                                          ("a + (b - a) has the direction of b", And(normal(c.ret.theta), samedir(c.ret.theta, c.arg(1).theta)))]))
    for n in ("LeftIdentity", "RightIdentity"):
        ex.verify(Contract("PlannerSpec::" + n, ensures=lambda c: [("composing with the identity changes nothing", And(x(c.ret) == x(c.arg(0)), y(c.ret) == y(c.arg(0)), samedir(c.ret.theta, c.arg(0).theta)))]))
    return ex


def group_hash():
    ex = verifier("posehash.cpp")
    w = wrap_real()
    w.ensures = lambda c: []       # only that it is a function of the heading matters here
    ex.add(w, Contract("PlannerStd::hash::operator()", assumed=True, note="std::hash of a double or an int is a function of its value", pred=lambda f: f.body is None, result=lambda c: z3.Function("hash_" + str(c.arg(0).sort()), c.arg(0).sort(), I)(c.arg(0))))
    for n in ("EqualPosesHashEqually", "SamePosesHashEqually", "EqualIntPosesHashEqually", "EqualPointsHashEqually", "EqualCellsHashEqually"):
        ex.verify(Contract("PlannerSpec::" + n, ensures=lambda c: [("equal implies equal hashes", c.ret)]))
    return ex


def groups():
    return [dict(name="heading normalisation", run=group_wrap), dict(name="composition and difference", run=group_arith), dict(name="equality and hashing", run=group_hash)]
