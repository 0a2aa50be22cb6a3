from .util import *

HARNESS = "c14.cpp"
SECONDS = 5
BOUNDED = "none of the listed functions"
ASSUMPTIONS = ["uniform_real_distribution(a, b) yields doubles in [a, b); the largest double below nextafter(1) is 1",
               "lower bounds do not exceed upper bounds (precondition of every operation of a state space)"]

COORDS = {"R2": lambda p: [p.x, p.y], "SE2": lambda p: [p.position.x, p.position.y, p.theta]}


def lbub(c, sp):
    b = c.this.bounds
    return COORDS[sp](b["0"]), COORDS[sp](b["1"])


def ordered(sp):
    return lambda c: [("the bounds are ordered", And(*[l <= u for l, u in zip(*lbub(c, sp))]))]


def within(c, sp, st):
    return And(*[And(l <= v, v <= u) for l, u, v in zip(*lbub(c, sp), COORDS[sp](st))])


def dist(c, n):
    v = c.st.store.get("G:" + n)
    return v


def rnd_ready(c):
    """The generator is in the state Random::Init leaves it in."""
    ex, st = c.ex, c.st
    for n, t in (("s_uniformDistribution", Ty("rec", [Ty("real")], name="Dist")),):
        k = "G:" + n
        if k not in st.store:
            if k not in ex._g0:
                ex._g0[k] = ex.fresh(t, n)
            st.store[k] = ex._g0[k]
    k = "G:s_engine"
    if k not in st.store:
        if k not in ex._g0:
            ex._g0[k] = z3.Int("s_engine")
        st.store[k] = ex._g0[k]
    d = st.store["G:s_uniformDistribution"]
    return And(d.f["u"], d.f["a"] == 0, d.f["b"] == NEXTUP(z3.RealVal(1)), st.store[k] > 0)


UNI = Contract("Planner::Random::SampleUniform", nparams=2,
               requires=lambda c: [("interval not empty", c.arg(0) <= c.arg(1)), ("generator initialised", rnd_ready(c))],
               ensures=lambda c: [("the sample lies in the interval", And(c.arg(0) <= c.ret, c.ret <= c.arg(1)))])
GAU = Contract("Planner::Random::SampleGaussian", nparams=2, requires=lambda c: [("generator initialised", rnd_ready(c))])


def enforce(sp):
    return Contract("Planner::StateSpace%s::EnforceBounds" % sp, requires=ordered(sp),
                    modifies=lambda c: [c.arglv(0)],
                    ensures=lambda c: [("the state is inside the bounds", within(c, sp, c.arg(0))),
                                       ("a coordinate inside its bounds is unchanged", And(*[Imp(And(l <= o, o <= u), v == o) for l, u, o, v in zip(*lbub(c, sp), COORDS[sp](c.old.arg(0)), COORDS[sp](c.arg(0)))])),
                                       ("a coordinate outside is moved to the violated bound", And(*[And(Imp(o < l, v == l), Imp(o > u, v == u)) for l, u, o, v in zip(*lbub(c, sp), COORDS[sp](c.old.arg(0)), COORDS[sp](c.arg(0)))]))])


def group_random():
    ex = verifier("space.cpp")
    def init_post(c):
        return [("after initialisation the generator draws from [0, 1]", rnd_ready(c))]
    def ready_if_device(c):
        rnd_ready(c)
        k = "G:s_randomDevice"
        if k not in c.st.store:
            if k not in c.ex._g0:
                c.ex._g0[k] = z3.Int("s_randomDevice")
            c.st.store[k] = c.ex._g0[k]
        return Imp(c.st.store[k] != 0, rnd_ready(c))
    def setup(ex_, st, thislv, args):
        c = Ctx(ex_, st)
        ready_if_device(c)
    ex.verify(Contract("Planner::Random::Init", nparams=0, setup=setup, noframe=True, requires=lambda c: [("initialised at most once", ready_if_device(c))], ensures=init_post))
    def setup2(ex_, st, thislv, args):
        rnd_ready(Ctx(ex_, st))
    UNI.setup = GAU.setup = setup2
    ex.verify(UNI)
    ex.verify(GAU)
    return ex


def group_space(sp, pt):
    def run():
        ex = verifier("space.cpp")
        def setup(ex_, st, thislv, args):
            rnd_ready(Ctx(ex_, st))
        cls = "Planner::StateSpace" + sp
        en = enforce(sp)
        ex.verify(en)
        ex.verify(Contract(cls + "::ValidateBounds", ensures=lambda c: [("accepted iff every coordinate is within its bounds, both included", c.ret == within(c, sp, c.arg(0)))]))
        ex.add(UNI, GAU, en)
        ready = lambda c: ordered(sp)(c) + [("generator initialised", rnd_ready(c))]
        inside = lambda c: [("the sample is inside the bounds", within(c, sp, c.ret))]
        su = Contract(cls + "::SampleUniform", nparams=0, setup=setup, requires=ready, ensures=inside)
        sg = Contract(cls + "::SampleGaussian", nparams=2, setup=setup, requires=ready, ensures=inside)
        ex.verify(su)
        ex.verify(sg)
        # batches: against the interface contract, which the overriders above satisfy
        base = "Planner::StateSpace"
        isb = lambda f: f.cls is not None and (("Pose2" in f.cls.name) == (sp == "SE2"))
        iu = Contract(base + "::SampleUniform", nparams=0, pred=isb, requires=ready, ensures=inside)
        ig = Contract(base + "::SampleGaussian", nparams=2, pred=isb, requires=ready, ensures=inside)
        ex.add(iu, ig)
        def loop_inv(npar):
            def inv(c):
                v = None
                for n, key in reversed(c.frame.order):
                    x = c.st.store.get(key)
                    if isinstance(x, V) and "len" in x.f and "a" in x.f:
                        v = x
                        break
                if v is None:
                    raise AttachError("no batch vector")
                i = c.var("i")
                return [("one sample per iteration", And(v.len == i, i >= 0, i <= c.arg(npar - 1))),
                        ("collected samples are inside the bounds", all_int(0, v.len, lambda j: within(c, sp, at(v, j))))]
            return inv
        post = lambda npar: (lambda c: [("the batch has the requested size", c.ret.len == c.arg(npar - 1)), ("every sample of the batch is inside the bounds", all_int(0, c.ret.len, lambda j: within(c, sp, at(c.ret, j))))])
        for nm, npar in (("SampleUniform", 1), ("SampleGaussian", 3)):
            ex.verify(Contract(base + "::" + nm, nparams=npar, pred=isb, setup=setup, requires=ready, ensures=post(npar), loops=[Loop(loop_inv(npar), variant=lambda c, npar=npar: c.arg(npar - 1) - c.var("i"))]))
        return ex
    return run


def groups():
    return [dict(name="random number generator", run=group_random),
            dict(name="planar points", run=group_space("R2", "Point2")),
            dict(name="planar poses", run=group_space("SE2", "Pose2"))]
