"""Discharge of obligations by SMT solvers run as separate processes (z3 4.x new, cvc5, z3 old)."""
import os, re, subprocess, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
import z3
from .core import PI, INF, SIN, COS, TAN, SQRT, ASIN, ACOS, ATAN, ATAN2
from .trig import normalise, trig_facts, info

Z3NEW = shutil.which("z3-new") or "z3"
Z3OLD = "/usr/bin/z3" if os.path.exists("/usr/bin/z3") else "z3"
CVC5 = shutil.which("cvc5") or "cvc5"


def pinned(o):
    """variables that the premise of the goal fixes to a number, replaced by it (an equivalence; only for angles)"""
    g, subst = o.goal, []
    while z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
        todo = [g.arg(0)]
        while todo:
            p = todo.pop()
            if z3.is_and(p):
                todo += p.children()
            elif z3.is_eq(p) and p.arg(0).sort() == z3.RealSort():
                for a, b in ((p.arg(0), p.arg(1)), (p.arg(1), p.arg(0))):
                    if z3.is_rational_value(b) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not a.eq(PI):
                        subst.append((a, b))
        g = g.arg(1)
    if not subst or not info(o.goal)[2]:
        return lambda fs: fs
    return lambda fs: [z3.simplify(z3.substitute(f, *subst)) for f in fs]


def script(o):
    s = z3.Solver()
    fs = pinned(o)(list(o.hyps) + list(o.ax) + [z3.Not(o.goal)])
    if o.expect == "sat":
        fs = list(o.hyps)
    fs = normalise(fs)
    fs += trig_facts(fs)
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    return txt


_abs = {}
_absdiv = {}


def _abstract(e):
    """e with every quotient by a non-constant and every function value replaced by a constant (one per quotient)."""
    i = e.get_id()
    r = _abs.get(i)
    if r is not None:
        return r[0]
    if not z3.is_app(e) or not e.children():
        r = e
    elif e.sort() == z3.RealSort() and (e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)) or
                                        e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        r = z3.Real("abstracted!%d" % len(_absdiv))
        _absdiv[i] = r
    else:
        ch = e.children()
        nc = [_abstract(c) for c in ch]
        r = e if all(a.eq(b) for a, b in zip(ch, nc)) else z3.substitute(e, *[(a, b) for a, b in zip(ch, nc) if not a.eq(b)])
    _abs[i] = (r, e)
    return r


def slim(o):
    """A weaker set of hypotheses that often suffices: quotients and function values abstracted to constants, no axioms.  Only 'unsat' counts."""
    if o.expect == "sat" or o.has_q:
        return None
    fs = normalise(pinned(o)(list(o.hyps) + [z3.Not(o.goal)]))
    fs += trig_facts(fs)
    n = len(_absdiv)
    gs = [_abstract(f) for f in fs]
    if all(a.eq(b) for a, b in zip(fs, gs)):
        return None
    s = z3.Solver()
    for g in gs:
        s.add(g)
    return s.to_smt2()


def run_solver(cmd, txt, timeout):
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(("(set-logic ALL)\n" if cmd[0] == CVC5 and "(set-logic" not in txt else "") + txt)
        fn = f.name
    try:
        p = subprocess.run(cmd + [fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split("\n")
        res = "unknown"
        for l in out:
            if l.strip() in ("sat", "unsat", "unknown"):
                res = l.strip()
                break
        else:
            if "timeout" in p.stdout or "resourceout" in p.stdout:
                res = "timeout"
            elif p.returncode:
                res = "error: " + (out[0][:200] if out else "")
        return res, p.stdout, time.time() - t0
    except subprocess.TimeoutExpired:
        return "timeout", "", time.time() - t0
    finally:
        os.unlink(fn)


def backends(timeout, thorough=False):
    t = int(timeout)
    b = [("z3-new", [Z3NEW, "-T:%d" % t]),
         ("cvc5", [CVC5, "--tlimit=%d" % (t * 1000), "--nl-ext-tplanes", "--full-saturate-quant" if thorough else "--nl-cov"]),
         ("z3-4.8", [Z3OLD, "-T:%d" % t])]
    return b


HURRY = [False]
DEADLINE = [1e18]      # after this time an obligation gets one short try only


def discharge_one(args):
    o, txt, timeout, thorough, weak = args
    t0 = time.time()
    if o.expect == "sat":
        res, out, dt = run_solver([Z3NEW, "-T:5"], txt, 5)
        o.time, o.backend = dt, "z3-new"
        o.result = "vacuous" if res == "unsat" else "ok"
        return o
    tried = []
    to = o.timeout or timeout
    best = "unknown"
    # a short first try, then the other solvers, then a longer try
    plan = [("z3-new", [Z3NEW, "-T:%d" % max(2, to // 6)], max(2, to // 6)),
            ("cvc5", [CVC5, "--tlimit=%d" % (max(3, to // 4) * 1000)], max(3, to // 4)),
            ("z3-4.8", [Z3OLD, "-T:%d" % max(2, to // 6)], max(2, to // 6)),
            ("z3-new", [Z3NEW, "-T:%d" % to], to),
            ("z3-4.8", [Z3OLD, "-T:%d" % to], to),
            ("cvc5", [CVC5, "--tlimit=%d" % (to * 1000), "--enum-inst", "--nl-ext-tplanes"], to)]
    if weak:
        plan.insert(1, ("z3-new(abstracted)", [Z3NEW, "-T:5"], 5))
    for name, cmd, tt in plan:
        if tried and time.time() > DEADLINE[0]:
            tried.append(("budget", "exhausted", 0))
            break
        res, out, dt = run_solver(cmd, weak if "abstracted" in name else txt, tt)
        if "abstracted" in name and res == "sat":
            res = "unknown"
        tried.append((name, res, round(dt, 2)))
        if res == "unsat":
            o.result, o.backend, o.time = "proved", name, time.time() - t0
            return o
        if res == "sat":
            best = "sat"
            o.model = out
            if not o.has_q:
                break
    o.result = "failed" if best == "sat" else "unknown"
    o.backend = "; ".join("%s:%s(%ss)" % t for t in tried)
    o.time = time.time() - t0
    return o


def has_quant(fs):
    return any(info(f)[1] for f in fs)


def discharge(obls, timeout=20, thorough=False, workers=8, stop=None):
    work = []
    DEADLINE[0] = time.time() + (30 if HURRY[0] else 1500 if thorough else 240)
    for o in obls:
        if o.expect == "unsat":
            g = z3.simplify(o.goal)
            if z3.is_true(g) or any(z3.is_false(h) for h in o.hyps):
                o.result, o.backend, o.time = "proved", "simplifier", 0.0
                continue
            if any(h.eq(o.goal) for h in o.hyps):
                o.result, o.backend, o.time = "proved", "hypothesis", 0.0
                continue
        o.has_q = has_quant(list(o.hyps) + [o.goal])
        work.append((o, script(o), timeout, thorough, slim(o)))
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(discharge_one, work))
    # what ran out of time (not what was refuted) gets a second try with little competition for the cores
    again = [w for w in work if w[0].result == "unknown"]
    if again and len(again) <= 12 and not HURRY[0]:
        DEADLINE[0] = time.time() + (1200 if thorough else 150)
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(discharge_one, [(o, t, timeout * 2, th, w) for o, t, _, th, w in again]))
    return obls
