"""Check driver:  python3-vt -m dv.run <property> [quick|thorough]

1. extract: clang's AST of /repo's current sources (through a translation unit of /verif/inst);
2. verify:  every function under contract, every obligation to the SMT back ends;
3. replay:  compile the property's harness against /repo's current sources and run the same
            contracts on concrete inputs (always: a validation of the contracts on the code as
            compiled, doubles included; with a larger budget when an obligation failed).
Exit 0 / 1; evidence in /verif/evidence/<id>.json.
"""
import importlib, json, os, re, subprocess, sys, tempfile, time, traceback, shutil
import z3
from . import cast
from .cast import Program, ExtractError
from .core import *
from .verify import Verifier
from . import solve
from .solve import discharge, Z3NEW, CVC5, Z3OLD

VERIF = cast.VERIF
REPO = cast.REPO

BASE_ASSUMPTIONS = [
    "double arithmetic is treated as exact real arithmetic in the proofs (rounding, overflow, NaN are only exercised by the runtime harness)",
    "int and size_t arithmetic is treated as mathematical integers, except unsigned subtraction, negation and casts, which wrap",
    "the contracts of the C++ standard library, Eigen and libm operations in dv/std.py (vector, set, map, smart pointers, algorithms, sqrt, trigonometry) are assumed",
    "clang 18's AST is the code that runs; instantiation units in /verif/inst only #include and instantiate /repo's sources; what the translation drops: logging, profiling, exception objects, memory exhaustion, object lifetimes of owned pointees (a unique_ptr is a reference, deletion is not tracked)",
    "the verification engine dv/ (written for this task) and the SMT solvers are trusted",
]


def findings(pid):
    out = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def build_harness(src, tmp, opt="-O1", extra=()):
    """Compile /repo's library sources (as they are now) and the harness, with sanitizers and assertions on."""
    exe = os.path.join(tmp, "harness")
    flags = ["-std=c++17", opt, "-g1", "-w", "-UNDEBUG", "-DPP_ENABLE_ASSERT", "-include", "cassert", "-include", "algorithm",
             "-I" + REPO + "/planner/src", "-I" + VERIF + "/harness", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + list(extra)
    srcs = []
    for d, _, fs in sorted(os.walk(REPO + "/planner/src")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(".cpp") and "/debug/" not in p and not p.endswith("core/log.cpp"):
                srcs.append(p)
    from concurrent.futures import ThreadPoolExecutor
    def one(a):
        i, p = a
        o = os.path.join(tmp, "h%d.o" % i)
        r = subprocess.run(["g++"] + flags + ["-c", p, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
        return o, r.returncode, r.stdout
    with ThreadPoolExecutor(8) as tp:
        res = list(tp.map(one, enumerate([src] + srcs)))
    if res[0][1]:
        return None, res[0][2][:3000]
    objs = [o for o, rc, _ in res if rc == 0]
    p = subprocess.run(["g++", "-fsanitize=address,undefined"] + objs + ["-o", exe, "-lpthread", "-llz4"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
    if p.returncode:
        return None, "".join(t for _, rc, t in res if rc)[:2000] + p.stdout[-2000:]
    return exe, "g++ %s %s <all of planner/src>" % (" ".join(flags), src)


def run_harness(exe, seed, seconds, tmp, limit=None):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        p = subprocess.run([exe, str(seed), str(seconds)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=limit or (seconds * 3 + 120), cwd=tmp, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("props." + pid)
    thorough = tier == "thorough"
    tmp = tempfile.mkdtemp(prefix="dv_%s_" % pid)
    try:
        rc = check(pid, tier, seed, mod, thorough, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, seed, mod, thorough, tmp, t0):
    known = findings(pid)
    smt_to = 60 if thorough else 20
    hsec = getattr(mod, "SECONDS", 10) * (12 if thorough else 1)
    # start compiling the harness in the background
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(2)
    hsrc = os.path.join(VERIF, "harness", mod.HARNESS) if getattr(mod, "HARNESS", None) else None
    def harness_job():
        exe, info = build_harness(hsrc, tmp, getattr(mod, "OPT", "-O1"), getattr(mod, "CXXFLAGS", ()))
        if exe is None:
            return None, info, 0, ""
        rc, out = run_harness(exe, seed, hsec, tmp)
        if rc != 0:
            # a failing input is known: the obligations only need to say which one fails
            solve.DEADLINE[0] = min(solve.DEADLINE[0], time.time() + 30)
            solve.HURRY[0] = True
        return exe, info, rc, out
    fut = pool.submit(harness_job) if hsrc else None

    gaps = []          # groups that could not be brought into the verifier: bounded stand-in
    obls, exs = [], []
    n_groups = 0
    for g in mod.groups():
        n_groups += 1
        try:
            ex = g["run"]()
            exs.append(ex)
            for o in ex.obls:
                o.hint = g["name"]
            obls += ex.obls
        except ExtractError as e:
            gaps.append((g["name"], "%s: %s" % (type(e).__name__, e)))
        except Exception as e:
            if os.environ.get("DV_DEBUG"):
                traceback.print_exc()
            gaps.append((g["name"], "%s: %s" % (type(e).__name__, str(e)[:300])))
    gen_s = time.time() - t0
    td = time.time()
    discharge(obls, timeout=smt_to, thorough=thorough)
    smt_s = time.time() - td
    vac = [o for o in obls if o.kind == "vacuity"]
    for o in vac:
        if o.result == "vacuous":
            gaps.append((o.hint, "contradictory preconditions: " + o.name))
    po = [o for o in obls if o.kind != "vacuity"]
    bad = [o for o in po if o.result != "proved"]
    # a gap in a group makes its obligations void, not violated
    gapped = {g for g, _ in gaps}

    hrc, hout, hcmd = 0, "", ""
    fails, hstats = [], {}
    if fut:
        exe, info, hrc, hout = fut.result()
        if exe is None:
            gaps.append(("runtime harness", "does not compile against the current tree: " + info[-400:]))
        else:
            hcmd = info
            if hrc == 0 and (bad or gaps) and not thorough:
                hrc, hout = run_harness(exe, seed + 1, hsec * 4, tmp)
            for l in hout.splitlines():
                if l.startswith("FAIL "):
                    fails.append(l[5:])
                m = re.match(r"STAT (\S+) (\S+)", l)
                if m:
                    hstats[m.group(1)] = m.group(2)
            if hrc not in (0, 1) and not fails:
                case = [l for l in hout.splitlines() if l.startswith("CASE ")]
                what = "did not finish" if hrc == -999 else "crashed (exit %d)" % hrc
                fails.append("sig=crash the code %s on: %s" % (what, case[-1][5:] if case else hout[-1500:]))
    quiet, new = [], []
    for f in fails:
        m = re.match(r"sig=(\S+)", f)
        sig = m.group(1) if m else ""
        k = [t for s, t in known if s == sig]
        (quiet if k else new).append((f, k))
    nv = 0
    rdir = os.path.join(VERIF, "replays")
    printed = set()
    for f, k in quiet:
        if k[0] not in printed:
            printed.add(k[0])
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]))
    for o in list(bad):
        k = [t for s, t in known if s == "obl:" + re.sub(r"\s+", "_", o.name)]
        if k:
            bad.remove(o)
            if k[0] not in printed:
                printed.add(k[0])
                print("KNOWN-FINDING: property=%s %s" % (pid, k[0]))
    violation = None
    if new or bad:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.txt" % (pid, tier))
        with open(rp, "w") as fo:
            if new:
                fo.write("Failing inputs found on the real code (harness %s, seed %d):\n" % (mod.HARNESS, seed))
                for f, _ in new[:50]:
                    fo.write("  " + f + "\n")
                fo.write("\nharness build: %s\nrerun: <exe> %d %d\n\n%s\n" % (hcmd, seed, hsec, hout[-6000:]))
            for o in bad:
                fo.write("\nFAILED OBLIGATION: %s\n  kind %s, function %s, line %s\n  result %s by %s\n" % (
                    o.name, o.kind, o.func, o.line, o.result, o.backend))
                try:
                    fo.write("  goal: %s\n" % o.goal.sexpr()[:3000])
                except Exception:
                    pass
                if o.model:
                    fo.write("  solver output: %s\n" % o.model[:2000])
        violation = rp
        for o in bad[:20]:
            print("obligation not discharged: %s (line %s, %s: %s)" % (o.name, o.line, o.result, o.backend))
        for f, _ in new[:10]:
            print("failing input: " + f[:600])
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if new else " no-failing-input-found"))
        nv = 1
    for g, why in gaps:
        print("note: %s is not under proof on this tree (%s); decided by the bounded harness" % (g, why.split("\n")[0][:300]))
    ev = evidence(pid, tier, seed, mod, exs, po, vac, gaps, fails, hstats, hsec, t0, gen_s, smt_s, nv, hcmd, n_groups)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    np = len([o for o in po if o.result == "proved"])
    print("%s %s: %d/%d obligations discharged, %d functions under contract, harness %s, %.1f s" % (
        pid, tier, np, len(po), sum(len(e.under_contract) for e in exs), hstats or "-", time.time() - t0))
    return 1 if nv else 0


def evidence(pid, tier, seed, mod, exs, po, vac, gaps, fails, hstats, hsec, t0, gen_s, smt_s, nv, hcmd, n_groups):
    be = {}
    for o in po:
        if o.result == "proved":
            be[o.backend] = be.get(o.backend, 0) + 1
    funcs = []
    inl, ass, extra = set(), set(), set()
    for e in exs:
        funcs += ["%s (%s:%s)" % (f.qname, (f.file or "?").replace(REPO + "/", ""), f.line) for f in e.under_contract]
        inl |= e.inlined
        ass |= e.used_assumed
        extra |= e.assumptions
    kinds = {}
    for o in po:
        kinds[o.kind] = kinds.get(o.kind, 0) + 1
    lvl = getattr(mod, "LEVEL", "proof")
    if gaps:
        lvl_note = "bounded for: " + "; ".join(g for g, _ in gaps)
    else:
        lvl_note = getattr(mod, "NOTE", "")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": lvl,
        "coverage": {
            "obligations": len(po), "discharged": len([o for o in po if o.result == "proved"]),
            "checker_cmd": "python3-vt -m dv.run %s %s" % (pid, tier),
            "trusted_base": ["dv engine (symbolic execution of clang AST)", "clang 18 front end", "z3 / cvc5", "library contracts in dv/std.py"],
            "functions_under_contract": sorted(set(funcs)),
            "functions_inlined": sorted(inl),
            "obligations_by_kind": kinds,
            "discharged_by_backend": be,
            "not_discharged": ["%s (line %s): %s" % (o.name, o.line, o.result) for o in po if o.result != "proved"][:50],
            "vacuity_checks": {"total": len(vac), "satisfiable_or_unknown": len([o for o in vac if o.result == "ok"])},
            "generation_s": round(gen_s, 2), "solver_wall_s": round(smt_s, 2),
            "solver_cpu_s": round(sum(o.time or 0 for o in po), 2),
            "groups": n_groups, "bounded_groups": [{"group": g, "reason": w[:500]} for g, w in gaps],
            "bounded_part": getattr(mod, "BOUNDED", ""),
            "runtime_contract_validation": {"harness": getattr(mod, "HARNESS", None), "budget_s": hsec, "stats": hstats,
                                            "label": "bounded, not counted as proved", "failures": [f[:300] for f in fails[:20]]},
            "note": lvl_note,
        },
        "assumptions": BASE_ASSUMPTIONS + sorted(ass) + sorted(extra) + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": nv,
    }
    return ev


if __name__ == "__main__":
    main()
