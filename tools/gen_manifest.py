"""Writes /verif/MANIFEST.json from the property modules present in props/."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists(V + "/props/%s.py" % i):
        m = importlib.import_module("props." + i)
        if m.groups():
            checks.append({
                "property": i, "quick_cmd": "bash /verif/check.sh %s quick" % i, "thorough_cmd": "bash /verif/check.sh %s thorough" % i,
                "technique": "contract-based deductive verification: contracts and loop invariants on the functions of /repo (extracted from clang's AST on every run), every obligation discharged by z3/cvc5; failing inputs searched by running the same contracts on the compiled code",
                "level": getattr(m, "LEVEL", "proof"),
                "level_note": (getattr(m, "NOTE", "") + " " if getattr(m, "NOTE", "") else "") + "Bounded part: " + getattr(m, "BOUNDED", "none")})
            continue
    na.append({"property": i, "reason": getattr(importlib.import_module("props." + i), "REASON", "contracts not written yet") if os.path.exists(V + "/props/%s.py" % i) else "contracts not written yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && clang++-18 --version", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
