"""Assemble DESIGN.md from its parts and the tables of planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + "/tools/design_head.md").read() + "\n" + open(V + "/tools/design_props.md").read()
m = json.load(open(V + "/MANIFEST.json"))
if m.get("not_applicable"):
    out += "\nNot claimed:\n\n"
    for n in m["not_applicable"]:
        out += "* **%s**: %s\n" % (n.get("property") or n.get("id") or n.get("property_id"), n["reason"])
out += "\n## 5. Planted bugs\n\nEach was written from the statement and the code, confirmed to compile and pass the tests, and is caught by the quick check of its property\n(detected by: what the check printed first; 'proof' a failed obligation, 'replay' a failing input on the real code).\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
try:
    caught = json.load(open(V + "/tools/caught.json"))
except Exception:
    caught = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    e = json.load(open(d))
    k = os.path.basename(os.path.dirname(d))
    out += "| %s | %s | %s | %s | %s |\n" % (k, e["property"], e["needs"], e["what_it_breaks"], caught.get(k, "?"))
out += open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(out)
