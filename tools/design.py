"""Writes DESIGN.md."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.argv = [sys.argv[0]]
src = open(V + "/tools/props.py").read().replace("\nmain()\n", "\n")
g = {"__file__": V + "/tools/props.py", "__name__": "x"}
exec(src, g)
PROPS, NA = g["PROPS"], {x["property"]: x["reason"] for x in g["NA"]}
kf = json.load(open(V + "/known_findings.json"))
out = [open(V + "/tools/design_head.md").read().rstrip() + "\n"]
w = out.append
w("Repaired (`fix:` commits in /repo, each passing the unedited test suite):\n")
for f in kf["fixed"]:
    w("* " + f[len("fixed: property="):])
w("\nRecorded (KNOWN-FINDING lines):\n")
for f in kf["findings"]:
    w("* %s `%s`: %s" % (f["property"], f["probe"], f["what"]))
w("\n## 3. Properties\n")
res = {}
p = V + "/tools/seed_results.json"
if os.path.exists(p):
    res = json.load(open(p))
mods = sorted(x[:-3] for x in os.listdir(V + "/contracts") if x.startswith("c") and x.endswith(".py"))
seeds = {}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    seeds.setdefault(m["property"], []).append((s, m))
for pr, level, note, tech in PROPS:
    pid = pr["id"]
    w("### %s %s\n" % (pid, pr["title"]))
    w(pr["statement"] + "\n")
    if pid in NA:
        w("**Not applicable**: " + NA[pid] + "\n")
        continue
    mod = [m for m in mods if m.startswith(pid.lower() + "_")][0]
    pm = importlib.import_module("contracts." + mod)
    w("*How it is decided* (`contracts/%s.py`, level %s): %s %s\n" % (mod, level, pm.EXPLANATION, note))
    w("*Why tests cannot*: %s.\n" % pr["why_tests_cant"])
    for h in pm.HARNESSES:
        kind = "symbolic, %d cross-check runs" % (h.runs * h.parts) if h.symbolic else "bounded stand-in, %d random runs (%s)" % (h.runs * h.parts, h.why_bounded)
        w("* `%s` [%s]: %s" % (h.name, kind, " ".join((h.claim or "").split())))
    a = list(pm.TRUSTED) + list(pm.ASSUMPTIONS)
    if a:
        w("\n*Assumed / not covered*: " + "; ".join(a) + ".")
    if pid in seeds:
        w("\n*Planted bugs*: " + "; ".join("`%s` %s (%s)" % (s, res.get(s, "caught"), m["what_it_breaks"]) for s, m in seeds[pid]) + ".")
    w("")
tail = V + "/tools/design_tail.md"
if os.path.exists(tail):
    w(open(tail).read())
open(V + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
