#!/usr/bin/env python3
"""Writes /verif/DESIGN.md (run: python3-vt tools/design.py)."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from design_notes import HOW
out = [open(os.path.join(V, "tools/design_head.md")).read()]
w = out.append
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
costs_file = os.path.join(V, "tools/costs.json")
costs = json.load(open(costs_file)) if os.path.exists(costs_file) else {}
for p in props:
    f = os.path.join(V, "evidence", p["id"] + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
        if not e["violations"] and e["coverage"]["exhaustive"]:
            c = e["coverage"]
            costs.setdefault(p["id"], {})[e["tier"]] = [c["states"], c["solver_queries"], c["assertions_checked"], round(e["wall_s"])]
json.dump(costs, open(costs_file, "w"), indent=0, sort_keys=True)
w("## 2. The properties, one by one\n")
seeds = {}
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    seeds[s] = m
for p in props:
    i = p["id"]
    m = importlib.import_module("checks." + i.lower())
    w("### %s %s\n" % (i, p["title"]))
    w("%s\n" % p["statement"])
    w("*Anchors:* %s.\n" % "; ".join("%s (%s)" % (x["where"], x["name"]) for x in p["anchors"]["mechanism"]))
    w("*How:* %s\n" % HOW[i])
    w("*Why tests can not settle it:* %s\n" % p["why_tests_cant"])
    q, t = m.configs("quick"), m.configs("thorough")
    w("*Bounds, quick:*\n\n" + "\n".join("* `%s`: %s" % (c.name, c.bounds) for c in q) + "\n")
    qs = {(c.name, c.bounds) for c in q}
    tt = [c for c in t if (c.name, c.bounds) not in qs]
    if tt:
        w("*Thorough, in addition or instead:*\n\n" + "\n".join("* `%s`: %s" % (c.name, c.bounds) for c in tt) + "\n")
    if getattr(m, "ASSUMPTIONS", None):
        w("*Assumptions:* %s.\n" % "; ".join(m.ASSUMPTIONS))
    for tier, c in sorted(costs.get(i, {}).items()):
        w("*Cost (%s, last measured run):* %d paths, %d solver queries, %d assertions, %d s.\n" % ((tier,) + tuple(c)))
    sw = [s for s in seeds if seeds[s]["property"] == i]
    if sw:
        w("*Seeded bugs:* %s.\n" % ", ".join(sw))
w("## 3. What the checks found in licant\n")
w("Everything found was repaired (one \"fix:\" commit each); there are no open known findings. From known_findings.txt:\n")
for l in open(os.path.join(V, "known_findings.txt")):
    mm = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if mm:
        w("* %s, %s: %s" % mm.groups())
    mm = re.match(r"known: property=(\S+) (.*)", l)
    if mm:
        w("* %s, OPEN: %s" % mm.groups())
w("\n## 4. Cost overview (quick tier)\n\n| property | paths | queries | assertions | s |\n|---|---|---|---|---|")
for p in props:
    c = costs.get(p["id"], {}).get("quick")
    if c:
        w("| %s | %d | %d | %d | %d |" % ((p["id"],) + tuple(c)))
w("\n## 5. Seeded bugs and the checks that catch them\n")
w("Each was written from the text of its property and the code. Caught by the quick check of its own property unless stated. The column *caught in* "
  "is the configuration and assertion of the counterexample in the last sweep.\n")
sweep = {}
sf = os.path.join(V, "tools/sweep.txt")
if os.path.exists(sf):
    for l in open(sf):
        a = l.split(None, 2)
        if len(a) == 3:
            mm = re.search(r"rc=(\d+)", a[2])
            cc = re.search(r"violated in (.*?): (\S[^:]*):", a[2])
            sweep[a[0]] = (mm and mm.group(1), cc and "%s: %s" % cc.groups())
w("| seed | property | what it breaks | needs | caught in |\n|---|---|---|---|---|")
def cell(x):
    return str(x).replace("|", "\\|").replace("\n", " ")
for s, m in seeds.items():
    r = sweep.get(s)
    w("| %s | %s | %s | %s | %s |" % (s, m["property"], cell(m["what_it_breaks"]), cell(m["needs"]),
      cell(r[1] or "yes") if r and r[0] == "1" else ("MISSED" if r else "?")))
w("")
w(open(os.path.join(V, "tools/design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
