#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the lists of properties and harnesses, and tools/design_tail.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/engine/checks.go").read()
how = {}
exec(open(V + "/tools/how.py").read())
out = open(V + "/tools/design_head.md").read()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
for p in props:
    m = re.search(r'\{ID: "%s", Harnesses: \[\]harnessCfg\{(.*?)\}, Bounds: "(.*?)",\s*Outside: "(.*?)"' % p["id"], src, re.S)
    hs = re.findall(r'Fn: "(\w+)"', m.group(1))
    h = how[p["id"]]
    out += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    out += "*Decided by* %s\n\n" % h[1]
    out += "*Harnesses:* %s.\n\n*Bounds:* %s.\n\n*Outside:* %s.\n\n" % (", ".join(hs), m.group(2).replace('\\"', '"'), m.group(3).replace('\\"', '"'))
    out += "*Why not by tests:* %s *Cost:* about %s s.\n\n" % (p["why_tests_cant"], h[0])
tail = open(V + "/tools/design_tail.md").read()
fixes = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups() for l in open(V + "/known-findings.txt") if l.startswith("fixed:")]
tail = tail.replace("FIXES", "\n".join("| %s | %s | %s |" % (c, p, t) for p, c, t in sorted(fixes)))
import glob
rows = []
missed = {"S03", "S05", "S06", "S12", "S13", "S18b", "S20", "S22", "S22b", "S25b"}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    i = f.split("/")[-2]
    rows.append("| %s%s | %s | %s | %s |" % (i, "(*)" if i in missed else "", d["property"], d["needs"], d["what_it_breaks"]))
tail = tail.replace("SEEDS", "\n".join(rows))
out += tail
open(V + "/DESIGN.md", "w").write(out)
