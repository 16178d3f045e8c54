#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (from properties.jsonl and the harness headers) + tools/design_tail.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(V + "/tools/design_head.md").read()
seeded = {}
for d in ("seeded", "planted_more"):
  for b in sorted(os.listdir(f"{V}/{d}")) if os.path.isdir(f"{V}/{d}") else []:
    m = json.load(open(f"{V}/{d}/{b}/meta.json"))
    seeded.setdefault(m["property"], []).append((b, m))
fixed = {}
for l in open(V + "/known_findings.jsonl"):
    d = json.loads(l)
    fixed.setdefault(d["property"], []).append(d)
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    h = f"{V}/harness/{i}.cc"
    o += f"\n### {i} {p['title']}\n\n{p['statement']}\n\n"
    if not os.path.exists(h):
        o += "Not claimed.\n"
        continue
    t = open(h).read()
    g = lambda k: "; ".join(x.strip() for x in re.findall(r"^// %s: (.*)$" % k, t, re.M))
    cases = re.findall(r"LFS_CASE\((\w+)\)", t)
    o += f"- real code executed symbolically: units `{g('units')}` (harness `harness/{i}.cc`, cases {', '.join(cases) if len(cases) <= 14 else str(len(cases)) + ' cases'})\n"
    o += f"- bounds: {g('bound')}\n"
    if g("outside"): o += f"- outside: {g('outside')}\n"
    o += "- why not tests: " + p.get("why_tests_cant", "") + "\n"
    for d in fixed.get(i, []): o += f"- genuine defect repaired in {d['commit']}: {d['what'].split(' ', 3)[3]}\n"
    for b, m in seeded.get(i, []): o += f"- planted `{b}`: {m['what_it_breaks']}. Needs: {m['needs']}. Caught by {i}.\n"
o += "\n" + open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(o)
