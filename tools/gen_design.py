#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property (table.py, design_table.py, suites) + design_tail.md"""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "design_table.py")).read())
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    src = open(os.path.join(ROOT, "vf", "props", p["id"].lower() + ".py")).read()
    m = re.search(r"suite = Suite\((.*?)\n\)\n", src, re.S)
    kw = {}
    names = re.findall(r"@suite\.scenario\(quick=(\d+), thorough=(\d+)[^)]*\)\ndef (\w+)", src)
    rule = re.search(r'rule=((?:\s*f?"[^"]*")+)', m.group(1)).group(1)
    rule = " ".join("".join(re.findall(r'"([^"]*)"', rule)).split())
    seen, oracle, bounds = D[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n\n"
               f"*Specified:* {p['statement']}\n\n"
               f"*Monitored:* {seen}. *Oracle:* {oracle}."
               + (f" *Bounds:* {bounds}." if bounds else "") + "\n\n"
               f"*Workload:* " + ", ".join(f"`{n}` ({q} cases quick, {t} thorough)" for q, t, n in names) + f". {rule[0].upper() + rule[1:]}.\n\n"
               f"*Beyond the tests:* {p['why_tests_cant']}\n")
out.append(open(os.path.join(ROOT, "tools", "design_tail.md")).read())
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"* `{d}` ({m['property']}, {'caught' if m.get('caught', True) else 'NOT caught'}): {m['what_it_breaks']} *Needs:* {m['needs']}")
open(os.path.join(ROOT, "DESIGN.md"), "a").write("\n".join(rows) + "\n")
