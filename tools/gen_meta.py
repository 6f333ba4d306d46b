#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (CLAIMED = has vf/props/<id>.py)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level="exploration", technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, level=level, technique=technique, note=note, na=na))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None),
        )) + "\n")

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(ROOT, "vf", "props", p["id"].lower() + ".py")):
        checks.append(dict(
            property=p["id"], quick_cmd=f"./run.sh {p['id']} --tier quick",
            thorough_cmd=f"./run.sh {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique="runtime monitoring: " + p["technique"], level=p["level"],
            level_note=p["note"] or "Holds on every execution the workload produced; nothing is claimed for unexecuted inputs. Trusts numpy reference oracles and float tolerances."))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="FORTUNA_VERIF", enable="no hook commits: monitors observe the public API and patch from /verif at run time", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="One check per property: ./run.sh <id>. Violations are judged by oracles over observed executions of /repo's working tree; see DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
