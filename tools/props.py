#!/usr/bin/env python3
"""The properties; writes ../properties.jsonl and (with checks.json) ../MANIFEST.json."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None), _na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "proplist.py")).read())

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "checks.json")) as f:
    REG = json.load(f)

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")

checks, na = [], []
ids = {p["id"] for p in P}
for pid in REG:
    assert pid in ids, pid
for p in P:
    pid = p["id"]
    if pid in REG:
        r = REG[pid]
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s" % pid,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % pid,
                           evidence_file="evidence/%s.json" % pid,
                           technique=r.get("technique", "runtime monitoring: randomised workloads under ASan/UBSan with online oracle monitors"),
                           level=r.get("level", "exploration"),
                           level_note=r.get("note", "Holds on every execution observed: seeded random workloads of the real code, "
                                            "judged by independent reference monitors, with memory and undefined-behaviour errors fatal. "
                                            "Trusts the reference implementations in the harness.")))
    else:
        na.append(dict(property=pid, reason=p["_na"] or "No check built for it yet."))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "claimed,", len(na), "not")
