#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note, claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, claim=claim, reason=reason))

exec(open(os.path.join(V, "tools", "props.py")).read())

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    for f in p["files"]: assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the seams are system calls, the clock, the allocator, ROOT's TRandom3/TStopwatch and the library's own virtual interfaces, replaced at link time", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in sorted(P, key=lambda p: p["id"]):
    if p["claim"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                            "technique": "deterministic simulation with fault injection (seeded search, reference model)", "level": "exploration", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
