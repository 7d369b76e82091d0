#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P: f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in props.P]
assert len(set(ids)) == len(ids)
checks = []
for i in ids:
    if i not in registry.CHECKS: continue
    c = registry.CHECKS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --thorough",
                       evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"], level_note=c["note"]))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, "no check has been built for it yet")) for i in ids if i not in registry.CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the checks build /repo's sources as they are; commits in /repo are repairs only (known_findings.txt).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
for i in registry.CHECKS: assert i in ids, i
for p in props.P:
    assert len(p["title"]) <= 80, p["title"]
    for f in p["anchors"]["files"]: assert os.path.exists("/repo/" + f), f
print(len(ids), "properties,", len(checks), "checks")
