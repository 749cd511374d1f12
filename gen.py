#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from spec.py and groups.py."""
import json
import os
import subprocess
from spec import SPEC
from groups import PROPERTY_GROUP

HERE = os.path.dirname(os.path.abspath(__file__))
with open(HERE + "/properties.jsonl", "w") as f:
    for p in SPEC:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
checks, na = [], []
for p in SPEC:
    if p["id"] in PROPERTY_GROUP:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": "property-based testing", "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(HERE + "/MANIFEST.json", "w"), indent=1)
# fixes.txt: property<TAB>subject of the fix commit in /repo
log = subprocess.run(["git", "-C", os.environ.get("VT_REPO", "/repo"), "log", "--format=%h\t%s"], stdout=subprocess.PIPE, text=True).stdout
by = {l.split("\t", 1)[1]: l.split("\t", 1)[0] for l in log.splitlines()}
fixed, seen = [], set()
for l in open(HERE + "/fixes.txt"):
    if l.strip():
        pid, subj = l.rstrip("\n").split("\t", 1)
        if subj not in by:
            print("no commit for", subj)
            continue
        seen.add(subj)
        fixed.append("fixed: property=%s %s %s" % (pid, by[subj], subj.replace("fix: ", "", 1)))
for s in by:
    if s.startswith("fix:") and s not in seen:
        print("fix not in fixes.txt:", s)
kf = json.load(open(HERE + "/known_findings.json"))
kf["fixed"] = fixed
json.dump(kf, open(HERE + "/known_findings.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
