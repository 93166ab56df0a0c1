#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties, meta.py and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from meta import META
LEVELS = {
 "note": "Seeded search over histories, schedules and fault sequences on the real code; nothing is claimed about executions not explored.",
}
NA = {
 "C26": "The curves come from an external steering library that is not installed here, and the property is a pure function of robot and poses: no schedule, fault, clock or history takes part, so simulation has nothing to vary.",
 "C28": "The plotting library is not installed here, so the code cannot be built; and drawing is a pure function of the object drawn.",
}
PURE = "A pure function of its input: no concurrency, time, I/O, failure or history takes part, so there is no schedule or fault sequence to simulate; deciding it would be input generation against a geometric oracle, another technique."
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "props", p.lower() + ".cpp")) and p in META:
        m = META[p]
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} --tier quick", thorough_cmd=f"python3 check.py {p} --tier thorough",
            evidence_file=f"evidence/{p}.json", technique=m["technique"], level="exploration",
            level_note=m.get("note", LEVELS["note"]) + " Assumes: " + "; ".join(m["assumptions"]) + "."))
    elif int(p[1:]) >= 20:
        na.append(dict(property=p, reason=NA.get(p, PURE)))
    else:
        na.append(dict(property=p, reason="Check not built yet."))
json.dump(dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every seam is at a boundary the library already has (operator new, system calls, GEOS/PROJ/OGR entry points, parallel-algorithm backend, compiler instrumentation, user callbacks). See DESIGN.md."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
