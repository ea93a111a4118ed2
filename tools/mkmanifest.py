#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/plan.json and properties.jsonl."""
import json
V = "/verif"
plan = json.load(open(V + "/sim/plan.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = "A pure function of its arguments: no schedule, clock, I/O, crash or allocation enters the statement, so a simulator has nothing to decide; only input generation would remain, which is another technique. What depends on the memory that a computation works in is C20, which compares with this definition on small operands as its oracle."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection: seeded search, replayable and minimised",
            level="exploration", level_note=plan[i]["note"]))
    else:
        na.append(dict(property=i, reason=NA if i[0] == "N" else "Not yet claimed: its simulation is being built."))
json.dump(dict(version=1, setup_cmd="python3 check.py build", hooks=dict(guard="none", enable="No hooks: the seam is libc, operator new and compiler-inserted basic-block callbacks; /repo's sources are compiled unmodified.", source_commits=[]),
    checks=checks, not_applicable=na, notes="See DESIGN.md. Replay a violation with: python3 check.py replay <file>."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
