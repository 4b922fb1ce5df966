#!/opt/venv/bin/python
"""Write MANIFEST.json from the worlds that exist and the properties that do not have one."""
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import core  # noqa

NA = {
    "N01": "pure function of its inputs: no concurrency, time, I/O, fault or history for a simulator to schedule",
    "N02": "pure function of its inputs: no concurrency, time, I/O, fault or history for a simulator to schedule",
    "N03": "pure function of its inputs: layout of a recorded circuit; nothing for a simulator to schedule or fail",
}
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
have = {os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(V, "dst/worlds/[cn][0-9][0-9].py"))}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        w = core.load_world(i)
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": w.TECH, "level": w.LEVEL,
                       "level_note": w.NOTE + (" Assumes: " + "; ".join(w.ASSUME) if w.ASSUME else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "machinery not built yet")})
doc = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
       "notes": "Every check builds the C++ simulator from /repo's working tree into /verif/.cache (keyed by source content) and imports "
                "the Python code from /repo; no hooks were needed in /repo: all seams are existing interfaces or sit beneath the code. "
                "Replay a reported file with: /opt/venv/bin/python -m dst replay FILE"}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
