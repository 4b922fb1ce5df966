#!/opt/venv/bin/python
"""tools/fixed.py PROP[,PROP] [COMMIT] [what failed]: record a repair commit of /repo in known_findings.json."""
import json, os, subprocess, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
doc = json.load(open(P)) if os.path.exists(P) else {"findings": [], "fixed": []}
for p in sys.argv[1].split(","):
    c = sys.argv[2] if len(sys.argv) > 2 else "HEAD"
    h, s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h%x00%s", c], capture_output=True, text=True).stdout.strip().split("\0")
    what = sys.argv[3] if len(sys.argv) > 3 else "repaired: " + s[5:]
    doc["fixed"].append(f"fixed: property={p} {h} {what}")
json.dump(doc, open(P, "w"), indent=1)
