"""python tools/addfixed.py C07 <commit> <what failed>: record a repaired defect."""
import json, sys
p, c, w = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "what": f"fixed: property={p} {c} {w}"}) + "\n")
