#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
from pv import checks

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {
    "sim": "Runtime monitoring of the real server under random, hostile and faulty histories in a simulated transport "
           "and clock; the verdict covers the histories run, not all of them. Trusted: the reference model in "
           "pv/model.py and the stand-ins for libxcm and poll in pv/simos.py.",
}
ms = []
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        continue
    ms.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py --prop %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py --prop %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": getattr(c, "technique", None) or "runtime monitoring: online trace checking against a reference model",
        "level": "exploration",
        "level_note": getattr(c, "level_note", None) or NOTE["sim"],
    })
m = {"version": 1, "setup_cmd": "sh setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks run the unmodified sources of /repo", "source_commits": []},
     "checks": ms,
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props
                        if p["id"] not in checks.CHECKS]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
