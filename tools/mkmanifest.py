"""Writes MANIFEST.json (run after changing properties or checks)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p, evidence_file="evidence/%s.json" % p,
                       technique=NOTE[p]["technique"], level="model_checking", level_note=NOTE[p]["note"]))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[]), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
