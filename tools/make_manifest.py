#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and their one-line notes."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = {os.path.basename(f)[:3].upper(): f for f in glob.glob(os.path.join(ROOT, "checks", "c*.py"))}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="./run.sh %s" % i, thorough_cmd="VERIF_TIER=thorough ./run.sh %s" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=n.get("technique", "runtime monitoring: generated workloads against an independent reference model"),
                           level="exploration", level_note=n.get("note", "held on the executions listed in the evidence file; trusts the reference model in checks/ and numpy")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "no check registered yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Pure Python library without hooks: all monitors observe through the public API. Seeds: VERIF_SEED; depth: VERIF_TIER."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
