#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of registered checks."""
import json, re, glob, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = set()
for f in glob.glob(os.path.join(here, "harness", "*.go")):
    s = open(f).read()
    ids |= set(re.findall(r'ID:\s*"([A-Z]\d+)"', s)) | set(re.findall(r'\w+Check\("([A-Z]\d+)"', s))
techniques = json.load(open(os.path.join(here, "techniques.json")))
checks = []
for p in props:
    i = p["id"]
    if i not in ids:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "bash run.sh check " + i,
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh check " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing: " + techniques[i],
        "level": "exploration",
        "level_note": "Randomised exploration from a fixed seed plus enumerated small cases; covers the histories and inputs described in DESIGN.md, not all of them.",
    })
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks, "not_applicable": [],
     "notes": "All checks are one Go program (harness/) built against /repo on every run. Replay a failure with: bash run.sh replay <file>."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [p["id"] for p in props if p["id"] not in ids])
