#!/opt/veriftools/pyvenv/bin/python3
"""Writes properties.jsonl and MANIFEST.json from statements.py."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
from statements import NOTES, PROPERTIES, SETUP

TECH = ("deterministic simulation with fault injection: seeded search over "
        "histories and faults")
KEYS = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")

with open("properties.jsonl", "w") as f:
    for p in PROPERTIES:
        f.write(json.dumps({k: p[k] for k in KEYS}) + "\n")
checks, na = [], []
for p in PROPERTIES:
    if "not_applicable" in p:
        na.append({"property": p["id"], "reason": p["not_applicable"]})
        continue
    cmd = "python3-vt check.py %s --tier " % p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": cmd + "quick",
        "thorough_cmd": cmd + "thorough",
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p.get("technique", TECH), "level": "exploration",
        "level_note": p["level_note"]})
with open("MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": SETUP, "checks": checks,
               "not_applicable": na, "notes": NOTES}, f, indent=1)
    f.write("\n")
