#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the property modules that exist."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(here, "harness", "props", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    src = open(f).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    note = re.search(r'^LEVEL_NOTE = \((.*?)^\)|^LEVEL_NOTE = "(.*?)"$', src, re.M | re.S)
    note = eval("(" + (note.group(1) or repr(note.group(2))) + ")") if note else (
        "Generated-input search over the stated bounds against an independent oracle; absence of violations "
        "outside the generated cases is not established. Trusts harness/wire.py and the simulated sockets.")
    tech = re.search(r'^TECHNIQUE = "(.*?)"$', src, re.M)
    checks.append({
        "property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": tech.group(1) if tech else "property-based testing (Hypothesis + bounded enumeration) with an explicit oracle",
        "level": level, "level_note": note})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. KNOWN_FINDINGS lists repaired and known defects."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
