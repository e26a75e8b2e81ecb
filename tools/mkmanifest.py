#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the rules of the analyser."""
import json, subprocess
rules = dict(l.split("\t", 1) for l in subprocess.check_output(["/verif/bin/ck", "-props"], text=True).splitlines())
NA = {}
try:
    NA = json.load(open("/verif/tools/na.json"))
except FileNotFoundError:
    pass
checks, na = [], []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in rules:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "abstract interpretation of the type-checked SSA form (path-sensitive value, bit and linear-inequality domains, loop summaries); rule: " + rules[i],
            "level": "other",
            "level_note": "Static: the source is analysed, never run. Each rule instance covers every input of its shape (any bytes, lengths, positions, writer failures); the shapes of user types and the collection sizes are a finite table, described in DESIGN.md. What the domains cannot describe is printed as UNDECIDED and raises no alarm.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no rule yet")})
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
