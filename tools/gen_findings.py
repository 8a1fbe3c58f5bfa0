#!/usr/bin/env python3
"""Writes known-findings.json: recorded findings (below) and the fix: commits of /repo. Run by hand, never by a check."""
import json, subprocess, sys
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# recorded, unrepaired findings: probe id, property, what fails
FINDINGS = json.load(open(V + "/tools/findings.json"))
PROP = json.load(open(V + "/tools/fixed-props.json"))  # commit subject -> property
log = subprocess.run(["git", "-C", V + "/../repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout
fixed = []
missing = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    if s not in PROP: missing.append(s); continue
    for p in PROP[s].split(","):
        fixed.append(f"fixed: property={p} {h} {s}")
json.dump({"findings": FINDINGS, "fixed": fixed}, open(V + "/known-findings.json", "w"), indent=1, ensure_ascii=False)
print(len(FINDINGS), "findings,", len(fixed), "fixed")
for m in missing: print("NO PROPERTY:", m)
