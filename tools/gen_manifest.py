#!/usr/bin/env python3
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
drv = json.load(open(V + "/tools/drivers.json"))
notes = json.load(open(V + "/tools/manifest-notes.json"))
checks, na = [], []
hooks = notes["hooks"]
for p in props:
    i = p["id"]
    if i in drv:
        n = notes.get(i, notes["default"])
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"python3 tools/check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": n.get("level", "exploration"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": notes.get("na", {}).get(i, "The monitor for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": {"guard": "--cfg vortex_newer_rustc", "enable": "RUSTFLAGS with --cfg vortex_newer_rustc, set by tools/memcheck.py for the Miri and ThreadSanitizer builds only", "source_commits": hooks}, "checks": checks, "not_applicable": na,
     "notes": "The monitors observe the public API of the Vortex crates. The one hook lets the code compile with the newer compiler whose standard library can be instrumented offline; it changes no behaviour."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
