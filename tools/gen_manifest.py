#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
MODEL = "runtime monitoring: differential oracle (independent codec and node-level reference model) over executions of the real program"
NOTE = ("Held on every generated execution explored, nothing more; trusts the monitor's own mapblock codec and reference model, "
        "and the system sqlite3, zlib and zstd libraries used to prepare and read maps. Plain and overflow-checked builds both run.")
T = {f"C{i:02d}": (MODEL, "exploration", NOTE) for i in list(range(1, 19)) + [23, 26]}
T["C02"] = ("runtime monitoring: strict format monitor and reference model over histories of commands", "exploration", NOTE)
T["C16"] = ("runtime monitoring: row, page and integrity monitor over vacuum runs", "exploration", NOTE)
T["C17"] = ("runtime monitoring: metamorphic oracle over area and inverted-area runs", "exploration", NOTE)
T["C18"] = ("runtime monitoring under damaged inputs: reference model plus crash and hang monitor", "exploration", NOTE)
T["C26"] = ("runtime monitoring: metamorphic oracle over re-encoded maps and repeated runs", "exploration", NOTE)
exec(open(os.path.join(root, 'tools', 'manifest_extra.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        t, lvl, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "tools/build.sh all quick", "checks": checks, "not_applicable": na,
           "notes": "Each check builds the monitor and /repo's program itself (into /verif/build) and runs the real executable; there are no hooks in /repo. See DESIGN.md."},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
