#!/usr/bin/env python3
"""Writes MANIFEST.json for every property that has a module in vt/props."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (root / "properties.jsonl").read_text().splitlines()]
NOTES = {}
notes = root / "tools" / "level_notes.json"
if notes.exists():
    NOTES = json.loads(notes.read_text())
checks, na = [], []
for p in props:
    pid = p["id"]
    if (root / "vt" / "props" / f"{pid.lower()}.py").exists():
        checks.append({
            "property": pid,
            "quick_cmd": f"./run check {pid} --tier quick",
            "thorough_cmd": f"./run check {pid} --tier thorough",
            "technique": NOTES.get(pid, {}).get(
                "technique", "property-based testing (Hypothesis) against a reference model"),
            "level": "exploration",
            "level_note": NOTES.get(pid, {}).get(
                "note", "Generated cases against an independent oracle; no claim beyond the cases explored."),
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "./run setup", "checks": checks, "not_applicable": na}
(root / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
