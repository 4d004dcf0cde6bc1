#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a check module."""
import json
from pathlib import Path

V = Path(__file__).resolve().parents[1]
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
notes = json.loads((V / "tools" / "level_notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "harness/vf/checks" / f"{i.lower()}.py").exists():
        checks.append(dict(
            property=i,
            quick_cmd=f"bin/check {i} quick",
            thorough_cmd=f"bin/check {i} thorough",
            technique="TLA+ specification model-checked with TLC; recorded executions of the real code validated against it by TLC",
            level="model_checking",
            level_note=notes.get(i, "The specification is checked exhaustively for small constants; the code is bound to it by validating recorded executions of generated scenarios, which samples the inputs."),
        ))
    else:
        na.append(dict(property=i, reason=notes.get("na-" + i, "No check has been built yet.")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
