#!/usr/bin/env python3
"""Writes known_findings.json from the list below (fixed ones name their commit)."""
import json, subprocess
from pathlib import Path

V = Path(__file__).resolve().parents[1]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixes = json.loads((V / "tools" / "fixes.json").read_text())
known = json.loads((V / "tools" / "known.json").read_text())
out = []
for title, (prop, what) in fixes.items():
    h = [l.split()[0] for l in log if l.split(" ", 1)[1] == title]
    if not h:
        raise SystemExit(f"no commit: {title}")
    for p in prop.split("/"):
        out.append(dict(id=f"fixed-{h[0]}-{p}", property=p, status="fixed", what=f"fixed: property={p} {h[0]} {what}"))
missing = [l for l in log if " fix:" in l and l.split(" ", 1)[1] not in fixes]
if missing:
    raise SystemExit("not recorded: " + "; ".join(missing))
out += known
(V / "known_findings.json").write_text(json.dumps(dict(findings=out), indent=1) + "\n")
print(len(out), "findings")
