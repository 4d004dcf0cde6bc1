"""Development helper: mkbug(id, prop, [(file, old, new), ...], demo, needs, what)
writes /verif/seeded/<id>/ from edits of /repo's HEAD."""
import json
import shutil
import subprocess
import tempfile
from pathlib import Path


def mkbug(i, prop, edits, demo, needs, what, all_=False):
    d = Path("/verif/seeded") / i
    d.mkdir(parents=True, exist_ok=True)
    tmp = Path(tempfile.mkdtemp(prefix="mkbug-", dir="/tmp"))
    try:
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", str(tmp / "r")])
        for f, old, new in edits:
            p = tmp / "r" / f
            s = p.read_text()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        out = subprocess.run(["git", "diff"], cwd=tmp / "r", stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    (d / "patch.diff").write_text(out)
    (d / "demo.py").write_text(demo.lstrip())
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONPATH="$PWD:$PYTHONPATH" MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=what), indent=1) + "\n")
    # lines added by own commits must not be changed: report the ages of removed lines
    print(i, prop)
