#!/usr/bin/env python3
"""Development helper: confirm a planted bug in a scratch copy of /repo.

usage: seed.py ID [--check]
 - copies /repo, runs the demo on it (must pass), applies the patch, runs the
   stable tests (must pass) and the demo (must fail)
 - with --check: applies the patch to /repo, runs the property's quick check and
   undoes the patch; prints whether the check caught it
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path("/verif")


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def confirm(i):
    d = V / "seeded" / i
    tmp = Path(tempfile.mkdtemp(prefix="seed-", dir="/tmp"))
    try:
        r = tmp / "repo"
        shutil.copytree("/repo", r, symlinks=True)
        demo = tmp / "demo"
        demo.mkdir()
        for f in d.iterdir():
            if f.suffix not in (".diff", ".patch") and f.name != "meta.json":
                shutil.copy(f, demo)
        env = {"PYTHONPATH": str(r), "PATH": "/opt/venv/bin:" + os.environ["PATH"], "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
        a, oa = run(["bash", str(demo / "demo.sh")], r, env, 300)
        rc, o = run(["git", "apply", str(d / "patch.diff")], r)
        if rc:
            return f"patch does not apply: {o}"
        b, ob = run(["bash", str(demo / "demo.sh")], r, env, 300)
        if a != 0:
            return f"demo fails on the clean tree:\n{oa[-1500:]}"
        if b == 0:
            return f"demo passes with the patch:\n{ob[-1500:]}"
        if "--notest" in sys.argv:
            return "demo ok: " + ob.strip()[-200:]
        stable = json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"]
        rc, o = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=tests/1_verification/flappy_0_6/abl_states",
                     "-o", "junit_family=xunit2", "--junitxml=" + str(tmp / "j.xml"), "tests"], r, env, 800)
        if "--verbose" in sys.argv:
            print(o[-3000:])
        import xml.etree.ElementTree as ET
        good = set()
        for c in ET.parse(tmp / "j.xml").iter("testcase"):
            if not list(c):
                good.add(c.get("classname") + "::" + c.get("name"))
        bad = [s for s in stable if s not in good]
        return f"demo ok ({ob.strip()[-200:]!r}); stable tests {'ok' if not bad else 'FAIL ' + str(bad)}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(i):
    d = V / "seeded" / i
    prop = json.loads((d / "meta.json").read_text())["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", str(d / "patch.diff")])
    try:
        rc, o = run([str(V / "bin/check"), prop, "quick"], V, {"VERIF_SEED": "1", "VERIF_TIER": "quick"})
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in o.splitlines() if "VIOLATION" in l or "Error" in l]
    n = [l.strip() for l in o.splitlines() if l.startswith("    ")]
    return f"{prop}: rc={rc} {'CAUGHT' if rc == 1 and any('VIOLATION property=' + prop in l for l in v) else 'MISSED'} {n[:1] or o[-300:]}"


for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    if "--only-check" not in sys.argv:
        print(i, confirm(i), flush=True)
    if "--check" in sys.argv or "--only-check" in sys.argv:
        print(i, check(i), flush=True)
