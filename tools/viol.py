#!/usr/bin/env python3
"""Development helper: runs a check and counts violations by clause and tags."""
import collections, os, sys
os.environ.setdefault("VERIF_SEED", "1")
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import vf.env  # noqa
from vf import report, env
import importlib


def main():
    p = sys.argv[1]
    mod = importlib.import_module(f"vf.checks.{p.lower()}")
    chk = report.Check(p)
    mod.run(chk)
    c = collections.Counter()
    ex = {}
    for text, data, key in chk.viol:
        tags = tuple(data.get("trace", {}).get("tags", ())) if isinstance(data, dict) else ()
        k = (data.get("clause", key) or text, tags)
        c[k] += 1
        ex.setdefault(k, []).append(data.get("trace", {}).get("id", text[:150]))
    for k, n in sorted(c.items(), key=lambda x: -x[1])[:60]:
        print(n, k, sorted(set(ex[k]))[:3])
    print(len(chk.viol), "violations; known", {k: v[1] for k, v in chk.known.items()})
    import shutil; shutil.rmtree(env.SCRATCH, ignore_errors=True)
    os._exit(0)


if __name__ == "__main__":
    main()
