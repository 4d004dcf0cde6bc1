"""The check driver: collects coverage, known findings, violations, evidence."""

import json
import os
import random
import shutil
import sys
import time
import traceback

from . import env
from .jobs import run_jobs
from .tlc import TLCError, check_traces, model_check


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.n_traces = 0
        self.n_events = 0
        self.samples = []
        self.assumptions = []
        self.viol = []
        self.known = {}
        self.notes = {}
        self.canaries = [0, 0]
        self.seed = env.SEED
        self.rng = random.Random(f"{prop}-{env.SEED}")
        self.findings = []
        if env.FINDINGS.exists():
            self.findings = [f for f in json.loads(env.FINDINGS.read_text())["findings"]
                             if f["property"] == prop and f.get("status", "known") == "known"]

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- design level -------------------------------------------------------
    def mc(self, module, expect=None, **kw):
        """Model-checks a design module; expect names an invariant that must be
        violated (a sanity run showing that the property is not vacuous)."""
        r = model_check(module, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        tag = kw.get("constants", {})
        if expect is None and not r["ok"]:
            if r["violated"] is None:
                raise TLCError(f"TLC failed on {module} {tag}:\n{r['out'][-3000:]}")
            raise TLCError(f"design {module} {tag} violates {r['violated']}:\n{r['out'][-3000:]}")
        if expect is not None and (r["ok"] or r["violated"] is None):
            raise TLCError(f"design {module} {tag}: expected violation of {expect} not found\n{r['out'][-2000:]}")
        self.log(f"model checked {module}: {r['distinct']} distinct states, {r['generated']} generated"
                 + (f", expected violation of {r['violated']} found" if expect else ""))
        return r

    # -- conformance ----------------------------------------------------------
    def record(self, func, args, **kw):
        """Runs recorder jobs; each returns a list of traces. Failures become
        traces that any trace specification refuses."""
        outs = run_jobs(func, args, **kw)
        traces = []
        for a, o in zip(args, outs):
            if o[0] == "ok":
                traces += o[1]
            else:
                self.violation("the recorder could not complete: " + o[1], dict(job=repr(a)[:2000], error=o[1], tb=o[2]),
                               key=f"job:{o[0]}:{o[1][:80]}")
        return traces

    def validate(self, module, traces, canary=None, constants=None, sample=2, **kw):
        """TLC validates the traces; `canary` corrupts copies of good traces,
        all of which TLC must refuse (otherwise the binding would be vacuous)."""
        if not traces:
            return
        can = []
        if canary is not None:
            for k, t in enumerate(traces):
                c = canary(json.loads(json.dumps(t)), random.Random(k))
                if c is not None:
                    can.append(c)
                if len(can) >= 8:
                    break
        verd, r = check_traces(module, traces + can, constants=constants, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.n_traces += len(traces)
        self.n_events += sum(len(t["ev"]) for t in traces)
        nbad = 0
        for t, v in zip(traces, verd):
            for i, c in v:
                nbad += 1
                ev = t["ev"][i - 1] if isinstance(i, int) and 1 <= i <= len(t["ev"]) else None
                self.violation(f"{t['id']}: event {i} refused: {c}",
                               dict(module=module, trace=t, event=i, clause=c, event_data=ev),
                               key=c, tags=t.get("tags", []), clause=c, ev=ev)
        for t, v in zip(can, verd[len(traces):]):
            self.canaries[0] += 1
            if v:
                self.canaries[1] += 1
        missed = [t["id"] for t, v in zip(can, verd[len(traces):]) if not v]
        if missed and not nbad:
            raise TLCError(f"{module}: corrupted traces accepted: {missed}")
        for t in traces[:sample]:
            s = json.dumps(dict(id=t["id"], cfg=t["cfg"], ev=t["ev"][:2]))
            self.samples.append(s[:1200])
        self.log(f"validated {len(traces)} traces ({sum(len(t['ev']) for t in traces)} events) with {module}: {nbad} refused, "
                 f"{len(can) - len(missed)}/{len(can)} corrupted copies refused")

    def violation(self, text, data, key="", tags=(), clause="", ev=None):
        for f in self.findings:
            m = f["match"]
            if ("tag" in m and m["tag"] not in tags) or ("clause" in m and m["clause"] not in (clause or text)):
                continue
            if "event" in m and not (ev is not None and all(ev.get(k) == v for k, v in m["event"].items())):
                continue
            self.known.setdefault(f["id"], [f, 0])[1] += 1
            return
        self.viol.append((text, data, key))

    def finish(self):
        wall = time.time() - self.t0
        rdir = env.EVIDENCE / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.n_traces, events_validated=self.n_events,
                   corrupted_traces=self.canaries[0], corrupted_traces_refused=self.canaries[1],
                   samples=self.samples[:6] or ["(none)"], **self.notes)
        ev = dict(property=self.prop, tier=env.TIER, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.viol))
        env.EVIDENCE.mkdir(exist_ok=True)
        (env.EVIDENCE / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        for f, n in self.known.values():
            print(f"KNOWN-FINDING: property={self.prop} {f['id']}: {f['what']} ({n} events)")
        if self.viol:
            seen = set()
            for n, (text, data, key) in enumerate(self.viol):
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 25:
                    break
                p = rdir / f"{self.prop}-{len(seen)}.json"
                p.write_text(json.dumps(dict(property=self.prop, what=text, data=data), indent=1, default=str))
                print(f"VIOLATION property={self.prop} replay={p.relative_to(env.VERIF)}")
                print(f"    {text[:400]}")
            self.log(f"{len(self.viol)} violations")
            return 1
        self.log(f"held on everything explored: {self.n_traces} traces, {self.states} states, wall {wall:.1f} s")
        return 0


def main(prop):
    import importlib

    try:
        mod = importlib.import_module(f"vf.checks.{prop.lower()}")
        chk = Check(prop)
        mod.run(chk)
        rc = chk.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    shutil.rmtree(env.SCRATCH, ignore_errors=True)
    os._exit(rc)
