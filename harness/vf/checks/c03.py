"""C03 a state's results depend only on that state's inflow."""

import json
import random

import numpy as np

from .. import env, zoo
from ..intern import CIRC, intern_tables
from .c01 import SKIP, make_engine

KINDS = ("table", "table", "timeseries", "profile", "abl", "multiheight", "fixed", "field")
SEL = ("table", "timeseries", "profile", "abl", "multiheight", "fixed")


def record(seed):
    rng = random.Random(f"c03-{seed}")
    it = rng.random() < 0.35
    scn = zoo.gen(rng, geo=0.2, n_states=rng.randint(2, 7), algo="Iterative" if it else "Downwind", ind=0.6 if it else 0.0, state_kinds=KINDS,
                  frames=("rotor_wd", "rotor_wd", "rotor_wd_farmo", "yawed_k002", "streamlines_100"))
    if scn["kind"] == "field":
        scn["load_mode"] = rng.choice(["preload", "lazy", "fly"])
        if scn["load_mode"] != "preload":
            scn["frame"] = "rotor_wd"
    if it:
        # state-wise different numbers of iterations only change results below the limits
        scn["opts"]["conv_crit"] = {k: 1e-9 for k in ("REWS", "TI", "CT")}
    rows = scn["rows"]
    ns = len(rows)
    stamped = scn["kind"] in ("timeseries", "field")
    lab = None if stamped or rng.random() < 0.4 else [f"L{(5 * i + 2) % (3 * ns)}x{i}" for i in range(ns)]
    labels = zoo.state_labels(scn, lab)
    def fresh(sel=None, states_kw=None, model_sel=None):
        kw = dict(model_rows=None if model_sel is None else [rows[k] for k in model_sel])
        if "conv_crit" in scn["opts"]:
            import foxes

            kw["conv_crit"] = foxes.algorithms.iterative.models.ConvVarDelta({"REWS": 1e-8, "TI": 1e-8, "CT": 1e-8})
        sc = dict(scn, opts={})
        r = rows if sel is None else [rows[k] for k in sel]
        lb = None if lab is None else (lab if sel is None else [f"{lab[k]}/{n}" for n, k in enumerate(sel)])
        return zoo.build(sc, rows=r, labels=lb, states_kw=states_kw, **kw), lb

    runs = []
    PT = np.array(scn["points"])

    def go(how, sel, eng="single", kw={}, states_kw=None, prows=None):
        """how: rows/iloc/loc. prows: select when evaluating points instead."""
        e0 = dict(how=how, sel=sel, ok=1, err="", eng=f"{eng} {json.dumps(kw)}")
        try:
            with zoo.engine(make_engine(eng, f"{seed}{len(runs)}", kw), **({} if eng == "adversarial" else kw)):
                (algo, farm, st, mb), lb = fresh([s - 1 for s in sel] if how == "rows" else None, states_kw,
                                               None if states_kw is None else [s if how == "iloc" else labels.index(str(s)) for s in sel])
                f = algo.calc_farm()
                if prows is None:
                    runs.append((dict(e0, kind="farm"), zoo.observe(f)))
                    n = len(f["state"])
                    p = algo.calc_points(f, np.repeat(PT[None], n, axis=0))
                else:
                    n = len(sel)
                    p = algo.calc_points(f, np.repeat(PT[None], n, axis=0), **prows(f))
                runs.append((dict(e0, kind="points"), zoo.observe(p, "point")))
            want = zoo.state_labels(dict(scn, rows=[rows[s - 1] for s in sel]), lb) if how == "rows" else []
            for e, _ in runs[-2:] if prows is None else runs[-1:]:
                e["want_labels"] = want
        except Exception as ex:
            runs.append((dict(e0, kind="farm" if prows is None else "points", ok=0, err=f"{type(ex).__name__}: {str(ex)[:150]}",
                              want_labels=[]), None))

    go("rows", list(range(1, ns + 1)))
    perm = list(range(1, ns + 1))
    rng.shuffle(perm)
    go("rows", perm)
    k = rng.randint(1, ns)
    if not (scn["kind"] == "field" and k == 1 and False):
        go("rows", sorted(rng.sample(range(1, ns + 1), k)), rng.choice(["single", "numpy"]), {})
    go("rows", [rng.randint(1, ns) for _ in range(ns + 2)], "numpy", dict(chunk_size_states=2, chunk_size_points=3, n_procs=1))
    go("rows", [rng.randint(1, ns)])
    if scn["kind"] in SEL:
        pos = sorted(rng.sample(range(ns), rng.randint(1, ns)))
        if rng.random() < 0.5:
            rng.shuffle(pos)
        go("iloc", pos, states_kw=dict(states_sel=pos))
        if not stamped:
            ls = [labels[q] for q in sorted(rng.sample(range(ns), rng.randint(1, ns)))]
            go("loc", ls, states_kw=dict(states_loc=[int(x) for x in ls] if lab is None else ls))
        else:
            import pandas as pd

            q = sorted(rng.sample(range(ns), rng.randint(1, ns)))
            go("loc", [labels[x] for x in q], states_kw=dict(states_loc=[pd.Timestamp(labels[x]) for x in q]))
    # selection at point evaluation
    for eng, kw in (("single", {}), ("numpy", dict(chunk_size_states=2, n_procs=1))):
        pos = sorted(rng.sample(range(ns), rng.randint(1, ns)))
        if rng.random() < 0.5:
            go("iloc", pos, eng, kw, prows=lambda f: dict(states_isel=list(pos)))
        else:
            go("loc", [labels[q] for q in pos], eng, kw, prows=lambda f: dict(states_sel=[f["state"].to_numpy()[q] for q in pos]))
    ev = []
    weighted = scn["kind"] not in ("field",)
    for kind in ("farm", "points"):
        sub = [(e, o) for e, o in runs if e["kind"] == kind]
        drop = SKIP if weighted else SKIP + ("weight",)
        good = [{v: a for v, a in o[0].items() if v not in drop} for e, o in sub if o is not None]
        it_ = iter(intern_tables(good, circ=CIRC, rtol=1e-5 if it else 1e-7, atol=1e-6 if it else 1e-9)[0]) if good else iter(())
        for e, o in sub:
            e = dict(e, op="run")
            if o is not None:
                a = next(it_)
                e.update(cells=a.tolist(), labels=o[1], nc=len(scn["turbines"]) if kind == "farm" else len(PT))
            else:
                e.update(cells=[], labels=[], nc=0)
            ev.append(e)
    cls = {}
    cfg = dict(labels=labels, **{"class": [cls.setdefault(json.dumps(r), len(cls) + 1) for r in rows]})
    tags = [scn["kind"], scn["algo"]] + ([f"field-{scn['load_mode']}"] if scn["kind"] == "field" else [])
    return [dict(id=f"c03-{seed}-{'-'.join(tags)}", cfg=cfg, ev=ev, tags=tags, scn=scn)]


def canary(t, rng):
    e = next((x for x in t["ev"][2:] if x["ok"] and x["kind"] == "farm"), None)
    if e is None:
        return None
    e["cells"][rng.randrange(len(e["cells"]))][0] += 100000
    return t


def run(chk):
    chk.mc("StateRows", constants=dict(N=3, MaxLen=4, CrossTalk=False), invariants=["RowsIndependent"])
    chk.mc("StateRows", constants=dict(N=3, MaxLen=3, CrossTalk=True), invariants=["RowsIndependent"], expect="RowsIndependent")
    jobs = [chk.seed * 1000 + k for k in range(env.cases(120, 1000))]
    traces = chk.record(record, jobs, timeout=200)
    chk.validate("StateTrace", traces, canary=canary)
