"""C02 point results do not depend on chunking or on the other points."""

import json
import random

import numpy as np

from .. import env, zoo
from ..intern import CIRC, intern_tables
from .c01 import make_engine


def scenario(seed):
    rng = random.Random(f"c02-{seed}")
    style = rng.choice(["mix"] * 5 + ["timelines", "onepoint"])
    if style == "timelines":
        scn = zoo.gen(rng, n_states=rng.randint(3, 6), state_kinds=("timeseries",), frames=("timelines",), algo="Iterative",
                      grounds=False, spread=5.0)
    elif style == "onepoint":
        scn = zoo.gen(rng, n_states=rng.randint(3, 6), state_kinds=("onepoint",), algo="Downwind", spread=5.0)
    else:
        it = rng.random() < 0.3
        scn = zoo.gen(rng, geo=0.2, n_states=rng.randint(1, 6), algo="Iterative" if it else "Downwind", ind=0.5 if it else 0.0,
                      state_kinds=("table", "table", "timeseries", "profile", "abl", "multiheight", "field", "fixed"),
                      frames=("rotor_wd", "rotor_wd", "rotor_wd_farmo", "yawed_k002", "streamlines_100"))
    # points also inside the wakes: close behind turbines
    t = scn["turbines"]
    pts = []
    for _ in range(10):
        a = t[rng.randrange(len(t))]
        if rng.random() < 0.6:
            r = scn["rows"][rng.randrange(len(scn["rows"]))]
            d, off = rng.uniform(200, 1500), rng.uniform(-120, 120)
            w = np.deg2rad(r["wd"] + 180)
            pts.append([round(a["x"] + d * np.sin(w) + off * np.cos(w), 1), round(a["y"] + d * np.cos(w) - off * np.sin(w), 1), zoo.rnd(rng, 60, 180, 1)])
        else:
            pts.append([zoo.rnd(rng, -600, 2500, 1), zoo.rnd(rng, -600, 2500, 1), zoo.rnd(rng, 60, 180, 1)])
    scn["points"] = pts
    return rng, scn, style


def record(seed):
    rng, scn, style = scenario(seed)
    ns = 1 if scn["kind"] == "single" else len(scn["rows"])
    labels = zoo.state_labels(scn)
    base = np.array(scn["points"])
    var = rng.random() < 0.5  # coordinates that differ between states

    def coords(sts, ix):
        p = np.repeat(base[None, ix], len(sts), axis=0)
        if var:
            p = p + np.array(sts)[:, None, None] * np.array([23.0, -31.0, 2.0])
        return p

    runs = []
    cid = {}

    def one(eng, kw, sts, ix, how, farm_eng=None, pvars=None):
        e = dict(op="eval", eng=f"{eng} {json.dumps(kw)} {how}", sts=[s + 1 for s in sts], np=len(ix), kind="waked", ok=1, err="")
        p = coords(sts, ix)
        e["pids"] = [[cid.setdefault(tuple(c), len(cid) + 1) for c in row.tolist()] for row in p]
        try:
            with zoo.engine(make_engine(eng, f"{seed}-{len(runs)}", kw), **({} if eng == "adversarial" else kw)):
                algo, farm, st, mb = zoo.build(scn)
                f = algo.calc_farm()
                akw = {}
                if how == "ambient":
                    akw["ambient"] = True
                    e["kind"] = "amb"
                if how == "isel":
                    akw["states_isel"] = list(sts)
                elif how == "sel":
                    akw["states_sel"] = [f["state"].to_numpy()[s] for s in sts]
                if pvars:
                    akw["outputs"] = list(pvars)
                r = algo.calc_points(f, p, **akw)
            t, e["labels"], _ = zoo.observe(r, "point")
        except Exception as ex:
            t = None
            e.update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:150]}", labels=[], cells=[])
        runs.append((e, t))

    alls = list(range(ns))
    allp = list(range(len(base)))
    one("single", {}, alls, allp, "full")
    engs = ["numpy", "threads", "process", "adversarial", "dask", "multiprocess", "default"]
    for _ in range(4):
        kw = dict(n_procs=rng.randint(1, 4), chunk_size_states=rng.choice([None, 1, 2, 3]), chunk_size_points=rng.choice([None, 1, 2, 3, 4, 7]))
        ix = allp[:] if rng.random() < 0.4 else [rng.randrange(len(allp)) for _ in range(rng.randint(1, 12))]
        one(rng.choice(engs), kw, alls, ix, "full")
    for _ in range(2):
        one("single", {}, alls, [rng.randrange(len(allp))], "one point")
    one("numpy", dict(chunk_size_states=2, chunk_size_points=3, n_procs=2), alls, allp[::-1], "reversed")
    if ns > 1 and style == "mix" and not (scn["kind"] == "field" and scn.get("load_mode", "preload") != "preload"):
        sub = sorted(rng.sample(alls, rng.randint(1, ns)))
        one(rng.choice(["single", "numpy", "threads"]), {}, sub, allp, rng.choice(["isel", "sel"]))
    one("single", {}, alls, allp, "ambient")
    one("numpy", dict(chunk_size_states=2, chunk_size_points=3, n_procs=2), alls, [rng.randrange(len(allp)) for _ in range(5)], "ambient")
    ev = []
    for kind in ("waked", "amb"):
        sub = [(e, t) for e, t in runs if e["kind"] == kind]
        good = [t for e, t in sub if t is not None]
        if good:
            arrs, _ = intern_tables(good, circ=CIRC, rtol=1e-7)
            it = iter(arrs)
        for e, t in sub:
            if t is not None:
                e["cells"] = next(it).tolist()
            ev.append(e)
    return [dict(id=f"c02-{style}-{seed}", cfg=dict(labels=labels), ev=ev, scn=scn, tags=[style, scn["kind"]])]


def canary(t, rng):
    if len(t["ev"]) < 3 or not t["ev"][1]["ok"]:
        return None
    e = t["ev"][1]
    r, c = rng.randrange(len(e["cells"])), rng.randrange(e["np"])
    e["cells"][r][c] += 100000
    return t


def run(chk):
    base = dict(S=2, P=3, SizeS=1, SizeP=2, Leaky=False)
    for c in ("same", "perstate"):
        chk.mc("PointEval", constants=dict(base, Coord=c), invariants=["Right", "Local"], properties=["Finishes"])
    chk.mc("PointEval", constants=dict(base, Coord="same", Leaky=True), invariants=["Local"], expect="Local")
    jobs = [chk.seed * 1000 + k for k in range(env.cases(90, 700))]
    traces = chk.record(record, jobs, timeout=200)
    chk.validate("PointTrace", traces, canary=canary)
