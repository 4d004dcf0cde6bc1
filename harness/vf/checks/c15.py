"""C15 ambient results: runs of one farm and inflow with different wake set-ups."""

import math
import random

import numpy as np

import foxes.constants as FC
import foxes.variables as FV

from .. import env, zoo
from ..intern import CIRC, intern_tables

# directions of the rotor are set by yaw models, hence follow the waked direction where wakes deflect
FVARS = [FV.WD, FV.YAW, FV.REWS, FV.REWS2, FV.REWS3, FV.TI, FV.RHO, FV.CT, FV.P]
PVARS = [FV.WD, FV.WS, FV.TI, FV.RHO]
UPSTREAM = {"RHB", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"}


def scenario(seed):
    rng = random.Random(f"c15-{seed}")
    style = rng.choice(["mix", "mix", "mix", "time", "onepoint"])
    if style == "time":
        scn = zoo.gen(rng, n_states=rng.randint(3, 6), n_turbines=rng.randint(2, 4), state_kinds=("timeseries",), algo="Iterative",
                      frames=("timelines", "dyn_wakes"), grounds=False, spread=rng.choice([3.0, 20.0]))
    elif style == "onepoint":
        scn = zoo.gen(rng, n_states=rng.randint(3, 5), n_turbines=rng.randint(2, 4), state_kinds=("onepoint",), spread=rng.choice([3.0, 20.0]))
    else:
        scn = zoo.gen(rng, geo=0.2, n_states=rng.randint(1, 5), n_turbines=rng.randint(2, 6),
                      state_kinds=("table", "table", "profile", "abl", "timeseries", "multiheight", "fixed", "single", "field"))
    t = scn["turbines"]
    pts = scn["points"][:3]
    for k in range(6):
        a, row = rng.choice(t), rng.choice(scn["rows"])
        w, d, o = math.radians(row["wd"] + 180), rng.choice([-1500, -4000, 400, 900]) + rng.uniform(0, 300), rng.choice([0, 0, 8000]) + rng.uniform(-130, 130)
        pts.append([a["x"] + d * math.sin(w) + o * math.cos(w), a["y"] + d * math.cos(w) - o * math.sin(w), zoo.rnd(rng, 60, 180, 1)])
    scn["points"] = [[round(c, 1) for c in p] for p in pts]
    return rng, scn, style


def record(seed):
    rng, scn, style = scenario(seed)
    runs = []

    def one(algo, frame, wakes, partial, what=("farm", "points"), ambient=False, eng=("single", {}), ground=None, outs=None):
        s = dict(scn, frame=frame, wakes=wakes, partial=partial, ground=ground)
        ind = int(bool({w.split("_")[0] for w in wakes} & UPSTREAM))
        got = {}
        evs = {w: dict(what=w, wakes=int(bool(wakes)), ambient=int(ambient), ind=ind, ok=1, err="", names=[], plain=[], amb=[],
                       how=f"{algo} {frame} {wakes} {eng[0]} {partial} {ground}") for w in what}
        try:
            with zoo.engine(eng[0], **eng[1]):
                a = zoo.build(s, algo=algo, **({} if algo != "Sequential" else dict(ambient=ambient)))[0]
                if algo == "Sequential":
                    for _ in a:
                        pass
                    got["farm"] = a.farm_results
                else:
                    kw = dict(outputs=outs) if outs else {}
                    fr = a.calc_farm(ambient=ambient, **kw)
                    got["farm"] = fr
                    if "points" in what:
                        got["points"] = a.calc_points(None if ambient and rng.random() < 0.5 else fr, zoo.point_array(s, fr.sizes[FC.STATE]), ambient=ambient)
        except Exception as ex:
            for w in what:
                if w not in got:
                    evs[w].update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:150]} [{evs[w]['how']}]")
        for w in what:
            if w in got:
                t, _, names = zoo.observe(got[w], "point" if w == "points" else FC.TURBINE)
                evs[w]["names"] = names
                vs = PVARS if w == "points" else FVARS
                amb = {v: t[FV.var2amb[v]] for v in vs if FV.var2amb[v] in t}
                pl = {v: t[v] for v in vs if v in t and (v in amb or ambient)}
                runs.append((evs[w], pl, amb))
            else:
                runs.append((evs[w], {}, {}))

    frames = [scn["frame"]] if style != "mix" else ["rotor_wd", "rotor_wd_farmo", "yawed_k002", "streamlines_100"]
    if scn["kind"] == "field":
        frames = ["rotor_wd", "rotor_wd_farmo", "yawed_k002"]
    farm_outs = [FV.var2amb[v] for v in FVARS] + FVARS + [FV.X, FV.Y, FV.H, FV.D, FV.WEIGHT, FV.ORDER]
    farm_outs += [FV.K] if any("kTI_02" in t["models"] for t in scn["turbines"]) else []
    one(scn["algo"], scn["frame"], [], None, outs=farm_outs)
    for k in range(3):
        it = style == "time" or rng.random() < 0.4
        w = zoo.gen_wakes(rng, ti=0.5, ind=0.4 if it else 0.0) if k else scn["wakes"]
        if any("kTI" in m for t in scn["turbines"] for m in t["models"]):
            w = [zoo.strip_k(x) for x in w]
        p = zoo.gen_partial(rng, w) if k else scn["partial"]
        if style == "time" and isinstance(p, dict):
            p = None
        g = rng.choice([None, None, "ground_mirror", "blh_mirror_h500"]) if style == "mix" else None
        eng = rng.choice([("single", {}), ("numpy", dict(chunk_size_states=2, chunk_size_points=3, n_procs=2)), ("threads", dict(chunk_size_states=1, n_procs=3))])
        fr = rng.choice(frames)
        one("Iterative" if it else "Downwind", fr, w, p, eng=eng, ground=g, outs=farm_outs)
        if k == 1:
            one("Iterative" if style == "time" or rng.random() < 0.5 else "Downwind", fr, w, p, ambient=True, eng=eng, ground=g, outs=farm_outs)
        if k == 2 and style == "mix" and scn["kind"] in ("table", "timeseries"):
            one("Sequential", "rotor_wd", w, p, what=("farm",), ambient=rng.random() < 0.4, ground=g)
    if style != "time":
        one("Iterative", rng.choice(frames), [], None, outs=farm_outs)
    for what in ("farm", "points"):
        sub = [r for r in runs if r[0]["what"] == what and r[0]["ok"]]
        # the sequential algorithm delivers the default outputs
        full = [r for r in sub if set(r[2]) == set(PVARS if what == "points" else FVARS)]
        vs = set(PVARS if what == "points" else FVARS)
        tabs = [t for r in sub for t in (r[1], r[2]) if t]
        if not tabs:
            continue
        common = sorted(set.intersection(vs, *[set(r[2]) for r in sub if r[2]] or [vs]))
        full = [{v: t[v] for v in common if v in t} for t in tabs]
        arrs, _ = intern_tables([t for t in full if t], circ=CIRC, rtol=1e-7, atol=1e-9)
        it = iter(arrs)
        k = iter(full)
        for r in sub:
            for name, t in (("plain", r[1]), ("amb", r[2])):
                if t and next(k):
                    r[0][name] = next(it).tolist()
    # turbines that are turned out of the wind by a model (their waked results refer to the turned rotor)
    # (where the wind veers with height, yaw models also turn unyawed rotors from the hub wind to the mean wind)
    veer = scn["kind"] in ("multiheight", "field") and any("setyaw" in t["models"] for t in scn["turbines"])
    yawed = [int(veer or "setyaw" in t["models"]) for t in scn["turbines"]]
    # geometry per state
    sts = range(1 if scn["kind"] == "single" else len(scn["rows"]))

    def geo(xy):
        out = []
        for s in sts:
            w = math.radians(scn["rows"][s]["wd"] + 180)
            n, q = (math.sin(w), math.cos(w)), (math.cos(w), -math.sin(w))
            out.append([[int(round(x * n[0] + y * n[1])), int(round(x * q[0] + y * q[1]))] for x, y in xy])
        return out

    cfg = dict(yawed=yawed, names=[f"T{k}" for k in range(len(scn["turbines"]))], tgeo=geo([(t["x"], t["y"]) for t in scn["turbines"]]),
               pgeo=geo([p[:2] for p in scn["points"]]), steady=int(style == "mix"))
    return [dict(id=f"c15-{style}-{seed}", cfg=cfg, ev=[r[0] for r in runs], scn=scn, tags=[style, scn["kind"], scn["frame"]])]


def canary(t, rng):
    es = [e for e in t["ev"][1:] if e["ok"] and e["amb"]]
    if not es:
        return None
    e = es[rng.randrange(len(es))]
    if rng.random() < 0.3 and e["what"] == "farm":
        e["names"] = e["names"][::-1]
    else:
        e["amb"][0][-1] += 1000
    return t


def run(chk):
    base = dict(N=3, MaxU=2, MaxIt=2, Bug="none")
    chk.mc("AmbientFlow", constants=base, invariants=["FreeOfWakes", "NoWakes", "Unreached"], properties=["Finishes"])
    for b in ("late", "alias", "again", "load"):
        chk.mc("AmbientFlow", constants=dict(base, Bug=b), invariants=["FreeOfWakes"], expect="FreeOfWakes")
    chk.mc("AmbientFlow", constants=dict(base, Bug="order"), invariants=["FreeOfWakes"], expect="FreeOfWakes")
    jobs = [chk.seed * 1000 + k for k in range(env.cases(90, 800))]
    traces = chk.record(record, jobs, timeout=200)
    chk.validate("AmbientTrace", traces, canary=canary)
