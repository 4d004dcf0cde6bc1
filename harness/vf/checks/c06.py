"""C06 results belong to turbines, whatever order they are listed in."""

import math
import random

import numpy as np

import foxes.models as fm
import foxes.variables as FV

from .. import env, zoo
from ..intern import CIRC, intern_tables

SKIP = ("SPOS", "TPOS", "order_ssel", "order", "order_inv")


def scenario(seed):
    rng = random.Random(f"c06-{seed}")
    it = rng.random() < 0.35
    frames = ["rotor_wd", "rotor_wd", "yawed_k002", "streamlines_100"] + (["rotor_wd_farmo"] if it else [])
    kinds = ("table", "timeseries", "multiheight", "fixed", "field", "abl")
    if it and rng.random() < 0.3:
        frames, kinds = ["timelines", "dyn_wakes"], ("timeseries",)
    scn = zoo.gen(rng, geo=0.2, n_states=rng.randint(2, 5), n_turbines=rng.randint(2, 6), algo="Iterative" if it else "Downwind",
                  ind=0.5 if it else 0.0, state_kinds=kinds, frames=frames, grounds="timelines" not in frames, sup=None,
                  spread=rng.choice([20.0, 360.0]) if frames[0] != "timelines" else 10.0)
    ns = len(scn["rows"])
    for t in scn["turbines"]:
        if rng.random() < 0.7:
            t["models"].insert(rng.randint(0, len(t["models"])) if "setyaw" not in t["models"] else len(t["models"]), rng.choice(["seta", "setb"]))
        if rng.random() < 0.6 and "derate" not in t["models"]:
            t["models"].append("derate")
        if rng.random() < 0.5:
            t["sels"] = {m: [rng.randint(0, 1) for _ in range(ns)] for m in t["models"] if m in ("derate", "lookup", "seta", "setb")}
    # an order of the models that can be merged
    rank = {"setyaw": 0, "kTI_02": 1, "seta": 2, "setb": 3, "sector": 4, "lookup": 5, "derate": 6}
    for t in scn["turbines"]:
        t["models"] = sorted(dict.fromkeys(t["models"]), key=rank.__getitem__)
    if scn["frame"] in ("rotor_wd",) and rng.random() < 0.3:
        # exact ties along the wind
        for k, t in enumerate(scn["turbines"]):
            t["x"], t["y"] = 700.0 * (k % 2), 800.0 * (k // 2)
        for r in scn["rows"]:
            r["wd"] = rng.choice([0.0, 90.0, 180.0, 270.0])
    return rng, scn


def mbook(scn, perm):
    mb = zoo.mbook(scn)
    ns = len(scn["rows"])
    n = len(scn["turbines"])
    base = np.array([[0.1 * (k + 1) + 0.01 * s for k in range(n)] for s in range(ns)])
    for name, var, pre in (("seta", "VA", True), ("setb", "VB", False)):
        m = fm.turbine_models.SetFarmVars(pre_rotor=pre)
        m.add_var(var, base[:, perm])
        mb.turbine_models[name] = m
    return mb


def record(seed):
    rng, scn = scenario(seed)
    n, ns = len(scn["turbines"]), len(scn["rows"])
    perms = [list(range(n)), list(range(n))[::-1]]
    for _ in range(2):
        p = list(range(n))
        rng.shuffle(p)
        perms.append(p)
    runs = []
    for i, perm in enumerate(perms):
        eng, kw = ("single", {}) if i < 3 else ("numpy", dict(chunk_size_states=2, n_procs=1))
        e0 = dict(perm=perm, names=[], cells=[], along=[], order=[], inv=[], tpos=[], own=[], err="", ok=1)
        try:
            with zoo.engine(eng, **kw):
                akw = {}
                if scn["algo"] == "Iterative":
                    import foxes

                    akw["conv_crit"] = foxes.algorithms.iterative.models.ConvVarDelta({"REWS": 1e-9, "TI": 1e-9, "CT": 1e-9})
                algo, farm, st, mb = zoo.build(scn, perm=perm, mb=mbook(scn, perm), **akw)
                f = algo.calc_farm()
                tab, _, names = zoo.observe(f)
                wd = tab["AMB_WD"]
                a = np.deg2rad(wd)
                along = -(tab["X"] * np.sin(a) + tab["Y"] * np.cos(a))
                runs.append((dict(e0, kind="farm", names=names, along=np.round(along * 100).astype(int).tolist(),
                                  order=f["order"].to_numpy().astype(int).tolist() if "order" in f else [],
                                  inv=f["order_inv"].to_numpy().astype(int).tolist() if "order_inv" in f else [],
                                  tpos=tab["TPOS"].astype(int).tolist()), tab))
                p = algo.calc_points(f, zoo.point_array(scn, ns))
                runs.append((dict(e0, kind="points"), zoo.observe(p, "point")[0]))
        except Exception as ex:
            runs.append((dict(e0, kind="farm", ok=0, err=f"{type(ex).__name__}: {str(ex)[:150]}"), None))
    it = scn["algo"] == "Iterative"
    own = {}
    ev = []
    for kind in ("farm", "points"):
        sub = [(e, t) for e, t in runs if e["kind"] == kind]
        good = [{v: a for v, a in t.items() if v not in SKIP} for e, t in sub if t is not None]
        ids = iter(intern_tables(good, circ=CIRC, rtol=1e-5 if it else 1e-7, atol=1e-6 if it else 1e-9)[0]) if good else iter(())
        for e, t in sub:
            if t is not None:
                e["cells"] = next(ids).tolist()
                if kind == "farm":
                    keep = [v for v in ("X", "Y", "H", "D", "VA", "VB") if v in t]
                    for c in range(n):
                        img = np.round(np.stack([t[v][:, c] for v in keep]), 6).tolist()
                        e["own"].append(own.setdefault(str([v for v in keep]) + str(img), len(own) + 1))
            ev.append(e)
    # what the scenario says about each turbine
    want = []
    hasv = next((t for e, t in runs if t is not None and e["kind"] == "farm"), {})
    for k, t in enumerate(scn["turbines"]):
        keep = [v for v in ("X", "Y", "H", "D", "VA", "VB") if v in hasv]
        img = []
        geo = [zoo.geo_values(scn, k, r) for r in scn["rows"][:ns]]
        for v in keep:
            if v in geo[0]:
                img.append([q[v] for q in geo])
            elif v in ("X", "Y"):
                img.append([t[v.lower()]] * ns)
            elif v == "H":
                img.append([t["H"] or zoo.TYPE_H[t["type"]]] * ns)
            elif v == "D":
                img.append([t["D"] or zoo.TYPE_D[t["type"]]] * ns)
            else:
                m = dict(VA="seta", VB="setb")[v]
                sel = (t.get("sels") or {}).get(m, [1] * ns) if m in t["models"] else [0] * ns
                img.append([0.1 * (k + 1) + 0.01 * s if sel[s] else float("nan") for s in range(ns)])
        want.append(own.setdefault(str(keep) + str(np.round(np.array(img), 6).tolist()), len(own) + 1))
    uniform = scn["kind"] not in ("field", "multiheight") and scn["frame"] in ("rotor_wd", "yawed_k002", "streamlines_100")
    return [dict(id=f"c06-{seed}", cfg=dict(n=n, sorted=int(uniform), own=want), ev=ev, scn=scn, tags=[scn["algo"], scn["frame"], scn["kind"]])]


def canary(t, rng):
    es = [e for e in t["ev"] if e["ok"] and e["kind"] == "farm"]
    if len(es) < 2:
        return None
    e = es[-1]
    k = rng.randrange(4)
    if k == 0:
        e["cells"][0][0] += 100000
    elif k == 1:
        e["inv"][0] = [e["inv"][0][-1]] + e["inv"][0][:-1]
    elif k == 2:
        e["own"][0] += 1000
    else:
        e["names"] = e["names"][1:] + e["names"][:1]
    return t


def run(chk):
    for b, inv in (("", None), ("double", "ByName"), ("stale", "ByName"), ("inverse", "ByName")):
        chk.mc("TurbineOrder", constants=dict(N=4 if env.THOROUGH and not b else 3, MaxPos=2, Bug=b), invariants=["OrderOk", "ByName"], expect=inv)
    jobs = [chk.seed * 1000 + k for k in range(env.cases(120, 1000))]
    chk.validate("OrderTrace", chk.record(record, jobs, timeout=200), canary=canary)
