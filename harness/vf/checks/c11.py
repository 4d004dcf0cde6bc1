"""C11 rigid motions: replays sequences of shifts and turns of farm, points and wind."""

import copy
import math
import random

import numpy as np

import foxes.constants as FC
import foxes.variables as FV

from .. import env, zoo
from ..intern import CIRC, intern_tables

DIRS = [FV.WD, FV.YAW, FV.AMB_WD, FV.AMB_YAW]
PDIRS = [FV.WD, FV.AMB_WD]
TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29)]
FAR = [(450000, 5900000), (-2000000, 1000000), (32, -7), (100000, -40000), (-700, 300)]


def scenario(seed):
    rng = random.Random(f"c11-{seed}")
    r = rng.random()
    if r < 0.2:
        scn = zoo.gen(rng, n_states=rng.randint(3, 6), n_turbines=rng.randint(2, 4), state_kinds=("timeseries",), algo="Iterative",
                      frames=("timelines", "dyn_wakes", "timelines_10min", "dyn_wakes_5km"), grounds=False, spread=rng.choice([3.0, 20.0]))
    elif r < 0.3:
        scn = zoo.gen(rng, n_states=rng.randint(3, 5), n_turbines=rng.randint(2, 4), state_kinds=("onepoint",), spread=rng.choice([3.0, 20.0]))
    else:
        it = rng.random() < 0.3
        scn = zoo.gen(rng, geo=0.2, n_states=rng.randint(1, 5), n_turbines=rng.randint(2, 6), algo="Iterative" if it else "Downwind", ind=0.6 if it else 0.0,
                      state_kinds=("table", "table", "profile", "abl", "timeseries", "multiheight", "fixed", "single", "scan"),
                      frames=("rotor_wd", "rotor_wd", "rotor_wd_farmo", "yawed_k002", "streamlines_100"))
    if scn["kind"] == "scan":
        for row in scn["rows"]:
            row["wd"], row["ti"] = scn["rows"][0]["wd"], scn["rows"][0]["ti"]
        scn["rows"] = sorted({q["ws"]: q for q in scn["rows"]}.values(), key=lambda q: q["ws"])
    for t in scn["turbines"]:  # models that ask for absolute directions
        t["models"] = [m for m in t["models"] if m != "sector"]
    # start in any octant, often next to north
    first = rng.choice([0.001, 359.999, 0.0, rng.random() * 360])
    scn = turned(scn, (first - scn["rows"][0]["wd"]) % 360, centre(scn), (0, 0))
    # points, also inside the wakes
    pts = scn["points"][:3]
    for k in range(5):
        a, row = rng.choice(scn["turbines"]), rng.choice(scn["rows"])
        w, d, o = math.radians(row["wd"] + 180), rng.uniform(150, 1500), rng.uniform(-130, 130)
        pts.append([a["x"] + d * math.sin(w) + o * math.cos(w), a["y"] + d * math.cos(w) - o * math.sin(w), zoo.rnd(rng, 60, 180, 1)])
    scn["points"] = pts
    return rng, scn


def centre(scn):
    return [round(float(c), 1) for c in np.mean([[t["x"], t["y"]] for t in scn["turbines"]], axis=0)]


def turned(scn, ang, ctr, move):
    new = copy.deepcopy(scn)
    for t in new["turbines"]:
        x, y = zoo.rot_xy([t["x"], t["y"]], ang, ctr)
        t["x"], t["y"] = x + move[0], y + move[1]
    new["geo_turn"] = scn.get("geo_turn", 0.0) + ang
    new["points"] = [[a + b for a, b in zip(zoo.rot_xy(p[:2], ang, ctr), move)] + [p[2]] for p in new["points"]]
    for r in new["rows"]:
        r["wd"] = (r["wd"] + ang) % 360
    return new


def steps(rng, n):
    """A sequence of (turn, centre offset, move); turns by rational angles in all octants."""
    out = []
    for k in range(n):
        a, b, c = rng.choice(TRIPLES + ([(1, 0, 1)] if k else []))
        if rng.random() < 0.5:
            a, b = b, a
        a, b = a * rng.choice([1, -1]), b * rng.choice([1, -1])
        if k and rng.random() < 0.25:
            a, b, c = 1, 0, 1
        out.append(((a, b, c), (rng.randint(-900, 900), rng.randint(-900, 900)),
                    rng.choice(FAR) if rng.random() < 0.5 else (rng.randint(-3000, 3000), rng.randint(-3000, 3000))))
    return out


def deg5(a):
    return np.where(np.isfinite(a), np.round(np.mod(a, 360.0) * 1e5) % 36000000, -1).astype(int).tolist()


def record(seed):
    rng, scn = scenario(seed)
    far = [0.0, 0.0]
    runs = []
    eng, ekw = rng.choice([("single", {}), ("single", {}), ("numpy", dict(chunk_size_states=2, chunk_size_points=3, n_procs=2)),
                           ("threads", dict(chunk_size_states=1, n_procs=3))])

    def one(s, turn, ctr, move, ang):
        e = dict(move=[int(round(10 * m)) for m in move], turn=[*turn, int(round(ang * 1e5))], ctr=[int(round(10 * c)) for c in ctr],
                 ok=1, err="", xy=[], cells=[], wd=[], pcells=[], pwd=[])
        f = p = None
        try:
            with zoo.engine(eng, **ekw):
                algo = zoo.build(s)[0]
                fr = algo.calc_farm()
                pr = algo.calc_points(fr, zoo.point_array(s, fr.sizes[FC.STATE]))
            f = zoo.observe(fr, variables=zoo.FARM_VARS)[0]
            p = zoo.observe(pr, "point", variables=zoo.POINT_VARS)[0]
            e["xy"] = [[int(round(10 * x)), int(round(10 * y))] for x, y in zip(f[FV.X][0], f[FV.Y][0])]
            e["wd"] = [deg5(f.pop(v)) for v in DIRS]
            e["pwd"] = [deg5(p.pop(v)) for v in PDIRS]
            f.pop(FV.X), f.pop(FV.Y)
        except Exception as ex:
            e.update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:150]}")
        runs.append((e, f, p))

    one(scn, (1, 0, 1), (0, 0), (0, 0), 0.0)
    cur = scn
    for (a, b, c), off, move in steps(rng, 3):
        ang = math.degrees(math.atan2(b, a))
        m = centre(cur)
        ctr = [round(m[0] + off[0], 1), round(m[1] + off[1], 1)]
        if max(abs(m[0] + move[0]), abs(m[1] + move[1])) > 7e6:
            move = (300, -500)
        cur = turned(cur, ang, ctr, move)
        one(cur, (a, b, c), ctr, move, ang)
    for k, name in ((1, "cells"), (2, "pcells")):
        good = [r for r in runs if r[k] is not None]
        if good:
            arrs, _ = intern_tables([r[k] for r in good], circ=CIRC, rtol=1e-6, atol=1e-8)
            for r, a in zip(good, arrs):
                r[0][name] = a.tolist()
    return [dict(id=f"c11-{seed}", cfg=runs[0][0], ev=[r[0] for r in runs], scn=scn, tags=[scn["algo"], scn["kind"], scn["frame"]])]


def canary(t, rng):
    e = t["ev"][-1]
    if not e["ok"] or not e["turn"][3]:
        return None
    k = rng.randrange(3)
    if k == 0:
        e["cells"][0][0] += 1000
    elif k == 1:
        e["pwd"][0][0][0] = (e["pwd"][0][0][0] + 2000) % 36000000
    else:
        e["xy"][0][0] += 40
    return t


def run(chk):
    base = dict(N=2, Box=2, MaxMoves=3, Bug="none")
    chk.mc("RigidMotion", constants=base, invariants=["Invariant"])
    chk.mc("RigidMotion", constants=dict(base, N=3, Box=1, MaxMoves=2), invariants=["Invariant"])
    for b in ("origin", "nowrap", "mirror", "back"):
        chk.mc("RigidMotion", constants=dict(base, Bug=b), invariants=["Invariant"], expect="Invariant")
    jobs = [chk.seed * 1000 + k for k in range(env.cases(100, 900))]
    traces = chk.record(record, jobs, timeout=200)
    chk.validate("RigidTrace", traces, canary=canary)
