"""C14 time-dependent wakes: sources of wakes, causality, chunks and the steady limit."""

import random

import numpy as np
import pandas as pd

import foxes
import foxes.constants as FC
import foxes.models as fm
import foxes.variables as FV
from foxes.core import TurbineModel, WakeSuperposition
from foxes.models.wake_models.dist_sliced import DistSlicedWakeModel

from .. import env, zoo
from ..intern import CIRC, intern_tables

UNIT = 120.0
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1)]
SKIP = {"order_ssel", "SPOS", "order", "order_inv", "weight"}
BASE = 100


class Combine(WakeSuperposition):
    """Sum of whatever arrives."""

    def input_farm_vars(self, algo):
        return []

    def add_wake(self, algo, mdata, fdata, tdata, downwind_index, st_sel, variable, wake_delta, wake_model_result):
        wake_delta[st_sel] += wake_model_result
        return wake_delta

    def calc_final_wake_delta(self, algo, mdata, fdata, variable, amb_results, wake_delta):
        return wake_delta


class Mark(DistSlicedWakeModel):
    """Marks a wake by its turbine and by the time at which the turbine sent it."""

    def __init__(self):
        super().__init__({FV.TI: "combine_sum"})

    def new_wake_deltas(self, algo, mdata, fdata, tdata):
        return {FV.TI: np.zeros_like(tdata[FC.TARGETS][..., 0])}

    def calc_wakes_x_yz(self, algo, mdata, fdata, tdata, downwind_index, x, yz):
        n = self.get_data("NR", FC.STATE_TARGET, lookup="w", algo=algo, fdata=fdata, tdata=tdata, downwind_index=downwind_index, upcast=True)
        e = self.get_data("OP", FC.STATE_TARGET, lookup="w", algo=algo, fdata=fdata, tdata=tdata, downwind_index=downwind_index, upcast=True)
        d = e * float(BASE) ** n
        hit = (x[:, :, None] > 1e-3) & (x[:, :, None] < 1e10) & (np.abs(yz[..., 0]) < 0.4 * UNIT)
        d = np.where(hit, d[:, :, None], 0.0)
        sel = np.ones(x.shape, dtype=bool)
        return {FV.TI: d[sel]}, sel


class Operate(TurbineModel):
    """The operating point: the number of the state."""

    def output_farm_vars(self, algo):
        return ["OP", "NR"]

    def calculate(self, algo, mdata, fdata, st_sel):
        self.ensure_variables(algo, mdata, fdata)
        fdata["OP"][st_sel] = np.round(fdata[FV.AMB_RHO][st_sel] * 1000)
        fdata["NR"][st_sel] = fdata[FV.ORDER][st_sel]
        return {v: fdata[v] for v in self.output_farm_vars(algo)}


def frame(rng, name, dt, uniform, length=None):
    kw = {}
    if uniform and dt % 60 == 0 and rng.random() < 0.4:
        kw["dt_min"] = dt // 60
    if name == "seq_dyn_wakes":
        return fm.wake_frames.SeqDynamicWakes(**kw), 1000, 10**8
    if name == "timelines":
        if length:
            kw["max_length_km"] = length
        return fm.wake_frames.Timelines(**kw), 1000, int((length or 20000.0) * 1000 / UNIT)
    if length:
        kw["max_length_km"] = length
    age = rng.choice([None, rng.randint(1, 4), rng.randint(5, 20)])
    if age:
        kw["max_age"] = age
    elif rng.random() < 0.5:
        kw["max_age_mean_ws"] = rng.choice([1, 10])
    return fm.wake_frames.DynamicWakes(**kw), age, int((length or 20.0) * 1000 / UNIT)


def times(dts):
    return pd.to_datetime("2023-03-01 00:00") + pd.to_timedelta(np.concatenate([[0], np.cumsum(dts)]), unit="s")


def line_states(d, dts):
    dts = list(dts) + [dts[-1]]
    rows = []
    for k, m in enumerate(d):
        rows.append(dict(ws=np.hypot(*m) * UNIT / dts[k], wd=float(np.mod(180 + np.rad2deg(np.arctan2(m[0], m[1])), 360)), ti=0.0, rho=(k + 1) / 1000.0))
    return pd.DataFrame(rows, index=pd.DatetimeIndex(times(dts[:-1]), name="Time"))


def moves(rng, n):
    dr = rng.choice(DIRS)
    mix = rng.random()
    out = []
    for _ in range(n):
        s = rng.choice([1, 1, 2, 3]) if mix < 0.7 else 1
        if rng.random() < 0.2 and mix > 0.35:
            dr = rng.choice([q for q in DIRS if q != (-dr[0], -dr[1])])
        out.append([s * dr[0], s * dr[1]])
    return out


def source(seed):
    rng = random.Random(f"c14-{seed}")
    name = rng.choice(["timelines", "dyn_wakes", "dyn_wakes", "seq_dyn_wakes"])
    ns = rng.randint(2, 9)
    nt = rng.randint(1, 3)
    dt = rng.choice([30, 60, 120, 600])
    uniform = rng.random() < 0.7
    dts = [dt if uniform else rng.choice([30, 60, 120]) for _ in range(ns - 1)]
    d = moves(rng, ns)
    S = line_states(d, dts)
    length = rng.choice([None, None, 5.5 * UNIT / 1000, 2.5 * UNIT / 1000])
    fr, age, ln = frame(rng, name, dt, uniform, length)
    if age is None:
        ws = fr._mage_ws
        m = np.mean(ws * np.array(dts + [dts[-1]]))
        age = max(int(fr.max_length_km * 1000.0 / m), 1)
    T = rng.sample([[x, y] for x in range(-2, 3) for y in range(-2, 3)], nt)
    P = []
    cum = np.concatenate([[[0, 0]], np.cumsum(d, axis=0)])
    for _ in range(rng.randint(2, 8)):
        b = rng.choice(T)
        e, t = sorted([rng.randint(0, ns - 1), rng.randint(0, ns - 1)])
        p = [int(b[i] + cum[t][i] - cum[e][i]) for i in (0, 1)]
        if rng.random() < 0.3:
            p[rng.randrange(2)] += rng.choice([-1, 1])
        P.append(p)
    mb = fm.ModelBook()
    mb.wake_superpositions["combine_sum"] = Combine()
    mb.turbine_models["operate"] = Operate()
    mb.turbine_types["ty"] = fm.turbine_types.PCtFile(pd.DataFrame(dict(ws=[0.0, 1e6], P=[5.0, 5.0], ct=[0.8, 0.8])), col_ws="ws", col_P="P", col_ct="ct",
                                                      D=100.0, H=100.0, p_ct=None, p_P=None)
    mb.wake_models["mark"] = Mark()
    mb.wake_frames["fr"] = fr
    f = foxes.WindFarm()
    for p in T:
        f.add_turbine(foxes.Turbine(xy=np.array(p, dtype=float) * UNIT, turbine_models=["ty", "operate"]), verbosity=0)
    states = foxes.input.states.Timeseries(S, output_vars=zoo.OVARS, var2col={k: v for k, v in zoo.V2C.items() if k != FV.WEIGHT})
    algo = "Sequential" if name == "seq_dyn_wakes" else "Iterative"
    kw = dict(rotor_model="centre", wake_frame="fr", partial_wakes="centre", mbook=mb, verbosity=0)
    pts = np.zeros((ns, len(P), 3))
    pts[:, :, :2] = np.array(P) * UNIT
    pts[:, :, 2] = 100.0
    cs = rng.randint(1, ns)
    ek = ("single", {}) if algo == "Sequential" else (rng.choice(["single", "numpy", "numpy", "threads"]), dict(chunk_size_states=cs, chunk_size_points=rng.randint(1, 5), n_procs=2))
    e = dict(t="src", ok=1, err="", src=[])
    try:
        with zoo.engine(ek[0], **ek[1]):
            if algo == "Sequential":
                a = foxes.algorithms.Sequential(f, states, ["mark"], points=pts, **kw)
                for _ in a:
                    pass
                q = a.point_results
            else:
                a = foxes.algorithms.Iterative(f, states, ["mark"], **kw)
                r = a.calc_farm(finalize=False)
                q = a.calc_points(r, pts)
        v = q[FV.TI].to_numpy()
        for s in range(ns):
            rows = []
            for p in range(len(P)):
                x = v[s, p]
                k = int(round(x)) if np.isfinite(x) and abs(x - round(x)) < 1e-3 and x >= 0 else -1
                ds = [-1 if k < 0 else (k // BASE ** i) % BASE for i in range(nt)]
                if k >= 0 and k // BASE ** nt:
                    ds = [-1] * nt
                rows.append([z if z <= ns else -1 for z in ds])
            e["src"].append(rows)
    except Exception as x:
        e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:120]}", src=[])
    cfg = dict(d=d, T=T, P=P, age=age, len=ln, far=1, move=1, n=nt, tab=[1])
    return dict(id=f"c14-{seed}", cfg=cfg, ev=[e], tags=[name, "one turbine in chunks" if nt == 1 and name == "dyn_wakes" and cs < ns and ek[0] != "single" else algo], scn=dict(frame=repr(fr), engine=ek[0], chunk=cs, dts=dts, length=str(length)))


# ---------------------------------------------------------------------------
# real wake models


def base(rng, tag, **kw):
    name = rng.choice(["timelines", "dyn_wakes", "dyn_wakes", "seq_dyn_wakes"])
    scn = zoo.gen(rng, algo="Sequential" if name == "seq_dyn_wakes" else "Iterative", state_kinds=["timeseries"], rotors=("centre", "grid4", "level3"), **kw)
    scn["turbines"] = scn["turbines"][:4]
    ns = len(scn["rows"])
    dt = rng.choice([60, 120, 600] if tag != "steady" else [10, 20, 30, 60, 120, 600])
    for r in scn["rows"]:
        r["ws"] = max(r["ws"], 5.0)
    fr, age, ln = frame(rng, name, dt, True, rng.choice([None, None, 5.0]) if tag != "steady" else None)
    if tag == "steady" and isinstance(fr, fm.wake_frames.DynamicWakes):
        fr.max_age = max(fr.max_age or 0, 120)
    kw = {k: getattr(fr, k) for k in ("max_length_km", "dt_min", "max_age") if hasattr(fr, k)}
    if name == "seq_dyn_wakes":
        kw = dict(dt_min=fr.dt_min)
    scn["frame"] = "fr"
    return scn, name, dt, lambda: type(fr)(**kw)


def farm_run(scn, mk, rows, dt, chunk=None, pts=None, seq=False, frame_name=None, algo=None, **kw):
    """Tables of the farm and point results."""
    labels = times([dt] * (len(rows) - 1))
    mb = zoo.mbook(scn)
    if frame_name is None:
        mb.wake_frames["fr"] = mk()
    q = dict(scn, frame=frame_name or "fr", rows=rows)
    P = None if pts is None else np.broadcast_to(np.array(pts, dtype=float)[None], (len(rows), len(pts), 3)).copy()
    eng, ck = ("single", {}) if seq or chunk is None else chunk
    with zoo.engine(eng, **ck):
        if seq:
            a = zoo.build(q, rows=rows, labels=labels, algo="Sequential", mb=mb, points=P, **kw)[0]
            for _ in a:
                pass
            return a.farm_results, a.point_results
        a = zoo.build(q, rows=rows, labels=labels, algo=algo or "Iterative", mb=mb, **kw)[0]
        r = a.calc_farm(outputs=None, finalize=False)
        return r, None if P is None else a.calc_points(r, P)


def ids(results, rtol, atol=1e-7):
    """Row ids of several results, farm and points together."""
    out = []
    for dim, k in ((FC.TURBINE, 0), (FC.POINT, 1)):
        ts = [None if r[k] is None else {v: x for v, x in zoo.table(r[k], dim=dim).items() if v not in SKIP and not v.endswith("_source")} for r in results]
        if any(t is None for t in ts):
            continue
        com = set.intersection(*[set(t) for t in ts])
        arrs, _ = intern_tables([{v: t[v] for v in com} for t in ts], circ=CIRC, rtol=rtol, atol=atol)
        out.append([a.reshape(len(a), -1).tolist() for a in arrs])
    return [[sum((o[k][t] for o in out), []) for t in range(len(out[0][k]))] for k in range(len(results))]


def chunking(rng, ns):
    return rng.choice(["single", "numpy", "numpy", "threads"]), dict(chunk_size_states=rng.randint(1, ns), chunk_size_points=rng.randint(1, 4), n_procs=2)


def real(seed):
    rng = random.Random(f"c14r-{seed}")
    tag = rng.choice(["causal", "causal", "chunks", "chunks", "steady", "flow"])
    e = dict(t=tag, ok=1, err="")
    cfg = dict(d=[[1, 0]], T=[[0, 0]], P=[[0, 0]], age=1, len=1, far=0, move=1, n=1, tab=[1])
    sc = {}
    tags = [tag]
    try:
        if tag == "flow":
            flow(rng, e, cfg)
        elif tag == "steady":
            steady(rng, e, cfg, sc, tags)
        else:
            pair(rng, tag, e, cfg, sc, tags)
    except Exception as x:
        import traceback
        sc["trace"] = traceback.format_exc()[-700:]
        e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:120]}")
    return dict(id=f"c14r-{seed}", cfg=cfg, ev=[e], tags=tags, scn=sc)


def pair(rng, tag, e, cfg, sc, tags):
    ns = rng.randint(3, 9)
    nt = rng.randint(1 if tag == "causal" else 2, 4)
    scn, name, dt, mk = base(rng, tag, n_states=ns, n_turbines=nt, tmodels=rng.random() < 0.3, spread=rng.choice([None, 5.0]))
    while tag == "chunks" and name == "seq_dyn_wakes":
        scn, name, dt, mk = base(rng, tag, n_states=ns, n_turbines=nt, tmodels=rng.random() < 0.3)
    for t in scn["turbines"]:
        t["models"] = [m for m in t["models"] if m != "setyaw"]
    seq = name == "seq_dyn_wakes"
    pts = scn["points"][:4] if rng.random() < 0.6 else None
    sc.update(scn, frame=repr(mk()), dt=dt)
    tags += [name, "one turbine in chunks" if nt == 1 else "several"]
    rows = scn["rows"]
    if tag == "causal":
        tau = rng.randint(2, ns)
        e["tau"] = tau
        if rng.random() < 0.4 and tau > 2:
            rowsb, e["what"] = rows[:tau - 1], "truncated"
        else:
            rowsb, e["what"] = [dict(r) for r in rows], "altered"
            for r in rowsb[tau - 1:]:
                r["ws"] = round(rng.uniform(5, 20), 2)
                r["wd"] = round((r["wd"] + rng.choice([0, 5, 40, 180])) % 360, 2)
                r["ti"] = round(rng.uniform(0.03, 0.2), 3)
        ca = chunking(rng, ns) if nt > 1 else None
        cb = chunking(rng, ns) if rng.random() < 0.5 and nt > 1 else ca
        sc["chunk"] = [str(ca), str(cb)]
        A = farm_run(scn, mk, rows, dt, ca, pts, seq)
        B = farm_run(scn, mk, rowsb, dt, cb, pts, seq)
        k = len(rowsb)
        A = tuple(None if x is None else x.isel({FC.STATE: slice(0, k)}) for x in A)
    else:
        e["what"] = name
        A = farm_run(scn, mk, rows, dt, None, pts)
        c = chunking(rng, ns)
        sc["chunk"] = str(c)
        B = farm_run(scn, mk, rows, dt, c, pts)
    e["a"], e["b"] = ids([A, B], 2e-5)


def steady(rng, e, cfg, sc, tags):
    scn, name, dt, mk = base(rng, "steady", n_states=8, n_turbines=rng.randint(1, 4), tmodels=False)
    c = np.array([[t["x"], t["y"]] for t in scn["turbines"]])
    pts = [p for p in scn["points"][:4]] if rng.random() < 0.6 else None
    ext = c if pts is None else np.concatenate([c, np.array(pts)[:, :2]])
    far = float(np.max(ext.max(0) - ext.min(0))) * 1.5
    r0 = scn["rows"][0]
    ns = max(8, min(90, int(far * 1.5 / (r0["ws"] * dt)) + len(c) + rng.randint(3, 9)))
    scn["rows"] = [dict(r0) for _ in range(ns)]
    cfg.update(far=int(far * 10) + 1, move=int(r0["ws"] * dt * 10), n=len(c))
    seq = name == "seq_dyn_wakes"
    sc.update(scn, frame=repr(mk()), dt=dt)
    tags += [name, "one turbine in chunks" if len(c) == 1 else "several"]
    e["what"] = name
    ck = chunking(rng, ns) if len(c) > 1 else None
    sc["chunk"] = str(ck)
    A = farm_run(scn, mk, scn["rows"], dt, ck, pts, seq)
    S = farm_run(scn, mk, scn["rows"], dt, None, pts, frame_name="rotor_wd")
    a, s = ids([A, S], 2e-5)
    e["a"], e["s"] = a, s[-1]


def flow(rng, e, cfg):
    """Inflow measured at one point, wind along one axis."""
    ns = rng.randint(2, 8)
    dr = rng.choice(DIRS)
    d = [[s * dr[0], s * dr[1]] for s in (rng.choice([1, 1, 2, 3]) for _ in range(ns))]
    dts = [rng.choice([60, 120])] * (ns - 1)
    S = line_states(d, dts)
    tab = [rng.randint(1, 90) for _ in range(ns)]
    S["ti"] = [x / 1000.0 for x in tab]
    S["rho"] = 1.2
    P = [[dr[0] * k, dr[1] * k] for k in rng.sample(range(-8, 12), rng.randint(2, 6))]
    cfg.update(d=d, P=P, tab=tab)
    st = foxes.input.states.OnePointFlowTimeseries(ref_xy=[0.0, 0.0] if rng.random() < 0.5 else [0.0, 0.0, 100.0], data_source=S, output_vars=rng.sample(zoo.OVARS, len(zoo.OVARS)),
                                                   var2col={k: v for k, v in zoo.V2C.items() if k != FV.WEIGHT})
    f = foxes.WindFarm()
    f.add_turbine(foxes.Turbine(xy=np.array([0.0, 0.0]), turbine_models=["NREL5MW"]), verbosity=0)
    pts = np.zeros((ns, len(P), 3))
    pts[:, :, :2] = np.array(P) * UNIT
    pts[:, :, 2] = 100.0
    eng, ck = chunking(rng, ns)
    with zoo.engine(eng, **ck):
        a = foxes.algorithms.Downwind(f, st, [], verbosity=0)
        r = a.calc_farm()
        q = a.calc_points(r, pts)
    e["val"] = [[int(round(x * 10000)) if np.isfinite(x) else -1 for x in row] for row in q[FV.TI].to_numpy()]


def record(seeds):
    return [source(k) if kind == "src" else real(k) for kind, k in seeds]


def canary(t, rng):
    e = rng.choice(t["ev"])
    if not e["ok"]:
        return None
    if e["t"] == "src":
        n = len(e["src"])
        k = rng.randrange(n - 1)
        e["src"][k][0][0] = k + 2
    elif e["t"] == "chunks":
        rng.choice(e["b"])[0] += 1000
    elif e["t"] == "causal" and e["tau"] > 1:
        e["b"][rng.randrange(e["tau"] - 1)][0] += 1000
    elif e["t"] == "steady":
        e["a"][-1][0] += 1000
    else:
        return None
    return t


def run(chk):
    T = env.THOROUGH
    const = dict(NT=4, Age=3, Bug="")
    inv = ["NoFuture", "InTime", "Present", "Settles"]
    chk.mc("WakeTime", constants=dict(const, NT=5, Age=4) if T else const, invariants=inv, properties=["Finishes"])
    for b, x in (("ahead", "NoFuture"), ("next", "Present"), ("still", "InTime"), ("border", "Present"), ("old", "InTime")):
        chk.mc("WakeTime", constants=dict(const, Bug=b), invariants=[x], expect=x)
    chk.mc("WakeTime", constants=dict(const, Bug="border"), invariants=["Settles"], expect="Settles")
    n, m = env.cases(800, 12000), env.cases(300, 5000)
    jobs = [("src", chk.seed * 100000 + k) for k in range(n)] + [("real", chk.seed * 100000 + k) for k in range(m)]
    chk.rng.shuffle(jobs)
    chk.validate("WakeTimeTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=700), canary=canary)
    chk.assumptions += ["the wind moves along one axis at a time in the source traces; wakes are found where a parcel is hit exactly",
                        "inflow measured at one point: winds along one axis, within two time steps"]
