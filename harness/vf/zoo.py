"""Seeded scenarios: farms, inflow, models. Every object is built fresh on demand.

A scenario is a plain dict (JSON-able), so that a refused trace can be replayed.
"""

import copy
import itertools
import math
import os
import random

import numpy as np
import pandas as pd

import foxes
import foxes.constants as FC
import foxes.models as fm
import foxes.variables as FV
from . import env
from foxes.core import Engine, TurbineModel, reset_engine, get_engine

_count = itertools.count()
INPUTS = []  # (name, object, image) of everything that the last build handed to foxes


def altered():
    """Names of the registered objects that have changed since they were handed in."""
    return sorted({n for n, o, f in INPUTS if fingerprint(o) != f})


def given(name, obj):
    """Registers an object handed in by the user."""
    INPUTS.append((name, obj, fingerprint(obj)))
    return obj


def fingerprint(o):
    """A comparable image of a user's object."""
    if isinstance(o, pd.DataFrame):
        return ("df", str(list(o.columns)), str(list(o.index)), o.to_numpy().tobytes() if o.to_numpy().dtype != object else str(o.to_numpy().tolist()))
    if isinstance(o, np.ndarray):
        return ("arr", o.shape, str(o.dtype), o.tobytes() if o.dtype != object else str(o.tolist()))
    if isinstance(o, dict):
        return ("dict", tuple((str(k), fingerprint(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(fingerprint(x) for x in o))
    if isinstance(o, foxes.WindFarm):
        return ("farm", tuple(fingerprint(t) for t in o.turbines))
    if isinstance(o, foxes.Turbine):
        return ("turbine", fingerprint(np.asarray(o.xy, dtype=float)), str((o.name, o.index, o.H, o.D, o.models)), fingerprint(list(o.mstates_sel)))
    if type(o).__name__ == "Dataset":
        return ("ds", str(dict(o.sizes)), tuple((str(v), fingerprint(np.asarray(o[v]))) for v in sorted(map(str, o.variables))))
    return str(o)

WS_SUP = ["linear", "linear_lim", "linear_amb", "linear_loc", "quadratic", "quadratic_lim", "quadratic_amb",
          "quadratic_loc_lim", "cubic", "quartic_amb", "max", "max_amb", "product_lim"]
TI_SUP = ["linear", "quadratic", "cubic", "quartic", "max"]
TOPHAT = ["Jensen_{s}_k007", "Jensen_{s}_k004"]
AXI = ["Bastankhah2014_{s}_k002", "Bastankhah025_{s}_k004", "Bastankhah2014B_{s}_k003", "Bastankhah2016_{s}_k002",
       "TurbOPark_{s}_k004", "Bastankhah2014_{s}_ka02_kb001", "TurbOPark_{s}_ka02"]
TIW = ["CrespoHernandez_{t}_k002", "IECTI2019_{t}", "IECTI2005_{t}", "IECTI2019k_{t}_k003"]
IND = ["RHB", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"]
TYPES = ["DTU10MW", "NREL5MW", "IWT7.5MW", "IEA15MW"]
TYPE_D = {"DTU10MW": 178.3, "NREL5MW": 126.0, "IWT7.5MW": 164.0, "IEA15MW": 240.0}
TYPE_H = {"DTU10MW": 119.0, "NREL5MW": 90.0, "IWT7.5MW": 100.0, "IEA15MW": 150.0}

FARM_VARS = [FV.X, FV.Y, FV.H, FV.D, FV.WD, FV.YAW, FV.REWS, FV.REWS2, FV.REWS3, FV.TI, FV.RHO, FV.CT, FV.P, FV.WS,
             FV.K, FV.KB, FV.YAWM, FV.MAX_P, FV.AMB_WD, FV.AMB_REWS, FV.AMB_REWS2, FV.AMB_REWS3, FV.AMB_TI, FV.AMB_RHO,
             FV.AMB_CT, FV.AMB_P, FV.AMB_YAW, FV.WEIGHT, "SPOS", "TPOS"]
POINT_VARS = [FV.WD, FV.WS, FV.TI, FV.RHO, FV.AMB_WD, FV.AMB_WS, FV.AMB_TI, FV.AMB_RHO]


class PosProbe(TurbineModel):
    """Writes the absolute state position and the farm index of the selected turbines."""

    def output_farm_vars(self, algo):
        return ["SPOS", "TPOS"]

    def calculate(self, algo, mdata, fdata, st_sel):
        self.ensure_variables(algo, mdata, fdata)
        n_s, n_t = fdata.n_states, fdata.n_turbines
        sp = np.zeros((n_s, n_t))
        sp[:] = (mdata.states_i0(counter=True) + np.arange(n_s))[:, None]
        tp = fdata[FV.ORDER].astype(float)
        fdata["SPOS"][st_sel] = sp[st_sel]
        fdata["TPOS"][st_sel] = tp[st_sel]
        return {v: fdata[v] for v in self.output_farm_vars(algo)}


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def rnd(rng, a, b, nd=3):
    return round(a + (b - a) * rng.random(), nd)


def gen_turbines(rng, n, types=None, models=True, variety=True, box=None):
    types = types or TYPES
    base = pick(rng, types)
    ang = rng.random() * 2 * math.pi
    box = box or 1100.0 * math.sqrt(n)
    pts = []
    style = pick(rng, ["random", "row", "grid"])
    while len(pts) < n:
        i = len(pts)
        if style == "row":
            s = 650.0
            x, y = i * s * math.cos(ang) + rnd(rng, -60, 60), i * s * math.sin(ang) + rnd(rng, -60, 60)
        elif style == "grid":
            m = max(2, int(math.sqrt(n)))
            x, y = (i % m) * 750.0 + rnd(rng, -40, 40), (i // m) * 700.0 + rnd(rng, -40, 40)
        else:
            x, y = rnd(rng, 0, box), rnd(rng, 0, box)
        if all((x - p[0]) ** 2 + (y - p[1]) ** 2 > 330.0**2 for p in pts):
            pts.append((round(x, 2), round(y, 2)))
        elif style != "random":
            style = "random"
    out = []
    for x, y in pts:
        ty = pick(rng, types) if variety and rng.random() < 0.4 else base
        t = dict(x=x, y=y, type=ty, D=None, H=None, models=[])
        if variety and rng.random() < 0.3:
            t["H"] = rnd(rng, 80, 160, 1)
        if variety and rng.random() < 0.2:
            t["D"] = rnd(rng, 110, 200, 1)
        out.append(t)
    return out


def gen_rows(rng, n, wd0=None, spread=None, steady=False):
    wd0 = rng.random() * 360 if wd0 is None else wd0
    spread = pick(rng, [3.0, 40.0, 360.0]) if spread is None else spread
    rows = []
    for _ in range(n):
        rows.append(dict(ws=rnd(rng, 4.5, 15), wd=round((wd0 + spread * (rng.random() - 0.5)) % 360, 3),
                         ti=rnd(rng, 0.04, 0.15, 4), rho=rnd(rng, 1.1, 1.3, 4), weight=rnd(rng, 0.1, 1.0, 4)))
    if steady:
        rows = [dict(rows[0]) for _ in range(n)]
    return rows


def gen_wakes(rng, sup=None, kinds=("tophat", "axi"), ti=0.5, ind=0.0):
    ws = []
    s = sup or pick(rng, WS_SUP)
    fam = TOPHAT if pick(rng, list(kinds)) == "tophat" else AXI
    ws.append(pick(rng, fam).format(s=s))
    if rng.random() < ti:
        ws.append(pick(rng, TIW).format(t=pick(rng, TI_SUP)))
    if rng.random() < ind:
        ws.append(pick(rng, IND))
    return ws


def gen_partial(rng, wakes):
    """A partial wakes choice applicable to each wake model."""
    w0 = wakes[0]
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.75:
        p = pick(rng, ["rotor_points", "centre", "grid4", "grid9"])
        # RHB cannot be finalised on other points than those of the rotor (refused with an error)
        return "rotor_points" if "RHB" in wakes and p == "centre" else p
    d = {}
    for w in wakes:
        if w.startswith("Jensen") or w.startswith("IECTI"):
            d[w] = pick(rng, ["top_hat", "rotor_points", "grid4"])
        elif w.split("_")[0] in IND:
            d[w] = pick(rng, ["grid4", "rotor_points"])
        elif w.startswith("Bastankhah2016") or w.startswith("TurbOParkIX"):
            d[w] = pick(rng, ["rotor_points", "grid4"])
        else:
            d[w] = pick(rng, ["axiwake5", "rotor_points", "grid4"])
    return d


def gen(rng, n_states=None, n_turbines=None, algo="Downwind", state_kinds=("table",), frames=("rotor_wd",),
        rotors=("centre", "grid4", "grid9", "level3"), grounds=True, ti=0.5, ind=0.0, tmodels=True, sup=None,
        variety=True, kinds=("tophat", "axi"), types=None, partial=True, npoints=6, spread=None, geo=0.0):
    ns = n_states or rng.randint(1, 9)
    nt = n_turbines or rng.randint(2, 6)
    turb = gen_turbines(rng, nt, variety=variety, types=types)
    wakes = gen_wakes(rng, sup=sup, kinds=kinds, ti=ti, ind=ind)
    # flow towards the farm for most states, so that wakes hit
    c = np.array([[t["x"], t["y"]] for t in turb])
    j = rng.randrange(len(c)) if len(c) > 1 else 0
    k = (j + 1) % len(c)
    d = c[k] - c[j] if len(c) > 1 else np.array([1.0, 0.0])
    wd0 = (math.degrees(math.atan2(d[0], d[1])) + 180) % 360
    frame = pick(rng, list(frames))
    scn = dict(turbines=turb, rows=gen_rows(rng, ns, wd0=round(wd0, 3), spread=spread), kind=pick(rng, list(state_kinds)),
               algo=algo, wakes=wakes, rotor=pick(rng, list(rotors)), frame=frame,
               partial=gen_partial(rng, wakes) if partial else None, ground=None, opts={})
    if grounds and rng.random() < 0.25:
        scn["ground"] = pick(rng, ["ground_mirror", "blh_mirror_h500"])
    if tmodels:
        for t in turb:
            t["models"] = []
        r = rng.random()
        if r < 0.2:
            for t in turb:
                t["models"].append("kTI_02")
            scn["wakes"] = [strip_k(w) for w in wakes]
            if isinstance(scn["partial"], dict):
                scn["partial"] = {strip_k(w): p for w, p in scn["partial"].items()}
        if rng.random() < 0.5:
            for t in turb:
                if rng.random() < 0.5:
                    t["models"].append(pick(rng, ["setyaw", "derate", "lookup", "sector"]))
    scn["points"] = gen_points(rng, turb, npoints)
    if geo and rng.random() < geo:
        # turbines whose position, height and diameter depend on the state
        what = pick(rng, [["X"], ["Y"], ["X", "Y"], ["H"], ["D"], ["X", "Y", "H", "D"]])
        for t in turb:
            if rng.random() < 0.7:
                t["geo"] = list(what)
    return scn


def strip_k(w):
    """The variant of a wake model name that takes k from the turbine data."""
    p = w.split("_")
    q = [x for x in p if not (x.startswith("k0") or x.startswith("ka") or x.startswith("kb"))]
    return "_".join(q)


def gen_points(rng, turb, n):
    c = np.array([[t["x"], t["y"]] for t in turb])
    lo, hi = c.min(0) - 600, c.max(0) + 600
    return [[rnd(rng, lo[0], hi[0], 1), rnd(rng, lo[1], hi[1], 1), rnd(rng, 60, 180, 1)] for _ in range(n)]


# ---------------------------------------------------------------------------
# construction


def derate(ct, p, st_sel):
    """A Calculator function has to respect the selection itself."""
    ct, p = np.array(ct), np.array(p)
    ct[st_sel] *= 0.9
    p[st_sel] *= 0.92
    return ct, p


def mbook(scn=None, probes=True):
    mb = fm.ModelBook()
    tm = mb.turbine_models
    tm["probe"] = PosProbe()
    tm["kTI_02"]  # realise the factory model
    tm["derate"] = fm.turbine_models.Calculator(
        in_vars=[FV.CT, FV.P], out_vars=[FV.CT, FV.P],
        func=derate)
    lut = pd.DataFrame([{"ws": w, "rho": r, FV.MAX_P: 1000 + 180 * w + 900 * (r - 1)} for w in (0.0, 7.0, 12.0, 40.0) for r in (0.9, 1.2, 1.5)])
    tm["lookup"] = fm.turbine_models.LookupTable(given("lookup table", lut), input_vars=[FV.REWS, FV.RHO], output_vars=[FV.MAX_P],
                                                 varmap={FV.REWS: "ws", FV.RHO: "rho"})
    return mb


def make_df(rows, labels=None, times=False):
    df = pd.DataFrame(rows)
    if times:
        df.index = pd.to_datetime("2023-01-01 00:00") + pd.to_timedelta(np.arange(len(rows)) * 10, unit="min") \
            if labels is None else pd.DatetimeIndex(labels)
        df.index.name = "Time"
    else:
        df.index = np.arange(len(rows)) if labels is None else labels
        df.index.name = "state"
    return df


V2C = {FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho", FV.WEIGHT: "weight"}
OVARS = [FV.WS, FV.WD, FV.TI, FV.RHO]


def rot_xy(xy, ang, c=(0.0, 0.0)):
    """Rotates clockwise by ang degrees (as wind directions grow)."""
    a = math.radians(ang)
    x, y = xy[0] - c[0], xy[1] - c[1]
    return [c[0] + math.cos(a) * x + math.sin(a) * y, c[1] - math.sin(a) * x + math.cos(a) * y]


def make_states(scn, rows=None, labels=None, **kw):
    rows = scn["rows"] if rows is None else rows
    kind = scn["kind"]
    S = foxes.input.states
    V2C = given("var2col", dict(globals()["V2C"]))
    OVARS = list(globals()["OVARS"])
    random.Random(repr(scn["rows"][0])).shuffle(OVARS)  # the order of the variables is free
    OVARS = given("output_vars", OVARS)
    for k, v in kw.items():
        given(k, v)
    mkdf = make_df
    def make_df_(*a, **k):
        return given("states table", mkdf(*a, **k))
    if kind == "table":
        return S.StatesTable(make_df_(rows, labels), output_vars=OVARS, var2col=V2C, **kw)
    if kind == "profile":
        df = make_df(rows, labels)
        df["h0"] = 100.0
        df["shear"] = [0.1 + 0.01 * round(r["ti"] * 100) for r in rows]
        df["ws0"] = df["ws"]
        return S.StatesTable(given("states table", df), output_vars=OVARS + [FV.H, FV.SHEAR] if False else OVARS,
                             var2col=given("var2col", {**V2C, FV.H: "h0", FV.SHEAR: "shear"}), profiles=given("profiles", {FV.WS: "ShearedProfile"}), **kw)
    if kind == "abl":
        df = make_df(rows, labels)
        df["h0"], df["z0"] = 100.0, 0.05
        df["mol"] = [(-1) ** i * (200.0 + 300.0 * r["ti"]) for i, r in enumerate(rows)]
        df["mol"] = [200.0 + 3000 * r["ti"] if r["rho"] > 1.2 else -300.0 - 1000 * r["ti"] for r in rows]
        return S.StatesTable(given("states table", df), output_vars=OVARS, var2col={**V2C, FV.H: "h0", FV.Z0: "z0", FV.MOL: "mol"},
                             profiles=given("profiles", {FV.WS: dict(type="ABLLogWsProfile")} if scn.get("pdict") else {FV.WS: "ABLLogWsProfile"}), **kw)
    if kind == "timeseries":
        return S.Timeseries(make_df_(rows, labels, times=True), output_vars=OVARS, var2col=V2C, **kw)
    if kind == "fixed":
        return S.StatesTable(make_df_(rows, labels), output_vars=OVARS, var2col={k: v for k, v in V2C.items() if k not in (FV.TI, FV.RHO)},
                             fixed_vars=given("fixed_vars", {FV.TI: 0.07, FV.RHO: 1.2}), **kw)
    if kind == "multiheight":
        df = make_df(rows, labels)
        hs = [50.0, 100.0, 200.0, 300.0]
        for i, h in enumerate(hs):
            df[f"ws-{int(h)}"] = df["ws"] * (h / 100.0) ** 0.15
            df[f"wd-{int(h)}"] = (df["wd"] + 4.0 * (i - 1)) % 360
            df[f"ti-{int(h)}"] = df["ti"] * (1 - 0.03 * i)
        df = df.drop(columns=["ws", "wd", "ti"])
        return S.MultiHeightStates(given("states table", df), output_vars=OVARS, heights=given("heights", hs), var2col=V2C, bounds_error=False, **kw)
    if kind == "field":
        return make_field(scn, rows, **kw)
    if kind == "onepoint":
        c = np.mean([[t["x"], t["y"]] for t in scn["turbines"]], axis=0)
        df = make_df_(rows, labels, times=True)
        return S.OnePointFlowTimeseries([float(c[0]), float(c[1]), 100.0], data_source=df, output_vars=OVARS, var2col=V2C, **kw)
    if kind == "single":
        r = rows[0]
        return S.SingleStateStates(ws=r["ws"], wd=r["wd"], ti=r["ti"], rho=r["rho"])
    if kind == "scan":
        ws = [r["ws"] for r in rows]
        return S.ScanStates({FV.WD: [rows[0]["wd"]], FV.WS: ws, FV.TI: [rows[0]["ti"]], FV.RHO: [1.225]})
    raise KeyError(kind)


def make_field(scn, rows, **kw):
    """A heterogeneous field: linear in x and y, different for every state."""
    import xarray as xr

    c = np.array([[t["x"], t["y"]] for t in scn["turbines"]])
    lo, hi = np.floor(c.min(0) - 3000), np.ceil(c.max(0) + 3000)
    x, y, h = np.linspace(lo[0], hi[0], 9), np.linspace(lo[1], hi[1], 8), np.array([10.0, 100.0, 400.0])
    n = len(rows)
    gx = (x - lo[0]) / (hi[0] - lo[0])
    gy = (y - lo[1]) / (hi[1] - lo[1])
    base = lambda k: np.array([r[k] for r in rows])[:, None, None, None]
    f = 1 + 0.08 * gx[None, None, None, :] - 0.05 * gy[None, None, :, None] + 0.02 * np.arange(3)[None, :, None, None]
    dims = ("Time", "height", "UTMY", "UTMX")
    ws = base("ws") * f
    wd = base("wd") + 8 * (gx[None, None, None, :] - 0.5) + 3 * gy[None, None, :, None] + 0 * np.arange(3)[None, :, None, None]
    ti = base("ti") * (1 + 0 * f)
    ds = xr.Dataset(coords={"Time": pd.to_datetime("2023-01-01") + pd.to_timedelta(np.arange(n) * 10, unit="min"),
                            "height": h, "UTMY": y, "UTMX": x},
                    data_vars={"ws": (dims, ws), "wd": (dims, wd % 360), "ti": (dims, ti)})
    path = env.SCRATCH / f"field-{os.getpid()}-{next(_count)}.nc"
    ds.to_netcdf(path, engine="h5netcdf")
    return foxes.input.states.FieldDataNC(str(path), output_vars=OVARS, var2ncvar={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti"},
                                          fixed_vars={FV.RHO: 1.2}, load_mode=scn.get("load_mode", "preload"), bounds_extra_space=2900, time_format=None, bounds_error=False, **kw)


def make_farm(scn, perm=None, remove=(), probe=True, shift=(0, 0), rot=0.0, centre=(0.0, 0.0), modify=None, nstates=None):
    """Farm whose turbines are added in the order perm; names T<original index>."""
    farm = foxes.WindFarm()
    n = len(scn["turbines"])
    for k in (perm if perm is not None else range(n)):
        if k in remove:
            continue
        t = dict(scn["turbines"][k])
        if modify and k in modify:
            t.update(modify[k])
        xy = rot_xy([t["x"], t["y"]], rot, centre) if rot else [t["x"], t["y"]]
        xy = [xy[0] + shift[0], xy[1] + shift[1]]
        mds = ([t["type"]] if t["type"] else []) + list(t["models"]) + (["probe"] if probe else [])
        sels = t.get("sels")  # {model name: [0/1 per state]}
        msel = None if not sels else [np.array(sels[m], dtype=bool) if m in sels else None for m in mds]
        farm.add_turbine(foxes.Turbine(xy=np.array(xy), turbine_models=mds, name=f"T{k}", D=t["D"], H=t["H"],
                                       models_state_sel=msel), verbosity=0)
    return farm


def geo_values(scn, k, r, shift=(0, 0), rot=0.0, centre=(0.0, 0.0)):
    """What is set for turbine k in a state; depends on the state only, not on its place in the table."""
    c = scn["turbines"][k]
    g = c.get("geo") or []
    a, b = math.sin(1.7 * k + 2.3 * r["ws"]), math.cos(0.7 * k + 1.9 * r["ws"])
    out = {}
    dxy = [60.0 * a if "X" in g else 0.0, 60.0 * b if "Y" in g else 0.0]
    turn = scn.get("geo_turn", 0.0)
    dxy = rot_xy(dxy, turn) if turn else dxy
    xy = [c["x"] + dxy[0], c["y"] + dxy[1]]
    xy = rot_xy(xy, rot, centre) if rot else xy
    if "X" in g or ("Y" in g and (turn or rot)):
        out["X"] = xy[0] + shift[0]
    if "Y" in g or ("X" in g and (turn or rot)):
        out["Y"] = xy[1] + shift[1]
    if "H" in g:
        out["H"] = 105.0 + 12.0 * a
    if "D" in g:
        out["D"] = 140.0 + 15.0 * b
    return out


def add_geo(mb, scn, farm, rows, shift=(0, 0), rot=0.0, centre=(0.0, 0.0)):
    """Positions, hub heights and rotor diameters by state, unset (NaN) for turbines that keep theirs."""
    vals = {v: np.full((len(rows), len(farm.turbines)), np.nan) for v in "XYHD"}
    for j, t in enumerate(farm.turbines):
        for i, r in enumerate(rows):
            for v, x in geo_values(scn, int(t.name[1:]), r, shift, rot, centre).items():
                vals[v][i, j] = x
    m = fm.turbine_models.SetFarmVars(pre_rotor=False)
    for v, nm in (("X", FV.X), ("Y", FV.Y), ("H", FV.H), ("D", FV.D)):
        if not np.all(np.isnan(vals[v])):
            m.add_var(nm, vals[v])
    mb.turbine_models["geo"] = m
    for t in farm.turbines:
        t.models = ["geo"] + list(t.models)
        t.mstates_sel = [None] + list(t.mstates_sel)


def add_models(mb, scn, farm, rows, shift=(0, 0), rot=0.0, centre=(0.0, 0.0)):
    """Registers the named turbine models used by the farm (fresh objects)."""
    tm = mb.turbine_models
    names = [t.name for t in farm.turbines]
    ids = [int(nm[1:]) for nm in names]
    ns = 1 if scn["kind"] == "single" else len(rows)
    if any(t.get("geo") for t in scn["turbines"]):
        add_geo(mb, scn, farm, rows[:ns], shift, rot, centre)
    if any("setyaw" in t.models for t in farm.turbines):
        # yaw misalignments for all turbines, zero where not asked for, ahead of all other models
        m = fm.turbine_models.SetFarmVars(pre_rotor=False)
        m.add_var(FV.YAWM, given("yaw angles", np.array([[12.0 * math.sin(1.3 * k + 0.9 * r["ws"]) if "setyaw" in t.models else 0.0
                                      for k, t in zip(ids, farm.turbines)] for r in rows[:ns]])))
        tm["setyawm"] = m
        for t in farm.turbines:
            keep = [(x, y) for x, y in zip(t.models, t.mstates_sel) if x != "setyaw"]
            t.models = ["setyawm", "yawm2yaw"] + [x for x, _ in keep]
            t.mstates_sel = [None, None] + [y for _, y in keep]
    if any("sector" in t.models for t in farm.turbines):
        rowsdf = []
        for nm, k in zip(names, ids):
            rowsdf.append(dict(tname=nm, WD_min=(40.0 * k) % 360, WD_max=(40.0 * k + 200) % 360,
                               REWS_min=0.0, REWS_max=11.0 + 0.3 * k, **{FV.MAX_P: 1500.0 + 100 * k}))
        tm["sector"] = fm.turbine_models.SectorManagement(
            given("sector table", pd.DataFrame(rowsdf)), range_vars=[FV.WD, FV.REWS], target_vars=[FV.MAX_P], col_tnames="tname",
            colmap={"WD_min": "WD_min", "WD_max": "WD_max", "REWS_min": "REWS_min", "REWS_max": "REWS_max"})


def build(scn, perm=None, rows=None, labels=None, remove=(), probe=True, shift=(0, 0), rot=0.0, centre=(0.0, 0.0),
          modify=None, wakes=None, algo=None, states=None, states_kw=None, mb=None, model_rows=None, **akw):
    """Returns (algo, farm, states, mbook) built from scratch."""
    INPUTS.clear()
    rows = scn["rows"] if rows is None else rows
    if rot:
        rows = [dict(r, wd=(r["wd"] + rot) % 360) for r in rows]
    mb = mbook(scn) if mb is None else mb
    farm = make_farm(scn, perm, remove, probe, shift, rot, centre, modify)
    add_models(mb, scn, farm, rows if model_rows is None else model_rows, shift, rot, centre)
    st = make_states(scn, rows, labels, **(states_kw or {})) if states is None else states
    kw = dict(scn.get("opts", {}))
    kw.update(akw)
    w = scn["wakes"] if wakes is None else wakes
    part = scn["partial"]
    if isinstance(part, dict):
        part = {k: v for k, v in part.items() if k in w}
    given("farm", farm)
    alg = getattr(foxes.algorithms, algo or scn["algo"])(
        farm, st, rotor_model=scn["rotor"], wake_models=given("wake_models", list(w)), wake_frame=scn["frame"],
        partial_wakes=given("partial_wakes", copy.deepcopy(part)),
        ground_models=given("ground_models", copy.deepcopy(scn["ground"])), mbook=mb, verbosity=0, **kw)
    return alg, farm, st, mb


def columns(farm):
    """Original turbine index of each column."""
    return [int(t.name[1:]) for t in farm.turbines]


def table(ds, tnames=None, variables=None, dim=FC.TURBINE):
    """{var: array(state, turbine-or-point)} of float variables, state-only ones broadcast."""
    out = {}
    n_s, n_t = ds.sizes.get(FC.STATE, 1), ds.sizes.get(dim, 1)
    for v in sorted(ds.data_vars):
        d = ds[v]
        if variables is not None and v not in variables:
            continue
        if d.dtype.kind not in "fiub":
            continue
        dims = d.dims
        a = d.to_numpy().astype(float)
        if dims == (FC.STATE, dim):
            out[v] = a
        elif dims == (FC.STATE,):
            out[v] = np.broadcast_to(a[:, None], (n_s, n_t)).copy()
        elif dims == (dim, FC.STATE):
            out[v] = a.T
    return out


class engine:
    """Context with the named engine; always released, also after failures."""

    def __init__(self, name="single", **kw):
        self.name, self.kw = name, kw

    def __enter__(self):
        for tries in range(3):
            reset_engine()
            self.e = Engine.new(self.name, verbosity=0, **self.kw) if isinstance(self.name, str) else self.name
            try:
                self.e.__enter__()
                break
            except Exception as ex:
                # worker processes of a cluster need not start in time on a busy machine
                if self.name != "local_cluster" or tries == 2 or not any(w in f"{type(ex).__name__} {ex}" for w in ("Nanny", "Timeout", "timed out")):
                    raise
        return self.e

    def __exit__(self, *a):
        try:
            self.e.__exit__(*a)
        except Exception:
            if a[0] is None:
                raise
        return False


def observe(ds, dim=FC.TURBINE, variables=None):
    """(table, labels, names) of a result data set."""
    labels = [str(x) for x in np.atleast_1d(ds[FC.STATE].to_numpy())] if FC.STATE in ds.coords else []
    names = [str(x) for x in ds[FC.TNAME].to_numpy()] if FC.TNAME in ds else []
    return table(ds, variables=variables, dim=dim), labels, names


def point_array(scn, ns, per_state=False):
    p = np.array(scn["points"], dtype=float)
    out = np.repeat(p[None], ns, axis=0)
    if per_state:
        out = out + np.arange(ns)[:, None, None] * np.array([37.0, -21.0, 1.5])
    return out


def state_labels(scn, labels=None):
    """The labels that the states of the scenario have to carry."""
    n = 1 if scn["kind"] == "single" else len(scn["rows"])
    if scn["kind"] in ("timeseries", "field", "onepoint"):
        t = pd.to_datetime("2023-01-01 00:00") + pd.to_timedelta(np.arange(n) * 10, unit="min")
        return [str(x) for x in t.to_numpy().astype("datetime64[ns]")]
    if labels is not None:
        return [str(x) for x in labels]
    return [str(i) for i in range(n)]
