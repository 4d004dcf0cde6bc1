"""C17 evaluated farm quantities are the defined reductions of the results."""

import contextlib
import io
import random

import numpy as np
import pandas as pd
import xarray as xr

import foxes
import foxes.constants as FC
import foxes.models as fm
import foxes.variables as FV
from foxes.output import FarmResultsEval, StateTurbineTable

from .. import env, zoo
from ..tlc import Raw

OPS = ["weights", "mean_no_weights", "sum", "min", "max"]
TYPES = {"NREL5MW": 5000, "DTU10MW": 10000, "IEA15MW": 15000, "IWT7.5MW": 7500}


def ints(a, scale=1):
    out = []
    for x in np.ravel(np.asarray(a, dtype=float)):
        x = x * scale
        r = round(x) if np.isfinite(x) and abs(x) < 2e9 else None
        out.append(int(r) if r is not None and abs(x - r) <= 1e-6 * max(1.0, abs(x)) else -1000001)
    return out


def results(rng, seed):
    """Farm results of a real calculation, with integers in place of the values."""
    ns, nt = rng.randint(1, 5), rng.randint(1, 4)
    mb = fm.ModelBook()
    mw = rng.random() < 0.25
    types, punit, pnom = [], [], []
    csv = pd.DataFrame(dict(ws=[3.0, 10.0, 25.0], P=[0.0, 5.0, 5.0], ct=[0.8, 0.7, 0.1]))
    mb.turbine_types["mega"] = fm.turbine_types.PCtFile(csv, rho=1.225, D=100.0, H=90.0, P_nominal=5.0, P_unit="MW")
    for _ in range(nt):
        t = "mega" if mw and rng.random() < 0.5 else rng.choice(sorted(TYPES))
        types.append(t)
        punit.append(1000 if t == "mega" else 1)
        pnom.append(5 if t == "mega" else TYPES[t])
    farm = foxes.WindFarm()
    for i, t in enumerate(types):
        farm.add_turbine(foxes.Turbine(xy=np.array([rng.randint(0, 30) * 100.0, i * 700.0]), turbine_models=[t]), verbosity=0)
    w = [rng.randint(0, 4) for _ in range(ns)]
    if sum(w) == 0:
        w[0] = 1
    series = rng.random() < 0.4 and ns > 1
    secs, last = 0, 0
    df = pd.DataFrame(dict(ws=[rng.uniform(5, 12) for _ in range(ns)], wd=[rng.choice([90.0, 270.0]) for _ in range(ns)]))
    if series:
        w = [1] * ns
        steps = [rng.randint(1, 6) for _ in range(ns - 1)]
        t0 = np.datetime64("2024-02-28T00:00:00", "ns")
        df.index = [t0 + np.timedelta64(1800 * sum(steps[:k]), "s") for k in range(ns)]
        secs, last = sum(steps), steps[-1]
        st = foxes.input.states.Timeseries(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col=dict(WS="ws", WD="wd"), fixed_vars={FV.TI: 0.05, FV.RHO: 1.225})
    else:
        df["weight"] = np.array(w) / sum(w)
        st = foxes.input.states.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col=dict(WS="ws", WD="wd", weight="weight"), fixed_vars={FV.TI: 0.05, FV.RHO: 1.225})
    with zoo.engine("numpy", chunk_size_states=rng.randint(1, 5), chunk_size_points=100, n_procs=1):
        algo = foxes.algorithms.Downwind(farm, st, wake_models=["Jensen_linear_k007"], rotor_model="centre", mbook=mb, verbosity=0)
        ds = algo.calc_farm()
    W = sum(w)
    if not np.allclose(ds[FV.WEIGHT].to_numpy().reshape(ns, -1), np.array(w)[:, None] / W):
        raise ValueError("unexpected weights of the states")
    ww = [[k] * nt for k in w]
    x = {}
    for v, hi in ((FV.P, 9), (FV.AMB_P, 9), (FV.REWS, 20), (FV.CT, 5)):
        x[v] = [[0 if rng.random() < 0.2 else rng.randint(0 if v != FV.CT else -5, hi) for _ in range(nt)] for _ in range(ns)]
        ds[v] = ((FC.STATE, FC.TURBINE), np.array(x[v], dtype=float))
    if not series and rng.random() < 0.3:
        ww = [[rng.randint(0, 3) for _ in range(nt)] for _ in range(ns)]
        W = 6
        ds[FV.WEIGHT] = ((FC.STATE, FC.TURBINE), np.array(ww) / W)
    else:
        if not series and rng.random() < 0.2:
            W = 2 * W
        ds[FV.WEIGHT] = ((FC.STATE,), np.array(w) / W)
    if series and rng.random() < 0.5:
        ds = ds.assign_coords({FC.STATE: ds[FC.STATE].to_numpy().astype(f"datetime64[{rng.choice(['s', 'ms', 'us'])}]")})
    return algo, ds, x, ww, W, punit, pnom, secs, last, mw, w


def record1(seed):
    rng = random.Random(f"c17-{seed}")
    algo, ds, x, ww, W, punit, pnom, secs, last, mw, w = results(rng, seed)
    ns, nt = len(ww), len(ww[0])
    ev = []
    fe = FarmResultsEval(ds)
    shape = lambda: {v: (ds[v].dims, ds[v].to_numpy().copy()) for v in list(ds.data_vars) + list(ds.coords)}
    cfg = dict(x=x, w=ww, punit=punit, pnom=pnom, secs=secs)

    def step(e, fun):
        a = shape()
        e.update(ok=1, err="", res=[], chg=[], new=[])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                e["res"] = fun()
        except Exception as x_:
            e.update(ok=0, err=f"{type(x_).__name__}: {str(x_)[:120]}")
        b = shape()
        e["chg"] = [str(v) for v in a if v not in b or a[v][0] != b[v][0] or a[v][1].shape != b[v][1].shape
                    or not ((a[v][1] == b[v][1]) | ((a[v][1] != a[v][1]) & (b[v][1] != b[v][1]))).all()]
        e["new"] = [str(v) for v in b if v not in a]
        e["chg"] = [v for v in e["chg"] if not (v in (FV.CAP, FV.AMB_CAP, FV.EFF) and e["t"] in ("capacity", "efficiency"))]
        if e["t"] in ("capacity", "efficiency") and e["ok"]:
            n = FV.EFF if e["t"] == "efficiency" else FV.CAP if e["var"] == FV.P else FV.AMB_CAP
            e["new"] = sorted(set(e["new"]) | {n})
        ev.append(e)

    scale = lambda op, n: dict(weights=W, mean_no_weights=n).get(op, 1)
    vs = [FV.P, FV.AMB_P, FV.REWS, FV.CT]
    for _ in range(rng.randint(4, 12)):
        k = rng.choice(["states", "states", "turbines", "all", "all", "power", "yield", "farmyield", "uncert", "capacity", "efficiency", "farmeff", "table", "gaps", "gaps", "nan"])
        v, v2 = rng.sample(vs, 2)
        e = dict(t=k, var=v, op="", top="", annual=0, hours=0, extra=0, u=0, keep=[])
        pv = rng.choice([FV.P, FV.AMB_P])
        if k == "states":
            e["op"] = op = rng.choice(OPS + ["std"])
            both = rng.random() < 0.3
            how = {"weights": lambda: fe.calc_states_mean([v2, v]), "mean_no_weights": lambda: fe.calc_states_mean(v, use_weights=False),
                   "sum": lambda: fe.calc_states_sum([v]), "std": lambda: fe.calc_states_std([v, v2])}
            f = how[op] if op in how and both else lambda: fe.reduce_states({v2: rng.choice(OPS), v: op})
            step(e, lambda: ints(f()[v].to_numpy(), scale(op, ns)) if op != "std" else ints(f()[v].to_numpy() ** 2, ns * ns))
        elif k == "turbines":
            e["op"] = op = rng.choice(OPS)
            how = {"mean_no_weights": lambda: fe.calc_turbine_mean([v, v2]), "sum": lambda: fe.calc_turbine_sum([v2, v])}
            f = how[op] if op in how and rng.random() < 0.5 else lambda: fe.reduce_turbines({v: op, v2: rng.choice(OPS)})
            step(e, lambda: ints(f()[v].to_numpy(), scale(op, nt)))
        elif k == "all":
            e["op"], e["top"] = rng.choice(OPS), rng.choice(OPS[1:])
            r = rng.random()
            if r < 0.2:
                e["op"], e["top"] = "weights", "mean_no_weights"
                f = lambda: fe.calc_farm_mean([v2, v])
            elif r < 0.4:
                e["op"], e["top"] = "sum", "sum"
                f = lambda: fe.calc_farm_sum([v, v2])
            else:
                f = lambda: fe.reduce_all({v: e["op"], v2: "sum"}, {v2: "max", v: e["top"]})
            step(e, lambda: ints(f()[v], scale(e["op"], ns) * scale(e["top"], nt)))
        elif k == "gaps":
            keep = sorted(rng.sample(range(ns), rng.randint(1, ns)))
            w1 = [sum(ww[s][t] for s in keep) for t in range(nt)]
            if min(w1) == 0:
                continue
            e["keep"] = [q + 1 for q in keep]
            f = ds[v].to_numpy().copy()
            for s in range(ns):
                if s not in keep:
                    f[s, rng.sample(range(nt), rng.randint(1, nt))] = np.nan
            e["op"] = v2 if rng.random() < 0.5 else ""
            step(e, lambda: ints(fe.weinsum("t", f, *([v2] if e["op"] else [])) * np.array(w1), W))
        elif k == "nan":
            q = ds[v].to_numpy()
            val = q[0, -1]
            q[0, -1] = np.nan
            what = rng.choice([lambda: fe.calc_states_sum([v]), lambda: fe.calc_states_mean([v]), lambda: fe.calc_turbine_mean([v]),
                               lambda: fe.calc_turbine_sum([v]), lambda: fe.calc_farm_mean([v]), lambda: fe.weinsum("t", v)])
            try:
                what()
                got = "accepted"
            except Exception:
                got = "refused"
            q[0, -1] = val
            ev.append(dict(e, ok=1, err="", res=[int(got == "refused")], chg=[], new=[]))
        elif k == "power":
            e["var"] = pv
            step(e, lambda: ints(fe.calc_mean_farm_power(ambient=pv == FV.AMB_P), W))
        elif k in ("yield", "farmyield", "uncert"):
            if k == "uncert" and mw:
                continue
            e["var"] = pv
            kw = dict(ambient=pv == FV.AMB_P)
            e["annual"] = int(not mw and k != "uncert" and rng.random() < 0.4)
            kw["annual"] = bool(e["annual"])
            if secs:
                e["extra"] = last
                if rng.random() < 0.4:
                    e["extra"] = rng.randint(0, 5)
                    kw["delta_t"] = np.timedelta64(1800 * e["extra"], "s")
            elif not e["annual"] or rng.random() < 0.3:
                kw["hours"] = rng.randint(1, 24)
                e["hours"] = kw["hours"]
            unit = 1000.0
            if mw or rng.random() < 0.5:
                kw["algo"] = algo
            else:
                unit = rng.choice([1.0, 1000.0, 1e6])
                kw["P_unit_W"] = unit
            sc = 1e9 / unit * W * 2
            if k == "yield":
                step(e, lambda: ints(fe.calc_turbine_yield(**kw)[FV.YLD if pv == FV.P else FV.AMB_YLD].to_numpy(), sc))
            elif k == "farmyield":
                if rng.random() < 0.5:
                    step(e, lambda: ints(fe.calc_farm_yield(**kw), sc))
                else:
                    step(e, lambda: ints(fe.calc_farm_yield(turbine_yield=fe.calc_turbine_yield(**kw)), sc))
            else:
                e["u"] = rng.randint(0, 5)
                step(e, lambda: ints(fe.calc_farm_yield(power_uncert=e["u"] / 10, **kw), sc * 10000))
        elif k == "capacity":
            e["var"] = pv
            if rng.random() < 0.5:
                fe_kw = dict(algo=algo)
            else:
                fe_kw = dict(P_nom=np.array(pnom) if rng.random() < 0.5 else list(pnom))
            step(e, lambda: (fe.add_capacity(ambient=pv == FV.AMB_P, verbosity=0, **fe_kw), ints(ds[FV.CAP if pv == FV.P else FV.AMB_CAP].to_numpy(), 30000))[1])
        elif k == "efficiency":
            step(e, lambda: (fe.add_efficiency(verbosity=0), ints(ds[FV.EFF].to_numpy(), 2520))[1])
            if e["ok"] and -1000001 in e["res"]:
                e["res"] = [int(np.floor(q * 2520 + 1e-6)) for q in ds[FV.EFF].to_numpy().ravel()]
        elif k == "farmeff":
            tot = sum(ww[s][t] * x[FV.AMB_P][s][t] for s in range(ns) for t in range(nt))
            step(e, lambda: ints(fe.calc_farm_efficiency(), tot if tot else 1))
        else:
            nm = {v: "xyz"} if rng.random() < 0.5 else {}
            step(e, lambda: ints(StateTurbineTable(ds, out_dir=env.SCRATCH).get_dataset([v2, v], name_map=nm)[nm.get(v, v)].to_numpy()))
    if not ev:
        return []
    return [dict(id=f"c17-{seed}", cfg=cfg, ev=ev)]


def record(seeds):
    return [t for s in seeds for t in record1(s)]


def canary(t, rng):
    k = rng.randrange(len(t["ev"]))
    if not t["ev"][k]["ok"] or not t["ev"][k]["res"]:
        return None
    t["ev"][k]["res"][-1] += 1
    return t


def run(chk):
    inv = ["Untouched", "Consistent", "Between"]
    base = dict(NS=2, NT=2, Vals=Raw("{0, 1, 3}") if not env.THOROUGH else Raw("{0, 1, 3, 4}"), MaxOps=2)
    chk.mc("FarmEval", constants=dict(base, Bug=""), invariants=inv)
    for b in ("inplace", "axis", "alias"):
        chk.mc("FarmEval", constants=dict(base, Bug=b), invariants=inv, expect=b)
    seeds = [chk.seed * 100000 + k for k in range(env.cases(280, 3000))]
    chk.validate("EvalTrace", chk.record(record, [seeds[i::28] for i in range(28)], timeout=300), canary=canary)
