"""C26 turbine types return their tabulated power and thrust."""

import random
import shutil
import tempfile

import numpy as np
import pandas as pd

import foxes
import foxes.constants as FC
import foxes.models as fm
import foxes.variables as FV
from foxes.core import FData
from foxes.models import turbine_types as TT

from .. import env, zoo
from ..tlc import Raw

WS = [FV.REWS, FV.REWS2, FV.REWS3]
KINDS = ["PCtFile", "PCtFromTwo", "CpCtFile", "CpCtFromTwo", "WsRho2PCtFromTwo", "WsTI2PCtFromTwo", "FromLookupTable", "FromLookupTable2", "TBLFile"]
UNIT_W = dict(W=1.0, kW=1e3, MW=1e6, GW=1e9)
RHO0 = 1.0


def rint(x, tol=1e-6):
    if not np.isfinite(x) or abs(x) > 2e9:
        return -1000001
    r = round(float(x))
    return int(r) if abs(x - r) <= max(tol, abs(x) * tol) else -1000001


def table(rng, lo, hi, ymax, n=None):
    """Increasing speeds (m/s) with steps 1, 2 or 4 and integer values."""
    x, xs = rng.randint(0, 4), []
    while x <= hi and len(xs) < (n or 7):
        xs.append(x)
        x += rng.choice([1, 2, 4])
    while len(xs) < 2:
        xs.append(xs[-1] + 2)
    return xs, [rng.randint(0, ymax) for _ in xs]


def make(rng, tmp, k, kind=None):
    """A turbine type with its specification."""
    kind = kind or rng.choice(KINDS)
    cp = kind.startswith("Cp")
    two = kind in ("WsRho2PCtFromTwo", "WsTI2PCtFromTwo", "FromLookupTable2")
    u = 8 if cp else 64
    hi = 8 if cp else 26
    pP = rng.choice([None, 3] if cp else [None, 0, 3, 6])
    pct = rng.choice([None, 2] if cp else [None, 0, 2, 4])
    v2, v3 = rng.choice(WS), rng.choice(WS)
    xp, yp = table(rng, 0, hi, 4 if cp else 50)
    xc, yc = table(rng, 0, hi, 9)
    same = kind in ("PCtFile", "CpCtFile", "FromLookupTable", "FromLookupTable2", "TBLFile")
    if same:
        xc, yc = xp, [rng.randint(0, 9) for _ in xp]
    zs = sorted(rng.sample(range(1, 9), rng.randint(2, 3))) if two else [0]
    if two:
        yp = [[rng.randint(0, 20) for _ in zs] for _ in xp]
        yc = [[rng.randint(0, 9) for _ in zs] for _ in xc]
    rho = RHO0 if not cp and kind not in ("WsRho2PCtFromTwo",) and rng.random() < 0.6 else None
    unit = rng.choice(["W", "kW", "MW"])
    pnom = rng.choice([None, 77]) if not two or kind == "FromLookupTable2" else 77
    D = rng.choice([80.0, 120.0])
    kw = dict(p_ct=pct, p_P=pP, var_ws_ct=v2, var_ws_P=v3, D=D, H=90.0)
    if not kind.startswith("WsRho"):
        kw["rho"] = rho
    if kind != "TBLFile":
        kw.update(P_nominal=pnom, P_unit=unit)
    else:
        unit, pnom = "kW", 3000
    num = (lambda a: [float(x) for x in a]) if rng.random() < 0.6 else (lambda a: list(a))

    def shuffled(df):
        return df.sample(frac=1.0, random_state=rng.randint(0, 999)).reset_index(drop=True)

    def src(df, name, index=False):
        if rng.random() < 0.5:
            return df, {}
        p = tmp / f"{kind}{k}-{name}-D80-H90.csv"
        df.to_csv(p, index=index)
        return p, {}

    A = np.pi * (D / 2) ** 2
    sc = 1.0
    if kind == "PCtFile":
        cw, cP, cc = ("ws", "P", "ct") if rng.random() < 0.5 else ("speed", "power", "thrust")
        s, _ = src(shuffled(pd.DataFrame({cw: num(xp), cP: num(yp), cc: [float(y) for y in yc], "x": 5.0})), "t")
        o = TT.PCtFile(s, col_ws=cw, col_P=cP, col_ct=cc, **kw)
    elif kind == "PCtFromTwo":
        a, _ = src(shuffled(pd.DataFrame({"ws": num(xp), "P": num(yp), "ct": 99.0})), "a")
        b, _ = src(shuffled(pd.DataFrame({"w": num(xc), "c": num(yc), "P": 99.0})), "b")
        if not isinstance(a, pd.DataFrame) or not isinstance(b, pd.DataFrame):
            if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
                # names of both files are parsed if one is a file
                for n, d, c in (("a", a, 0), ("b", b, 1)):
                    if isinstance(d, pd.DataFrame):
                        p = tmp / f"{kind}{k}-{n}-D80-H90.csv"
                        d.to_csv(p, index=False)
                        a, b = (p, b) if c == 0 else (a, p)
        o = TT.PCtFromTwo(a, b, col_ws_ct_file="w", col_ct="c", **kw)
    elif kind in ("CpCtFile", "CpCtFromTwo"):
        kw["rho"] = RHO0
        rho = RHO0
        if kind == "CpCtFile":
            o = TT.CpCtFile(shuffled(pd.DataFrame(dict(v=xp, cp=[float(y) for y in yp], c=[float(y) for y in yc]))), col_ws="v", col_ct="c", **kw)
        else:
            o = TT.CpCtFromTwo(shuffled(pd.DataFrame(dict(ws=num(xp), cp=num(yp)))), pd.DataFrame(dict(ws=num(xc), ct=num(yc))), **kw)
        sc = 0.5 * RHO0 * A / UNIT_W[unit]
    elif kind in ("WsRho2PCtFromTwo", "WsTI2PCtFromTwo"):
        cols = rng.sample(range(len(zs)), len(zs))
        mk = lambda xs, ys: pd.DataFrame({(str(float(zs[c])) if rng.random() < 0.5 else float(zs[c])): [float(r[c]) for r in ys] for c in cols}, index=pd.Index(num(xs), name="ws")).sample(frac=1.0, random_state=rng.randint(0, 99))
        o = getattr(TT, kind)(mk(xp, yp), mk(xc, yc), **kw)
    elif kind == "FromLookupTable":
        names = rng.choice([{}, {FV.REWS: "speed", FV.P: "power"}])
        df = shuffled(pd.DataFrame({names.get(FV.REWS, FV.REWS): num(xp), names.get(FV.P, FV.P): num(yp), FV.CT: num(yc)}))
        o = TT.FromLookupTable(df, input_vars=[FV.REWS], varmap=names, **kw)
    elif kind == "FromLookupTable2":
        iv = rng.sample([FV.REWS, FV.TI], 2)
        df = pd.DataFrame([{FV.REWS: float(x), FV.TI: float(z), FV.P: float(yp[i][j]), FV.CT: float(yc[i][j])} for i, x in enumerate(xp) for j, z in enumerate(zs)])
        o = TT.FromLookupTable(shuffled(df), input_vars=iv, **kw)
    elif kind == "TBLFile":
        p = tmp / f"t{k}.tbl"
        p.write_text(f"some turbine\n90.0 {D} 0.1 3.0\n" + "".join(f"{float(x)} {float(c)} {float(y)}\n" for x, y, c in zip(xp, yp, yc)))
        kw.pop("D"), kw.pop("H")
        o = TT.TBLFile(p, **kw)
    o.name = f"type{k}"
    sp = 4 * u
    sz = 8 if not two else int(np.lcm.reduce(np.diff([8 * z for z in zs])))
    top = np.max(yp) if not cp else None
    spec = dict(name=kind, kind="cp" if cp else "2d" if two else "1d", xp=[x * u for x in xp], yp=yp, xc=[x * u for x in xc], yc=yc,
                zp=[8 * z for z in zs], zc=[8 * z for z in zs], rho=int(rho is not None and not cp), dct=int(kind == "WsTI2PCtFromTwo"),
                pP=-1 if pP is None else pP, pct=-1 if pct is None else pct, sp=sp, sz=sz,
                pn=-1 if (pnom is None and cp) else int(pnom) if pnom is not None else int(top))
    return dict(o=o, spec=spec, v2=v2, v3=v3, zvar={"WsRho2PCtFromTwo": FV.RHO, "WsTI2PCtFromTwo": FV.TI, "FromLookupTable2": FV.TI}.get(kind), u=u, sc=sc, cp=cp, zs=zs, rho=rho, pP=pP, pct=pct)


def shifts(T, d, c):
    d = d if T["spec"]["rho"] else 0
    e3 = 2 * d - (c * (T["pP"] or 0)) // 3
    e2 = (3 * d if T["spec"]["dct"] else 0) - (c * (T["pct"] or 0)) // 2
    return e3, e2


def pick(rng, T, d, c):
    """A speed (in units) whose equivalents are not at the ends of the tables, unless exact."""
    e3, e2 = shifts(T, d, c)
    step = 2 if T["cp"] else 32
    for _ in range(200):
        w = rng.randrange(0, (9 if T["cp"] else 28 if max(e3, e2) <= 0 else 5) * T["u"] // step + 1) * step
        if rng.random() < 0.4:
            w = rng.choice(T["spec"]["xp"] + T["spec"]["xc"])
            if w % step:
                continue
        ok = True
        for e, xs in ((e3, T["spec"]["xp"]), (e2, T["spec"]["xc"])):
            q = w * 2.0**e
            if (d != 0 or c != 0) and (q in (xs[0], xs[-1]) or abs(q) > 2000 * 64):
                ok = False
        if ok:
            return w
    return 0


def fill(rng, T, fd, s, t):
    """Inputs of one cell."""
    d = rng.choice([-1, 0, 0, 1]) if T["zvar"] != FV.RHO else 0
    c = rng.choice([0, 0, 1]) if FV.YAWM in fd else 0
    if T["cp"]:
        d = 0
    cell = dict(d=d, c=c, z=0)
    fd[FV.RHO][s, t] = RHO0 * 64.0 ** (-d)
    if FV.YAWM in fd:
        fd[FV.YAWM][s, t] = rng.choice([60.0, -60.0]) if c else 0.0
    ws = {}
    for v in WS:
        ws[v] = pick(rng, T, d, c)
        fd[v][s, t] = ws[v] / T["u"]
    cell.update(w2=ws[T["v2"]], w3=ws[T["v3"]])
    if T["zvar"]:
        zs = T["zs"]
        z = rng.choice([8 * x for x in zs] + [rng.randrange(8 * zs[0], 8 * zs[-1] + 1)])
        cell["z"] = z
        fd[T["zvar"]][s, t] = z / 8
    return cell


def scaled(T, P, ct):
    S = T["spec"]
    if T["cp"]:
        k = S["sp"] * 512
        return int(round(P / T["sc"] * k)) if np.isfinite(P) and abs(P / T["sc"] * k) < 2e9 else -1000001, rint(ct * S["sp"], 0.02)
    k = S["sp"] * (S["sz"] if S["kind"] == "2d" else 1)
    return rint(P * k, 1e-5), rint(ct * k, 1e-5)


def unit(seed):
    rng = random.Random(f"c26-{seed}")
    tmp = env.SCRATCH / f"c26-{seed}"
    tmp.mkdir(parents=True, exist_ok=True)
    ns, nt = rng.randint(1, 4), rng.randint(1, 4)
    farm = foxes.WindFarm()
    farm.add_turbine(foxes.Turbine(xy=[0.0, 0.0], turbine_models=["NREL5MW"]), verbosity=0)
    st = foxes.input.states.SingleStateStates(9.0, 270.0, 0.05, 1.225)
    ev = []
    types = []
    try:
        algo = foxes.algorithms.Downwind(farm, st, wake_models=[], verbosity=0)
        for k in range(rng.randint(1, 2)):
            T = make(rng, tmp, k)
            T["o"].initialize(algo, verbosity=0)
            types.append(T)
        shape = (ns, nt)
        fd = {v: np.zeros(shape) for v in WS + [FV.RHO, FV.TI, FV.P, FV.CT]}
        if rng.random() < 0.7:
            fd[FV.YAWM] = np.zeros(shape)
        for rnd in range(rng.randint(1, 2)):
            for j, T in enumerate(types):
                fd[FV.TI][:] = 0.1
                cells = [[fill(rng, T, fd, s, t) for t in range(nt)] for s in range(ns)]
                fd[FV.P][:] = [[-5.0 - s * 7 - t for t in range(nt)] for s in range(ns)]
                fd[FV.CT][:] = [[-105.0 - s * 7 - t for t in range(nt)] for s in range(ns)]
                how = rng.choice(["all", "turbine", "mask", "states"])
                i = rng.randrange(nt)
                m = np.array([[rng.random() < 0.6 for _ in range(nt)] for _ in range(ns)])
                sel = dict(all=np.s_[:, :], turbine=np.s_[:, i], mask=m, states=np.s_[m[:, i], i])[how]
                on = np.zeros(shape, dtype=bool)
                on[sel] = True
                data = {v: a.copy() for v, a in fd.items()}
                fdata = FData(data=data, dims={v: (FC.STATE, FC.TURBINE) for v in data}, loop_dims=[FC.STATE], states_i0=0)
                e = dict(t="eval", how=how, ok=1, err="", keep=1, cells=[])
                try:
                    o = T["o"].calculate(algo, None, fdata, sel)
                    P, C = o[FV.P], o[FV.CT]
                    for v, a in data.items():
                        if v not in (FV.P, FV.CT) and not (a == fd[v]).all():
                            e["keep"] = 0
                    for s in range(ns):
                        for t in range(nt):
                            c = dict(cells[s][t], type=j + 1, sel=int(on[s, t]))
                            if on[s, t]:
                                c["P"], c["ct"] = scaled(T, P[s, t], C[s, t])
                                c["P0"] = c["ct0"] = 0
                            else:
                                c.update(P=rint(P[s, t]), ct=rint(C[s, t]), P0=int(fd[FV.P][s, t]), ct0=int(fd[FV.CT][s, t]))
                            e["cells"].append(c)
                except Exception as x:
                    e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:150]} ({T['spec']['name']}, {how})")
                ev.append(e)
        for j, T in enumerate(types):
            if T["spec"]["pn"] >= 0:
                ev.append(dict(t="pnom", ok=1, err="", type=j + 1, pn=rint(T["o"].P_nominal)))
        T = rng.choice(types)
        if T["spec"]["name"] in ("PCtFile", "PCtFromTwo") and rng.random() < 0.7:
            ev += cutin(rng, T, algo)
    except Exception as x:
        ev.append(dict(t="make", ok=0, err=f"{type(x).__name__}: {str(x)[:150]}"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    tr = dict(id=f"c26-{seed}", cfg=dict(types=[T["spec"] for T in types] or [dict(name="")]), ev=ev, tags=[T["spec"]["name"] for T in types])
    return [tr]


def curve(algo, o, var, ws):
    n = len(ws)
    data = {v: np.array([ws], dtype=float) for v in WS}
    data.update({FV.RHO: np.full((1, n), RHO0), FV.P: np.zeros((1, n)), FV.CT: np.zeros((1, n))})
    f = FData(data=data, dims={v: (FC.STATE, FC.TURBINE) for v in data}, loop_dims=[FC.STATE], states_i0=0)
    return o.calculate(algo, None, f, np.s_[:, :])[var][0].copy()


def cutin(rng, T, algo):
    """Continuous cut-in: the curve before and after, at and below the first productive speed."""
    S = T["spec"]
    out = []
    for mP, mc in ((1, 0), (0, 1)):
        var, xs, ys = (FV.P, S["xp"], S["yp"]) if mP else (FV.CT, S["xc"], S["yc"])
        on = [k for k, y in enumerate(ys) if y > 0]
        if not on:
            continue
        k = on[0]
        w0 = xs[k] / T["u"]
        hi = np.linspace(w0, xs[-1] / T["u"], 33)
        lo = np.linspace(0, w0, 17)
        out.append((mP, mc, var, w0, hi, lo, curve(algo, T["o"], var, hi)))
    if not out:
        return []
    out = [rng.choice(out)]
    mP, mc, var, w0, hi, lo, before = out[0]
    e = dict(t="cutin", ok=1, err="", rest=0, low=[0], smooth=0)
    try:
        T["o"].modify_cutin(modify_ct=bool(mc), modify_P=bool(mP))
        after = curve(algo, T["o"], var, hi)
        e["rest"] = int(np.allclose(before, after))
        low = curve(algo, T["o"], var, lo)
        # values at 0.1 percent of the unit; deep below cut-in the smoothing underflows
        e["low"] = [int(round(x * 1000)) for x in low]
        e["smooth"] = int(w0 > 0)
    except Exception as x:
        e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:150]}")
    return [e]


def inrun(seed):
    """Types of a mixed farm in a calculation without wakes."""
    rng = random.Random(f"c26r-{seed}")
    tmp = env.SCRATCH / f"c26r-{seed}"
    tmp.mkdir(parents=True, exist_ok=True)
    ev, types = [], []
    try:
        mb = fm.ModelBook()
        for k in range(rng.randint(1, 3)):
            T = make(rng, tmp, k, kind=rng.choice(["PCtFile", "PCtFromTwo", "CpCtFromTwo", "WsTI2PCtFromTwo", "FromLookupTable", "FromLookupTable2", "TBLFile"]))
            types.append(T)
            mb.turbine_types[f"type{k}"] = T["o"]
        nt, ns = rng.randint(2, 4), rng.randint(1, 5)
        asg = [rng.randrange(len(types)) for _ in range(nt)]
        yaw = np.array([[rng.choice([0.0, 60.0, -60.0]) for _ in range(nt)] for _ in range(ns)])
        useyaw = rng.random() < 0.6
        mb.turbine_models["sety"] = fm.turbine_models.SetFarmVars(pre_rotor=True)
        farm = foxes.WindFarm()
        for i, k in enumerate(asg):
            farm.add_turbine(foxes.Turbine(xy=np.array([rng.randint(0, 20) * 200.0, i * 900.0]), turbine_models=(["sety", "yawm2yaw"] if useyaw else []) + [f"type{k}"]), verbosity=0)
        # one inflow for all turbines of a state: use values that suit all types
        d = [0] * ns
        w8 = [rng.choice([0, 2, 4, 6, 8, 12, 16, 20, 24, 28, 32, 40, 48, 56, 64, 80, 120, 160, 200, 208]) for _ in range(ns)]
        zz = max(T["zs"][0] for T in types if T["zvar"]) if any(T["zvar"] for T in types) else 1
        ze = min(T["zs"][-1] for T in types if T["zvar"]) if any(T["zvar"] for T in types) else 1
        if zz > ze:
            return []
        z8 = [rng.randrange(8 * zz, 8 * ze + 1) for _ in range(ns)]
        df = pd.DataFrame(dict(ws=[w / 8 for w in w8], wd=[rng.choice([17.0, 105.0, 254.0, 291.0]) for _ in range(ns)], ti=[z / 8 for z in z8]))
        st = foxes.input.states.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col=dict(WS="ws", WD="wd", TI="ti"), fixed_vars={FV.RHO: RHO0})
        if useyaw:
            mb.turbine_models["sety"].add_var(FV.YAWM, yaw)
        # stay away from the ends of the tables, where the last digit of the speed decides
        bad = set()
        for s in range(ns):
            for t in range(nt):
                T = types[asg[t]]
                e3, e2 = shifts(T, 0, int(useyaw and yaw[s, t] != 0))
                w = w8[s] * T["u"] // 8
                if w * 2.0**e3 in (T["spec"]["xp"][0], T["spec"]["xp"][-1]) or w * 2.0**e2 in (T["spec"]["xc"][0], T["spec"]["xc"][-1]):
                    bad.add(s)
        if bad:
            return []
        if useyaw:
            mb.turbine_models["sety"].reset()
            mb.turbine_models["sety"].add_var(FV.YAWM, yaw)
        e = dict(t="eval", how="run", ok=1, err="", keep=1, cells=[])
        try:
            with zoo.engine("numpy", chunk_size_states=rng.randint(1, 4), chunk_size_points=100, n_procs=1):
                algo = foxes.algorithms.Downwind(farm, st, wake_models=[], rotor_model=rng.choice(["centre", "grid4"]), mbook=mb, verbosity=0)
                r = algo.calc_farm()
            P, C = r[FV.P].to_numpy(), r[FV.CT].to_numpy()
            for v in WS:
                if v in r and not np.allclose(r[v].to_numpy(), df["ws"].to_numpy()[:, None]):
                    e["keep"] = 0
            for s in range(ns):
                for t in range(nt):
                    T = types[asg[t]]
                    w = w8[s] * T["u"] // 8
                    q = dict(d=0, c=int(useyaw and yaw[s, t] != 0), z=z8[s] if T["zvar"] else 0, w2=w, w3=w, type=asg[t] + 1, sel=1, P0=0, ct0=0)
                    q["P"], q["ct"] = scaled(T, P[s, t], C[s, t])
                    e["cells"].append(q)
        except Exception as x:
            e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:150]}")
        ev.append(e)
        # ambient and waked powers agree without wakes
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [dict(id=f"c26r-{seed}", cfg=dict(types=[T["spec"] for T in types]), ev=ev, tags=["run"])]


def record(jobs):
    out = []
    for kind, seed in jobs:
        out += unit(seed) if kind == "unit" else inrun(seed)
    return out


def canary(t, rng):
    for e in t["ev"]:
        if e["t"] == "eval" and e["ok"] and e["cells"]:
            c = rng.choice(e["cells"])
            c["ct"] += 1
            return t
    return None


def run(chk):
    T = env.THOROUGH
    base = dict(NC=3 if T else 2, Speeds=Raw("{0, 4, 6, 8, 12, 16, 20, 32}" if T else "{0, 6, 8, 16, 20, 32}"), Rounds=2, Bug="")
    inv = ["Unaltered", "Tabulated", "OwnCells"]
    chk.mc("TypeEval", constants=base, invariants=inv, properties=["Finishes"])
    for b, x in (("inplace", "Unaltered"), ("all", "OwnCells"), ("edge", "Tabulated")):
        chk.mc("TypeEval", constants=dict(base, NC=2, Bug=b), invariants=inv, expect=x)
    s = chk.seed * 100000
    jobs = [("unit", s + k) for k in range(env.cases(500, 6000))] + [("run", s + k) for k in range(env.cases(160, 1600))]
    chk.validate("TypeTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=400), canary=canary)
