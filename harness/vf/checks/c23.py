"""C23 rule-based turbine models change exactly what their rule covers."""

import random
import shutil

import numpy as np
import pandas as pd

import foxes
import foxes.models as fm
import foxes.models.turbine_models as TM
import foxes.variables as FV

from .. import env, zoo
from ..tlc import Raw

NONE = -99999999
SC = 64
FREE = ["qa", "qb", "qc"]
DIRS = [0, 17, 90, 135, 180, 201, 270, 315, 359]
OUTS = ["qd", "qe"]
CODE = {"kTI": FV.KTI, "k": FV.K, "ct": FV.CT, "P": FV.P, "MAXP": FV.MAX_P, "T": FV.T, "YAW": FV.YAW, "YAWM": FV.YAWM, "WD": FV.WD}
VARS = FREE + OUTS + ["qw", "kTI", "k", "T", "ct", "P", "MAXP", "YAW", "YAWM", "WD"]
TYPES = [(80.0, 24000), (126.0, 25000), (112.0, 26244)]  # diameter, rated


def G(i):
    return i * (60 - i) ** 2


def real(v):
    return CODE.get(v, v)


def value(v, x, t):
    """Specification value (unscaled integer) to the number of foxes."""
    if x is None:
        return np.nan
    if v == "T":
        return x * np.pi * (t[0] / 2) ** 2 / 2
    if v == "ct":
        return x * 4 / 3600
    return float(x)


def back(v, x, t):
    if not np.isfinite(x):
        return NONE
    if v == "T":
        x = x * 2 / (np.pi * (t[0] / 2) ** 2)
    y = x * SC
    r = round(y)
    return int(r) if abs(y - r) < 1e-4 * max(1, abs(y) * 1e-3) and abs(r) < 2**30 else -99999998


def draw(rng, v):
    if v == "qw":
        return rng.choice([2, 4, 8])
    if v == "kTI":
        return rng.randint(1, 5)
    if v == "P":
        return G(rng.randint(3, 18))
    if v == "MAXP":
        return rng.choice([None, G(rng.randint(3, 9)), G(rng.randint(3, 18)), G(rng.randint(11, 18))])
    if v == "ct":
        i = rng.randint(1, 20)
        return i * (60 - i)
    if v == "YAW":  # not opposite to any direction used
        return rng.choice([y for y in range(360) if (y + 180) % 360 not in DIRS])
    if v == "YAWM":
        return rng.randint(-40, 40)
    return rng.randint(0, 16)


def axis(rng, lo=0, hi=16):
    x, xs = lo, []
    while x < hi:
        xs.append(x)
        x += rng.choice([d for d in (1, 2, 4) if x + d <= hi])
    return xs + [hi]


def case(seed):
    rng = random.Random(f"c23-{seed}")
    ns, nt = rng.randint(1, 6), rng.randint(1, 5)
    wakes = rng.random() < 0.5
    algo = rng.choice(["Downwind", "Downwind", "Iterative"])
    types = [TYPES[rng.randrange(len(TYPES))] for _ in range(nt)]
    wd = [rng.choice(DIRS) for _ in range(ns)]
    tmp = env.SCRATCH / f"c23-{seed}"
    tmp.mkdir(parents=True, exist_ok=True)
    mb = fm.ModelBook()
    for k, (D, R) in enumerate(TYPES):
        mb.turbine_types[f"ty{k}"] = fm.turbine_types.PCtFile(pd.DataFrame(dict(ws=[0.0, 50.0], P=[5.0, 5.0], ct=[0.5, 0.5])), col_ws="ws", col_P="P", col_ct="ct",
                                                              D=D, H=100.0, p_ct=None, p_P=None, P_nominal=float(R), P_unit="kW")
    models = []
    chain = []

    def add(spec, obj, outs, pre=False):
        n = f"m{len(chain)}"
        # selection: which turbines list the model, and their states
        lst = [1] * nt if spec.get("all") else [int(rng.random() < 0.75) for _ in range(nt)]
        sel = [None if spec.get("all") or rng.random() < 0.6 else [bool(rng.random() < 0.6) for _ in range(ns)] for _ in range(nt)]
        if rng.random() < 0.15 and not spec.get("all"):  # selections that hold everywhere
            sel = [[True] * ns for _ in range(nt)]
        spec.pop("all", None)
        spec.update(outs=outs, sel=[[int(lst[t] and (sel[t] is None or sel[t][s])) for t in range(nt)] for s in range(ns)])
        mb.turbine_models[n] = obj
        chain.append((n, lst, sel))
        models.append(spec)

    def setter(vs, holes, pre=False, every=False):
        o = TM.SetFarmVars(pre_rotor=pre)
        data = []
        for v in vs:
            # an unset power mask in a run with wakes: see the known findings
            draw_ = draw if not (every and (wakes or algo == "Iterative")) else lambda r, v: next(x for x in iter(lambda: draw(r, v), 0.5) if x is not None)
            shape = rng.choice(["full", "full", "turb", "scalar"]) if not v in ("T", "P") else "full"
            if shape == "scalar" and v != "MAXP":
                x = draw_(rng, v)
                d = [[x] * nt for _ in range(ns)]
                o.add_var(real(v), value(v, x, types[0]))
            elif shape == "turb":
                x = [draw_(rng, v) for _ in range(nt)]
                if holes:
                    x = [None if rng.random() < 0.3 else y for y in x]
                d = [list(x) for _ in range(ns)]
                o.add_var(real(v), np.array([value(v, y, t) for y, t in zip(x, types)]))
            else:
                d = [[None if holes and rng.random() < 0.3 else draw_(rng, v) for _ in range(nt)] for _ in range(ns)]
                o.add_var(real(v), np.array([[value(v, y, t) for y, t in zip(r, types)] for r in d]))
            data.append([[NONE if y is None else y * SC for y in r] for r in d])
        add(dict(kind="set", vars=list(vs), data=data, all=every), o, list(vs), pre)

    allv = [v for v in VARS if v != "WD"]
    rng.shuffle(allv)
    if rng.random() < 0.4:
        setter(rng.sample(FREE + OUTS + ["YAWM", "MAXP"], 3), True, pre=True)
    setter(allv, False, every=True)
    num = lambda: sorted(rng.sample(range(0, 17), 2))
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["set", "sector", "sector", "sector", "fac", "look1", "look2", "kti", "thrust", "yaw", "yawm", "mask", "mask", "calc"])
        if k == "set":
            setter(rng.sample(FREE + OUTS + ["MAXP", "k", "T"], rng.randint(1, 3)), rng.random() < 0.7)
        elif k == "sector":
            rv = rng.sample(["WD", "WD", "qa", "qb", "qd", "YAWM"], rng.randint(1, 2))
            rv = list(dict.fromkeys(rv))
            pers = {FV.WD: 360.0}
            per = []
            for v in rv:
                if v in ("qa", "qb") and rng.random() < 0.3:
                    pers[v] = 12.0
                per.append(360 if v == "WD" else 12 if v in pers else 0)
            tv = rng.sample(["qd", "qe", "MAXP", "k", "qc"], rng.randint(1, 2))
            rows, df = [], []
            for _ in range(rng.randint(1, 4)):
                t = rng.randrange(nt)
                lo, hi = [], []
                for v, p in zip(rv, per):
                    if v == "WD":
                        a = rng.choice(wd + [0, 100, 350])
                        b = rng.choice([a + rng.randint(1, 200), a + 360, rng.choice(wd), 360])
                        if rng.random() < 0.2:
                            a, b = 0, 360
                        # a direction at the end of a sector is decided by round-off
                        a += 1 if b - a < 360 and a % 360 in wd else 0
                        b += 1 if b - a < 360 and b % 360 in wd else 0
                        if rng.random() < 0.2:
                            a -= 360
                            b -= 360
                    elif p:
                        a = rng.randint(-2, 11)
                        b = a + rng.randint(1, 12)
                    elif v == "YAWM":
                        a, b = sorted(rng.sample(range(-41, 42), 2))
                    else:
                        a, b = num()
                    lo.append(a)
                    hi.append(b)
                vals = [G(rng.randint(3, 18)) if v == "MAXP" else rng.randint(0, 16) if v == "qc" else rng.randint(20, 60) for v in tv]
                rows.append(dict(t=t + 1, lo=[SC * x for x in lo], hi=[SC * x for x in hi], val=[SC * x for x in vals]))
                r = {"who": f"t{t}" , "idx": t}
                for v, a, b in zip(rv, lo, hi):
                    r[f"{real(v)}_min"], r[f"{real(v)}_max"] = a, b
                for v, x in zip(tv, vals):
                    r[real(v)] = float(x) if rng.random() < 0.5 else x
                df.append(r)
            df = pd.DataFrame(df)
            byname = rng.random() < 0.5
            df = df.drop(columns="idx" if byname else "who")
            cm = {}
            if rng.random() < 0.4:
                c = f"{real(rv[0])}_min"
                cm[c] = "lower"
                df = df.rename(columns={c: "lower"})
            if rng.random() < 0.3:
                cm[real(tv[0])] = "target"
                df = df.rename(columns={real(tv[0]): "target"})
            df = df[rng.sample(list(df.columns), len(df.columns))]
            src = df
            if rng.random() < 0.3:
                src = tmp / f"sec{len(chain)}.csv"
                df.to_csv(src, index=False)
            o = TM.SectorManagement(src, [real(v) for v in rv], [real(v) for v in tv], colmap=cm, var_periods=pers, **(dict(col_tnames="who") if byname else dict(col_tinds="idx")))
            add(dict(kind="sector", rv=rv, per=[p * SC for p in per], tv=tv, rows=rows), o, tv)
        elif k in ("fac", "look2"):
            x, z = rng.sample(FREE, 2)
            xs, zs = axis(rng), axis(rng)
            outs = rng.sample(OUTS, rng.randint(1, 2)) if k == "look2" else [OUTS[0]]
            if k == "fac":
                if any(m["kind"] == "fac" or m["kind"][:4] == "look" and "qd" in m["outs"] for m in models):
                    continue
                tab = [[rng.randint(0, 4) for _ in zs] for _ in xs]
                df = pd.DataFrame(tab, index=[float(q) for q in xs], columns=[float(q) for q in zs])
                src = df
                if rng.random() < 0.4:
                    src = tmp / f"fac{len(chain)}.csv"
                    df.to_csv(src)
                add(dict(kind="fac", x=x, z=z, xs=[SC * q for q in xs], zs=[SC * q for q in zs], tab=tab, out=outs), TM.TableFactors(src, x, z, outs), outs)
            else:
                tab = [[[rng.randint(-9, 30) for _ in zs] for _ in xs] for _ in outs]
                df = pd.DataFrame([{x: float(a), z: float(b), **{o: float(tab[n][i][j]) for n, o in enumerate(outs)}} for i, a in enumerate(xs) for j, b in enumerate(zs)])
                df = df.sample(frac=1.0, random_state=rng.randint(0, 99))
                iv = rng.sample([x, z], 2)
                add(dict(kind="look2", x=x, z=z, xs=[SC * q for q in xs], zs=[SC * q for q in zs], tab=tab, out=outs), TM.LookupTable(df, iv, outs), outs)
        elif k == "look1":
            x = rng.choice(FREE)
            xs = axis(rng)
            outs = rng.sample(OUTS, rng.randint(1, 2))
            tab = [[rng.randint(-9, 30) for _ in xs] for _ in outs]
            vm = {x: "inp"} if rng.random() < 0.4 else {}
            df = pd.DataFrame({vm.get(x, x): [float(q) for q in xs], **{o: tab[n] for n, o in enumerate(outs)}}).sample(frac=1.0, random_state=rng.randint(0, 99))
            add(dict(kind="look1", x=x, xs=[SC * q for q in xs], tab=tab, out=outs), TM.LookupTable(df, [x], outs, varmap=vm), outs)
        elif k == "kti":
            kti = rng.choice([None, rng.randint(1, 5)])
            kb = rng.choice([None, rng.randint(0, 5)])
            ti = rng.choice([None, None, rng.randint(1, 9)])
            tiv = rng.choice(FREE)
            out = rng.choice(["k", "qe"])
            add(dict(kind="kti", kti=NONE if kti is None else kti * SC, kb=(kb or 0) * SC, ti=NONE if ti is None else ti * SC, tiv=tiv, out=out),
                TM.kTI(kTI=kti, kb=kb, ti_var=tiv, ti_val=ti, k_var=real(out)), [out])
        elif k == "thrust":
            add(dict(kind="thrust", ws="qw"), TM.Thrust2Ct(var_ws_ct="qw"), ["ct"])
        elif k == "yaw":
            add(dict(kind="yaw"), TM.YAWM2YAW(), ["YAW"])
        elif k == "yawm":
            add(dict(kind="yawm"), TM.YAW2YAWM(), ["YAWM"])
        elif k == "mask":
            if any(m["kind"] in ("mask", "thrust") for m in models):
                continue
            lim = rng.choice([0, 100, 1500])
            add(dict(kind="mask", lim=lim * SC, rated=[t[1] * SC for t in types]), TM.PowerMask(var_ws_P="qw", P_lim=lim), ["P", "ct"])
        elif k == "calc":
            a, b = rng.sample(FREE, 2)
            out = rng.choice(["qe", "qc"])

            def f(a, b, o, st_sel):
                o[st_sel] = a[st_sel] + 2 * b[st_sel] + 3
                return [o]

            if out == "qc":
                out = "qe"
            add(dict(kind="calc", a=a, b=b, out=out), TM.Calculator([a, b, out], [out], f), [out])
    # mask and thrust write the same variable with different codes
    kinds = {m["kind"] for m in models}
    # the thrust of a mask needs a power-consistent thrust beforehand
    for m in models:
        if m["kind"] == "set" and "P" in m["vars"] and "ct" in m["vars"] and "mask" in kinds:
            ip, ic = m["vars"].index("P"), m["vars"].index("ct")
            o = mb.turbine_models[f"m{models.index(m)}"]
            ii = [[next(i for i in range(1, 21) if G(i) * SC == p) for p in r] for r in m["data"][ip]]
            m["data"][ic] = [[i * (60 - i) * SC for i in r] for r in ii]
            o.reset()
            for v, d in zip(m["vars"], m["data"]):
                o.add_var(real(v), np.array([[value(v, None if y == NONE else y // SC, t) for y, t in zip(r, types)] for r in d]))
    farm = foxes.WindFarm()
    box = [(rng.randint(0, 20) * 150.0, rng.randint(0, 20) * 150.0 + 37.0 * i) for i in range(nt)]
    for t in range(nt):
        names, sels = ["ty%d" % TYPES.index(types[t])], [None]
        for n, lst, sel in chain:
            if lst[t]:
                names.append(n)
                sels.append(None if sel[t] is None else np.array(sel[t]))
        # pre-rotor models come first
        if mb.turbine_models[chain[0][0]].pre_rotor and chain[0][1][t]:
            names.insert(0, names.pop(1))
            sels.insert(0, sels.pop(1))
        farm.add_turbine(foxes.Turbine(xy=np.array(box[t]), name=f"t{t}", turbine_models=names, models_state_sel=sels), verbosity=0)
    st = foxes.input.states.StatesTable(pd.DataFrame(dict(ws=[8.0] * ns, wd=[float(w) for w in wd], ti=[0.1] * ns)),
                                        output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col=dict(WS="ws", WD="wd", TI="ti"), fixed_vars={FV.RHO: 1.0})
    e = dict(t="run", ok=1, err="", vars=VARS, skip={"none": 0}, init=[dict(WD=w * SC) for w in wd], cells=[])
    try:
        cs = rng.randint(1, ns)
        with zoo.engine(rng.choice(["numpy", "single", "threads"]), chunk_size_states=cs, chunk_size_points=100, n_procs=2):
            if algo == "Downwind":
                a = foxes.algorithms.Downwind(farm, st, wake_models=["Jensen_linear_k007"] if wakes else [], mbook=mb, verbosity=0)
                r = a.calc_farm()
            else:
                a = foxes.algorithms.Iterative(farm, st, wake_models=["Jensen_linear_k007"] if wakes else [], mbook=mb, verbosity=0, max_it=rng.randint(2, 4))
                r = a.calc_farm(calc_parameters={}) if False else a.calc_farm()
            if rng.random() < 0.3:
                r = a.calc_farm()  # a further evaluation gives the same
        got = {v: r[real(v)].to_numpy() for v in VARS if real(v) in r}
        for s in range(ns):
            row = []
            for t in range(nt):
                c = {}
                for v in VARS:
                    x = got[v][s, t] if v in got else np.nan
                    if v == "ct":
                        last = [m["kind"] for m in models if "ct" in m["outs"] and m["sel"][s][t]]
                        # codes: thrust in 1/64, otherwise in 900ths
                        y = x * SC if last and last[-1] == "thrust" else x * 900 * SC
                        c[v] = int(round(y)) if np.isfinite(y) and abs(y - round(y)) < 0.05 else -99999998
                    else:
                        c[v] = back(v, x, types[t])
                row.append(c)
            e["cells"].append(row)
    except Exception as x:
        e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:200]}")
    shutil.rmtree(tmp, ignore_errors=True)
    return [dict(id=f"c23-{seed}", cfg=dict(models=models), ev=[e], tags=sorted({m["kind"] for m in models}))]


def repeated(seed):
    """Rules must act once, whatever the number of passes of the algorithm."""
    rng = random.Random(f"c23r-{seed}")
    out = []
    for algo in ("Downwind", "Iterative"):
        for wakes in (0, 1):
            for kind in ("factor", "rest"):
                nt, ns = rng.randint(2, 4), rng.randint(1, 3)
                mb = fm.ModelBook()
                mb.turbine_models["pre"] = TM.SetFarmVars(pre_rotor=True)
                mb.turbine_models["pre"].add_var("qa", np.full((ns, nt), 4.0))
                mb.turbine_models["pre"].add_var("qd", np.full((ns, nt), 5.0))
                if kind == "factor":
                    mb.turbine_models["rule"] = TM.TableFactors(pd.DataFrame([[3.0, 3.0], [3.0, 3.0]], index=[0.0, 8.0], columns=[0.0, 8.0]), "qa", "qa", ["qd"])
                else:
                    # covers the undisturbed wind speed only
                    mb.turbine_models["rule"] = TM.SectorManagement(pd.DataFrame([dict(idx=t, **{"REWS_min": 7.9, "REWS_max": 8.1, "qd": 7.0}) for t in range(nt)]), [FV.REWS], ["qd"], col_tinds="idx")
                farm = foxes.WindFarm()
                for t in range(nt):
                    farm.add_turbine(foxes.Turbine(xy=np.array([500.0 * t, 0.0]), turbine_models=["pre", "DTU10MW", "rule"]), verbosity=0)
                st = foxes.input.states.StatesTable(pd.DataFrame(dict(ws=[8.0] * ns, wd=[270.0] * ns, ti=[0.1] * ns)), output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
                                                    var2col=dict(WS="ws", WD="wd", TI="ti"), fixed_vars={FV.RHO: 1.225})
                e = dict(t="count", ok=1, err="", how=f"{kind}, {algo}{', wakes' if wakes else ''}", got=[[0]], want=[[0]])
                try:
                    with zoo.engine("numpy", chunk_size_states=2, chunk_size_points=100, n_procs=1):
                        r = getattr(foxes.algorithms, algo)(farm, st, wake_models=["Jensen_linear_k007"] if wakes else [], mbook=mb, verbosity=0).calc_farm()
                    e["got"] = [[int(round(x)) for x in y] for y in r["qd"].to_numpy()]
                    if kind == "factor":
                        e["want"] = [[15] * nt for _ in range(ns)]
                    else:
                        e["want"] = [[7 if abs(x - 8) < 0.1 else 5 for x in y] for y in r[FV.REWS].to_numpy()]
                except Exception as x:
                    e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:200]}")
                out.append(dict(id=f"c23r-{seed}-{algo}-{wakes}-{kind}", cfg=dict(models=[0]), ev=[e], tags=["repeated", algo, f"wakes{wakes}", kind]))
    return out


def record(seeds):
    out = []
    for s in seeds:
        out += case(s)
        if s % 40 == 0:
            out += repeated(s)
    return out


def canary(t, rng):
    e = t["ev"][0]
    if e["ok"] and e["t"] == "run":
        c = rng.choice(rng.choice(e["cells"]))
        v = rng.choice([v for v in c if v != "WD"])
        c[v] += 64
        return t
    return None


def run(chk):
    T = env.THOROUGH
    base = dict(NT=2, NS=2, Vals=Raw("{0, 1, 2}"), Bug="")
    chk.mc("RuleRun", constants=dict(base, Vals=Raw("{0, 2}")), invariants=["Rules"], properties=["Finishes"])
    chk.mc("RuleRun", constants=dict(base, NT=3, NS=1), invariants=["Rules"])
    if T:
        chk.mc("RuleRun", constants=base, invariants=["Rules"])
    for b in ("order", "nosel", "keep"):
        chk.mc("RuleRun", constants=dict(base, Vals=Raw("{0, 2}"), Bug=b), invariants=["Rules"], expect="Rules")
    s = chk.seed * 100000
    seeds = [s + k for k in range(env.cases(480, 6000))]
    chk.validate("RuleTrace", chk.record(record, [seeds[i::32] for i in range(32)], timeout=400), canary=canary)
    chk.assumptions += ["variables take integer values; tables have spacings 1, 2 and 4, so that interpolated values are exact multiples of 1/64",
                        "power masks: powers and thrusts on the Betz curve at axial inductions i/60; turns of exactly half a circle are not generated"]
