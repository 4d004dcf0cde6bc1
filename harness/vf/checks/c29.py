"""C29 farm and point calculations agree: what a rotor sees is what points at its place see."""

import math
import random

import numpy as np

import foxes.constants as FC
import foxes.models.rotor_models as RM
import foxes.variables as FV
from foxes.core import States, TurbineType

from .. import env, zoo
from ..intern import CIRC, intern_tables

SCALE = {FV.REWS: 5e3, FV.TI: 1e5, FV.RHO: 1e5}
WSC = 10000
SEE = [(FV.REWS, FV.AMB_REWS, FV.WS, FV.AMB_WS), (FV.TI, FV.AMB_TI, FV.TI, FV.AMB_TI), (FV.RHO, FV.AMB_RHO, FV.RHO, FV.AMB_RHO)]
MODELS = ["derate", "lookup", "sector"]


class Mast(TurbineType):
    """A rotor without thrust and power."""

    def needs_rews2(self):
        return False

    def needs_rews3(self):
        return False

    def output_farm_vars(self, algo):
        return [FV.CT, FV.P]

    def calculate(self, algo, mdata, fdata, st_sel):
        for v in self.output_farm_vars(algo):
            fdata[v][st_sel] = 0.0
        return {v: fdata[v] for v in self.output_farm_vars(algo)}

    def modify_cutin(self, modify_ct, modify_P):
        pass


class Patches(States):
    """Another flow around each turbine, the same all over its rotor."""

    def __init__(self, rows, xy):
        super().__init__()
        self.rows, self.xy = rows, np.array(xy, dtype=float)

    def size(self):
        return len(self.rows)

    def output_point_vars(self, algo):
        return [FV.WS, FV.WD, FV.TI, FV.RHO]

    def calculate(self, algo, mdata, fdata, tdata):
        i0 = mdata.states_i0(counter=True)
        shp = (tdata.n_states, tdata.n_targets, tdata.n_tpoints)
        p = tdata[FC.TARGETS][..., :2]
        near = np.argmin(np.sum((p[..., None, :] - self.xy) ** 2, axis=-1), axis=-1)
        for v, c, d in ((FV.WS, "ws", 0.7), (FV.WD, "wd", 0.0), (FV.TI, "ti", 0.013), (FV.RHO, "rho", 0.011)):
            a = np.array([r[c] for r in self.rows[i0:i0 + mdata.n_states]], dtype=float)
            tdata[v] = np.zeros(shp)
            tdata[v][:] = a[:, None, None] + d * ((near * 3) % 7)
        tdata.add(FV.WEIGHT, np.full((mdata.n_states, 1, 1), 1.0 / self.size()), (FC.STATE, FC.TARGET, FC.TPOINT))
        return {v: tdata[v] for v in self.output_point_vars(algo)}


def by_ti(w):
    """The wake depends on the turbulence intensity."""
    return "_ka" in w or w.startswith("Bastankhah2016")


def wind(w):
    return not w.startswith(("IEC", "Cre"))


def scenario(seed):
    rng = random.Random(f"c29-{seed}")
    r = rng.random()
    it = r < 0.35
    kw = dict(geo=0.15, n_states=rng.randint(2 if r < 0.08 or r > 0.94 else 1, 4), n_turbines=rng.randint(1, 5), algo="Iterative" if it else "Downwind",
              rotors=("centre", "grid4", "grid9", "level3"), spread=rng.choice([3.0, 20.0]))
    if r < 0.08:
        kw.update(state_kinds=("timeseries",), frames=("timelines", "dyn_wakes", "timelines_10min", "dyn_wakes_5km"), grounds=False, geo=0.0)
    elif r > 0.94:
        kw.update(state_kinds=("onepoint",), frames=("rotor_wd",), spread=3.0)
    else:
        kw.update(state_kinds=("table", "table", "profile", "abl", "timeseries", "multiheight", "field", "single", "scan"),
                  frames=("rotor_wd", "rotor_wd", "rotor_wd_farmo", "yawed_k002", "yawed_k002", "streamlines_100"))
    scn = zoo.gen(rng, **kw)
    if scn["frame"] == "yawed_k002" and scn["kind"] not in ("table", "patches", "timeseries", "single", "scan"):
        scn["frame"] = "rotor_wd"  # deflected by yaw angles that the shear of the direction creates, at the mean position of the rotor points
    scn["partial"] = rng.choice(["centre", "rotor_points", "rotor_points", "grid4", "grid9"])
    for t in scn["turbines"]:
        t["models"] = [m for m in t["models"] if m != "setyaw"]
    scn["tag"] = "plain"
    if scn["kind"] == "table" and not any(t.get("geo") for t in scn["turbines"]) and rng.random() < 0.6:
        scn["kind"] = "patches"
        if rng.random() < 0.6:
            sup = rng.choice(["product_lim", "product_lim", "linear_loc", "quadratic_amb"])
            scn["wakes"] = zoo.gen_wakes(rng, sup=sup)
            if any("kTI_02" in t["models"] for t in scn["turbines"]):
                scn["wakes"] = [zoo.strip_k(w) for w in scn["wakes"]]
            scn["partial"] = rng.choice(["grid4", "grid9", scn["partial"]])
    if it:
        if rng.random() < 0.5:
            scn["wakes"].append(zoo.strip_k(zoo.gen_wakes(rng, ti=0)[0]) if any("kTI_02" in t["models"] for t in scn["turbines"]) else zoo.gen_wakes(rng, ti=0)[0])
        if scn["frame"] in ("timelines", "dyn_wakes", "timelines_10min", "dyn_wakes_5km") and rng.random() < 0.5:
            scn["wakes"] = scn["wakes"][:1]
        rng.shuffle(scn["wakes"])
        scn["wakes"] = list(dict.fromkeys(scn["wakes"]))
    else:
        late = any("kTI_02" in t["models"] for t in scn["turbines"]) or any(by_ti(w) for w in scn["wakes"])
        if rng.random() < 0.06:
            # wake models are evaluated one after the other by this algorithm
            k = any("kTI_02" in t["models"] for t in scn["turbines"])
            w = zoo.gen_wakes(rng, ti=1.0)
            scn["wakes"] = [zoo.strip_k(x) for x in reversed(w)] if k else w[::-1]
            scn["tag"] = "several wake models, single pass"
        elif late and len(scn["wakes"]) > 1:
            scn["wakes"] = [w for w in scn["wakes"] if wind(w)]
    n = len(scn["turbines"])
    scn["n"] = n
    kti = ["kTI_02"] if any("kTI_02" in t["models"] for t in scn["turbines"]) else []
    for _ in range(rng.randint(2, 3)):
        for _ in range(50):
            a, row = rng.choice(scn["turbines"][:n]), rng.choice(scn["rows"])
            w, d, o = math.radians(row["wd"] + 180), rng.uniform(250, 1800), rng.uniform(-130, 130)
            x, y = round(a["x"] + d * math.sin(w) + o * math.cos(w), 1), round(a["y"] + d * math.cos(w) - o * math.sin(w), 1)
            if all(math.hypot(x - t["x"], y - t["y"]) > 200 for t in scn["turbines"]):
                scn["turbines"].append(dict(x=x, y=y, type="Mast", H=round(rng.uniform(90, 140), 1), D=round(rng.uniform(50, 170), 1), models=list(kti)))
                break
    return rng, scn


def late():
    """Turbulence wakes listed before wind wakes."""
    row = [dict(x=700.0 * k, y=0.0, type="NREL5MW", D=None, H=None, models=[]) for k in range(3)] + [dict(x=2100.0, y=0.0, type="Mast", H=90.0, D=100.0, models=[])]
    return random.Random("c29-late"), dict(
        turbines=row, n=3, rows=[dict(ws=12.0, wd=270.0, ti=0.08, rho=1.225, weight=1.0)], kind="table", algo="Downwind", frame="rotor_wd", rotor="centre",
        partial="centre", ground=None, wakes=["IECTI2019_quadratic", "Jensen_linear_k007"], opts={}, points=[], tag="several wake models, single pass")


def at_rotor(tab, model):
    """The points of the rotor model at all rotors, and their weights."""
    dp, w = model.design_points(), model.rotor_point_weights()
    a = np.deg2rad(tab[FV.YAW])
    n = np.stack([np.sin(a), np.cos(a), 0 * a], -1)
    m = np.stack([-n[..., 1], n[..., 0], 0 * a], -1)
    u = np.zeros_like(n)
    u[..., 2] = 1
    c = np.stack([tab[FV.X], tab[FV.Y], tab[FV.H]], -1)
    return c[:, :, None] + 0.5 * tab[FV.D][:, :, None, None] * np.einsum("stad,pa->stpd", np.stack([n, m, u], -2), dp), w


def ints(x, sc):
    return [int(round(float(v) * sc)) for v in np.asarray(x).reshape(-1)]


def error(ev, what, ex):
    ev.append(dict(op="error", v=f"{what}, {type(ex).__name__}"))
    return f"{type(ex).__name__}: {str(ex)[:200]}"


def record(seed):
    rng, scn = late() if seed == "late" else scenario(seed)
    n, nt = scn["n"], len(scn["turbines"])
    eng, ekw = rng.choice([("single", {}), ("single", {}), ("numpy", dict(chunk_size_states=2, chunk_size_points=7, n_procs=2)),
                           ("threads", dict(chunk_size_states=1, chunk_size_points=20, n_procs=3))])
    ev = []
    cfg = dict(tag=scn["tag"], err="")

    def build(**kw):
        mb = zoo.mbook(scn)
        mb.turbine_types["Mast"] = Mast(D=150.0, H=110.0, P_nominal=1.0)
        if scn["kind"] == "patches":
            kw["states"] = Patches(scn["rows"], [[t["x"], t["y"]] for t in scn["turbines"]])
        algo, farm = zoo.build(scn, mb=mb, **kw)[:2]
        return algo, farm, mb

    tags = [scn["tag"], scn["kind"], scn["frame"], scn["partial"], scn["algo"]]
    out = [dict(id=f"c29-{seed}", cfg=cfg, ev=ev, scn=scn, tags=tags)]
    hub = not (scn["frame"].startswith(("timelines", "dyn")))
    with zoo.engine(eng, **ekw):
        algo, farm, mb = build()
        if hub:
            for t in farm.turbines:
                t.models.append("hubh_data")
                t.mstates_sel.append(None)
        try:
            fr = algo.calc_farm()
        except Exception as ex:
            cfg["err"] = error(ev, "farm", ex)
            return out
        settled = scn["algo"] != "Iterative" or algo._it < algo.max_it  # C09 decides about convergence
        tab = zoo.observe(fr)[0]
        P, w = at_rotor(tab, algo.rotor_model)
        q = mb.rotor_models[scn["partial"]] if scn["partial"].startswith("grid") else RM.CentreRotor()
        if not q.initialized:
            q.initialize(algo)
        Q, v = at_rotor(tab, q)
        hubs = np.stack([tab[FV.X], tab[FV.Y], tab[FV.H]], -1)
        ns = len(P)
        sets = [P.reshape(ns, -1, 3), Q.reshape(ns, -1, 3), hubs, hubs]
        order = rng.sample(range(4), 4) if rng.random() < 0.7 else [0, 1, 2, 3]
        cuts, at = {}, 0
        for k in order:
            cuts[k] = slice(at, at + sets[k].shape[1])
            at += sets[k].shape[1]
        try:
            pr = algo.calc_points(fr, np.concatenate([sets[k] for k in order], axis=1))
        except Exception as ex:
            cfg["err"] = error(ev, "points", ex)
            return out
    val = {x: pr[x].to_numpy() for x in (FV.WS, FV.WD, FV.TI, FV.RHO, FV.AMB_WS, FV.AMB_WD, FV.AMB_TI, FV.AMB_RHO)}

    def get(x, k, shp):
        return val[x][:, cuts[k]].reshape(shp)

    def along(ws, wd, k, shp):
        return get(ws, k, shp) * np.cos(np.deg2rad(get(wd, k, shp) - tab[FV.YAW].reshape(tab[FV.YAW].shape + (1,) * (len(shp) - 2))))

    see = {}
    for f, fa, p, pa in SEE:
        for k, shp in ((0, P.shape[:3]), (1, Q.shape[:3])):
            if f == FV.REWS:
                see[f, k] = along(p, FV.WD, k, shp), along(pa, FV.AMB_WD, k, shp)
            else:
                see[f, k] = get(p, k, shp), get(pa, k, shp)
    flat = np.zeros((ns, nt), dtype=bool)  # same ambient flow at all points of the rotor
    flat[:] = True
    for x in (FV.AMB_WS, FV.AMB_WD, FV.AMB_TI, FV.AMB_RHO):
        a = np.concatenate([get(x, 0, P.shape[:3]), get(x, 1, Q.shape[:3])], axis=2)
        flat &= np.ptp(a, axis=2) < 1e-7
    iw, iv = ints(w, WSC), ints(v, WSC)
    tol = 12 if scn["algo"] == "Iterative" else 4
    cfg["waked"] = 0
    for s in range(ns):
        for t in range(nt):
            for f, fa, p, pa in SEE:
                sc = SCALE[f]
                if not all(np.all(np.isfinite(x)) and np.all(np.abs(x) < 2e9 / WSC / sc) for x in (*(y[s, t] for k in (0, 1) for y in see[f, k]), tab[f][s, t], tab[fa][s, t])):
                    ev.append(dict(op="error", v=f"values out of range, {f}")) if t >= n else None
                    continue
                rt, ra = (ints(x[s, t], sc) for x in see[f, 0])
                vt, va = (ints(x[s, t], sc) for x in see[f, 1])
                af, ff = ints(tab[fa][s, t], sc)[0], ints(tab[f][s, t], sc)[0]
                if f != FV.REWS or scn["kind"] != "onepoint":
                    ev.append(dict(op="ambient", v=f, rw=iw, ra=ra, fa=af, tol=tol))
                if t < n or not settled:
                    continue
                if scn["partial"] != "rotor_points" and not flat[s, t]:
                    continue
                cfg["waked"] += int(abs(ff - af) > 20)
                ev.append(dict(op="wake", v=f, how="same" if scn["partial"] == "rotor_points" else "average",
                               tol=tol + (0 if flat[s, t] else max(ff, af) // 1000),  # wakes are evaluated at the mean distance of the points
                               
                               rw=iw, rt=rt, vw=iv, va=va, vt=vt, fa=af, ff=ff))
            if hub and t >= n and settled:
                for x in (FV.WS, FV.TI, FV.RHO, FV.WD):
                    a, b = float(get(x, 2, (ns, nt))[s, t]), float(fr[x + "_HH"].to_numpy()[s, t])
                    sc = 1e4 if x == FV.WD else SCALE.get(x, 5e3)
                    if x == FV.WD:
                        b = a + (b - a + 180) % 360 - 180
                    if not (np.isfinite(a) and np.isfinite(b)):
                        ev.append(dict(op="error", v=f"hub data missing, {x}"))
                    else:
                        ev.append(dict(op="hub", v=x, pt=ints(a, sc)[0], ff=ints(b, sc)[0], tol=tol))
    two = [{x: get(x, k, (ns, nt)) for x in val} for k in (2, 3)]
    (a, b), _ = intern_tables(two, circ=CIRC, rtol=1e-9, atol=1e-9)
    ev.append(dict(op="again", a=a.tolist(), b=b.tolist()))
    if settled and not scn["frame"].startswith("dyn") and rng.random() < 0.4:
        full = {x: d[:, :n] for x, d in zoo.observe(fr, variables=zoo.FARM_VARS)[0].items()}
        with zoo.engine(eng, **ekw):
            algo2 = build(remove=tuple(range(n, nt)))[0]
            try:
                part = zoo.observe(algo2.calc_farm(), variables=zoo.FARM_VARS)[0]
                (a, b), _ = intern_tables([full, part], circ=CIRC, rtol=2e-5 if scn["algo"] == "Iterative" else 1e-7, atol=1e-7)
                ev.append(dict(op="mast", a=a.tolist(), b=b.tolist()))
            except Exception as ex:
                cfg["err"] = error(ev, "farm without masts", ex)
    return out


def batch(seeds):
    out = []
    for s in seeds:
        out += record(s)
    return out


def canary(t, rng):
    ws = [k for k, e in enumerate(t["ev"]) if e["op"] in ("wake", "hub", "ambient", "again")]
    if not ws:
        return None
    e = t["ev"][rng.choice(ws)]
    if e["op"] == "again":
        e["a"][0][0] += 1000
    elif e["op"] == "ambient":
        e["fa"] += 2000
    else:
        e["ff"] += 2000
    return t


def run(chk):
    base = dict(N=3, P=2, MaxAmb=1, Thr=2, Bug="")
    inv = ["Agree", "NoMast"]
    chk.mc("SightModel", constants=dict(base, MaxAmb=2, Thr=3) if env.THOROUGH else base, invariants=inv, properties=["Finishes"])
    for bug, what in (("stale", "Agree"), ("next", "Agree"), ("first", "Agree"), ("own", "Agree"), ("mast", "NoMast")):
        chk.mc("SightModel", constants=dict(base, Bug=bug), invariants=inv, expect=what)
    s = chk.seed * 100000
    seeds = ["late"] + [s + k for k in range(env.cases(160, 2500))]
    tr = chk.record(batch, [seeds[i::32] for i in range(32)], timeout=600)
    chk.notes["waked rotors compared"] = sum(t["cfg"].get("waked", 0) for t in tr)
    chk.validate("SightTrace", tr, canary=canary)
    chk.assumptions += ["rotors that see wakes are those of turbines without thrust, as points are also in the wake of the turbine they are at; without yaw, without induction models",
                        "with wakes averaged over other points than those of the rotor, waked results are compared where the ambient flow is the same all over the rotor",
                        "the single-pass algorithm evaluates wake models one after the other; several wind wakes or wind wakes that depend on turbulence wakes are compared with the iterative algorithm"]
