"""C12 wake superposition combines exactly the contributions its name says."""

import random

import numpy as np

import foxes
import foxes.constants as FC
import foxes.models as fm
import foxes.variables as FV
from foxes.core import FData, MData, TData
from foxes.models.wake_models.dist_sliced import DistSlicedWakeModel

from .. import env, zoo

# what the names of the model book stand for: (operation, power, scaling)
NAMES = {}
for _op, (_o, _p) in dict(linear=("sum", 1), quadratic=("pow", 2), cubic=("pow", 3), quartic=("pow", 4), max=("max", 1), product=("prod", 1)).items():
    for _sc in ("", "_amb", "_loc"):
        for _l in ("", "_lim"):
            NAMES[f"ws_{_op}{_sc}{_l}"] = (_o, _p, "local" if _op == "product" or _sc == "_loc" else "amb" if _sc else "rews", _l != "")
for _op, (_o, _p) in dict(linear=("sum", 1), quadratic=("pow", 2), cubic=("pow", 3), quartic=("pow", 4), max=("tmax", 1)).items():
    NAMES[f"ti_{_op}"] = (_o, _p, "none", False)
UNIT = 1e-7


def power(val, p):
    """(sign, |val|^p as integer or -1)."""
    a = abs(val) ** p
    i = round(a)
    ok = np.isfinite(a) and abs(a - i) <= UNIT * max(1, a) * 10
    return (0 if i == 0 and ok else int(np.sign(val)), int(i) if ok else -1)


def make(rng, mb):
    """A superposition with its specification: (name, object, op, p, scaling, lo, hi, toamb)."""
    if rng.random() < 0.6:
        while True:
            n = rng.choice(sorted(NAMES))
            if n in mb.wake_superpositions.keys():
                break
        op, p, sc, lim = NAMES[n]
        return n, mb.wake_superpositions[n], op, p, sc, (1e-4 if lim else None), None, ("quad" if n.startswith("ti") else None)
    S = fm.wake_superpositions
    if rng.random() < 0.25:
        ta = rng.choice(["linear", "quadratic"])
        k = rng.randrange(4)
        o = [S.TILinear, S.TIQuadratic, S.TIMax][k](superp_to_amb=ta) if k < 3 else S.TIPow(pow=rng.choice([2, 3]), superp_to_amb=ta)
        op, p = [("sum", 1), ("pow", 2), ("tmax", 1), ("pow", getattr(o, "pow", 1))][k]
        return f"{type(o).__name__}-{ta}", o, op, p, "none", None, None, ("quad" if ta == "quadratic" else None)
    lo = rng.choice([None, 1.0, 0.0, 3.0])
    hi = rng.choice([None, 5.0, 9.0])
    kw = dict(lim_low=lo, lim_high=hi)
    k = rng.randrange(9)
    amb = rng.random() < 0.5
    if k < 4:
        if k == 3:
            kw["pow"] = rng.choice([2, 3])
        o = [S.WSLinear, S.WSQuadratic, S.WSMax, S.WSPow][k](scale_amb=amb, **kw)
        sc = "amb" if amb else "rews"
    elif k < 8:
        if k == 7:
            kw["pow"] = rng.choice([2, 3])
        o = [S.WSLinearLocal, S.WSQuadraticLocal, S.WSMaxLocal, S.WSPowLocal][k - 4](**kw)
        sc = "local"
    else:
        o, sc = S.WSProduct(**kw), "local"
    op, p = [("sum", 1), ("pow", 2), ("max", 1), ("pow", kw.get("pow", 1))][k % 4] if k < 8 else ("prod", 1)
    return type(o).__name__ + str(kw), o, op, p, sc, lo, hi, None


class Algo:
    wake_frame = fm.wake_frames.RotorWD()


def abstract(delta, amb, p, sc, toamb, op):
    """The observed effect as (sign, size^p)."""
    if toamb == "quad":
        t = (delta + amb) ** 2 - amb**2
        return power(np.sign(t) * abs(t) ** 0.5, p)
    return power(delta / amb if sc == "local" else delta, p)


def finalize(e, deltas, ambs, spec):
    name, o, op, p, sc, lo, hi, toamb = spec
    pp = p if op == "pow" else 1
    for d, a in zip(deltas, ambs):
        s, q = abstract(d, a, pp, sc, toamb, op)
        e["sg"].append(s)
        e["pw"].append(q)
        e["atlo"].append(int(lo is not None and abs(a + d - lo) < 1e-9))
        e["athi"].append(int(hi is not None and abs(a + d - hi) < 1e-9))
    return e


def config(spec, n, ambs):
    name, o, op, p, sc, lo, hi, toamb = spec
    loc = sc == "local"
    # limits in the unit of the accumulated effect; a local effect of size one means amb
    am = [(1 if loc else int(round(a))) for a in ambs]

    def lim(x, a, up):
        if x is None:
            return 0
        v = (x / a) if loc else x
        # compare integers with a fractional limit: the nearest integer outside
        return int(np.floor(v + 1e-6)) if up else int(np.ceil(v - 1e-3))

    return dict(n=n, name=name, op=op, p=p, dec=-1 if name[:2].lower() == "ws" else 1, haslo=0 if lo is None else 2 if lo == 1e-4 else 1, hashi=int(hi is not None),
                amb=am, lo=[lim(lo, a, False) for a in ambs], hi=[lim(hi, a, True) for a in ambs])


def unit(seed):
    """One superposition object applied to integer contributions."""
    rng = random.Random(f"c12-{seed}")
    spec = make(rng, fm.ModelBook())
    name, o, op, p, sc, lo, hi, toamb = spec
    ti = name[:2].lower() == "ti"
    ns, nt, ntp, nf = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 6)
    var = FV.TI if ti else rng.choice([FV.WS, FV.WS, FV.REWS])
    shp = (ns, nt, ntp)
    one = lo is not None or hi is not None
    amb = np.array([rng.randint(4, 9) for _ in range(ns * nt * ntp)], dtype=float).reshape(shp)
    if sc == "local" and one:
        # local effects meet integer limits in units of the ambient value
        u = float(rng.choice([1, 2, 3]))
        amb[:] = u
        if lo != 1e-4:
            # the ambient value itself may lie beyond a limit
            lo = None if lo is None else u * rng.choice([-2, -1, 0])
            hi = None if hi is None else u * rng.choice([1, 2, 3] if lo == 0 else [0, 0, 1, 2])
            o.lim_low, o.lim_high = lo, hi
        spec = (name, o, op, p, sc, lo, hi, toamb)
    dms = (FC.STATE, FC.TURBINE)
    mk = lambda a, b: np.array([[rng.randint(a, b) for _ in range(nf)] for _ in range(ns)], dtype=float)
    farm = {FV.REWS: mk(1, 4), FV.AMB_REWS: mk(1, 4), FV.X: mk(0, 9), FV.Y: mk(0, 9), FV.H: mk(50, 60)}
    fdata = FData(data=farm, dims={v: dms for v in farm}, loop_dims=[FC.STATE], states_i0=0)
    tdata = TData.from_tpoints(np.zeros(shp + (3,)), np.full(ntp, 1 / ntp))
    n = ns * nt * ntp
    cell = np.arange(1, n + 1).reshape(shp)
    ev = []
    wd = np.zeros(shp)
    tr = dict(id=f"c12-{seed}", cfg=config(spec, n, amb.ravel().tolist()), tags=[name])
    try:
        for k in range(rng.randint(0, nf)):
            sel = np.array([rng.random() < 0.7 for _ in range(ns * nt)]).reshape(ns, nt)
            if ti:
                con = np.array([[rng.randint(0, 3) for _ in range(ntp)] for _ in range(int(sel.sum()))]).reshape(-1, ntp)
            elif op == "prod" or sc == "local":
                con = np.array([[rng.randint(-2, 2) for _ in range(ntp)] for _ in range(int(sel.sum()))]).reshape(-1, ntp)
            else:
                con = np.array([[rng.randint(-3, 2) for _ in range(ntp)] for _ in range(int(sel.sum()))]).reshape(-1, ntp)
            c0 = con.astype(float)
            wd = o.add_wake(Algo(), None, fdata, tdata, k, sel, var, wd, c0)
            ev.append(dict(t="add", ok=1, err="", cells=cell[sel].ravel().tolist(), con=con.ravel().tolist(),
                           scl=np.broadcast_to({"rews": farm[FV.REWS], "amb": farm[FV.AMB_REWS]}.get(sc, np.ones((ns, nf)))[:, k, None, None], shp)[sel].astype(int).ravel().tolist()))
        a0, w0 = amb.copy(), wd.copy()
        fin = np.asarray(o.calc_final_wake_delta(Algo(), None, fdata, var, amb, wd))
        if np.any(a0 != amb):
            raise ValueError("ambient results altered")
        ev.append(finalize(dict(t="final", ok=1, err="", sg=[], pw=[], atlo=[], athi=[]), np.broadcast_to(fin, shp).ravel(), amb.ravel(), spec))
    except Exception as e:
        ev.append(dict(t="final", ok=0, err=f"{type(e).__name__}: {str(e)[:150]}"))
    return [dict(tr, ev=ev)]


class IntWakes(DistSlicedWakeModel):
    """Contributes whole multiples of 1/unit by source and target, logging them."""

    def __init__(self, var, sup, unit, salt, log):
        super().__init__({var: sup})
        self.var, self.unit, self.salt, self.log = var, unit, salt, log

    def new_wake_deltas(self, algo, mdata, fdata, tdata):
        return {self.var: np.zeros_like(tdata[FC.TARGETS][..., 0])}

    def calc_wakes_x_yz(self, algo, mdata, fdata, tdata, downwind_index, x, yz):
        n_s, n_t, n_p = yz.shape[:3]
        T = tdata[FC.TARGETS]
        src = np.round(fdata[FV.TXYH][:, downwind_index, :2]).astype(int)
        i0 = mdata.states_i0(counter=True)
        con = np.zeros((n_s, n_t, n_p))
        for s in range(n_s):
            for t in range(n_t):
                for q in range(n_p):
                    tx, ty = np.round(T[s, t, q, :2]).astype(int)
                    h = (src[s, 0] * 31 + src[s, 1] * 17 + tx * 7 + ty * 3 + self.salt + i0 + s) % 5
                    con[s, t, q] = (h if h <= 3 else 0) if x[s, t] > 1e-3 else 0
        sel = np.any(con != 0, axis=2)
        for s, t in np.argwhere(sel):
            for q in range(n_p):
                k = (int(i0 + s), int(round(T[s, t, q, 0])), int(round(T[s, t, q, 1])))
                self.log.append((k, (int(src[s, 0]), int(src[s, 1])), int(con[s, t, q])))
        return {self.var: (1 if self.var == FV.TI else -1) * con[sel] / self.unit}, sel


def inrun(seed):
    """Integer contributions of a synthetic wake model in a real calculation."""
    rng = random.Random(f"c12r-{seed}")
    mb = fm.ModelBook()
    names = [n for n in sorted(NAMES) if n in mb.wake_superpositions.keys() and not NAMES[n][3] and NAMES[n][2] != "rews"]
    wsn = rng.choice([n for n in names if n.startswith("ws")])
    tin = rng.choice([n for n in names if n.startswith("ti")])
    nt, ns = rng.randint(3, 5), rng.randint(1, 4)
    pts = []
    while len(pts) < nt + 4:
        p = (rng.randint(0, 40) * 100, rng.randint(0, 30) * 100)
        if p not in pts:
            pts.append(p)
    logs = [[], []]
    mb.wake_models["wsw"] = IntWakes(FV.WS, wsn, 20.0, rng.randint(0, 99), logs[0])
    mb.wake_models["tiw"] = IntWakes(FV.TI, tin, 100.0, rng.randint(0, 99), logs[1])
    farm = foxes.WindFarm()
    tt = rng.choice(["NREL5MW", "DTU10MW"])
    for i, p in enumerate(pts[:nt]):
        farm.add_turbine(foxes.Turbine(xy=np.array(p, dtype=float), turbine_models=[tt], name=f"T{i}"), verbosity=0)
    import pandas as pd

    df = pd.DataFrame([dict(ws=float(rng.randint(7, 12)), wd=rng.choice([17.0, 105.0, 254.0, 291.0]), ti=0.05) for _ in range(ns)])
    st = foxes.input.states.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col=dict(WS="ws", WD="wd", TI="ti"), fixed_vars={FV.RHO: 1.225})
    algo_n = rng.choice(["Downwind", "Downwind", "Iterative"])
    out = []
    order = rng.sample(["wsw", "tiw"], 2)
    with zoo.engine("numpy", chunk_size_states=rng.randint(1, 4), chunk_size_points=rng.randint(1, 5), n_procs=1):
        algo = getattr(foxes.algorithms, algo_n)(farm, st, wake_models=order, rotor_model="centre", mbook=mb, verbosity=0,
                                                 partial_wakes=rng.choice(["rotor_points", "centre"]))
        f = algo.calc_farm()
        farm_log = [list(l) for l in logs]
        for l in logs:
            l.clear()
        P = np.zeros((ns, 4, 3))
        P[:, :, :2] = np.array(pts[nt:], dtype=float)
        P[:, :, 2] = 90.0
        g = algo.calc_points(f, P)
    kinds = [("farm", farm_log, f, pts[:nt], FV.REWS, FV.AMB_REWS), ("points", logs, g, pts[nt:], FV.WS, FV.AMB_WS)]
    for kind, lg, ds, cells, rv, av in kinds:
        for log, name, var, amb, unit in ((lg[0], wsn, rv, av, 20.0), (lg[1], tin, FV.TI, FV.AMB_TI, 100.0)):
            op, p, sc, _ = NAMES[name]
            spec = (name, None, op, p, sc, None, None, "quad" if name.startswith("ti") else None)
            cid = {(s,) + c: k + 1 for k, (s, c) in enumerate((s, c) for s in range(ns) for c in cells)}
            A = np.broadcast_to(ds[amb].to_numpy(), (ns, len(cells))).astype(float)
            V = np.broadcast_to(ds[var].to_numpy(), (ns, len(cells))).astype(float)
            # contributions are listed in 1/unit; each source counts once per target, the last evaluation counts
            last = {}
            for k, src, c in log:
                last[(k, src)] = c
            ev = []
            amb_src = {(s, c): A[s, j] for s in range(ns) for j, c in enumerate(pts[:nt])} if kind == "farm" else \
                {(s, c): float(np.broadcast_to(f[FV.AMB_REWS].to_numpy(), (ns, nt))[s, j]) for s in range(ns) for j, c in enumerate(pts[:nt])}
            srcs = sorted({src for _, src in last})
            prodscale = op == "prod"
            if prodscale:
                continue
            for src in srcs:
                sub = [(k, c) for (k, s2), c in sorted(last.items()) if s2 == src]
                ev.append(dict(t="add", ok=1, err="", cells=[cid[k] for k, _ in sub], con=[-c if sc != "none" else c for _, c in sub],
                               scl=[int(round(amb_src[(k[0], src)])) if sc == "amb" else 1 for k, _ in sub]))
            D = (V - A).ravel()
            e = dict(t="final", ok=1, err="", sg=[], pw=[], atlo=[], athi=[])
            pp = p if op == "pow" else 1
            for d, a in zip(D, A.ravel()):
                if sc == "none":
                    t = (d + a) ** 2 - a * a
                    v = unit * np.sign(t) * abs(t) ** 0.5
                    v = 0.0 if abs(v) < 1e-4 else v
                else:
                    v = unit * d / (a if sc == "local" else 1.0)
                s_, q = power(v, pp) if abs(v) > 1e-6 else (0, 0)
                e["sg"].append(s_)
                e["pw"].append(q)
                e["atlo"].append(0)
                e["athi"].append(0)
            ev.append(e)
            cfg = dict(n=len(cid), name=f"{name} ({kind})", op=op, p=p, dec=-1 if sc != "none" else 1, haslo=0, hashi=0,
                       amb=[0] * len(cid), lo=[0] * len(cid), hi=[0] * len(cid))
            out.append(dict(id=f"c12r-{seed}-{kind}-{name}", cfg=cfg, ev=ev, tags=[algo_n, name]))
    return out


def record(job):
    kind, seed = job
    return unit(seed) if kind == "unit" else inrun(seed)


def canary(t, rng):
    e = t["ev"][-1]
    if not e["ok"] or not any(x > 0 for x in e["pw"]) or t["cfg"]["haslo"] or t["cfg"]["hashi"]:
        return None
    k = rng.choice([i for i, x in enumerate(e["pw"]) if x > 0])
    if rng.random() < 0.5:
        e["pw"][k] += 1
    else:
        e["sg"][k] *= -1
    return t


def run(chk):
    T = env.THOROUGH
    from ..tlc import Raw

    for op, p in (("sum", 1), ("pow", 2), ("pow", 3), ("max", 1), ("prod", 1)):
        base = dict(NSrc=4 if T else 3, NPts=2, Vals=Raw("{0, 2, 3, 5}") if T else Raw("{0, 3, 5}"), Op=op, P=p, Bug="")
        chk.mc("Superposition", constants=base, invariants=["OrderFree", "Ambient"])
    for b, inv in (("leak", "Ambient"), ("overwrite", "OrderFree")):
        chk.mc("Superposition", constants=dict(NSrc=2, NPts=2, Vals=Raw("{0, 3, 5}"), Op="sum", P=1, Bug=b), invariants=["OrderFree", "Ambient"], expect=inv)
    jobs = [("unit", chk.seed * 100000 + k) for k in range(env.cases(400, 4000))] + [("run", chk.seed * 100000 + k) for k in range(env.cases(60, 600))]
    batched = [jobs[i::48] for i in range(48)]
    chk.validate("SuperTrace", chk.record(batch, batched, timeout=300), canary=canary)


def batch(jobs):
    out = []
    for j in jobs:
        out += record(j)
    return out
