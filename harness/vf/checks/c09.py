"""C09 iterative algorithm: scripted histories of the IterRun specification and comparison with the single pass."""

import random
import re

import numpy as np

import foxes
import foxes.constants as FC
import foxes.variables as FV
from foxes.algorithms.iterative.models import ConvCritList, ConvVarDelta
from foxes.core import TurbineModel

from .. import env, zoo
from ..intern import CIRC, intern_tables
from ..tlc import behaviours

LIN, ANG = "LIN", "ANG"


class Script(TurbineModel):
    """Writes scripted values of each pass, different per state and turbine, and blocks convergence as asked for."""

    def __init__(self, script, n_s, n_t, spread, block_at):
        super().__init__()
        self.script, self.n_s, self.n_t, self.spread, self.block_at = script, n_s, n_t, spread, block_at

    def output_farm_vars(self, algo):
        return [LIN, ANG]

    def value(self, it):
        """[var][state][farm index]; the scripted step takes place at one state and turbine only."""
        x = self.script[min(it, len(self.script) - 1)][0]
        s, t = np.meshgrid(np.arange(self.n_s), np.arange(self.n_t), indexing="ij")
        hit = ((s + t) % self.spread) == 0
        base = 5.0 * s + 0.7 * t
        lin = base + np.where(hit, 1.0 * x, 0.0)
        ang = np.mod(base + np.where(hit, 90.0 * x, 0.0) - 0.05, 360.0)
        return lin, ang

    def calculate(self, algo, mdata, fdata, st_sel):
        self.ensure_variables(algo, mdata, fdata)
        it = algo.iterations
        i0 = fdata.states_i0(counter=True)
        o = fdata[FV.ORDER].astype(int)
        for v, d in zip((LIN, ANG), self.value(it)):
            fdata[v][:] = np.take_along_axis(d[i0:i0 + fdata.n_states], o, axis=1)
        if self.script[min(it, len(self.script) - 1)][1] and i0 <= self.block_at < i0 + fdata.n_states:
            algo.block_convergence(mdata=mdata)
        return {v: fdata[v] for v in (LIN, ANG)}


def watch(engine, log):
    """Records the results of every run of the engine."""
    run = engine.run_calculation

    def run_calculation(algo, model, model_data, farm_data=None, point_data=None, **kw):
        r = run(algo, model, model_data, farm_data, point_data, **kw)
        if point_data is None:
            log.append((algo.iterations, bool(algo.final_iteration), {v: np.array(r[v].to_numpy(), dtype=float) for v in r.data_vars
                                                                     if r[v].dims == (FC.STATE, FC.TURBINE) and r[v].dtype.kind in "fiu"}))
        return r

    engine.run_calculation = run_calculation


def scaled(tab, vs, scale):
    out = []
    for v in vs:
        a = tab[v]
        if v in CIRC or v == ANG:
            a = np.mod(a, 360.0)
        out.append(np.round(a * scale[v]).astype(int).tolist())
    return out


def engine_of(rng):
    return rng.choice([("single", {}), ("single", {}), ("numpy", dict(chunk_size_states=2, n_procs=2)), ("numpy", dict(chunk_size_states=1, n_procs=2)),
                       ("threads", dict(chunk_size_states=1, n_procs=3))])


def scripted(arg):
    """Replays scripts of the specification: no wakes, values come from the script."""
    seed, scripts = arg
    rng = random.Random(f"c09s-{seed}")
    out = []
    for k, script in enumerate(scripts):
        ns, nt = rng.randint(1, 4), rng.randint(1, 3)
        scn = zoo.gen(rng, n_states=ns, n_turbines=nt, algo="Iterative", frames=("rotor_wd", "rotor_wd_farmo"), tmodels=False, variety=False, ti=0.0, grounds=False)
        if nt == 1:
            scn["turbines"] = scn["turbines"][:1]
        for t in scn["turbines"]:
            t["models"] = ["script"]
        which = rng.choice(["angle", "linear", "both", "none"])
        lim = rng.choice([0.5, 1.0 + 1e-3, 1.5])
        mk = dict(angle=[{ANG: lim * 90}], linear=[{LIN: lim}], both=[{LIN: lim}, {ANG: rng.choice([0.5, 1.0 + 1e-3, 1.5]) * 90}], none=None)[which]
        if mk:
            rng.shuffle(mk)
        crits = []
        if mk is None:
            cc = None
        elif rng.random() < 0.5:
            cc = ConvCritList()
            for m in mk:
                cc.add_crit(ConvVarDelta(m, wd_vars=[ANG]))
        else:
            cc = ConvVarDelta({v: x for m in mk for v, x in m.items()}, wd_vars=[ANG, FV.WD])
        scale = {LIN: 10000, ANG: 10000}
        for m in mk or []:
            for v, x in m.items():
                crits.append(dict(v=1 if v == LIN else 2, lim=int(round(x * 10000)), full=0 if v == LIN else 3600000))
        maxit = rng.choice([len(script) - 1, len(script), len(script) + 2, 0, 1])
        rel = rng.choice([None, None, ("last", 1), ("pre_wake", 2), ("last", 3)])
        if rel is not None:
            rel = (rel[0], {LIN: rel[1] / 4})
        outputs = rng.choice([None, [LIN, ANG, FV.ORDER], [FV.ORDER, FV.REWS, LIN, ANG, FV.X]])
        ename, ekw = engine_of(rng)
        model = Script(script, ns, nt, rng.choice([1, 2, 3]), rng.randrange(ns))
        log, evs = [], []
        cfg = dict(maxit=maxit, crits=crits or [dict(v=1, lim=0, full=0)], auto=int(mk is not None), slack=2, names=[f"T{i}" for i in range(nt)],
                   rel=[0 if rel is None else int(4 * rel[1][LIN]), 0])
        err = ""
        try:
            with zoo.engine(ename, **ekw) as eng:
                watch(eng, log)
                mb = zoo.mbook(scn)
                mb.turbine_models["script"] = model
                algo = zoo.build(scn, mb=mb, wakes=[] if rng.random() < 0.7 else None, max_it=maxit, conv_crit=cc)[0]
                if rel is not None:
                    algo.set_urelax(rel[0], **rel[1])
                res = algo.calc_farm(outputs=outputs)
        except Exception as ex:
            err = f"{type(ex).__name__}: {str(ex)[:150]}"
        order = None
        for it, fin, tab in log:
            o = tab[FV.ORDER].astype(int) if FV.ORDER in tab and not fin else order
            e = dict(op="pass", ok=1, err="", it=int(it), final=int(fin), blocked=int(bool(script[min(it, len(script) - 1)][1])), vals=[], raw=[])
            if not fin:
                order = o
                e["vals"] = scaled(tab, (LIN, ANG), scale)
                raw = dict(zip((LIN, ANG), (np.take_along_axis(d, o, axis=1) for d in model.value(it))))
                e["raw"] = scaled(raw, (LIN, ANG), scale)
            evs.append(e)
        e = dict(op="result", ok=int(not err), err=err, vals=[], order=[], names=[])
        if not err:
            t, _, names = zoo.observe(res)
            e.update(vals=scaled(t, (LIN, ANG), scale), order=order.tolist(), names=names)
        evs.append(e)
        out.append(dict(id=f"c09s-{seed}-{k}", cfg=cfg, ev=evs, scn=scn, script=script, tags=["scripted", which]))
    return out


VS = [FV.REWS, FV.TI, FV.CT, FV.P, FV.WD]
SC = {FV.REWS: 1e6, FV.TI: 1e7, FV.CT: 1e7, FV.P: 1e3, FV.WD: 1e5}


def late_ti(scn):
    """Wakes that depend on the turbulence at the rotor, listed before those that change it."""
    ti = [w for w in scn["wakes"] if "IECTI" in w or "Crespo" in w]
    dep = any(re.search(r"_ka\d", w) for w in scn["wakes"]) or any("kTI" in m for t in scn["turbines"] for m in t["models"])
    early = [w for w in scn["wakes"][: scn["wakes"].index(ti[-1])] if w not in ti] if ti else []
    return ["ti-listed-late"] if dep and early else []


def wakes(seed):
    """Iterative against single-pass calculations, and the stopping rule on real results."""
    rng = random.Random(f"c09w-{seed}")
    scn = zoo.gen(rng, n_states=rng.randint(1, 4), n_turbines=rng.randint(1, 5), algo="Iterative",
                  state_kinds=("table", "timeseries", "profile", "abl", "multiheight", "fixed", "field"),
                  frames=("rotor_wd", "rotor_wd", "rotor_wd_farmo", "yawed_k002", "streamlines_100"), ind=0.0)
    ns, nt = len(scn["rows"]), len(scn["turbines"])
    evs, log = [], []
    style = rng.choice(["default", "default", "coarse", "limit"])
    ep = rng.choice([None, None, None, "last", "pre_wake", "first", "pre_rotor", "post_rotor"])
    uv = rng.choice([{FV.CT: 0.5}, {FV.REWS: 0.25}, {FV.REWS: 0.5, FV.TI: 0.25}])
    crits, kw, auto = [], {}, 1
    if style == "default":
        crits = [dict(v=1, lim=1, full=0), dict(v=2, lim=1, full=0), dict(v=3, lim=1, full=0)]
        kw = dict(max_it=80) if ep else {}
    elif style == "coarse":
        kw["conv_crit"] = ConvVarDelta({FV.REWS: 0.2, FV.P: 40.0, FV.WD: 0.3})
        crits = [dict(v=1, lim=200000, full=0), dict(v=4, lim=40000, full=0), dict(v=5, lim=30000, full=36000000)]
    else:
        kw = dict(conv_crit=None, max_it=rng.randint(0, 3))
        crits, auto = [dict(v=1, lim=0, full=0)], 0
    # turbines treated in the order of the list: a single pass is not complete
    full = style == "default" and scn["frame"] != "rotor_wd_farmo"
    maxit = kw.get("max_it", 2 + nt**2)
    cfg = dict(maxit=maxit, crits=crits, auto=auto, slack=2, names=[f"T{i}" for i in range(nt)], rel=[0] * 5)
    outs = VS + [FV.X, FV.Y, FV.H, FV.D, FV.YAW, FV.AMB_REWS, FV.AMB_WD, FV.AMB_TI, FV.AMB_P, FV.AMB_CT, FV.ORDER, "TPOS"]
    outs = rng.choice([None, outs, outs[::-1]])
    ename, ekw = engine_of(rng)
    err = ""
    try:
        with zoo.engine(ename, **ekw) as eng:
            watch(eng, log)
            algo = zoo.build(scn, **kw)[0]
            if ep:
                algo.set_urelax(ep, **uv)
            ret = rng.random() < 0.3
            res = algo.calc_farm(outputs=outs, ret_dwnd_order=ret)
            if ret:
                res, dw = res
    except Exception as ex:
        err = f"{type(ex).__name__}: {str(ex)[:150]}"
    order = None
    for it, fin, tab in log:
        e = dict(op="pass", ok=1, err="", it=int(it), final=int(fin), blocked=0, vals=[], raw=[])
        if not fin:
            order = tab[FV.ORDER].astype(int)
            e["vals"] = scaled(tab, VS, SC)
        evs.append(e)
    e = dict(op="result", ok=int(not err), err=err, vals=[], order=[], names=[])
    if not err:
        t, _, names = zoo.observe(res)
        e.update(vals=scaled(t, VS, SC), order=order.tolist(), names=names)
    evs.append(e)
    if not err and full:
        with zoo.engine("single"):
            d = zoo.table(zoo.build(scn, algo="Downwind")[0].calc_farm(outputs=None))
        keep = [v for v in t if v in d and v not in ("order_ssel", FV.ORDER, FV.ORDER_INV, "SPOS")]
        # quantities are compared on their natural scales, below the limits of convergence
        nat = {FV.P: 1e4, FV.AMB_P: 1e4, FV.REWS: 10.0, FV.REWS2: 10.0, FV.REWS3: 10.0}
        # where the wind veers over the rotor, a single pass evaluates wakes with the yaw of the undisturbed flow
        tol = 1e-3 if scn["kind"] == "multiheight" else 1e-5
        arrs, _ = intern_tables([{v: x[v] / nat.get(v, 1.0) for v in keep} for x in (t, d)], circ=CIRC, rtol=tol, atol=3 * tol)
        evs.append(dict(op="compare", ok=1, err="", ids=arrs[1].tolist(), mine=arrs[0].tolist(), low=[int(x.min() < 5.0) for x in d[FV.REWS]]))
    return [dict(id=f"c09w-{seed}", cfg=cfg, ev=evs, scn=scn, tags=[style, scn["kind"], scn["frame"], f"relax-{ep}"] + late_ti(scn))]


def canary(t, rng):
    es = [e for e in t["ev"] if e["op"] == "result" and e["ok"]]
    if not es:
        return None
    k = rng.randrange(3)
    if k == 0:
        es[0]["vals"][0][0][0] += 50
    elif k == 1:
        t["ev"] = t["ev"][:1] + t["ev"]
    else:
        es[0]["names"] = es[0]["names"][::-1] + ["T9"]
    return t


def run(chk):
    base = dict(MaxIt=3, Circle=4, Lim=1, Bug="none", Emit=False)
    inv = ["StopsRight", "StopsFirst", "Limited"]
    chk.mc("IterRun", constants=base, invariants=inv, properties=["Terminates"])
    for b, x in (("flat", "StopsFirst"), ("first", "StopsRight"), ("block", "StopsRight"), ("sticky", "StopsFirst"), ("limit", "Limited")):
        chk.mc("IterRun", constants=dict(base, Bug=b), invariants=[x], expect=x)
    hs, r = behaviours("IterRun", dict(base, MaxIt=3, Emit=True))
    chk.states += r["distinct"]
    chk.notes["histories_of_the_specification"] = len(hs)
    n = env.cases(400, 4000)
    pickd = chk.rng.sample(hs, min(n, len(hs)))
    jobs = [(chk.seed * 1000 + k, pickd[k::40]) for k in range(40)]
    traces = chk.record(scripted, jobs, timeout=300)
    chk.notes["histories_replayed"] = len(traces)
    chk.validate("IterTrace", traces, canary=canary)
    traces = chk.record(wakes, [chk.seed * 1000 + k for k in range(env.cases(120, 1000))], timeout=200)
    chk.validate("IterTrace", traces, canary=canary)
