"""C07 wakes propagate causally: each upstream turbine counts once, fully evaluated."""

import contextlib
import io
import random

import numpy as np
import pandas as pd

import foxes
import foxes.constants as FC
import foxes.models as fm
import foxes.variables as FV
from foxes.core import States, TurbineModel, WakeSuperposition
from foxes.models.wake_models.dist_sliced import DistSlicedWakeModel

from .. import env, zoo

BAD = -1000001
AMB = [3, 1, 10]  # TI, RHO, WS
VARS = [FV.TI, FV.RHO, FV.WS]
WINDS = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (3, 4), (-4, 3), (5, -12), (2, -1), (-3, -1)]


class Flat(States):
    def __init__(self, winds):
        super().__init__()
        w = np.array(winds, dtype=float)
        self.wd = np.mod(180 + np.rad2deg(np.arctan2(w[:, 0], w[:, 1])), 360.0)

    def size(self):
        return len(self.wd)

    def output_point_vars(self, algo):
        return [FV.WS, FV.WD, FV.TI, FV.RHO]

    def calculate(self, algo, mdata, fdata, tdata):
        i0 = mdata.states_i0(counter=True)
        shp = (tdata.n_states, tdata.n_targets, tdata.n_tpoints)
        for v, x in zip(VARS, AMB):
            tdata[v] = np.full(shp, float(x))
        tdata[FV.WD] = np.zeros(shp)
        tdata[FV.WD][:] = self.wd[i0:i0 + mdata.n_states, None, None]
        tdata.add(FV.WEIGHT, np.full((mdata.n_states, 1, 1), 1.0 / self.size()), (FC.STATE, FC.TARGET, FC.TPOINT))
        return {v: tdata[v] for v in self.output_point_vars(algo)}


class Combine(WakeSuperposition):
    """Sum or maximum of whatever arrives."""

    def __init__(self, how):
        super().__init__()
        self.how = how

    def input_farm_vars(self, algo):
        return []

    def add_wake(self, algo, mdata, fdata, tdata, downwind_index, st_sel, variable, wake_delta, wake_model_result):
        if self.how == "sum":
            wake_delta[st_sel] += wake_model_result
        else:
            wake_delta[st_sel] = np.maximum(wake_delta[st_sel], wake_model_result)
        return wake_delta

    def calc_final_wake_delta(self, algo, mdata, fdata, variable, amb_results, wake_delta):
        # the same value, as long as the ambient results are what they should be
        amb = np.asarray(amb_results, dtype=float)
        while amb.ndim < np.ndim(wake_delta):
            amb = amb[..., None]
        return wake_delta + 7.0 * (amb - AMB[VARS.index(variable)])


class Probe(DistSlicedWakeModel):
    def __init__(self, kind, var, dirn, step):
        super().__init__({var: "combine_sum" if kind == "count" else "combine_max"})
        self.kind, self.pvar, self.dirn, self.step = kind, var, dirn, step

    @property
    def affects_downwind(self):
        return self.dirn > 0

    def new_wake_deltas(self, algo, mdata, fdata, tdata):
        return {self.pvar: np.zeros_like(tdata[FC.TARGETS][..., 0])}

    def calc_wakes_x_yz(self, algo, mdata, fdata, tdata, downwind_index, x, yz):
        sel = x * self.dirn > 1e-3
        if self.kind == "count":
            d = self.step * 4.0 ** fdata["NR"][:, downwind_index]
        else:
            d = fdata["OP"][:, downwind_index] + self.step
        d = np.broadcast_to(d[:, None, None], yz.shape[:3])
        return {self.pvar: d[sel].copy()}, sel


class Operate(TurbineModel):
    """The operating point: follows the turbulence found by the rotor."""

    def output_farm_vars(self, algo):
        return ["OP", "NR"]

    def calculate(self, algo, mdata, fdata, st_sel):
        self.ensure_variables(algo, mdata, fdata)
        fdata["OP"][st_sel] = fdata[FV.TI][st_sel]
        fdata["NR"][st_sel] = fdata[FV.ORDER][st_sel]
        return {v: fdata[v] for v in self.output_farm_vars(algo)}


def iround(x):
    x = float(x)
    return int(round(x)) if np.isfinite(x) and abs(x - round(x)) < 1e-4 and abs(x) < 2e9 else BAD


def scenario(seed):
    rng = random.Random(f"c07-{seed}")
    n = rng.choice([1, 2, 2, 3, 4, 5, 6, 7])
    ns = rng.randint(1, 5)
    grid = rng.choice([2, 3, 6, 12])
    cells = [(x, y) for x in range(-grid, grid + 1) for y in range(-grid, grid + 1)]
    pos = [list(c) for c in rng.sample(cells, n)]
    winds = [rng.choice(WINDS) for _ in range(ns)]
    algo = rng.choice(["Downwind", "Downwind", "Iterative"])
    mix = rng.random() < (0.1 if algo == "Downwind" else 0.4)
    d0 = rng.choice([1, 1, 1, -1])
    mb = fm.ModelBook()
    mb.wake_superpositions["combine_sum"] = Combine("sum")
    mb.wake_superpositions["combine_max"] = Combine("max")
    mb.turbine_models["operate"] = Operate()
    mb.turbine_types["ty"] = fm.turbine_types.PCtFile(pd.DataFrame(dict(ws=[0.0, 1e6], P=[5.0, 5.0], ct=[0.8, 0.8])), col_ws="ws", col_P="P", col_ct="ct",
                                                      D=100.0, H=100.0, p_ct=None, p_P=None)
    ms, names, ground, partial = [], [], {}, {}
    nm = rng.randint(1, 4)
    chains = 0
    for k in range(nm):
        kind = rng.choice(["count", "chain"])
        if kind == "chain" and (chains >= 2 or (chains and n > 5)):
            kind = "count"
        chains += kind == "chain"
        dirn = d0 if not mix or kind == "chain" else rng.choice([1, -1])
        if mix and k == nm - 1 and kind == "count":
            dirn = -d0
        var = FV.TI if kind == "chain" else rng.choice([FV.RHO, FV.WS])
        m = dict(kind=kind, var=var, dir=dirn, step=rng.randint(1, 3), mult=1)
        mb.wake_models[f"probe{k}"] = Probe(kind, var, dirn, m["step"])
        names.append(f"probe{k}")
        g = rng.choice(["no_ground", "no_ground", "ground_mirror", "two"])
        if g == "two":
            mb.ground_models["two"] = fm.ground_models.WakeMirror(heights=[0.0, 600.0])
        ground[f"probe{k}"] = g
        m["mult"] = {"no_ground": 1, "ground_mirror": 2, "two": 3}[g]
        partial[f"probe{k}"] = rng.choice(["centre", "centre", "rotor_points", "grid4"])
        ms.append(m)
    rotor = rng.choice(["centre", "centre", "grid4"])
    models = rng.choice([["ty", "operate"], ["operate", "ty"]])
    f = foxes.WindFarm()
    for p in pos:
        f.add_turbine(foxes.Turbine(xy=np.array(p, dtype=float) * 100, turbine_models=models), verbosity=0)
    a = getattr(foxes.algorithms, algo)(f, Flat(winds), names, rotor_model=rotor, partial_wakes=partial, ground_models=ground, mbook=mb, verbosity=0)
    eng = rng.choice(["single", "numpy", "numpy", "threads"])
    ev = []
    pts = [[rng.choice([rng.randint(-2 * grid, 2 * grid), rng.choice(pos)[0]]), rng.choice([rng.randint(-2 * grid, 2 * grid), rng.choice(pos)[1]])] for _ in range(rng.randint(1, 6))]
    stage = "farm"
    try:
        with contextlib.redirect_stdout(io.StringIO()), zoo.engine(eng, chunk_size_states=rng.randint(1, ns), chunk_size_points=rng.randint(1, 4), n_procs=2):
            r = a.calc_farm(finalize=False)
            for s in range(ns):
                ev.append(dict(t="farm", s=s + 1, val=[[iround(x) for x in r[v].to_numpy()[s]] for v in (FV.TI, FV.RHO, FV.REWS)],
                               amb=[[iround(x) for x in r[v].to_numpy()[s]] for v in (FV.AMB_TI, FV.AMB_RHO, FV.AMB_REWS)]))
            if rng.random() < 0.7:
                stage = "points"
                P = np.zeros((ns, len(pts), 3))
                P[:, :, :2] = np.array(pts) * 100.0
                P[:, :, 2] = rng.choice([100.0, 50.0])
                q = a.calc_points(r, P)
                for s in range(ns):
                    ev.append(dict(t="points", s=s + 1, pts=pts, val=[[iround(x) for x in q[v].to_numpy()[s]] for v in VARS]))
    except Exception as x:
        ev.append(dict(t="failed", stage=stage, err=f"{type(x).__name__}: {str(x)[:100]}"))
    return dict(id=f"c07-{seed}", cfg=dict(pos=pos, wind=[list(w) for w in winds], models=ms, iterative=int(algo == "Iterative"), amb=AMB), ev=ev, tags=[algo],
                scn=dict(rotor=rotor, partial=list(partial.values()), ground=list(ground.values()), engine=eng))


def record(seeds):
    return [scenario(s) for s in seeds]


def canary(t, rng):
    e = rng.choice(t["ev"])
    if e["t"] == "failed":
        return None
    v = rng.randrange(3)
    k = rng.randrange(len(e["val"][v]))
    e["val"][v][k] += rng.choice([1, 4, -1])
    return t


def run(chk):
    T = env.THOROUGH
    base = dict(N=3, MaxX=2, Bug="")
    inv = ["SinglePassRight", "SameFixedPoint", "SettlesSoon"]
    chk.mc("WakeSweep", constants=dict(base, N=4, MaxX=3) if T else base, invariants=inv, properties=["Settles"])
    for b in ("next", "self", "stale"):
        chk.mc("WakeSweep", constants=dict(base, Bug=b), invariants=inv, expect="SinglePassRight")
    n = env.cases(1200, 12000)
    jobs = [chk.seed * 100000 + k for k in range(n)]
    chk.validate("CausalTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=600), canary=canary)
    chk.assumptions += ["wind directions are uniform over the farm in each state; wake models of one single-pass calculation are processed in the order in which they are listed"]
