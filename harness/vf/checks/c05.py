"""C05 repeatability: replays histories of the AlgoLife specification on real algorithms."""

import json
import random

import numpy as np

import foxes
import foxes.variables as FV
from foxes.core import PointDataModel, TurbineModel

from .. import env, zoo
from ..intern import CIRC, Interner, intern_tables
from ..tlc import behaviours

OPEN, SPIED = set(), [0]


class Spied:
    """What user models see of the algorithm while it is running."""

    def look(self, algo):
        SPIED[0] += 1
        for n in ("mbook", "dbook", "idata_mem"):
            try:
                getattr(algo, n)
                OPEN.add(n)
            except ValueError:
                pass
        for n, f in (("get_model_data", lambda: algo.get_model_data(algo.rotor_model)),
                     ("initialize", algo.initialize), ("finalize", algo.finalize),
                     ("states setter", lambda: setattr(algo, "states", algo.states)),
                     ("initialization of the states", lambda: algo.states.initialize(algo)),
                     ("set_running", lambda: algo.states.set_running(algo, {}))):
            try:
                f()
                OPEN.add(n)
            except ValueError:
                pass


class TSpy(TurbineModel, Spied):
    def output_farm_vars(self, algo):
        return []

    def calculate(self, algo, mdata, fdata, st_sel):
        self.look(algo)
        return {}


class PSpy(PointDataModel, Spied):
    def output_point_vars(self, algo):
        return []

    def calculate(self, algo, mdata, fdata, tdata):
        self.look(algo)
        return {}


def scenario(seed):
    rng = random.Random(f"c05-{seed}")
    algo = rng.choice(["Downwind", "Downwind", "Iterative"])
    frames = ["rotor_wd", "rotor_wd", "rotor_wd_farmo", "yawed_k002", "streamlines_100"]
    kinds = ("table", "profile", "abl", "timeseries", "multiheight", "fixed", "field", "onepoint")
    if algo == "Iterative" and rng.random() < 0.4:
        frames, kinds = ["timelines", "dyn_wakes"], ("timeseries",)
    scn = zoo.gen(rng, n_states=rng.randint(2, 4), n_turbines=rng.randint(2, 3), algo=algo, state_kinds=kinds, frames=frames,
                  ind=0.4 if algo == "Iterative" else 0.0, grounds=not frames[0].startswith("tim"), spread=10.0)
    scn["pdict"] = rng.random() < 0.7
    if scn["kind"] == "onepoint":
        scn["frame"] = "rotor_wd"
    if scn["kind"] == "field":
        scn["load_mode"] = rng.choice(["preload", "lazy", "fly"])
        if scn["load_mode"] != "preload":
            scn["frame"] = "rotor_wd"
    rows2 = zoo.gen_rows(rng, len(scn["rows"]) + rng.choice([0, 0, 1]), wd0=scn["rows"][0]["wd"], spread=20.0)
    if any("setyaw" in t["models"] or "sector" in t["models"] for t in scn["turbines"]):
        rows2 = rows2[:len(scn["rows"])]
    return rng, scn, rows2


class Session:
    def __init__(self, scn, rows2):
        self.scn, self.rows2 = scn, rows2
        zoo.INPUTS.clear()
        mb = zoo.mbook(scn)
        mb.turbine_models["spy"] = TSpy()
        scn2 = json.loads(json.dumps(scn))
        for t in scn2["turbines"]:
            t["models"] = t["models"] + ["spy"]
        keep = list(zoo.INPUTS)
        self.algo, self.farm, st, self.mb = zoo.build(scn2, mb=mb, model_rows=scn["rows"])
        zoo.INPUTS.extend(keep)
        self.scn2 = scn2
        self.st = [st, zoo.make_states(scn, rows2)]
        self.cur = 0
        self.farmres = {}
        self.pspy = PSpy()
        self.cpars = zoo.given("calc_parameters", {"basic_ctrl": {}, scn["rotor"]: {}, scn["frame"]: {}})
        self.outs = zoo.given("outputs", [FV.REWS, FV.P, FV.CT, FV.WEIGHT])
        self.pmods = zoo.given("point_models", [self.pspy])

    def set_cur(self, k):
        self.algo.states = self.st[k]
        self.cur = k

    def points(self, f):
        return zoo.given("points", np.repeat(np.array(self.scn["points"])[None], f.sizes["state"], axis=0))

    def run(self, op):
        a = self.algo
        if op in ("farm", "farmkeep", "farmamb", "farmout"):
            kw = dict(calc_parameters=self.cpars)
            if op == "farmkeep":
                kw["finalize"] = False
            if op == "farmamb":
                kw["ambient"] = True
            if op == "farmout":
                kw["outputs"] = self.outs
            r = a.calc_farm(**kw)
            if op in ("farm", "farmkeep"):
                self.farmres[self.cur] = zoo.given("farm results", r)
            return {"farm": "farm", "farmkeep": "farm", "farmamb": "farmamb", "farmout": "farmout"}[op], zoo.observe(r)
        if op in ("points", "pointskeep", "pointsamb"):
            f = self.farmres[self.cur]
            r = a.calc_points(f, self.points(f), point_models=self.pmods, calc_parameters=self.cpars,
                              finalize=op != "pointskeep", ambient=op == "pointsamb")
            return ("pointsamb" if op == "pointsamb" else "points"), zoo.observe(r, "point")
        if op == "finalize":
            a.finalize()
        elif op == "clear":
            a.finalize(clear_mem=True)
        elif op == "inflow":
            self.set_cur(1 - self.cur)
        elif op == "other":
            r = type(a)(self.farm, self.st[self.cur], rotor_model=self.scn["rotor"], wake_models=list(self.scn["wakes"]),
                        wake_frame=self.scn["frame"], partial_wakes=self.scn["partial"], ground_models=self.scn["ground"],
                        mbook=self.mb, verbosity=0).calc_farm()
            return "farm", zoo.observe(r)
        return "", None

    def closed(self):
        bad = []
        for n in ("mbook", "dbook", "idata_mem"):
            try:
                getattr(self.algo, n)
            except Exception:
                bad.append(n)
        if self.algo.running:
            bad.append("algorithm (still running)")
        bad += sorted({"model (still running)" for m in self.algo.sub_models() if m.running})
        return bad


def record(arg):
    seed, hists = arg
    rng, scn, rows2 = scenario(seed)
    raw = []  # per history: list of (event, observation)

    def event(ses, op, fresh_inflow=0):
        OPEN.clear()
        n0 = SPIED[0]
        e = dict(op=op if not fresh_inflow else "fresh", kind="", inflow=fresh_inflow, ok=1, err="", res=0)
        obs = None
        try:
            e["kind"], obs = ses.run(op)
        except Exception as ex:
            e.update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:150]}")
        e.update(open=sorted(OPEN), closed=ses.closed() if e["ok"] else [], mut=zoo.altered(), spied=int(SPIED[0] > n0))
        return e, obs

    fresh = []
    with zoo.engine("single"):
        for k in (0, 1):
            for op, need in (("farm", 0), ("farmamb", 0), ("farmout", 0), ("points", 1), ("pointsamb", 1)):
                sc = dict(scn, rows=rows2) if k else scn
                ses = Session(sc, rows2)
                if k:  # the turbine models are those of the first inflow
                    ses = Session(scn, rows2)
                    ses.st = [None, zoo.make_states(scn, rows2)]
                    ses2 = Session.__new__(Session)
                    ses.algo = type(ses.algo)(ses.farm, ses.st[1], rotor_model=scn["rotor"], wake_models=list(scn["wakes"]),
                                              wake_frame=scn["frame"], partial_wakes=scn["partial"], ground_models=scn["ground"],
                                              mbook=ses.mb, verbosity=0)
                    ses.cur = 1
                if need:
                    ses.run("farm")
                fresh.append(event(ses, op, fresh_inflow=k + 1))
    for h in hists:
        with zoo.engine("single"):
            ses = Session(scn, rows2)
            evs = []
            for op in h:
                evs.append(event(ses, op))
                if not evs[-1][0]["ok"]:
                    break
            raw.append(evs)
    # value classes per kind and shape, one id per whole table
    groups = {}
    for evs in [fresh] + raw:
        for e, o in evs:
            if o is not None:
                t = {v: a for v, a in o[0].items() if v != "order_ssel"}
                groups.setdefault((e["kind"], next(iter(t.values())).shape), []).append((e, t, o))
    ids = {}
    for k, lst in sorted(groups.items()):
        arrs, _ = intern_tables([t for _, t, _ in lst], circ=CIRC, rtol=1e-9, atol=1e-10)
        for (e, t, o), a in zip(lst, arrs):
            e["res"] = ids.setdefault((k, a.tobytes(), tuple(sorted(t)), str(o[1:])), len(ids) + 1)
    f = [e for e, _ in fresh]
    return [dict(id=f"c05-{seed}-{i}-" + "-".join(h), cfg=dict(ninflow=2), ev=f + [e for e, _ in evs], scn=scn, hist=h,
                 tags=[scn["algo"], scn["kind"], scn["frame"]]) for i, (h, evs) in enumerate(zip(hists, raw))]


def canary(t, rng):
    es = [e for e in t["ev"] if e["op"] != "fresh" and e["res"]]
    if not es:
        return None
    k = rng.randrange(3)
    if k == 0:
        es[-1]["res"] += 1000
    elif k == 1:
        es[-1]["mut"] = ["states table"]
    else:
        es[-1]["closed"] = ["mbook"]
    return t


def run(chk):
    base = dict(NInflow=2, MaxLen=5, StaleCache=False, Emit=False)
    chk.mc("AlgoLife", constants=base, invariants=["FromCurrent", "CacheOwner"])
    chk.mc("AlgoLife", constants=dict(base, MaxLen=4, StaleCache=True), invariants=["FromCurrent"], expect="FromCurrent")
    n = env.cases(40, 300)
    hists, r = behaviours("AlgoLife", dict(base, Emit=True, MaxLen=5))
    chk.states += r["distinct"]
    hists = [h for h in hists if any(o in h[1:] for o in ("farm", "farmkeep", "points", "farmamb", "pointsamb", "farmout", "pointskeep"))]
    chk.notes["histories_of_the_specification"] = len(hists)
    chk.notes["histories_replayed"] = n * 5
    jobs = [(chk.seed * 1000 + k, chk.rng.sample(hists, 5)) for k in range(n)]
    traces = chk.record(record, jobs, timeout=200)
    chk.validate("AlgoTrace", traces, canary=canary)
