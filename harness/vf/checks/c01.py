"""C01 farm results do not depend on engine, workers, chunking, schedule."""

import json
import pickle
import random

import numpy as np

from .. import env, zoo
from ..intern import CIRC, intern_tables

# order_ssel is an index relative to the chunk, used inside a chunk only
SKIP = ("SPOS", "TPOS", "order_ssel")
FAST = ["numpy", "threads", "process", "dask", "multiprocess", "default", "adversarial", "single"]
SLOW = ["xarray", "local_cluster"]


def make_engine(name, seed, kw):
    import foxes

    if name != "adversarial":
        return name
    rng = random.Random(seed)

    class Adversarial(foxes.engines.PoolEngine):
        """Chunks finish in an arbitrary order, on isolated or on shared objects."""

        def _create_pool(self):
            self.jobs = []
            self.iso = rng.random() < 0.6

        def _submit(self, f, *args, **kwargs):
            h = dict(done=False, job=(f, args, kwargs))
            if self.iso:
                import dill

                h["job"] = dill.dumps((f, args, kwargs))
            self.jobs.append(h)
            return h

        def _result(self, h):
            while not h["done"]:
                todo = [j for j in self.jobs if not j["done"]]
                j = todo[rng.randrange(len(todo))]
                if self.iso:
                    import dill

                    f, a, k = dill.loads(j["job"])
                else:
                    f, a, k = j["job"]
                j["res"] = f(*a, **k)
                j["done"] = True
                j["job"] = None
            return h["res"]

        def _shutdown_pool(self):
            self.jobs = []

    return Adversarial(verbosity=0, **kw)


def slow(x, k=1):
    import time

    time.sleep(0.002 * ((x * 7) % 5))
    return x * k


def scenario(seed, style):
    rng = random.Random(f"c01-{seed}-{style}")
    if style == "timelines":
        scn = zoo.gen(rng, n_states=rng.randint(4, 9), state_kinds=("timeseries",), frames=("timelines", "timelines_10min"),
                      algo="Iterative", grounds=False, spread=rng.choice([5.0, 60.0]))
    elif style == "dyn":
        scn = zoo.gen(rng, n_states=rng.randint(4, 8), state_kinds=("timeseries",), frames=("dyn_wakes_5km", "dyn_wakes"),
                      algo="Iterative", grounds=False, spread=5.0, n_turbines=rng.randint(2, 4))
    elif style == "onepoint":
        scn = zoo.gen(rng, n_states=rng.randint(3, 8), state_kinds=("onepoint",), frames=("rotor_wd",),
                      algo=zoo.pick(rng, ["Downwind", "Iterative"]), spread=rng.choice([5.0, 60.0]))
    elif style == "many":
        scn = zoo.gen(rng, n_states=rng.randint(10, 40), n_turbines=2, state_kinds=("table",), frames=("rotor_wd",))
    elif style == "large":
        # the default engine switches to its parallel mode
        scn = zoo.gen(rng, n_states=rng.randint(90, 120), n_turbines=rng.randint(38, 42), state_kinds=("table",), frames=("rotor_wd",),
                      rotors=("centre",), variety=False)
    else:
        iter_ = rng.random() < 0.4
        scn = zoo.gen(rng, geo=0.2, n_states=rng.randint(2, 9), algo="Iterative" if iter_ else "Downwind", ind=0.5 if iter_ else 0.0,
                      state_kinds=("table", "table", "timeseries", "profile", "abl", "multiheight", "field", "fixed"),
                      frames=("rotor_wd", "rotor_wd", "rotor_wd_farmo", "yawed_k002", "streamlines_100"))
        if scn["kind"] == "field":
            scn["load_mode"] = zoo.pick(rng, ["preload", "preload", "lazy", "fly"])
            if scn["load_mode"] != "preload":
                scn["frame"] = "rotor_wd"
                # dask's thread pool does not survive the forks of process pools
                import dask
                import os

                os.environ["DASK_SCHEDULER"] = "synchronous"
                dask.config.refresh()
    return rng, scn


def record(arg):
    seed, style, engines = arg
    rng, scn = scenario(seed, style)
    ns, nt = len(scn["rows"]), len(scn["turbines"])
    names_l = None if rng.random() < 0.5 or scn["kind"] in ("timeseries", "field", "onepoint") else [f"s{(7 * i) % ns}_{i}" for i in range(ns)]
    per_state = rng.random() < 0.5
    runs = []
    todo = [("single", {})]
    for e in engines:
        kw = {}
        if e not in ("single",):
            kw["n_procs"] = rng.randint(1, 4)
            kw["chunk_size_states"] = zoo.pick(rng, [None, 1, 2, 3, 4, ns, ns + 2])
            kw["chunk_size_points"] = zoo.pick(rng, [None, 1, 2, 3, 5, 50])
            if e == "threads":
                kw["n_procs"] = 4
            if e in SLOW:
                kw["n_procs"] = 2
        todo.append((e, kw))
    for n, (e, kw) in enumerate(todo):
        out = dict(eng=f"{e} {json.dumps(kw)}")
        try:
            with zoo.engine(make_engine(e, f"{seed}{n}", kw), **({} if e == "adversarial" else kw)) as eng:
                algo, farm, st, mb = zoo.build(scn, labels=names_l)
                f = algo.calc_farm()
                out["farm"] = zoo.observe(f)
                if style != "large":
                    p = algo.calc_points(f, zoo.point_array(scn, ns, per_state))
                    out["points"] = zoo.observe(p, "point")
                    # some points again, on their own
                if n % 3 == 1 and rng.random() < 0.4:
                    out["map"] = [int(x) for x in eng.map(slow, list(range(1, 8)), k=1)]
        except Exception as ex:  # refused by the specification
            out["err"] = f"{type(ex).__name__}: {str(ex)[:150]}"
        runs.append(out)
    # results of runs that do the same arithmetic differ by rounding only
    rtol = 1e-4 if style in ("dyn",) else 1e-7
    ev = []
    tabs, keys = [], []
    for r in runs:
        for kind in ("farm", "points"):
            if kind in r:
                tabs.append((kind, r[kind][0]))
    ids = {}
    for kind in ("farm", "points"):
        sub = [t for k, t in tabs if k == kind]
        if sub:
            arrs, vs = intern_tables([{v: a for v, a in t.items() if v not in SKIP} for t in sub], circ=CIRC, rtol=rtol)
            ids[kind] = iter(zip(arrs, [",".join(sorted(t)) for t in sub]))
    r0 = runs[0].get("farm")
    cfg = dict(ns=ns, labels=[str(x) for x in zoo.state_labels(scn, names_l)], names=[f"T{k}" for k in range(nt)])
    for r in runs:
        if "err" in r:
            ev.append(dict(op="run", kind="farm", eng=r["eng"], ok=0, err=r["err"]))
        for kind in ("farm", "points"):
            if kind not in r:
                continue
            t, labels, names = r[kind]
            a, vs = next(ids[kind])
            e = dict(op="run", kind=kind, eng=r["eng"], ok=1, err="", ns=int(a.shape[0]), nc=nt if kind == "farm" else len(scn["points"]),
                     labels=labels, names=names, vars=vs, cells=a.tolist(), spos=[], tpos=[])
            if kind == "farm":
                for v, k in (("SPOS", "spos"), ("TPOS", "tpos")):
                    e[k] = [[int(x) if np.isfinite(x) else -1 for x in row] for row in t[v]] if v in t else [[-1]]
            ev.append(e)
        if "map" in r:
            ev.append(dict(op="map", n=7, eng=r["eng"], ok=1, err="", out=r["map"]))
    tags = [style, scn["kind"]]
    return [dict(id=f"c01-{style}-{seed}", cfg=cfg, ev=ev, tags=tags, scn=scn)]


def record_chunks(arg):
    import foxes
    from foxes.core import Engine

    seed, n = arg
    rng = random.Random(f"chunks{seed}")
    ev = []
    for _ in range(n):
        big = rng.random() < 0.15
        ns, nt = rng.randint(1, 400 if big else 30), rng.choice([0, 1, rng.randint(1, 300 if big else 30)])
        e = Engine.new("threads", n_procs=rng.choice([1, 2, 3, 5, 8, 13]), verbosity=0,
                       chunk_size_states=rng.choice([None, 1, 2, 3, 4, 7, 10, 33]),
                       chunk_size_points=rng.choice([None, 1, 2, 3, 4, 7, 10, 50]))
        s, t = e.calc_chunk_sizes(ns, nt)
        ev.append(dict(op="chunks", ns=ns, nt=nt, sizes_s=[int(x) for x in s], sizes_t=[int(x) for x in t]))
    ev.append(dict(op="map", n=3, eng="-", ok=1, err="", out=[1, 2, 3]))
    return [dict(id=f"c01-chunks-{seed}", cfg=dict(ns=0, labels=[], names=[]), ev=ev)]


def record_map(arg):
    """engine.map keeps order and completeness for every engine."""
    name, seed = arg
    rng = random.Random(f"map{seed}")
    ev = []
    for n in (0, 1, 2, 3, 5, 8, 13):
        kw = dict(n_procs=rng.choice([1, 2, 3, 4])) if name != "single" else {}
        try:
            with zoo.engine(make_engine(name, seed + n, kw), **({} if name == "adversarial" else kw)) as eng:
                out = [int(x) for x in eng.map(slow, list(range(1, n + 1)), k=1)]
            ev.append(dict(op="map", n=n, eng=f"{name} {kw}", ok=1, err="", out=out))
        except Exception as ex:
            ev.append(dict(op="map", n=n, eng=f"{name} {kw}", ok=0, err=str(ex)[:150], out=[]))
    return [dict(id=f"c01-map-{name}-{seed}", cfg=dict(ns=0, labels=[], names=[]), ev=ev)]


def canary(t, rng):
    runs = [e for e in t["ev"] if e["op"] == "run" and e["ok"] and e["kind"] == "farm"]
    if len(runs) < 2:
        return None
    e = runs[-1]
    r = rng.randrange(len(e["cells"]))
    if rng.random() < 0.5 or len(e["cells"]) < 2:
        e["cells"][r][0] += 1
    else:
        k = (r + 1) % len(e["cells"])
        e["labels"][r], e["labels"][k] = e["labels"][k], e["labels"][r]
    return t


def run(chk):
    T = env.THOROUGH
    chk.mc("EngineRun", constants=dict(NStates=4, NTargets=0, Procs=2, SizeS=1, SizeT=0, Workers=3, Shared=False, Iterative=True),
           invariants=["StoreIntact", "ResultRight", "EachOnce"], properties=[])
    chk.mc("EngineRun", constants=dict(NStates=3, NTargets=2, Procs=2, SizeS=2, SizeT=1, Workers=2, Shared=False, Iterative=False),
           invariants=["StoreIntact", "ResultRight", "EachOnce"], properties=["Terminates"])
    chk.mc("EngineRun", expect="StoreIntact", constants=dict(NStates=3, NTargets=0, Procs=3, SizeS=1, SizeT=0, Workers=2, Shared=True, Iterative=True),
           invariants=["StoreIntact", "ResultRight"])
    rng = chk.rng
    jobs = []
    styles = ["mix"] * env.cases(40, 260) + ["timelines"] * env.cases(8, 60) + ["dyn"] * env.cases(6, 30) \
        + ["onepoint"] * env.cases(6, 40) + ["many"] * env.cases(4, 20)
    for k, s in enumerate(styles):
        engs = rng.sample(["threads", "process", "dask", "multiprocess", "default", "adversarial"], 3) + ["numpy"]
        jobs.append((1000 * chk.seed + k, s, engs))
    for k in range(env.cases(2, 6)):
        jobs.insert(k, (1000 * chk.seed + k, ["mix", "timelines", "onepoint"][k % 3], ["xarray"]))
        jobs.insert(k, (1000 * chk.seed + 500 + k, ["mix", "onepoint", "timelines"][k % 3], ["local_cluster"]))
    jobs.insert(0, (1000 * chk.seed, "large", ["default"]))
    traces = chk.record(record, jobs, timeout=240)
    traces += chk.record(record_chunks, [(chk.seed * 100 + k, env.cases(150, 1500)) for k in range(4)])
    traces += chk.record(record_map, [(n, chk.seed) for n in FAST])
    chk.validate("EngineTrace", traces, canary=canary)
    chk.assumptions += ["clusters (slurm, mpi, ray) are not run", "scenario scale: up to 1100 states, 40 turbines"]
