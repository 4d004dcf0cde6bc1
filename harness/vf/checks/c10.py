"""C10 sequential runs: replays histories of the SequentialRun specification."""

import json
import random

import numpy as np

import foxes
import foxes.constants as FC
import foxes.variables as FV

from .. import env, zoo
from ..intern import CIRC, intern_tables
from ..tlc import behaviours

SKIP = {"order_ssel", "SPOS", "order", "order_inv"}


class Watch(foxes.algorithms.sequential.SequentialPlugin):
    def __init__(self):
        super().__init__()
        self.calls = []

    def initialize(self, algo):
        super().initialize(algo)
        self.calls.append((0, None, None))

    def update(self, algo, fres, pres=None):
        super().update(algo, fres, pres)
        self.calls.append((1, fres.copy(deep=True), None if pres is None else pres.copy(deep=True)))

    def finalize(self, algo):
        super().finalize(algo)
        self.calls.append((2, None, None))


def scenario(seed):
    rng = random.Random(f"c10-{seed}")
    ind = rng.random() < 0.2
    scn = zoo.gen(rng, geo=0.2, n_states=rng.randint(1, 4), n_turbines=rng.randint(1, 4), algo="Sequential", ind=1.0 if ind else 0.0,
                  state_kinds=("table", "timeseries", "profile", "abl", "multiheight", "fixed", "field", "scan"),
                  frames=("rotor_wd", "rotor_wd", "rotor_wd_farmo", "yawed_k002", "streamlines_100"))
    if scn["kind"] == "scan":
        for row in scn["rows"]:
            row["wd"], row["ti"] = scn["rows"][0]["wd"], scn["rows"][0]["ti"]
        scn["rows"] = sorted({q["ws"]: q for q in scn["rows"]}.values(), key=lambda q: q["ws"])
    pts = rng.choice(["none", "full", "same"])
    return rng, scn, ind, pts


def tab(ds, dim=FC.TURBINE):
    if ds is None:
        return None
    t = {v: a for v, a in zoo.table(ds, dim=dim).items() if v not in SKIP}
    return t


def record(arg):
    seed, hists = arg
    rng, scn, ind, ptk = scenario(seed)
    ns = len(scn["rows"])
    cpars = rng.choice([None, {scn["rotor"]: {}, "basic_ctrl": {}, scn["frame"]: {}}])
    labels = None
    if scn["kind"] in ("table", "profile", "abl", "multiheight", "fixed") and rng.random() < 0.5:
        labels = [17 + 3 * k for k in range(ns)]
        if random.Random(f"c10-labels-{seed}").random() < 0.4:
            labels = [20 - k % 2 for k in range(ns)]  # labels may repeat
    full = zoo.point_array(scn, ns, per_state=ptk == "full")
    jobs = []  # (record, key, table)

    def put(rec, key, t):
        if t is not None:
            rec[key] = None
            jobs.append((rec, key, t))

    with zoo.engine("single"):
        a = zoo.build(scn, algo="Iterative", labels=labels)[0]
        b = a.calc_farm(outputs=None)
        bp = a.calc_points(b, full)
    lab = {str(x): k + 1 for k, x in enumerate(np.atleast_1d(b[FC.STATE].to_numpy()) if FC.STATE in b.coords else range(ns))}
    bt, bpt = tab(b), tab(bp, "point")
    cfg = dict(n=ns, labels=[lab[str(x)] for x in np.atleast_1d(b[FC.STATE].to_numpy())] if FC.STATE in b.coords else list(range(1, ns + 1)), prows=[], fprows=[], rows=[])
    put(cfg, "rows", bt)
    put(cfg, "prows" if ptk != "none" else "fprows", bpt)
    out = []
    for h in hists:
        evs = []
        eng, ekw = rng.choice([("single", {}), ("single", {}), ("numpy", dict(chunk_size_points=3, n_procs=2)), ("threads", dict(n_procs=2))])
        with zoo.engine(eng, **ekw):
            w = Watch()
            kw = {} if cpars is None else dict(calc_pars=cpars)
            if ptk != "none":
                kw["points"] = full if ptk == "full" or rng.random() < 0.5 else full[0]
            algo = zoo.build(scn, algo="Sequential", labels=labels, plugins=[w], **kw)[0]
            it = fr = None
            for op in h:
                e = dict(op=op, ok=1, err="", on=0, pos=-1, label=0, stop=0, res=[], pres=[], acc=[], pacc=[], dwnd=[], order=[], names=[], plug=[], size=-1)
                w.calls.clear()
                try:
                    if op == "iter":
                        it = iter(algo)
                    elif op == "next":
                        try:
                            r = next(algo)
                            fr = r if ptk == "none" else r[0]
                            put(e, "res", tab(fr))
                            if ptk != "none":
                                put(e, "pres", tab(r[1], "point"))
                        except StopIteration:
                            e["stop"] = 1
                    elif op == "read" and algo.iterating and fr is not None and w.algo is not None and algo._i:
                        put(e, "res", tab(algo.cur_farm_results))
                        if ptk != "none":
                            put(e, "pres", tab(algo.cur_point_results, "point"))
                    elif op == "points":
                        c = algo.counter
                        put(e, "pres", tab(algo.calc_points(algo.cur_farm_results, full[[c]]), "point"))
                    elif op == "scribble":
                        for v in fr.data_vars:
                            if fr[v].dtype.kind == "f":
                                fr[v].values[:] = 77.0
                    e["on"] = int(algo.iterating)
                    e["size"] = int(algo.size)
                    if algo.iterating:
                        c, x = algo.counter, algo.index
                        e["pos"] = -1 if c is None else int(c)
                        e["label"] = 0 if x is None else lab.get(str(np.asarray(x).astype("datetime64[ns]") if scn["kind"] in ("timeseries", "field") else x), -5)
                    else:
                        e["pos"] = -1 if algo.counter is None else -7
                        e["label"] = 0 if algo.index is None else -7
                    f = algo.farm_results
                    put(e, "acc", tab(f).copy())
                    put(e, "dwnd", tab(algo.farm_results_downwind).copy())
                    e["order"] = f[FV.ORDER].to_numpy().astype(int).tolist()
                    e["names"] = [lab.get(str(x), -5) for x in f[FC.STATE].to_numpy()]
                    if algo.point_results is not None:
                        put(e, "pacc", tab(algo.point_results, "point"))
                    for k, a_, p_ in w.calls:
                        c = dict(k=k, row=[], prow=[])
                        put(c, "row", tab(a_))
                        put(c, "prow", tab(p_, "point"))
                        e["plug"].append(c)
                except Exception as ex:
                    e.update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:150]}")
                    for k in ("res", "pres", "acc", "pacc", "dwnd"):
                        jobs[:] = [j for j in jobs if not (j[0] is e)]
                        e[k] = []
                    e["plug"] = []
                evs.append(e)
                if not e["ok"]:
                    break
        out.append((h, evs))
    for n in ({"rows", "res", "acc", "dwnd", "row"}, {"prows", "fprows", "pres", "pacc", "prow"}):
        sub = [j for j in jobs if j[1] in n]
        if not sub:
            continue
        # rows that are not calculated yet hold nothing
        arrs, _ = intern_tables([j[2] for j in sub], circ=CIRC, rtol=1e-3 if ind else 1e-7, atol=1e-9)
        for (rec, key, t), a in zip(sub, arrs):
            a = a.tolist()
            rec[key] = a if key in ("rows", "prows", "fprows", "acc", "dwnd", "pacc") else a[0]
    return [dict(id=f"c10-{seed}-{i}", cfg=cfg, ev=evs, scn=scn, hist=h, tags=[scn["kind"], scn["frame"], ptk]) for i, (h, evs) in enumerate(out)]


def canary(t, rng):
    es = [e for e in t["ev"] if e["ok"] and e["op"] == "next" and not e["stop"]]
    if not es:
        return None
    e = es[-1]
    k = rng.randrange(4)
    if k == 0:
        e["res"][0] += 1000
    elif k == 1:
        e["pos"] += 1
    elif k == 2:
        e["plug"] = e["plug"] * 2
    else:
        e["acc"][0][0] += 1000
    return t


def run(chk):
    base = dict(Ns=2, MaxLen=6, Bug="none", Emit=False)
    inv = ["Accumulates", "InOrder", "Complete", "Plugins"]
    chk.mc("SequentialRun", constants=base, invariants=inv)
    chk.mc("SequentialRun", constants=dict(base, Ns=3, MaxLen=8), invariants=inv)
    for b, x in (("skip", "Accumulates"), ("share", "Accumulates"), ("again", "Complete"), ("plug", "Plugins")):
        chk.mc("SequentialRun", constants=dict(base, MaxLen=8, Bug=b), invariants=[x], expect=x)
    hists = []
    for n, m in ((1, 7), (2, 7), (3, 8)):
        hs, r = behaviours("SequentialRun", dict(base, Ns=n, MaxLen=m, Emit=True))
        chk.states += r["distinct"]
        hists.append([h for h in hs if h.count("next") >= n])
    chk.notes["histories_of_the_specification"] = sum(map(len, hists))
    n = env.cases(55, 600)
    jobs = []
    for k in range(n):
        s = chk.seed * 1000 + k
        ns = len(scenario(s)[1]["rows"])
        hs = chk.rng.sample(hists[min(ns, 3) - 1], env.cases(3, 8))
        # to the end, and once more
        hs.append(["iter"] + ["next"] * (ns + 1) + ["read", "iter", "next", "read"] + ["next"] * ns + ["read"])
        jobs.append((s, hs))
    traces = chk.record(record, jobs, timeout=300)
    chk.notes["histories_replayed"] = len(traces)
    chk.validate("SequentialTrace", traces, canary=canary)
