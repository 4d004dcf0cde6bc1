"""C22 chunk data and the chunk store: data cut out for chunks, stored and found again."""

import random
from types import SimpleNamespace

import numpy as np
import xarray as xr

import foxes
import foxes.constants as FC
import foxes.variables as FV
from foxes.core import Engine, FData, MData, TData, TurbineModel

from .. import env, zoo
from ..tlc import behaviours

SHORT = {FC.STATE: "state", FC.TURBINE: "turbine", FC.TARGET: "target", FC.TPOINT: "tpoint", FC.XYH: "xyh", FV.TXYH: "txyh",
         FV.WEIGHT: "weight"}
LONG = {v: k for k, v in SHORT.items()}


def short(v):
    return SHORT.get(v, v)


def ints(a):
    a = np.asarray(a)
    if a.dtype.kind == "f":
        a = np.where(np.isnan(a), -999, a)
    return np.rint(a.astype(float)).astype(int).tolist()


def listed(obj):
    out = []
    for v in obj.keys():
        if obj.dims[v] is not None:
            out.append(dict(name=short(v), dims=[short(d) for d in obj.dims[v]], arr=ints(obj[v])))
    return out


def position(obj):
    try:
        return int(obj.states_i0(counter=True))
    except (KeyError, TypeError):
        return -1


def fill(rng, shp):
    return np.array([rng.randint(1, 900) for _ in range(int(np.prod(shp)))], dtype=float).reshape(shp)


def make(rng):
    """An object with chunk data, made from given entries."""
    kind = rng.choice(["mdata", "fdata", "tdata"])
    ns, nt, ng, np_, nf = (rng.randint(1, k) for k in (6, 4, 5, 3, 3))
    sizes = {FC.STATE: ns, FC.TURBINE: nt, FC.TARGET: ng, FC.TPOINT: np_, FC.XYH: 3, "foo": nf}
    data, dims = {}, {}

    def put(v, d, one=()):
        data[v] = fill(rng, [1 if x in one else sizes[x] for x in d])
        dims[v] = tuple(d)

    i0 = rng.choice([0, 0, rng.randint(1, 40)])
    if rng.random() < 0.5:
        data[FC.STATE] = np.arange(ns) + rng.choice([0, i0, 500])
        dims[FC.STATE] = (FC.STATE,)
    if kind == "mdata":
        put("a", (FC.STATE,))
        put("b", (FC.STATE, FC.TURBINE))
        put("c", rng.choice([(FC.TURBINE,), ("foo",), ("foo", FC.TURBINE), (FC.STATE, "foo"), (FC.STATE, FC.TURBINE, "foo")]))
        if rng.random() < 0.4:
            put("d", (FC.STATE, FC.TURBINE), one=rng.choice([(FC.STATE,), (FC.TURBINE,)]))
        obj = MData(data=data, dims=dims, loop_dims=[FC.STATE], states_i0=i0)
    elif kind == "fdata":
        put("a", (FC.STATE, FC.TURBINE))
        put("b", rng.choice([(FC.STATE, FC.TURBINE), (FC.STATE, FC.TURBINE, "foo")]))
        if rng.random() < 0.5:
            for v in (FV.X, FV.Y, FV.H):
                put(v, (FC.STATE, FC.TURBINE))
        if rng.random() < 0.5:
            put(FV.WEIGHT, (FC.STATE, FC.TURBINE), one=rng.choice([(), (FC.TURBINE,)]))
        obj = FData(data=data, dims=dims, loop_dims=[FC.STATE], states_i0=i0)
    else:
        if rng.random() < 0.5:
            data[FC.TARGET] = np.arange(ng)
            dims[FC.TARGET] = (FC.TARGET,)
        if rng.random() < 0.7:
            put("a", (FC.STATE, FC.TARGET, FC.TPOINT))
        if rng.random() < 0.3:
            put("b", (FC.STATE, FC.TARGET, FC.TPOINT, "foo"))
        pts, wts = fill(rng, (ns, ng, np_, 3)), fill(rng, (np_,))
        given = dict(data, **{FC.TARGETS: pts, FC.TWEIGHTS: wts})
        gd = dict(dims, **{FC.TARGETS: (FC.STATE, FC.TARGET, FC.TPOINT, FC.XYH), FC.TWEIGHTS: (FC.TPOINT,)})
        first = {FC.TARGETS: pts, FC.TWEIGHTS: wts}
        # entries are checked in order of their listing
        data = dict(first, **data)
        dims = {v: gd[v] for v in data}
        obj = TData(data=data, dims=dims, loop_dims=[FC.STATE, FC.TARGET], states_i0=i0)
        data, dims = given, gd
    given = [dict(name=short(v), dims=[short(d) for d in dims[v]], arr=ints(data[v])) for v in data]
    ev = dict(op="make", ok=1, err="", kind=kind, given=given, has=listed(obj), at=position(obj))
    return ev, obj, sizes, kind


def selection(rng, n, many=True):
    k = rng.choice(["slice", "slice", "list", "mask"]) if many else "slice"
    if k == "slice":
        lo = rng.randrange(n)
        hi = rng.randint(lo + 1, n)
        real = rng.choice([slice(lo, hi), slice(lo, hi) if hi < n else slice(lo, None), slice(lo, hi) if lo else slice(None, hi)])
        return dict(kind="slice", a=[lo, hi]), real
    if k == "list":
        a = rng.choice([[rng.randrange(n) for _ in range(rng.randint(1, n))], sorted(rng.sample(range(n), rng.randint(1, n)))])
        return dict(kind="list", a=a), rng.choice([a, np.array(a)])
    a = [rng.randint(0, 1) for _ in range(n)]
    a[rng.randrange(n)] = 1
    return dict(kind="mask", a=a), np.array(a, dtype=bool)


def data_ops(seed):
    rng = random.Random(f"c22d-{seed}")
    traces = []
    for n in range(6):
        evs = []
        try:
            ev, obj, sizes, kind = make(rng)
        except Exception as ex:
            ev = dict(op="make", ok=0, err=f"{type(ex).__name__}: {str(ex)[:200]}", kind="", given=[], has=[], at=-1)
            traces.append(dict(id=f"c22d-{seed}-{n}", cfg=dict(c=0), ev=[ev], tags=["data"]))
            continue
        evs.append(ev)
        objs = [obj]
        for _ in range(rng.randint(2, 5)):
            src = rng.randrange(len(objs))
            o = objs[src]
            ds = [d for d in o.sizes if d in o and d in (FC.STATE, FC.TURBINE, FC.TARGET, FC.TPOINT, "foo")]
            if kind == "tdata":
                ds = [d for d in ds if d != FC.TPOINT or rng.random() < 0.3]
            ds = rng.sample(ds, min(len(ds), rng.choice([1, 1, 2])))
            sel, real = {}, []
            for k, d in enumerate(ds):
                a, b = selection(rng, o.sizes[d], many=(k == 0))
                sel[short(d)] = a
                real.append(b)
            kw, mp = {}, {}
            if kind == "mdata" and rng.random() < 0.2 and FC.TURBINE in o.sizes:
                kw["dim_map"] = {FC.TURBINE: "bar"}
                mp = {"turbine": "bar"}
            variables = ds
            if len(ds) == 1 and isinstance(real[0], slice) and rng.random() < 0.5:
                variables, arg = ds[0], real[0]
            else:
                arg = rng.choice([real, tuple(real)])
            e = dict(op="cut", src=src + 1, sel=sel, map=mp or {"none": "none"}, ok=1, err="", has=[], at=-1)
            try:
                c = o.get_slice(variables, arg, **kw)
                e.update(has=listed(c), at=position(c))
                objs.append(c)
            except Exception as ex:
                e.update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:200]}")
            evs.append(e)
        # a further entry
        src = rng.randrange(len(objs))
        o = objs[src]
        lead = {"mdata": (), "fdata": (FC.STATE, FC.TURBINE), "tdata": (FC.STATE, FC.TARGET, FC.TPOINT)}[kind]
        dims = list(lead) if lead and rng.random() < 0.8 else list(rng.sample([FC.STATE, FC.TURBINE, "foo", "new"], rng.randint(1, 3)))
        if rng.random() < 0.3 and "foo" not in dims:
            dims.append("foo")
        shp = [max(1, o.sizes.get(d, 2)) for d in dims]
        how = rng.choice(["fits", "size", "rank", "one"])
        j = rng.randrange(len(dims))
        if how == "size":
            shp[j] += rng.choice([1, 2])
        elif how == "one":
            shp[j] = 1
        elif how == "rank":
            shp = shp + [2] if rng.random() < 0.5 or len(shp) == 1 else shp[:-1]
        if not (how == "rank" and any(s == 1 for s in shp)):  # surplus dimensions of one element may be dropped
            e = dict(op="add", src=src + 1, name="extra", dims=[short(d) for d in dims], shp=shp, took=1, err="")
            try:
                o.add("extra", fill(rng, shp), tuple(dims))
            except Exception as ex:
                e.update(took=0, err=f"{type(ex).__name__}: {str(ex)[:200]}")
            evs.append(e)
        traces.append(dict(id=f"c22d-{seed}-{n}", cfg=dict(c=0), ev=evs, tags=["data", kind]))
    return traces


def loads(seed):
    """Chunk data as the engines make them."""
    rng = random.Random(f"c22l-{seed}")
    traces = []
    for n in range(6):
        ns, nt, ng, nf = (rng.randint(1, k) for k in (7, 4, 6, 3))
        labels = np.arange(ns) + 300 if rng.random() < 0.5 else None

        def ds(vs, coords):
            sz = {FC.STATE: ns, FC.TURBINE: nt, FC.TARGET: ng, FC.TPOINT: 1, FC.XYH: 3, "foo": nf}
            dv = {v: (d, fill(rng, [sz[x] for x in d])) for v, d in vs.items()}
            return xr.Dataset(coords=coords, data_vars=dv)

        st = {} if labels is None else {FC.STATE: labels}
        mvs = {"a": (FC.STATE,), "b": rng.choice([(FC.STATE, FC.TURBINE), (FC.STATE, "foo"), (FC.TURBINE,)])}
        fvs = {"u": (FC.STATE, FC.TURBINE), "v": (FC.STATE, FC.TURBINE)}
        if rng.random() < 0.5:
            fvs[FV.WEIGHT] = rng.choice([(FC.STATE,), (FC.STATE, FC.TURBINE)])
        md = ds(mvs, dict(st, **({"foo": np.arange(nf) * 2} if "foo" in mvs["b"] else {})))
        fd = ds(fvs, dict(st) if rng.random() < 0.5 else {})
        pd_ = None
        if rng.random() < 0.7:
            pd_ = ds({FC.TARGETS: (FC.STATE, FC.TARGET, FC.TPOINT, FC.XYH)}, dict(st))
            pd_[FC.TWEIGHTS] = ((FC.TPOINT,), np.array([1.0]))
            if rng.random() < 0.4:
                pd_["w"] = ((FC.STATE, FC.TARGET, FC.TPOINT), fill(rng, (ns, ng, 1)))
        lo = rng.randrange(ns)
        hi = rng.randint(lo + 1, ns)
        tlo = rng.randrange(ng) if pd_ is not None else 0
        thi = rng.randint(tlo + 1, ng) if pd_ is not None else 1
        outs = rng.choice([["u"], ["u", "x9"], ["x9"]])
        evs, err, out = [], "", []
        before = [ints(d[v].to_numpy()) for d in (md, fd, pd_) if d is not None for v in sorted(d.variables)]
        try:
            out = Engine.new("numpy", verbosity=0).get_chunk_input_data(
                SimpleNamespace(n_turbines=nt, n_states=ns), md, fd, pd_, (lo, hi), (tlo, thi), outs)
        except Exception as ex:
            err = f"{type(ex).__name__}: {str(ex)[:200]}"
        names = ["mdata", "fdata", "tdata"][: 2 + (pd_ is not None)]
        for k, (kind, d) in enumerate(zip(names, (md, fd, pd_))):
            given = [dict(name=short(v), dims=[short(x) for x in d[v].dims], arr=ints(d[v].to_numpy())) for v in d.variables]
            e = dict(op="load", kind=kind, given=given, rows=[lo, hi], targets=[tlo, thi], ok=int(not err), err=err, has=[], at=-1, tat=-1, states=[])
            if not err:
                o = out[k]
                e.update(has=listed(o), at=position(o), states=list(range(lo, hi)) if labels is None else labels[lo:hi].tolist())
                if kind == "tdata":
                    e["tat"] = int(o.targets_i0())
            evs.append(e)
        if not err:
            for o in out:
                for v in list(o.keys()):
                    if o.dims[v] is not None and isinstance(o[v], np.ndarray) and o[v].flags.writeable:
                        o[v] += 1
            after = [ints(d[v].to_numpy()) for d in (md, fd, pd_) if d is not None for v in sorted(d.variables)]
            evs.append(dict(op="same", what="changes of chunk data reach the data set", before=before, after=after))
        traces.append(dict(id=f"c22l-{seed}-{n}", cfg=dict(c=0), ev=evs, tags=["load"]))
    return traces


SPLITS = {1: ([2, 1, 3], [1, 2]), 2: ([1, 1, 1, 1], None), 3: ([3, 2], [2, 2, 1])}


def store_ops(job):
    """Histories of the specification, replayed on the chunk store of an algorithm."""
    seed, split, hists = job
    rng = random.Random(f"c22s-{seed}")
    farm = foxes.WindFarm()
    farm.add_turbine(foxes.Turbine(xy=[0.0, 0.0], turbine_models=["NREL5MW"]), verbosity=0)
    states = foxes.input.states.SingleStateStates(ws=9.0, wd=270.0, ti=0.05, rho=1.2)
    algo = foxes.algorithms.Downwind(farm, states, wake_models=[], verbosity=0)
    sp, tp = SPLITS[split]
    cs = np.concatenate([[0], np.cumsum(sp)])
    ct = np.concatenate([[0], np.cumsum(tp)]) if tp else None
    full = MData(data={FC.STATE: np.arange(cs[-1]) + 70}, dims={FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=0)
    tfull = TData.from_points(np.zeros((cs[-1], ct[-1], 3)), states_i0=0) if tp else None

    def chunk(c, t):
        s = slice(int(cs[c - 1]), int(cs[c]))
        m = full.get_slice(FC.STATE, s)
        if not tp:
            return m, None, dict(i=int(cs[c - 1]), n=sp[c - 1], t=0, m=0)
        r = slice(int(ct[t - 1]), int(ct[t]))
        how = rng.random()
        td = tfull.get_slice([FC.STATE, FC.TARGET], [s, r]) if how < 0.5 else tfull.get_slice(FC.STATE, s).get_slice([FC.TARGET], [r])
        return m, td, dict(i=int(cs[c - 1]), n=sp[c - 1], t=int(ct[t - 1]), m=tp[t - 1])

    traces = []
    for hn, hist in enumerate(hists):
        algo.reset_chunk_store()
        kept = None
        evs = []
        nput = 0
        for op, c, t, ps, pt in hist:
            m, td, at = chunk(c, t)
            kw = dict(mdata=m) if td is None else dict(mdata=m, tdata=td)
            name = rng.choice(["p", "p", "q"])
            if op == "put" and rng.random() < 0.15:
                e = dict(op="block", **at)
                algo.block_convergence(**kw)
            elif op == "put":
                nput += 1
                val = np.array([nput, c, t])
                copy = rng.random() < 0.7
                e = dict(op="put", ok=1, err="", name=name, val=nput, **at)
                try:
                    algo.add_to_chunk_store(name, val, copy=copy, **kw)
                except Exception as ex:
                    e.update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:200]}")
                if copy:
                    val += 5000
            elif op == "ask":
                quiet, ret = rng.random() < 0.5, rng.random() < 0.5
                e = dict(op="ask", ps=ps, pt=pt, name=name, quiet=int(quiet), got=0, inds=[], err="", **at)
                try:
                    r = algo.get_from_chunk_store(name, prev_s=ps, prev_t=pt, error=not quiet, ret_inds=ret, **kw)
                    if ret:
                        r, inds = r
                        if r is not None:
                            e["inds"] = [int(x) for x in inds]
                    e["got"] = 0 if r is None else int(r[0])
                except Exception as ex:
                    e.update(got=-1, err=type(ex).__name__)
            else:
                back = kept is not None and rng.random() < 0.5
                e = dict(op="reset", back=int(back))
                if back:
                    kept = algo.reset_chunk_store(kept if rng.random() < 0.5 else dict(kept))
                else:
                    kept = algo.reset_chunk_store() if rng.random() < 0.7 else algo.reset_chunk_store({})
            evs.append(e)
            if rng.random() < 0.1:
                evs.append(dict(op="blocked", got=int(bool(algo.eval_conv_block()))))
        traces.append(dict(id=f"c22s-{seed}-{hn}", cfg=dict(c=0), ev=evs, tags=["store", f"split-{split}"]))
    return traces


K = 3
FOUND = [f"found{k}" for k in range(1, K + 1)]
PASS = [f"pass{k}" for k in range(1, K + 1)]


class Probe(TurbineModel):
    """Looks for what the chunks before have stored, then stores its own position."""

    def output_farm_vars(self, algo):
        return ["start", "size"] + FOUND + PASS

    def calculate(self, algo, mdata, fdata, st_sel):
        i0, n = mdata.states_i0(counter=True), mdata.n_states
        new = dict(start=i0, size=n)
        for k in range(1, K + 1):
            r, inds = algo.get_from_chunk_store("vf_probe", mdata=mdata, prev_s=k, ret_inds=True, error=False)
            new[f"found{k}"] = -1 if r is None else r[0] if inds[0] == r[0] and inds[1] == r[1] else -7
            new[f"pass{k}"] = -1 if r is None else r[2]
        for v, x in new.items():
            fdata[v][st_sel] = x
        algo.add_to_chunk_store("vf_probe", np.array([i0, n, algo.iterations]), mdata=mdata)
        return {v: fdata[v] for v in new}


def runs(seed):
    rng = random.Random(f"c22r-{seed}")
    scn = zoo.gen(rng, n_states=rng.randint(1, 9), n_turbines=rng.randint(1, 3), algo="Iterative",
                  state_kinds=("table", "timeseries"), frames=("rotor_wd",))
    for t in scn["turbines"]:
        t["models"] = []
    mit = rng.randint(1, 3)
    ename = rng.choice(["numpy", "numpy", "threads", "process", "single", "multiprocess"])
    size = rng.randint(1, len(scn["rows"]))
    e = dict(op="run", ok=1, err="", it=mit, start=[0], size=[1], found=[[0]], **{"pass": [[0]]})
    try:
        kw = {} if ename == "single" else dict(chunk_size_states=size, **({} if ename == "numpy" else dict(n_procs=rng.choice([2, 3]))))
        with zoo.engine(ename, **kw):
            mbook = zoo.mbook(scn)
            mbook.turbine_models["vf_probe"] = Probe()
            algo, farm, states, mb = zoo.build(scn, mb=mbook, wakes=[], conv_crit=None, max_it=mit)
            for t in farm.turbines:
                t.models.append("vf_probe")
                t.mstates_sel.append(None)
            res = algo.calc_farm(outputs=None)
        g = lambda v: [int(x) for x in res[v].to_numpy().reshape(len(scn["rows"]), -1)[:, 0]]
        e.update(start=g("start"), size=g("size"), found=[g(v) for v in FOUND])
        e["pass"] = [g(v) for v in PASS]
    except Exception as ex:
        e.update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:200]}")
    return [dict(id=f"c22r-{seed}", cfg=dict(c=0), ev=[e], tags=["run", ename], scn=scn)]


def canary(t, rng):
    es = [e for e in t["ev"] if e["op"] in ("cut", "load", "ask", "run", "make") and e.get("ok", 1)]
    if not es:
        return None
    e = rng.choice(es)
    if e["op"] == "run":
        e["found"][rng.randrange(K)][rng.randrange(len(e["start"]))] += 1
    elif e["op"] == "ask":
        if e["got"] <= 0:
            return None
        e["got"] += 1
    else:
        h = [x for x in e["has"] if x["name"] != "state" and x["name"] in [g["name"] for g in e.get("given", e["has"])]]
        a = rng.choice(h)["arr"]
        while isinstance(a[0], list):
            a = a[0]
        a[0] += 7
    return t


def run(chk):
    base = dict(Split=1, MaxLen=5 if not env.THOROUGH else 6, Bug="none", Emit=False)
    inv = ["NothingElse", "FoundAgain"]
    for sp in (1, 2) + ((3,) if env.THOROUGH else ()):
        chk.mc("ChunkStore", constants=dict(base, Split=sp), invariants=inv)
    for b, x in (("start", "NothingElse"), ("state", "NothingElse"), ("once", "NothingElse"), ("merge", "NothingElse"), ("keep", "NothingElse")):
        chk.mc("ChunkStore", constants=dict(base, MaxLen=4, Bug=b), invariants=[x], expect=x)
    jobs = []
    for sp in SPLITS:
        hs, r = behaviours("ChunkStore", dict(base, Split=sp, MaxLen=40, Emit=True), simulate=env.cases(60, 600), seed=chk.seed, depth=45)
        hs = chk.rng.sample(hs, min(len(hs), env.cases(120, 1500)))
        jobs += [(chk.seed * 100 + sp * 10 + k, sp, hs[k::8]) for k in range(8)]
    traces = chk.record(store_ops, jobs, timeout=200)
    chk.notes["histories_replayed"] = len(traces)
    chk.validate("ChunkTrace", traces, canary=canary)
    n = env.cases(60, 800)
    traces = chk.record(data_ops, [chk.seed * 1000 + k for k in range(n)], timeout=100)
    traces += chk.record(loads, [chk.seed * 1000 + k for k in range(n)], timeout=100)
    chk.validate("ChunkTrace", traces, canary=canary)
    traces = chk.record(runs, [chk.seed * 1000 + k for k in range(env.cases(40, 300))], timeout=150)
    chk.validate("ChunkTrace", traces, canary=canary)
