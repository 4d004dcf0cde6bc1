"""C20 parameter dictionaries: sessions of runs against calculations composed by hand."""

import contextlib
import copy
import io
import json
import os
import random
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
import yaml

import foxes
import foxes.constants as FC
import foxes.models as fm
import foxes.variables as FV
from foxes.config import config
from foxes.core import get_engine, has_engine, reset_engine
from foxes.input.yaml import run_dict
from foxes.input.yaml.yaml import foxes_yaml
from foxes.output import Output
from foxes.utils import Dict

from .. import env, zoo
from ..intern import CIRC, intern_tables
from ..tlc import behaviours

LOG, SEEN, TOK = [], [], {}


class Part:
    """A result of an output function, with functions of its own."""

    def __init__(self, tok):
        self.tok = tok

    def one(self, *args, **kw):
        return call("one", self.tok, args, kw)

    def two(self, *args, **kw):
        return call("two", self.tok, args, kw)

    def arr(self, *args, **kw):
        return call("arr", self.tok, args, kw)

    def bad(self, *args, **kw):
        return call("bad", self.tok, args, kw)


def tok(x):
    if isinstance(x, Part):
        return x.tok
    if isinstance(x, (int, np.integer)):
        return int(x)
    return TOK.get(id(x), -7)


PLAN = []


def call(f, on, args, kw):
    """The number of the call is its place in the program."""
    c = PLAN.pop(0)
    LOG.append(dict(f=f, on=on, args=[tok(x) for x in args] + [tok(kw[k]) for k in sorted(kw)]))
    if f == "bad":
        raise RuntimeError("this function breaks")
    if f == "one":
        return Part(10 * c)
    r = (Part(10 * c + 1), Part(10 * c + 2))
    if f == "arr":
        a = np.empty(2, dtype=object)
        a[:] = r
        r = a
    TOK[id(r)] = 10 * c
    SEEN.append(("keep", r))
    return r


class VfPlain(Output, Part):
    def __init__(self, algo, farm, par=0):
        Output.__init__(self)
        Part.__init__(self, 0)
        SEEN.append(("algo", algo, farm, par))


class VfResults(Output, Part):
    def __init__(self, farm_results, point_results, algo):
        Output.__init__(self)
        Part.__init__(self, 0)
        SEEN.append(("results", farm_results, point_results, algo))


# ---------------------------------------------------------------------------
# descriptions


ROTORS = ["centre", "grid4", "level5"]
FRAMES = ["rotor_wd", "yawed_k002", "farm_order"]
WAKES = [["Jensen_linear_k007"], ["Bastankhah2014_linear_k004", "CrespoHernandez_max_k004"], ["mywake"], ["TurbOPark_quadratic_ka002"], ["Bastankhah2016_linear_lim_k002", "mywake"]]
PARTS = [None, "centre", "auto", "rotor_points"]
ALGOS = ["Downwind", "Downwind", "Iterative"]


def describe(rng, d, as_file, k):
    """A parameter dictionary of plain values (files in the folder d) and a program of outputs."""
    ns = rng.randint(1, 4)
    df = pd.DataFrame(dict(ws=[round(rng.uniform(5, 14), 2) for _ in range(ns)], wd=[round(rng.choice([270, 265, 90, 0]) + rng.uniform(-8, 8), 1) % 360 for _ in range(ns)],
                           ti=[round(rng.uniform(0.04, 0.12), 3) for _ in range(ns)], rho=[1.2] * ns))
    kind = rng.choice(["StatesTable", "Timeseries", "SingleStateStates", "ScanStates"])
    ov = ["WS", "WD", "TI", "RHO"]
    if kind == "SingleStateStates":
        st = dict(states_type=kind, ws=float(df.ws[0]), wd=float(df.wd[0]), ti=0.07, rho=1.225)
    elif kind == "ScanStates":
        st = dict(states_type=kind, scans=dict(WD=[270.0, 280.0], WS=sorted({float(x) for x in df.ws}), TI=[0.06], RHO=[1.225]))
    else:
        st = dict(states_type=kind, output_vars=ov, var2col=dict(WS="ws", WD="wd", TI="ti"), fixed_vars=dict(RHO=1.2))
        idx = pd.date_range("2023-01-01", periods=ns, freq="h", name="Time") if kind == "Timeseries" else pd.Index(range(ns), name="state")
        df.index = idx
        if as_file or rng.random() < 0.5:
            df.to_csv(d / f"states{k}.csv")
            st["data_source"] = f"states{k}.csv"
        else:
            st["data_source"] = df
    D = dict(states=st)
    pc = pd.DataFrame(dict(ws=[0.0, 3.0, 8.0, 13.0, 30.0], P=[0.0, 100.0, 2000.0, 5000.0, 5000.0], ct=[0.0, 0.9, 0.8, 0.4, 0.1]))
    mb = {}
    if as_file or rng.random() < 0.5:
        pc.to_csv(d / "curve.csv", index=False)
        src = "curve.csv"
    else:
        src = pc
    mb["turbine_types"] = [dict(name="mytype", ttype_type="PCtFile", data_source=src, D=rng.choice([100.0, 126.0]), H=90.0, P_nominal=5000.0, col_ws="ws", col_P="P", col_ct="ct")]
    mb["wake_models"] = [dict(name="mywake", wmodel_type="JensenWake", superposition=rng.choice(["ws_linear", "ws_max"]), k=rng.choice([0.05, 0.1]))]
    if rng.random() < 0.5:
        mb["turbine_models"] = [dict(name="mymodel", tmodel_type="kTI", kTI=0.25, kb=0.001)]
    D["model_book"] = mb
    tms = ["mytype"] + (["mymodel"] if "turbine_models" in mb and rng.random() < 0.7 else [])
    lys = []
    for j in range(rng.randint(1, 2)):
        o = [1000.0 * j, -900.0 * j]
        r = rng.choice(["row", "grid", "file"])
        if r == "row":
            lys.append(dict(function="add_row", xy_base=o, xy_step=[rng.choice([500.0, 700.0]), 20.0], n_turbines=rng.randint(1, 3), turbine_models=tms))
        elif r == "grid":
            lys.append(dict(function="add_grid", xy_base=o, step_vectors=[[600.0, 0.0], [0.0, 550.0]], steps=[2, rng.randint(1, 2)], turbine_models=tms))
        else:
            pd.DataFrame(dict(x=[o[0], o[0] + 800], y=[o[1], o[1] - 50], H=[80.0, 110.0])).to_csv(d / f"lay{k}{j}.csv", index_label="index")
            lys.append(dict(function="add_from_file", file_path=f"lay{k}{j}.csv", col_H="H", turbine_models=tms))
        lys[-1]["verbosity"] = 0
    D["wind_farm"] = dict(layouts=lys)
    if rng.random() < 0.5:
        D["wind_farm"]["name"] = rng.choice(["parkA", "parkB"])
    al = dict(algo_type=rng.choice(ALGOS), wake_models=rng.choice(WAKES), verbosity=0)
    if rng.random() < 0.6:
        al["rotor_model"] = rng.choice(ROTORS)
    if rng.random() < 0.6:
        al["wake_frame"] = rng.choice(FRAMES[:2])
    if rng.random() < 0.5:
        al["partial_wakes"] = rng.choice(["centre", "rotor_points"])
    if rng.random() < 0.2:
        al["ground_models"] = "ground_mirror"
    D["algorithm"] = al
    if rng.random() < 0.6:
        D["engine"] = dict(engine_type=rng.choice(["single", "numpy", "threads", "NumpyEngine"]), n_procs=2, chunk_size_states=rng.randint(1, 3), chunk_size_points=rng.choice([1, 100]), verbosity=0)
    r = rng.random()
    if r < 0.6:
        D["calc_farm"] = {}
        if rng.random() < 0.7:
            D["calc_farm"]["run"] = True
        if rng.random() < 0.3:
            D["calc_farm"]["ambient"] = True
        elif rng.random() < 0.3:
            D["calc_farm"]["outputs"] = ["X", "Y", "REWS", "P", "CT", "AMB_REWS", "WD", "H", "D", "YAW", "order", "RHO", "TI", "AMB_TI", "AMB_RHO"]
    elif r < 0.75:
        D["calc_farm"] = dict(run=False)
    hasfarm = D.get("calc_farm", {}).get("run", True)
    if (not hasfarm or not {"outputs", "ambient"} & set(D.get("calc_farm", {}))) and rng.random() < 0.6:
        pts = [[round(rng.uniform(-300, 2500), 1), round(rng.uniform(-800, 800), 1), 90.0] for _ in range(rng.randint(1, 4))]
        n = {"SingleStateStates": 1, "ScanStates": 2 * len(st.get("scans", {}).get("WS", []))}.get(kind, ns)
        P = [pts] * n
        D["calc_points"] = dict(run=True, points=np.array(P) if not as_file else P)
        if rng.random() < 0.3:
            pd.DataFrame(pts, columns=["x", "y", "h"]).to_csv(d / f"points{k}.csv", index=False)
            D["calc_points"]["points"] = str(d / f"points{k}.csv")
        if not hasfarm:
            D["calc_points"]["ambient"] = True
        if rng.random() < 0.2:
            D["calc_points"] = dict(run=False, points="none.csv")
    D["outputs"], prog = outputs(rng, D.get("calc_farm", {}).get("run", True))
    return D, prog


def outputs(rng, farm):
    """Listed outputs and their calls, as dictionary entries and in terms of the specification."""
    calls, groups, outs = [], [], []
    objs, wholes = [], []  # labels of parts (objects with functions), of results of two parts
    nlab = 0

    def ref():
        r = rng.random()
        if r < 0.4 or not (objs or wholes):
            v = rng.randint(100000, 100099)
            return dict(kind=0, val=v, idx=0), v
        if objs and (r < 0.75 or not wholes):
            x = rng.choice(objs)
            return dict(kind=1, val=x, idx=0), f"$l{x}"
        x = rng.choice(wholes)
        if rng.random() < 0.3:
            return dict(kind=1, val=x, idx=0), f"$l{x}"
        i = rng.randint(1, 2)
        return dict(kind=1, val=x, idx=i), f"$l{x}[{i - 1}]"

    for g in range(rng.randint(1, 4)):
        needs = 0
        if objs and rng.random() < 0.4:
            if wholes and rng.random() < 0.3:
                x, i = rng.choice(wholes), rng.randint(1, 2)
                obj, o = dict(kind=1, val=x, idx=i), dict(object=f"$l{x}[{i - 1}]")
            else:
                x = rng.choice(objs)
                obj, o = dict(kind=1, val=x, idx=0), dict(object=f"$l{x}")
        else:
            needs = int(rng.random() < 0.5)
            obj, o = dict(kind=0, val=0, idx=0), dict(output_type="VfResults" if needs else "VfPlain")
            if not needs and rng.random() < 0.5:
                o["par"] = rng.randint(1, 9)
        o["functions"] = []
        for _ in range(rng.randint(1, 3)):
            f = rng.choice(["one", "one", "two", "arr"])
            fd = dict(function=f)
            args, sargs = [], []
            for _ in range(rng.randint(0, 2)):
                a, s = ref()
                args.append(a)
                sargs.append(s)
            if sargs:
                fd["args"] = sargs
            kw = {}
            for n in rng.sample(["x", "y", "zz"], rng.randint(0, 2)):
                kw[n] = ref()
            for n in sorted(kw):
                args.append(kw[n][0])
            for n, (a, s) in kw.items():
                fd[n] = s
            labels, whole = [], 1
            r = rng.random()
            if f == "one" and r < 0.7:
                nlab += 1
                again = [x for x in objs if x != obj["val"]]  # the object of these functions is fixed
                labels = [rng.choice(again) if again and r < 0.1 else nlab]
                if not (needs and not farm):
                    objs.append(labels[0])
                fd["result_labels"] = f"$l{labels[0]}"
            elif f != "one" and r < 0.4:
                nlab += 1
                labels = [nlab]
                if not (needs and not farm):
                    wholes.append(nlab)
                fd["result_labels"] = f"$l{nlab}"
            elif f != "one" and r < 0.8:
                whole = 0
                names = []
                for _ in range(2):
                    if rng.random() < 0.3:
                        labels.append(0)
                        names.append(rng.choice(["none", "None", "_", "__", ""]))
                    else:
                        nlab += 1
                        labels.append(nlab)
                        names.append(f"$l{nlab}")
                        if not (needs and not farm):
                            objs.append(nlab)
                fd["result_labels"] = names
            o["functions"].append(fd)
            calls.append(dict(obj=obj, f=f, args=args, labels=labels, whole=whole, needs=needs, breaks=0))
        outs.append(o)
        groups.append(len(calls))
    return outs, dict(calls=calls, groups=groups)


# ---------------------------------------------------------------------------
# by hand


TYPES = dict(turbine_types="ttype_type", turbine_models="tmodel_type", wake_models="wmodel_type")
BASES = dict(turbine_types=foxes.core.TurbineType, turbine_models=foxes.core.TurbineModel, wake_models=foxes.core.WakeModel)


def named(cls, name):
    """The class of that name derived from the base class."""
    for c in cls.__subclasses__():
        if c.__name__ == name:
            return c
        d = named(c, name)
        if d is not None:
            return d
    return None


ENGINES = dict(single="SingleChunkEngine", numpy="NumpyEngine", threads="ThreadsEngine")


def hand(D, over, given):
    """The calculation described by D and the arguments, composed from the objects."""
    cp = lambda x: copy.deepcopy(x)
    st = cp(D["states"])
    states = getattr(foxes.input.states, st.pop("states_type"))(**st)
    mb = fm.ModelBook()
    for sec, ms in D["model_book"].items():
        for m in cp(ms):
            name = m.pop("name")
            key = TYPES[sec]
            getattr(mb, sec)[name] = named(BASES[sec], m.pop(key))(**m)
    wf = cp(D["wind_farm"])
    lys = wf.pop("layouts")
    farm = foxes.WindFarm(**wf)
    for l in lys:
        getattr(foxes.input.farm_layout, l.pop("function"))(farm, **l)
    al = cp(D["algorithm"])
    t = al.pop("algo_type")
    if "iterative" in over:
        t = "Iterative"
    al.update({k: v for k, v in over.items() if k not in ("iterative", "engine_pars")})
    al["verbosity"] = 0
    farm_pars = dict(D.get("calc_farm", {}))
    ep = dict(over.get("engine_pars") or D.get("engine") or dict(engine_type="single"))
    et = ep.pop("engine_type")
    with getattr(foxes.engines, ENGINES.get(et, et))(**ep):
        algo = getattr(foxes.algorithms, t)(farm, states, mbook=mb, **al)
        fr = pr = None
        if farm_pars.pop("run", True):
            fr = algo.calc_farm(**farm_pars)
        cp_ = dict(D.get("calc_points", {}))
        if cp_.pop("run", False):
            if isinstance(cp_["points"], str):
                cp_["points"] = pd.read_csv(cp_["points"]).to_numpy()
                if fr is not None:
                    cp_["points"] = cp_["points"][None].repeat(fr.sizes[FC.STATE], axis=0)
            pr = algo.calc_points(fr, **cp_)
    return fr, pr


def tables(r):
    t = []
    for x, dim in zip(r, (FC.TURBINE, FC.POINT)):
        t.append(None if x is None else zoo.table(x, dim=dim))
    return t


NAMES = {}


def nid(x):
    """Small numbers for names of settings, 0 for none."""
    if x is None:
        return 0
    return NAMES.setdefault(json.dumps(x, sort_keys=True, default=str), len(NAMES) + 1)


def overrides(rng, o):
    if o == "none":
        return {}
    if o == "iterative":
        return dict(iterative=True)
    if o == "engine":
        return dict(engine_pars=dict(engine_type=rng.choice(["single", "numpy"]), n_procs=2, chunk_size_states=rng.randint(1, 4), chunk_size_points=7, verbosity=0))
    k = rng.choice(["rotor_model", "wake_models", "wake_frame", "partial_wakes", "all"])
    out = {}
    if k in ("rotor_model", "all"):
        out["rotor_model"] = rng.choice(ROTORS)
    if k in ("wake_models", "all"):
        out["wake_models"] = rng.choice(WAKES)
    if k in ("wake_frame", "all"):
        out["wake_frame"] = rng.choice(FRAMES[:2])
    if k in ("partial_wakes", "all"):
        out["partial_wakes"] = rng.choice(["centre", "rotor_points"])
    return out


def break_(rng, D, prog, fail, over):
    """The same description with one step that has to fail."""
    D = copy.deepcopy(D)
    prog = copy.deepcopy(prog)
    if fail == "states":
        D["calc_farm"] = dict(run=True)
        if "data_source" in D["states"] and rng.random() < 0.6:
            D["states"]["data_source"] = "missing.csv"
        else:
            D["states"]["states_type"] = "NoSuchStates"
    elif fail == "model":
        k = rng.choice([0] * ("wake_models" not in over) + [1] * ("iterative" not in over) + [2, 3])
        if k == 0:
            D["algorithm"]["wake_models"] = ["NoSuchWake"]
        elif k == 1:
            D["algorithm"]["algo_type"] = "NoSuchAlgorithm"
        elif k == 2:
            D["algorithm"]["wrong_parameter"] = 3
        else:
            D["wind_farm"]["layouts"][0]["turbine_models"] = ["no_such_model"]
            D["calc_farm"] = dict(run=True)
    elif fail == "points":
        D["calc_farm"] = dict(run=True)
        D["calc_points"] = dict(run=True, points="missing.csv")
    elif fail in ("output", "label"):
        g = rng.randrange(len(prog["groups"]))
        first = prog["groups"][g - 1] if g else 0
        k = rng.randrange(first, prog["groups"][g])
        c = prog["calls"][k]
        fd = D["outputs"][g]["functions"][k - first]
        if c["needs"] and not D.get("calc_farm", {}).get("run", True):
            return None
        if fail == "output":
            fd["function"] = c["f"] = "bad"
            c["breaks"] = 1
        else:
            fd["x"] = "$unknown"
            keys = sorted(set(fd) & {"x", "y", "zz"})
            na = len(fd.get("args", []))
            old = dict(zip(sorted(set(keys) - {"x"} | ({"x"} if len(c["args"]) - na == len(keys) else set())), c["args"][na:]))
            old["x"] = dict(kind=1, val=9999, idx=0)
            c["args"] = c["args"][:na] + [old[q] for q in sorted(old)]
    return D, prog


def to_dict(D):
    return Dict(copy.deepcopy(D), name="session")


def session(seed, hist):
    rng = random.Random(f"c20-{seed}")
    d = Path(tempfile.mkdtemp(dir=env.SCRATCH))
    as_file = rng.random() < 0.3
    jobs, evs = [], []
    pair = {}
    try:
        for k in (1, 2):
            D, prog = describe(rng, d, as_file, k)
            pair[k] = (D, prog, to_dict(D))
        for h in hist:
            k, o, fail = h.split(" ")
            k = int(k)
            over = overrides(rng, o)
            D, prog, I = pair[k]
            fl = fail
            if fail != "none":
                b = break_(rng, D, prog, fail, over)
                if b is None:
                    fl = "none"
                else:
                    D, prog = b
                    I = to_dict(D)
            evs.append(one_run(rng, d, D, prog, I, over, fl if fl in ("states", "model", "points") else "none", as_file, jobs))
        arr = [j for j in jobs if j[2] is not None]
        for dim in (0, 1):
            sub = [(e, key, t[dim]) for e, key, t in arr if t[dim] is not None]
            if sub:
                ids, _ = intern_tables([t for _, _, t in sub], circ=CIRC, rtol=1e-9, atol=1e-9)
                for (e, key, _), a in zip(sub, ids):
                    e[key] = e[key] + [int(x) for x in np.asarray(a).reshape(-1)] + [-1]
    finally:
        reset_engine()
        config[FC.INPUT_DIR] = None
        config[FC.OUTPUT_DIR] = None
        config[FC.WORK_DIR] = Path(".")
        shutil.rmtree(d, ignore_errors=True)
    return dict(id=f"c20-{seed}", cfg=dict(n=1), ev=evs, tags=["file" if as_file else "dict"], scn=dict(hist=hist))


def one_run(rng, d, D, prog, I, over, fail, as_file, jobs):
    e = dict(fail=fail, ok=1, err="", sets=[], hasfarm=int(D.get("calc_farm", {}).get("run", True)), calls=prog["calls"], groups=prog["groups"],
             log=[], outs=[], res=[], want=[], engine=0, whole=1)
    if fail != "none":
        e["calls"], e["groups"] = [], []
    LOG.clear()
    SEEN.clear()
    TOK.clear()
    skip = lambda c: c["needs"] and not e["hasfarm"]
    PLAN[:] = [i + 1 for i, c in enumerate(prog["calls"]) if not skip(c)]
    outer = "engine" not in D and "engine_pars" not in over
    f0 = zoo.fingerprint(dict(I))
    out = None
    eng = {}
    orig = foxes.Engine.initialize if hasattr(foxes, "Engine") else None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.ExitStack() as stack:
        if outer:
            stack.enter_context(zoo.engine("single"))
        mine = get_engine(error=False, default=False)
        try:
            if as_file and rng.random() < 0.7:
                p = d / "run.yaml"
                p.write_text(yaml.safe_dump(D))
                argv = ["foxes_yaml", str(p), "-o", str(d), "-v", "0"]
                for a, k in (("-r", "rotor_model"), ("-f", "wake_frame")):
                    if k in over:
                        argv += [a, over[k]]
                for a, k in (("-w", "wake_models"), ("-p", "partial_wakes")):
                    if k in over:
                        argv += [a] + (over[k] if isinstance(over[k], list) else [over[k]])
                if over.get("iterative"):
                    argv += ["-it"]
                ep = over.get("engine_pars")
                if ep:
                    argv += ["-e", ep["engine_type"], "-n", str(ep["n_procs"]), "-c", str(ep["chunk_size_states"]), "-C", str(ep["chunk_size_points"])]
                old = sys.argv
                try:
                    sys.argv = argv
                    foxes_yaml()
                finally:
                    sys.argv = old
            else:
                out = run_dict(I, input_dir=d, output_dir=d, verbosity=rng.choice([0, 0, None, 1]), **over)
        except SystemExit as x:
            e.update(ok=0, err=f"SystemExit: {x}")
        except Exception as x:
            e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:120]}")
        now = get_engine(error=False, default=False)
        e["engine"] = int(now is not mine)
        if e["engine"]:
            try:
                reset_engine()
            except Exception:
                pass
    e["log"] = list(LOG)
    e["whole"] = int(zoo.fingerprint(dict(I)) == f0)
    if not e["ok"] or fail != "none":
        return e
    # settings found
    al = [s for s in SEEN if s[0] in ("algo", "results")]
    if al:
        a = al[0][1] if al[0][0] == "algo" else al[0][3]
        DA = D["algorithm"]
        S = e["sets"]
        it = "Iterative" if over.get("iterative") else None
        S.append(dict(name="algorithm", dict=nid(DA["algo_type"]), arg=nid(it), default=0, found=nid(type(a).__name__)))
        S.append(dict(name="rotor", dict=nid(DA.get("rotor_model")), arg=nid(over.get("rotor_model")), default=nid("centre"), found=nid(a.rotor_model.name)))
        S.append(dict(name="frame", dict=nid(DA.get("wake_frame")), arg=nid(over.get("wake_frame")), default=nid("rotor_wd"), found=nid(a.wake_frame.name)))
        S.append(dict(name="wakes", dict=nid(DA["wake_models"]), arg=nid(over.get("wake_models")), default=0, found=nid(list(a.wake_models))))
        pw = over.get("partial_wakes") or DA.get("partial_wakes")
        if pw:
            S.append(dict(name="partial wakes", dict=nid(DA.get("partial_wakes")), arg=nid(over.get("partial_wakes")), default=0,
                          found=nid(sorted({p.name for p in a.partial_wakes.values()})[0])))
        S.append(dict(name="farm name", dict=nid(D["wind_farm"].get("name")), arg=0, default=nid("wind_farm"), found=nid(a.farm.name)))
    ent = [o for o in D["outputs"] if o.get("output_type") == "VfPlain"]
    got = [s for s in SEEN if s[0] == "algo"]
    for o, s in zip(ent, got):
        e["sets"].append(dict(name="output parameter", dict=nid(o.get("par")), arg=0, default=nid(0), found=nid(s[3])))
    # results
    try:
        config[FC.INPUT_DIR] = d
        with contextlib.redirect_stdout(io.StringIO()):
            want = hand(D, over, None)
    except Exception as x:
        e.update(ok=0, err=f"by hand: {type(x).__name__}: {str(x)[:100]}")
        return e
    res = [s for s in SEEN if s[0] == "results"]
    fr = pr = None
    known = True
    if out is not None:
        fr = out[0]
        pr = out[1] if "calc_points" in D else None
        ol = out[-1]
        e["outs"] = [[] if r is None else [tok(x) for x in r] for _, r in ol] if isinstance(ol, list) else [[-9]]
    else:
        e["outs"] = [[] if prog["calls"][g - 1]["needs"] and not e["hasfarm"] else [10 * (c + 1) for c in range(f, g)] for f, g in zip([0] + prog["groups"][:-1], prog["groups"])]
        if res:
            fr, pr = res[0][1], res[0][2]
        else:
            known = False
    if known:
        jobs.append((e, "res", tables((fr, pr))))
        jobs.append((e, "want", tables(want)))
    return e


def record(jobs):
    NAMES.clear()
    return [session(s, h) for s, h in jobs]


def canary(t, rng):
    es = [e for e in t["ev"] if e["ok"]]
    if not es:
        return None
    e = rng.choice(es)
    k = rng.randrange(4)
    if k == 0:
        e["engine"] = 1
    elif k == 1 and e["log"]:
        e["log"] = e["log"][:-1]
    elif k == 2 and e["res"]:
        e["res"] = [e["res"][0] + 1] + e["res"][1:]
    elif k == 3 and e["sets"]:
        e["sets"][0]["found"] += 1
    else:
        return None
    return t


def run(chk):
    base = dict(MaxRuns=2, Bug="none", Emit=False)
    inv = ["Released", "Whole", "Same"]
    chk.mc("DictRun", constants=base, invariants=inv, properties=["Ends"])
    for b, x in (("consume", "Same"), ("consume", "Whole"), ("sticky", "Same"), ("leak", "Released"), ("leak", "Same"), ("order", "Same")):
        chk.mc("DictRun", constants=dict(base, Bug=b), invariants=[x], expect=x)
    n = env.cases(800, 8000)
    hists, r = behaviours("DictRun", dict(base, MaxRuns=3, Emit=True), simulate=n, seed=chk.seed, depth=40)
    chk.rng.shuffle(hists)
    chk.notes["histories_of_the_specification"] = len(hists)
    jobs = [(chk.seed * 100000 + k, h) for k, h in enumerate(hists)]
    chk.validate("DictTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=700), canary=canary)
