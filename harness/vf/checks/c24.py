"""C24 a failed calculation leaves a usable system behind."""

import contextlib
import io
import os
import random

import numpy as np

import foxes
import foxes.constants as FC
import foxes.variables as FV
from foxes.core import FData, MData, TData, get_engine

from .. import env, zoo
from ..tlc import behaviours

OPS = ["farm", "points", "iter", "ipoints", "amb", "other"]
END = 99


class Boom(Exception):
    pass


class BoomKey(KeyError):
    pass


class BoomValue(ValueError):
    pass


class BoomAttr(AttributeError):
    pass


class BoomIndex(IndexError):
    pass


class BoomInterrupt(BaseException):
    pass


KINDS = [Boom, Boom, BoomKey, BoomValue, BoomAttr, BoomIndex]


class Fault:
    """Stands in for a method of one object and raises an error in certain calls."""

    def __init__(self, obj, name, path, kind, state=None, it=None, skip=0):
        self.obj, self.name, self.path, self.kind, self.state, self.it, self.skip = obj, name, path, kind, state, it, skip
        self.armed = True

    def hits(self, args):
        if not self.armed:
            return False
        if self.state is not None:
            for a in args:
                if isinstance(a, (MData, FData, TData)) and FC.STATE in a.loop_dims:
                    try:
                        i0 = a.states_i0(counter=True)
                    except KeyError:
                        continue
                    if i0 is not None and not i0 <= self.state < i0 + a.n_states:
                        return False
                    break
        if self.it is not None:
            for a in args:
                if isinstance(a, foxes.algorithms.Iterative) and (a.iterations or 0) < self.it:
                    return False
        if self.skip > 0:
            self.skip -= 1
            return False
        return True

    def __call__(self, *args, **kwargs):
        if self.hits(list(args) + list(kwargs.values())):
            with open(self.path, "ab") as f:
                f.write(b"x")
            raise self.kind("boom", 7)
        return getattr(type(self.obj), self.name)(self.obj, *args, **kwargs)


class Alter(foxes.core.PointDataModel):
    """A point model on top of the states and wakes."""

    def output_point_vars(self, algo):
        return ["probe"]

    def calculate(self, algo, mdata, fdata, tdata):
        return {"probe": 2.0 * tdata[FV.WS]}


class Plugin(foxes.algorithms.sequential.SequentialPlugin):
    pass


def models(alg):
    out, todo = [], [alg]
    while todo:
        m = todo.pop()
        if isinstance(m, foxes.core.Model) and not any(m is x for x in out):
            out.append(m)
            with contextlib.suppress(AttributeError):  # sub-models that come with the initialisation
                todo += list(m.sub_models())
    return out


class World:
    """The objects of one user: four algorithms under one engine."""

    def __init__(self, scn, scn2, scni):
        self.inputs = []
        self.scn = scn
        self.A = self.build(scn, "Downwind")
        self.B = self.build(scni, "Iterative")
        self.O = self.build(scn2, "Downwind")
        self.S = self.build(scn, "Sequential")
        self.pm = {id(x): Alter() for x in (self.A, self.B)}
        self.ns = len(scn["rows"])
        self.pts = zoo.point_array(scn, self.ns, False)
        self.nseq = 0
        self.fres = {}

    def build(self, scn, algo):
        kw = dict(max_it=scn["max_it"]) if algo != "Downwind" else {}
        if algo == "Sequential":
            kw["plugins"] = [Plugin(), Plugin()]
        a = zoo.build(scn, algo=algo, **kw)[0]
        self.inputs += zoo.INPUTS
        return a

    def alg(self, op):
        return dict(farm=self.A, points=self.A, amb=self.A, iter=self.B, ipoints=self.B, other=self.O, seq=self.S)[op]

    def call(self, op):
        a = self.alg(op)
        if op == "seq":
            if not a.iterating or self.nseq == 0:
                iter(a)
            try:
                r = next(a)
            except StopIteration:
                self.nseq = 0
                return a.farm_results
            self.nseq += 1
            return r
        if op in ("points", "ipoints"):
            return a.calc_points(self.fres[op], self.pts, point_models=[self.pm[id(a)]])
        return a.calc_farm(**(dict(ambient=True) if op == "amb" else {}))


def image(op, r):
    t, labels, _ = zoo.observe(r, "point" if op in ("points", "ipoints") else FC.TURBINE)
    return {v: x for v, x in t.items() if v != "order_ssel"}, labels


def agree(a, b):
    if set(a[0]) != set(b[0]) or a[1] != b[1]:
        return False
    for v in a[0]:
        x, y = a[0][v], b[0][v]
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-7, atol=1e-9, equal_nan=True):
            return False
    return True


def reference(scn, scn2, scni):
    """{number: image} of the results without failures; also the farm results needed by points."""
    with zoo.engine("single"):
        w = World(scn, scn2, scni)
        w.fres["points"] = w.call("farm")
        w.fres["ipoints"] = w.call("iter")
        ref = {}
        for k, op in enumerate(OPS):
            ref[k + 1] = image(op, w.fres[dict(farm="points", iter="ipoints")[op]] if op in ("farm", "iter") else w.call(op))
        for i in range(w.ns):
            ref[100 + i] = image("seq", w.call("seq"))
        ref[END] = image("seq", w.call("seq"))
    return ref, w.fres


def places(w, op, stage, eng, rng):
    """(object, method) at which the call may fail."""
    a = w.alg(op)
    ms = [m for m in models(a) if m is not a]
    fc = a.farm_controller
    tm = [m for m in fc.pre_rotor_models.models + fc.post_rotor_models.models] if fc.initialized or fc.pre_rotor_models is not None and fc.pre_rotor_models.models else []
    types = [t for t in dict.fromkeys(fc.turbine_types) if t is not None]
    st = a.states.states if op == "seq" else a.states
    if stage == "init":
        if op == "seq" and not a.iterating and rng.random() < 0.5:
            return [(p, "initialize") for p in a.plugins]
        if isinstance(a, foxes.algorithms.Iterative) and rng.random() < 0.15:
            return [(t, "modify_cutin") for t in types]
        if rng.random() < 0.1:
            return [(st, "calculate"), (st, "output_point_vars")] + ([(st, "index"), (st, "size")] if op != "seq" else [])
        return [(m, x) for m in ms + tm for x in ("load_data", "initialize")] + [(m, "output_farm_vars") for m in tm + [a.rotor_model]] + [(a, "get_models_data")]
    if stage == "combine":
        out = [(eng, "combine_results"), (eng, "get_chunk_input_data"), (a, "get_models_data"), (eng, "select_subsets")]
        if op in ("points", "ipoints"):
            out.append((a, "new_point_data"))
        if op in ("iter", "seq") and a.conv_crit is not None:
            out += 2 * [(a.conv_crit, "check_converged")]
        return out
    cand = [(st, "calculate")] * 2 + [(a.rotor_model, x) for x in ("calculate", "eval_rpoint_results", "from_data_or_store")] + [(fc, "calculate")]
    cand += [(m, "calculate") for m in tm + types]
    cand += [(a.wake_frame, x) for x in ("calc_order", "get_wake_coos", "get_wake_coos")]
    cand += [(m, x) for m in a.wake_models.values() for x in ("new_wake_deltas", "contribute", "finalize_wake_deltas")]
    cand += [(m, x) for m in a.partial_wakes.values() for x in ("get_wake_points", "new_wake_deltas", "contribute", "finalize_wakes")]
    cand += [(m, x) for m in a.ground_models.values() for x in ("contribute_to_farm_wakes", "contribute_to_point_wakes")]
    cand += [(m, "calculate") for m in ms if type(m).__module__.startswith("foxes.models.vertical_profiles")]
    cand += [(m.superp, x) for m in a.wake_models.values() if hasattr(m, "superp") for x in ("add_wake", "calc_final_wake_delta")]
    if op in ("points", "ipoints"):
        cand += [(w.pm[id(a)], "calculate")] * 3
    if op == "seq":
        cand += [(p, "update") for p in a.plugins] * 2
    return [(o, x) for o, x in cand if hasattr(type(o), x)]


def history(arg):
    seed, acts, ename = arg
    rng = random.Random(f"c24-{seed}")
    ns = rng.randint(2, 5)
    kinds = ("table",) if rng.random() < 0.5 else ("table", "profile", "abl", "timeseries", "multiheight", "fixed")
    kw = dict(state_kinds=kinds, frames=("rotor_wd",) if rng.random() < 0.6 else ("rotor_wd", "yawed_k002", "streamlines_100", "rotor_wd_farmo"),
              rotors=("centre", "grid4"), npoints=3)
    scn = zoo.gen(rng, n_states=ns, n_turbines=rng.randint(2, 3), **kw)
    scn2 = zoo.gen(rng, n_states=rng.randint(1, 3), n_turbines=2, **kw)
    scni = scn
    r = rng.random()
    if r < 0.2:
        scni = zoo.gen(rng, n_states=ns, n_turbines=2, state_kinds=("timeseries",), frames=("timelines", "timelines_10min"), rotors=("centre",), grounds=False, npoints=3)
    elif r < 0.35:
        scni = zoo.gen(rng, n_states=ns, n_turbines=2, state_kinds=("onepoint", "field"), rotors=("centre",), npoints=3)
    scni["max_it"] = scn["max_it"] = scn2["max_it"] = rng.choice([None, None, 2, 4])
    # turbine selections and tables of the sequential algorithm's shared models are per state
    ev, n_ops = [], 0
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        ref, fres = reference(scn, scn2, scni)
        ekw = {} if ename == "single" else dict(n_procs=rng.randint(2, 3), chunk_size_states=rng.choice([1, 1, 2, None]), chunk_size_points=rng.choice([None, 1, 2]))
        with zoo.engine(ename, **ekw) as eng:
            w = World(scn, scn2, scni)
            w.fres = fres
            if scni["frame"].startswith("timelines"):
                w.call("iter")  # point results need earlier results of the same algorithm
            for op, stage in acts:
                e = dict(op=op, stage=stage, where="", fired=0, ok=1, boom=0, vals=[], run=[], err="", alt=[], reg=1, on=1)
                path = env.SCRATCH / f"c24-{os.getpid()}-{seed}-{n_ops}"
                n_ops += 1
                obj = None
                if stage != "none":
                    obj, name = rng.choice(places(w, op, stage, eng, rng))
                    e["where"] = f"{type(obj).__name__}.{name}"
                    kind = BoomInterrupt if ename in ("single", "numpy") and rng.random() < 0.1 else rng.choice(KINDS)
                    if name in ("load_data", "initialize", "output_farm_vars") and obj is not eng and rng.random() < 0.5:
                        # make sure that there is something to initialise
                        a = w.alg(op)
                        if a.initialized and not a.running and op != "seq":
                            a.finalize()
                    f = Fault(obj, name, path, kind, state=rng.choice([None, rng.randrange(ns)]) if op not in ("other", "seq") else None,
                              it=rng.choice([None, 0, 1, 2]) if op in ("iter", "seq") else None, skip=rng.choice([0, 0, 0, 1, 2, 5]) if stage == "chunk" else 0)
                    obj.__dict__[name] = f
                try:
                    r = w.call(op)
                    im = image(op, r)
                    e["vals"] = [k for k, x in ref.items() if agree(x, im)]
                except BaseException as x:
                    if isinstance(x, (SystemExit, KeyboardInterrupt)):
                        raise
                    e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:90]}")
                    if obj is not None:
                        e["boom"] = int(type(x) is kind and x.args == ("boom", 7))
                finally:
                    if obj is not None:
                        f.armed = False
                        obj.__dict__.pop(name, None)
                if path.exists():
                    e["fired"] = 1
                    path.unlink()
                e["run"] = sorted({m.name for x in (w.A, w.B, w.O, w.S) for m in models(x) if m.running})
                e["reg"] = int(get_engine(error=False, default=False) is eng)
                e["on"] = int(eng.entered and eng.initialized)
                e["alt"] = sorted({n for n, o, im in w.inputs if zoo.fingerprint(o) != im})
                ev.append(e)
    return dict(id=f"c24-{seed}", cfg=dict(n=ns), ev=ev, tags=[ename], scn=scn)


def record(args):
    return [history(a) for a in args]


def canary(t, rng):
    k = rng.randrange(len(t["ev"]))
    e = t["ev"][k]
    c = rng.randrange(4)
    if c == 0:
        e["vals"] = []
        if e["ok"] == 0:
            e["boom"] = 0
    elif c == 1:
        e["run"] = ["x"]
    elif c == 2:
        e["reg"] = 0
    elif e["fired"]:
        e["ok"], e["vals"] = 1, [1]
    else:
        e["ok"] = 0
    return t


def walk(rng):
    acts = walk0(rng)
    if rng.random() < 0.15:
        k = rng.randint(0, len(acts))
        acts = acts[:k] + [("iter", "none"), ("iter", rng.choice(["chunk", "combine"])), ("ipoints", "none")] + acts[k:]
    return acts


def walk0(rng):
    """Failures, each followed by a retry sooner or later."""
    n = rng.randint(3, 9)
    ops = rng.sample(OPS + ["seq"], rng.randint(1, 3))
    return [(rng.choice(ops), rng.choice(["none", "none", "init", "chunk", "chunk", "combine"])) for _ in range(n)] + [(o, "none") for o in ops]


def run(chk):
    T = env.THOROUGH
    inv = ["AsPromised", "StepsAgree", "NoneRunning", "DataThere"]
    stages = {"none", "init", "chunk", "combine"}
    base = dict(NModels=2, NChunks=2, NStates=2, Ops={"farm", "seq"}, Stages=stages, MaxLen=4 if T else 3, Bug="", Emit=False)
    chk.mc("FaultRun", constants=base, invariants=inv, properties=["Answers"])
    for b, i in (("norestore", "NoneRunning"), ("halfinit", "DataThere"), ("partial", "AsPromised"), ("stale", "AsPromised"), ("skip", "StepsAgree")):
        chk.mc("FaultRun", constants=dict(base, Bug=b), invariants=[i], expect=i)
    hists, r = behaviours("FaultRun", dict(base, NModels=1, NChunks=1, Ops=set(OPS) | {"seq"}, MaxLen=2, Emit=True))
    chk.log(f"FaultRun: {len(hists)} histories to replay")
    rng = random.Random(chk.seed)
    jobs = []
    for k, h in enumerate(hists):
        ops = [o for o, _ in h]
        jobs.append((f"{chk.seed}-b{k}", list(h) + [(o, "none") for o in dict.fromkeys(ops)], "numpy" if k % 2 else "single"))
    engines = ["single", "numpy", "numpy", "threads", "threads", "process", "default", "multiprocess"]
    for k in range(env.cases(160, 4000)):
        jobs.append((f"{chk.seed}-w{k}", walk(rng), engines[k % len(engines)]))
    chk.validate("FaultTrace", chk.record(record, [jobs[i::48] for i in range(48)], timeout=800), canary=canary)
    chk.assumptions += ["failures are raised by calls of models, of the engine's hand-over and of the convergence criterion; worker processes that die are not part of it"]
