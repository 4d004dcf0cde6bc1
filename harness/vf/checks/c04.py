"""C04 at most one engine is active and its life cycle is enforced."""

import contextlib
import gc
import io
import random

import numpy as np

import foxes
import foxes.constants as FC
import foxes.variables as FV
from foxes.core import Engine, States, TurbineModel, get_engine, has_engine, reset_engine

from .. import env
from ..tlc import behaviours

LIGHT = ["numpy", "single", "threads", "default"]
HEAVY = ["process", "multiprocess", "dask"]
EXTRA = ["calc", "fail", "nest", "get", "getno", "getnew", "getobj", "algo", "map", "with", "withfail", "drop", "enter", "exit", "init", "final", "reset"]


class Boom(Exception):
    pass


class Steady(States):
    def __init__(self, n):
        super().__init__()
        self.n = n

    def size(self):
        return self.n

    def output_point_vars(self, algo):
        return [FV.WS, FV.WD, FV.TI, FV.RHO]

    def calculate(self, algo, mdata, fdata, tdata):
        shp = (tdata.n_states, tdata.n_targets, tdata.n_tpoints)
        tdata.add(FV.WEIGHT, np.full((mdata.n_states, 1, 1), 1.0 / self.n), (FC.STATE, FC.TARGET, FC.TPOINT))
        return {v: np.full(shp, x) for v, x in ((FV.WS, 9.0), (FV.WD, 270.0), (FV.TI, 0.05), (FV.RHO, 1.2))}


class Trouble(TurbineModel):
    """Raises, or tries to use another engine, while the calculation runs."""

    def __init__(self, what, chunk):
        super().__init__()
        self.what, self.chunk = what, chunk

    def output_farm_vars(self, algo):
        return ["probe"]

    def calculate(self, algo, mdata, fdata, st_sel):
        i0 = mdata.states_i0(counter=True)
        x = np.zeros((fdata.n_states, fdata.n_turbines))
        x[:] = i0 + np.arange(fdata.n_states)[:, None]
        if self.what == "fail" and i0 <= self.chunk < i0 + fdata.n_states:
            raise Boom("boom")
        if self.what == "nest":
            e = Engine.new("numpy", verbosity=0)
            try:
                e.initialize()
                x[:] = -1
            except ValueError:
                pass
        return {"probe": x}


def square(x):
    return x * x


class World:
    def __init__(self, seed, kinds):
        self.rng = random.Random(f"c04-{seed}")
        reset_engine()
        self.engines = [self.make(k) for k in kinds]
        self.n0 = len(kinds)
        self.ev = []

    def make(self, kind):
        kw = dict(progress_bar=False) if kind == "dask" else {}
        return Engine.new(kind, n_procs=self.rng.choice([1, 2]), chunk_size_states=self.rng.choice([None, 1, 2, 3]) if kind != "dask" else 2, verbosity=0, **kw)

    def calculation(self, what):
        n = self.rng.randint(1, 4)
        nt = 1
        reg = get_engine(error=False, default=False)
        if type(reg).__name__ == "DefaultEngine" and self.rng.random() < 0.05:
            n, nt = 8, 130 * int(np.ceil(reg.n_procs ** (1 / 3)))
        local = type(reg).__name__ in ("NumpyEngine", "SingleChunkEngine", "ThreadsEngine") or (reg is None or type(reg).__name__ == "DefaultEngine") and nt == 1
        mb = foxes.ModelBook()
        mb.turbine_models["trouble"] = Trouble(what if what != "nest" or local else "", self.rng.randrange(n))
        farm = foxes.WindFarm()
        for k in range(nt):
            farm.add_turbine(foxes.Turbine(xy=[0.0, 500.0 * k], turbine_models=["null_type", "trouble"], D=100.0, H=100.0), verbosity=0)
        algo = foxes.algorithms.Downwind(farm, Steady(n), wake_models=[], mbook=mb, verbosity=0)
        r = algo.calc_farm(outputs=["probe", FV.WS, FV.REWS])
        return np.array_equal(r["probe"].to_numpy()[:, 0], np.arange(n)) and np.allclose(r[FV.REWS].to_numpy(), 9.0)

    def act(self, a, k):
        E = self.engines
        if a == "enter":
            return E[k - 1].__enter__() is E[k - 1]
        if a == "exit":
            E[k - 1].__exit__(None, None, None)
        elif a == "init":
            E[k - 1].initialize()
        elif a == "final":
            E[k - 1].finalize()
        elif a == "reset":
            reset_engine()
        elif a in ("calc", "fail", "nest"):
            return self.calculation(a)
        elif a == "get":
            return get_engine() is not None
        elif a == "getno":
            return get_engine(default=False) is not None
        elif a == "getnew":
            return get_engine(default=dict(engine_type="numpy", n_procs=1, verbosity=0)) is not None
        elif a == "getobj":
            return get_engine(default=E[k - 1]) is not None
        elif a == "algo":
            farm = foxes.WindFarm()
            foxes.algorithms.Downwind(farm, Steady(1), wake_models=[], verbosity=0, **{self.rng.choice(["engine", "engine_type"]): self.rng.choice(LIGHT)})
        elif a == "map":
            r = get_engine(error=False, default=False)
            if r is not None:
                n = self.rng.randint(0, 4)
                got = E[E.index(r)].map(square, list(range(n)))
                return [int(x) for x in got] == [x * x for x in range(n)]
        elif a in ("with", "withfail"):
            with E[k - 1] as e:
                if a == "withfail":
                    raise Boom("boom")
                return e is E[k - 1] and get_engine(default=False) is e
        elif a == "drop":
            kind = type(E[k - 1]).__name__
            try:
                E[k - 1].initialize()  # refused, as another one is registered
            except ValueError:
                pass
            E[k - 1] = self.make(self.rng.choice(LIGHT))
            gc.collect()
        return True

    def do(self, a, k):
        e = dict(a=a, k=k, ok=1, err="", boom=0, res=1)
        reg = get_engine(error=False, default=False)
        if a == "drop" and (reg is None or reg is self.engines[k - 1]):
            return
        if a == "map":
            if reg is None or (type(reg).__name__ == "DefaultEngine" and self.rng.random() < 0.7):
                return
            e["k"] = self.engines.index(reg) + 1
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                e["res"] = int(bool(self.act(a, k)))
            except Boom as x:
                e.update(ok=0, err=str(x), boom=int(x.args == ("boom",)))
            except Exception as x:
                e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:100]}")
        reg = get_engine(error=False, default=False)
        if reg is not None and not any(x is reg for x in self.engines):
            self.engines.append(reg)
        e["reg"] = 0 if reg is None else [x is reg for x in self.engines].index(True) + 1
        e["n"], e["has"] = len(self.engines), int(has_engine())
        e["on"] = [k + 1 for k, x in enumerate(self.engines) if x.entered]
        e["up"] = [k + 1 for k, x in enumerate(self.engines) if x.initialized]
        self.ev.append(e)

    def close(self, name, tags):
        for x in self.engines:
            with contextlib.suppress(Exception):
                x.finalize()
        reset_engine()
        return dict(id=name, cfg=dict(n=self.n0), ev=self.ev, tags=tags)


def history(arg):
    seed, acts = arg
    rng = random.Random(f"c04-k{seed}")
    heavy = seed % 10 == 0 and acts is None
    if acts is None:
        n = rng.randint(1, 3)
        kinds = [rng.choice(HEAVY if heavy and rng.random() < 0.5 else LIGHT) for _ in range(n)]
        w = World(seed, kinds)
        for _ in range(rng.randint(2, 12)):
            w.do(rng.choice(EXTRA), rng.randint(1, len(w.engines)))
    else:
        kinds = [rng.choice(["numpy", "single", "threads"]), "default"]
        w = World(seed, kinds)
        for a, k in acts:
            w.do(a, k)
    if not w.ev:
        w.do("getno", 0)
    return w.close(f"c04-{seed}", ["walk" if acts is None else "all"])


def record(args):
    return [history(a) for a in args]


def canary(t, rng):
    e = t["ev"][-1]
    e[rng.choice(["ok", "has"])] ^= 1
    return t


def run(chk):
    T = env.THOROUGH
    inv = ["AtMostOne", "NoneStuck", "AsPromised", "BackAfterCalc"]
    base = dict(NEngines=3, MaxLen=6 if T else 4, Bug="", Emit=False)
    chk.mc("EngineLife", constants=base, invariants=inv)
    for b, i in (("stuck", "NoneStuck"), ("lost", "BackAfterCalc"), ("steal", "AtMostOne"), ("clear", "AtMostOne")):
        chk.mc("EngineLife", constants=dict(base, MaxLen=4, Bug=b), invariants=inv, expect=i)
    hists, r = behaviours("EngineLife", dict(base, NEngines=2, Emit=True, MaxLen=4 if T else 3))
    chk.log(f"EngineLife: {len(hists)} action sequences to replay")
    jobs = [(10**6 + k, h) for k, h in enumerate(hists)]
    n = env.cases(400, 5000)
    jobs += [(chk.seed * 100000 + k, None) for k in range(n)]
    chk.validate("EngineLifeTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=600), canary=canary)
    chk.assumptions += ["cluster, MPI and Ray engines are not part of the sequences; calculations run through the registered engine"]
