"""C13 turbine models run in the configured order, only where configured."""

import contextlib
import io
import random

import numpy as np
import pandas as pd

import foxes
import foxes.constants as FC
import foxes.models as fm
import foxes.variables as FV
from foxes.core import FarmDataModelList, TurbineModel

from .. import env, zoo
from ..tlc import Raw

KEEP = 12
BASE = 16


class Mark(TurbineModel):
    """Leaves a mark wherever it is applied."""

    def __init__(self, pre, code, used=None):
        super().__init__(pre_rotor=pre)
        self.code, self.used = code, used
        self.var_h, self.var_s = ("HPRE", "SPRE") if pre else ("HPOST", "SPOST")

    def output_farm_vars(self, algo):
        return [self.var_h, self.var_s]

    def calculate(self, algo, mdata, fdata, st_sel, extra=0):
        self.ensure_variables(algo, mdata, fdata)
        h = fdata[self.var_h][st_sel]
        h = np.where(np.isnan(h), 0.0, h)
        fdata[self.var_h][st_sel] = np.mod(h * BASE + self.code + extra, float(BASE**KEEP))
        r = fdata[FV.REWS][st_sel] if FV.REWS in fdata else np.full_like(h, np.nan)
        fdata[self.var_s][st_sel] = np.where(np.isnan(r), 0.0, 1.0)
        return {v: fdata[v] for v in self.output_farm_vars(algo)}


def marks(x):
    if np.isnan(x):
        return []
    n, out = int(round(float(x))), []
    while n:
        out.append(n % BASE)
        n //= BASE
    return out[::-1]


def scenario(seed):
    rng = random.Random(f"c13-{seed}")
    mb = fm.ModelBook()
    ns, nt = rng.randint(1, 6), rng.randint(1, 5)
    extra = {}
    book = {}
    for k in range(1, 9):
        nm, pre = f"mark{k}", rng.random() < 0.4
        mb.turbine_models[nm] = Mark(pre, k)
        code = k
        if rng.random() < 0.15 and k < 6:
            extra[nm] = 5
            code = k + 5
        book[nm] = [dict(name=nm, pre=int(pre), code=code, type=0)]
    # entries that stand for several models
    for k in range(2):
        subs = [Mark(rng.random() < 0.3, 12 + 2 * k + i) for i in range(2)]
        if rng.random() < 0.8:
            subs.sort(key=lambda m: not m.pre_rotor)
        nm = f"group{k}"
        for i, m in enumerate(subs):
            m.name = f"{nm}_{i}"
        mb.turbine_models[nm] = FarmDataModelList(models=subs) if rng.random() < 0.5 else subs[0] + subs[1]
        book[nm] = [dict(name=m.name, pre=int(m.pre_rotor), code=m.code, type=0) for m in subs]
    for nm in ("typeA", "typeB"):
        mb.turbine_types[nm] = fm.turbine_types.PCtFile(pd.DataFrame(dict(ws=[0.0, 50.0], P=[5.0, 5.0], ct=[0.8, 0.8])), col_ws="ws", col_P="P", col_ct="ct",
                                                        D=100.0, H=100.0, p_ct=None, p_P=None)
        book[nm] = [dict(name=nm, pre=0, code=0, type=1)]
    order = rng.sample([k for k in book if not k.startswith("type")], len(book) - 2)
    typat = {nm: rng.randint(0, len(order)) for nm in ("typeA", "typeB")}
    how = rng.choice(["sorted", "sorted", "sorted", "sorted", "free", "free", "twice", "bad"])
    lists = []
    for t in range(nt):
        names = [m for m in order if rng.random() < 0.35][:4]
        if how in ("free",):
            rng.shuffle(names)
        if how == "twice" and names and rng.random() < 0.5:
            names.insert(rng.randint(0, len(names)), rng.choice(names))
        ty = rng.choice(["typeA", "typeA", "typeB"])
        full = [m for m in names if how != "sorted" or order.index(m) < typat[ty]] + [ty] + [m for m in names if how == "sorted" and order.index(m) >= typat[ty]]
        if how != "sorted":
            full = names[:]
            full.insert(rng.randint(0, len(names)) if how == "free" else len(names), ty)
        lists.append(full)
    if how == "bad":
        L = rng.choice(lists)
        q = rng.choice(["unknown", "none", "two"])
        if q == "unknown":
            L.insert(rng.randint(0, len(L)), "nosuchmodel")
        elif q == "none":
            L[:] = [m for m in L if not m.startswith("type")]
        else:
            L.append("typeB" if "typeA" in L else "typeA")
    farm = foxes.WindFarm()
    shared = []  # lists given by several turbines
    desc = []
    for t, L in enumerate(lists):
        sels = [None if rng.random() < 0.5 else np.array([rng.random() < 0.5 for _ in range(ns)]) for _ in L]
        kw = {}
        if any(s is not None for s in sels) and rng.random() < 0.6:
            kw = dict(turbine_models=list(L), models_state_sel=list(sels))
            T = foxes.Turbine(xy=[rng.uniform(-3000, 3000), rng.uniform(-3000, 3000)], **kw)
        else:  # built up by single additions
            T = foxes.Turbine(xy=[rng.uniform(-3000, 3000), rng.uniform(-3000, 3000)], turbine_models=[])
            idx = list(range(len(L)))
            if rng.random() < 0.5:
                for i in idx:
                    T.add_model(L[i], states_sel=sels[i])
            else:
                for i in reversed(idx):
                    T.insert_model(0, L[i], states_sel=sels[i])
        # turbine types act everywhere, their selection does not matter here
        desc.append([dict(parts=book.get(m, []), sel=[] if s is None else [int(x) for x in s]) for m, s in zip(L, sels)])
        farm.add_turbine(T, verbosity=0)
    df = pd.DataFrame(dict(wd=[rng.uniform(0, 360) for _ in range(ns)], ws=[rng.uniform(4, 12) for _ in range(ns)]))
    states = foxes.input.states.StatesTable(df, ["WS", "WD", "TI", "RHO"], dict(WS="ws", WD="wd"), dict(TI=0.05, RHO=1.2))
    alg = rng.choice(["Downwind", "Downwind", "Downwind", "Iterative", "ambient"])
    wakes = [] if alg == "ambient" else rng.choice([[], ["Jensen_linear_k007"], ["Jensen_linear_k007"], ["Jensen_linear_k007", "CrespoHernandez_quadratic_k004"]])
    ev = []
    eng = rng.choice(["single", "numpy", "numpy", "threads"])
    kw = dict(chunk_size_states=rng.randint(1, ns), chunk_size_points=100, n_procs=2)
    try:
        with contextlib.redirect_stdout(io.StringIO()), zoo.engine(eng, **kw):
            A = getattr(foxes.algorithms, "Iterative" if alg == "Iterative" else "Downwind")
            a = A(farm, states, wakes, mbook=mb, verbosity=0, **(dict(max_it=rng.randint(1, 3)) if alg == "Iterative" else {}))
            for m in extra:
                a.farm_controller.set_pars(m, init_pars={}, calc_pars=dict(extra=5), final_pars={})
            for rep in range(rng.choice([1, 1, 2])):
                r = a.calc_farm(**(dict(ambient=True) if alg == "ambient" else {}))
                get = lambda v: r[v].to_numpy() if v in r else np.full((ns, nt), np.nan)
                for s in range(ns):
                    e = dict(t="result", s=s + 1, marks=[[marks(x) for x in get(v)[s]] for v in ("HPRE", "HPOST")],
                             seen=[[int(x) if np.isfinite(x) else 2 for x in get(v)[s]] for v in ("SPRE", "SPOST")])
                    ev.append(e)
    except Exception as x:
        ev.append(dict(t="refused", err=f"{type(x).__name__}: {str(x)[:100]}"))
    finally:
        # parameters are shared by all controllers that were made without
        pass
    return dict(id=f"c13-{seed}", cfg=dict(lists=desc, keep=KEEP, what="" if alg != "Iterative" else ", iterative"), ev=ev, tags=[how, alg], scn=dict(lists=lists, engine=eng))


def record(seeds):
    return [scenario(s) for s in seeds]


def canary(t, rng):
    es = [e for e in t["ev"] if e["t"] == "result"]
    if not es:
        return None
    e = rng.choice(es)
    p = rng.randrange(2)
    c = [h for h in e["marks"][p]]
    k = rng.randrange(len(c))
    if c[k] and rng.random() < 0.5:
        c[k][-1] = c[k][-1] % 15 + 1
        e["marks"][p][k] = c[k]
    else:
        e["marks"][p][k] = [9] if not c[k] else []
    return t


def run(chk):
    T = env.THOROUGH
    base = dict(NT=3, MaxLen=3 if T else 2, Mods=Raw('{"a", "b", "c"}'), Bug="")
    inv = ["RefusedRight", "OrderKept", "OncePerModel"]
    chk.mc("ModelMerge", constants=base, invariants=inv)
    chk.mc("ModelMerge", constants=dict(base, MaxLen=2, Bug="first"), invariants=inv, expect="OrderKept")
    chk.mc("ModelMerge", constants=dict(base, MaxLen=2, Bug="stuck"), invariants=inv, expect="RefusedRight")
    n = env.cases(600, 10000)
    jobs = [chk.seed * 100000 + k for k in range(n)]
    chk.validate("ModelTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=600), canary=canary)
    chk.assumptions += ["lists in which one turbine names the same model twice may be refused or accepted; if accepted the order holds"]
