"""C16 a model name selects exactly the model and parameters it spells out."""

import functools
import inspect
import random
import re

import numpy as np

import foxes.constants as FC
import foxes.models as fm
import foxes.variables as FV
from foxes.core import FData
from foxes.utils import FDict

from .. import env

UNIT = 100000
TI1, TI2 = 8, 5  # TI = 1/8, AMB_TI = 1/5

K = lambda name, pre="", opts=(): dict(name=name, pre=[ord(c) for c in pre], opts=list(opts))


def enc(v):
    if isinstance(v, bool):
        return [-1, int(v)]
    if v is None:
        return [-2]
    if isinstance(v, str):
        return [ord(c) for c in v]
    if isinstance(v, (int, float, np.number)):
        return [int(round(float(v) * UNIT))]
    if isinstance(v, (list, tuple)):
        return [-3] + [x for w in v for x in enc(w)]
    return [-9]


def pattern(template, cls, kinds, args, fixed):
    lits, var, rest = [], [], template
    while "<" in rest:
        a, rest = rest.split("<", 1)
        v, rest = rest.split(">", 1)
        lits.append(a)
        var.append(v)
    lits.append(rest)
    # the class refuses growth rates that depend on turbulence
    refuse = int(cls == "TurbOParkWakeIX" and "ka" in "".join(var))
    return dict(text=template, cls=cls, refuse=refuse, lits=[[ord(c) for c in l] for l in lits], kinds=[kinds[v] for v in var],
                args=[args.get(v, v) for v in var], fixed=[[k, enc(v)] for k, v in fixed.items()])


# the documented name patterns of the model book
WS, TIK, DEC, NUM, INT = K("text", "ws_"), K("text", "ti_"), K("dec"), K("num"), K("int")


def wakek(template, cls, kinds, fixed):
    out = []
    for suf, tiv in (("_ka<ka>_kb<kb>", FV.TI), ("_ambka<ambka>_kb<kb>", FV.AMB_TI), ("_ka<ka>", FV.TI), ("_ambka<ambka>", FV.AMB_TI),
                     ("_k<k>", FV.TI), ("", FV.TI)):
        out.append(pattern(template.replace("_[wake_k]", suf), cls, dict(kinds, ka=DEC, kb=DEC, k=DEC, ambka=DEC), {"ambka": "ka"}, dict(fixed, ti_var=tiv)))
    return out


def documented():
    b = {}
    r = b["rotor_models"] = []
    for t, c, kd in (("grid<n2>", "GridRotor", dict(n2=K("root"))), ("level<n>", "LevelRotor", dict(n=INT))):
        r.append(pattern(t, c, kd, {"n2": "n"}, dict(reduce=True)))
        r.append(pattern(t + "_raw", c, kd, {"n2": "n"}, dict(reduce=False)))
    t = b["turbine_models"] = []
    for amb, fx in (("", {}), ("amb_", dict(ti_var=FV.AMB_TI))):
        t.append(pattern(f"kTI_{amb}<kTI>_<kb>", "kTI", dict(kTI=DEC, kb=DEC), {}, fx))
        t.append(pattern(f"kTI_{amb}<kTI>", "kTI", dict(kTI=DEC), {}, fx))
    b["partial_wakes"] = [pattern("axiwake<n>", "PartialAxiwake", dict(n=INT), {}, {}), pattern("grid<n2>", "PartialGrid", dict(n2=K("root")), {"n2": "n"}, {})]
    b["wake_frames"] = wakek("yawed_[wake_k]", "YawedWakes", {}, {}) + [
        pattern("streamlines_<step>", "Streamlines2D", dict(step=NUM), {}, {}),
        pattern("timelines_<dt>", "Timelines", dict(dt=K("time")), {"dt": "dt_min"}, {}),
        pattern("dyn_wakes_<length>", "DynamicWakes", dict(length=K("dist")), {"length": "max_length_km"}, {}),
        pattern("seq_dyn_wakes_<dt>", "SeqDynamicWakes", dict(dt=K("time")), {"dt": "dt_min"}, {})]
    w = b["wake_models"] = []
    for n, c, fx in (("Jensen", "JensenWake", dict(induction="Betz")),
                     ("Bastankhah2014", "Bastankhah2014", dict(sbeta_factor=0.2, induction="Madsen")),
                     ("Bastankhah2014B", "Bastankhah2014", dict(sbeta_factor=0.2, induction="Betz")),
                     ("Bastankhah025", "Bastankhah2014", dict(sbeta_factor=0.25, induction="Madsen")),
                     ("Bastankhah025B", "Bastankhah2014", dict(sbeta_factor=0.25, induction="Betz")),
                     ("Bastankhah2016", "Bastankhah2016", dict(induction="Madsen")), ("Bastankhah2016B", "Bastankhah2016", dict(induction="Betz")),
                     ("TurbOPark", "TurbOParkWake", dict(induction="Madsen")), ("TurbOParkB", "TurbOParkWake", dict(induction="Betz"))):
        w += wakek(n + "_<superposition>_[wake_k]", c, dict(superposition=WS), fx)
    w += wakek("TurbOParkIX_<superposition>_[wake_k]_dx<dx>", "TurbOParkWakeIX", dict(superposition=WS, dx=NUM), {})
    w += wakek("CrespoHernandez_<superposition>_[wake_k]", "CrespoHernandezTIWake", dict(superposition=TIK), dict(use_ambti=False))
    for y in ("2019", "2005"):
        w.append(pattern(f"IECTI{y}_<superposition>", "IECTIWake", dict(superposition=TIK), {}, dict(iec_type=y)))
        w += wakek(f"IECTI{y}k_<superposition>_[wake_k]", "IECTIWake", dict(superposition=TIK), dict(iec_type=y, opening_angle=None))
    for n in ("VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"):
        w.append(pattern(n + "_<superposition>", n, dict(superposition=WS), {}, {}))
    b["ground_models"] = [pattern("blh_mirror_h<height>", "WakeMirror", dict(height=K("level")), {"height": "heights"}, {})]
    for n in ("point_models", "turbine_types", "farm_models", "farm_controllers", "wake_superpositions", "axial_induction"):
        b[n] = []
    return b


def watch(cls):
    """Makes objects remember the arguments of their construction."""
    if "_vf_init" in cls.__dict__:
        return
    o = cls.__init__
    sig = inspect.signature(o)

    @functools.wraps(o)
    def init(self, *a, **k):
        if "_vf_args" not in self.__dict__:
            bd = sig.bind(self, *a, **k)
            bd.apply_defaults()
            args, dflt = {}, []
            for n, p in list(sig.parameters.items())[1:]:
                if p.kind == p.VAR_KEYWORD:
                    args.update(bd.arguments[n])
                elif p.kind != p.VAR_POSITIONAL:
                    args[n] = bd.arguments[n]
                    if p.default is not p.empty and (bd.arguments[n] is p.default or enc(bd.arguments[n]) == enc(p.default)):
                        dflt.append(n)
            self.__dict__["_vf_args"] = (args, dflt, type(self).__name__)
        o(self, *a, **k)

    cls.__init__ = init
    cls._vf_init = True


def growth(obj):
    """The growth rate that an object computes from TI=1/TI1 and AMB_TI=1/TI2."""
    dms = (FC.STATE, FC.TURBINE)
    fdata = FData(data={v: np.full((1, 1), x) for v, x in ((FV.TI, 1 / TI1), (FV.AMB_TI, 1 / TI2), (FV.K, -1.0))},
                  dims={v: dms for v in (FV.TI, FV.AMB_TI, FV.K)}, loop_dims=[FC.STATE], states_i0=0)
    if isinstance(obj, fm.turbine_models.kTI):
        k = obj.calculate(None, None, fdata, np.ones((1, 1), dtype=bool))[FV.K]
    elif getattr(obj, "wake_k", None) is not None and not obj.wake_k.all_none:
        k = obj.wake_k(FC.STATE_TURBINE, lookup_ti="f", lookup_k="sf", fdata=fdata, upcast=True)
    else:
        return -1
    return int(round(float(np.ravel(k)[0]) * UNIT))


class Player:
    def __init__(self, fd, ids):
        self.fd, self.ids, self.ev, self.keep = fd, ids, [], []

    def obj(self, o):
        self.keep.append(o)
        return self.ids.setdefault(id(o), len(self.ids) + 1)

    def has(self, n):
        try:
            r = int(n in self.fd)
        except Exception as e:
            r = 9
        self.ev.append(dict(t="has", name=[ord(c) for c in n], text=n, res=r))

    def get(self, n, how=0):
        e = dict(t="get", name=[ord(c) for c in n], text=n, ok=1, obj=0, err="", cls="", args=[], dflt=[], k=-1)
        try:
            o = self.fd[n] if how == 0 else self.fd.get_item(n, prnt=False) if how == 1 else how(n)
            e["obj"] = self.obj(o)
            args, dflt, e["cls"] = getattr(o, "_vf_args", ({}, [], type(o).__name__))
            e["args"] = [[k, enc(v)] for k, v in sorted(args.items())]
            e["dflt"] = dflt
            e["k"] = growth(o) if any(args.get(q) is not None for q in ("k", "ka", "kTI")) and "_vf_args" in o.__dict__ and not isinstance(o, Made) else -1
        except Exception as x:
            e.update(ok=0, err=type(x).__name__)
        self.ev.append(e)


CFG = dict(ti1=TI1, ti2=TI2, ambti=[ord(c) for c in FV.AMB_TI])


def number(rng, kind):
    d = lambda n: "".join(rng.choice("0123456789") for _ in range(n - 1)) + rng.choice("123456789")
    n = kind["name"]
    if rng.random() < 0.06:
        return rng.choice(["", "x", "1x", "0.2", "_", "0_1" if n != "dec" else "0x1", "min", "s", "1,5"])
    if n == "dec":
        return rng.choice(["0" + d(rng.randint(1, 4)), "0" + d(1), d(1), rng.choice("123") + "." + d(2)])
    if n == "int":
        return d(1) if rng.random() < 0.9 else d(2)
    if n == "root":
        return str(rng.randint(1, 9) ** 2) if rng.random() < 0.85 else d(2)
    if n == "num":
        return rng.choice([d(1), d(2), d(3), d(1) + ".5"])
    if n == "level":
        return d(3)
    if n == "time":
        return rng.choice([str(6 * rng.randint(1, 50)) + "s", d(1) + "min", d(2) + "min", d(1) + ".5min", d(1), d(1) + "h"])
    if n == "dist":
        return rng.choice([d(1) + "km", d(2) + "km", d(4) + "m", d(1) + ".5km", d(2)])
    if n == "text":
        return rng.choice(["linear", "quadratic", "linear_lim", "linear_amb", "linear_amb_lim", "max_loc", "cubic"])
    return rng.choice(["q", "", "1", "z"])


def spell(p, rng, own):
    while True:
        t = spell1(p, rng, own)
        if not re.search(r"[1-9]\d{4,}|\d{6,}", t.replace("_", "")) and not re.search(r"ka0*(_|$)", t):  # the specification counts in 32 bit integers
            return t


def spell1(p, rng, own):
    t = "".join(map(chr, p["lits"][0]))
    for l, k, o in zip(p["lits"][1:], p["kinds"], own or [None] * 9):
        t += (rng.choice(o) if o and rng.random() < 0.9 else number(rng, k)) + "".join(map(chr, l))
    r = rng.random()
    if r < 0.06:
        t += rng.choice(["x", "_raw", "_", "1", "_k004", "_kb001"])
    elif r < 0.1 and len(t) > 2:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice(["", "x", "_", "0"]) + t[i + 1:]
    return t


def real(seed):
    rng = random.Random(f"c16-{seed}")
    for pats in documented().values():
        for p in pats:
            for sub in (fm.rotor_models, fm.turbine_models, fm.partial_wakes, fm.wake_frames, fm.wake_models, fm.wake_models.wind,
                        fm.wake_models.ti, fm.wake_models.induction, fm.ground_models):
                if hasattr(sub, p["cls"]):
                    watch(getattr(sub, p["cls"]))
    mb = fm.ModelBook()
    out, ids = [], {}
    for book, pats in documented().items():
        pl = Player(mb.sources[book], ids)
        for n in sorted(mb.sources[book].keys()):
            pl.ev.append(dict(t="register", name=[ord(c) for c in n], text=n, obj=pl.obj(dict.__getitem__(mb.sources[book], n))))
        names = []
        for _ in range(12 if not pats else 12 + 3 * len(pats) // 2):
            r = rng.random()
            n = rng.choice(names) if names and r < 0.25 else spell(rng.choice(pats), rng, None) if pats and r < 0.9 else \
                rng.choice(sorted(mb.sources[book].keys()) or ["q"]) + ("x" if rng.random() < 0.3 else "")
            names.append(n)
            if rng.random() < 0.5:
                pl.has(n)
            pl.get(n, rng.choice([0, 0, 1, lambda m: mb.get(book, m)]))
            if rng.random() < 0.2:
                pl.has(n)
        out.append(dict(id=f"c16-{seed}-{book}", cfg=dict(CFG, pats=pats), ev=pl.ev))
    return out


class Made:
    def __init__(self, *args, **kw):
        self._vf_args = (kw, [], self.tag)


def unit(seed):
    rng = random.Random(f"c16u-{seed}")
    fd = FDict(name="book")
    ids = {}
    pl = Player(fd, ids)
    dec = lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x))
    names, pats = [], []
    for i in range(rng.randint(6, 30)):
        r = rng.random()
        if r < 0.25 or not pats:
            nv = rng.choice([0, 1, 1, 2, 2, 3])
            lits = [rng.choice(["a", "ab", "a_", "q"] + ([""] if nv < 2 else []))] + [rng.choice(["_", "_b", "b", "ab"]) for _ in range(nv)]
            if nv and rng.random() < 0.6:
                lits[-1] = ""
            if nv == 0 and lits[0] == "":
                lits[0] = "a"
            vs = [f"v{k}" for k in range(nv)]
            v2a = {v: f"w{k}" for k, v in enumerate(vs) if rng.random() < 0.5}
            kinds, opts, own = [], {}, []
            for v in vs:
                k = rng.choice(["dec", "num", "int", "text", "opt", "opt"])
                if k == "opt":
                    keys = rng.sample(["1", "2", "x", "xy", "b", "0"], rng.randint(1, 3))
                    if all(q.isdigit() for q in keys) and rng.random() < 0.5:
                        opts[v] = [int(q) for q in keys]
                        vals = [int(q) for q in keys]
                    elif rng.random() < 0.4:
                        opts[v] = tuple(keys)
                        vals = keys
                    else:
                        vals = [rng.choice([rng.randint(0, 9), "t" + q, None]) for q in keys]
                        opts[v] = dict(zip(keys, vals))
                    kinds.append(K("opt", opts=[[[ord(c) for c in q], enc(x)] for q, x in zip(keys, vals)]))
                    own.append(keys)
                else:
                    if k != "text":
                        opts[v] = dict(dec=dec, num=float, int=int)[k]
                    kinds.append(K(k))
                    own.append(["x", "ab", "b_b", "", "12"] if k == "text" else None)
            tpl = lits[0] + "".join(f"<{v}>{l}" for v, l in zip(vs, lits[1:]))
            fixed = dict(f=rng.randint(0, 5)) if rng.random() < 0.3 else {}
            cls = type(f"Made{i}", (Made,), dict(tag=f"Made{i}"))
            p = dict(text=tpl, cls=cls.__name__, refuse=0, lits=[[ord(c) for c in l] for l in lits], kinds=kinds, args=[v2a.get(v, v) for v in vs],
                     fixed=[[k, enc(v)] for k, v in fixed.items()])
            fd.add_factory(cls, tpl, kwargs=fixed, var2arg=v2a, **opts)
            pats.append((p, own))
            pl.ev.append(dict(t="add", pat=p))
        elif r < 0.32:
            n = spell(*(lambda q: (q[0], rng, q[1]))(rng.choice(pats)))
            o = Made.__new__(Made)
            fd[n] = o
            pl.ev.append(dict(t="register", name=[ord(c) for c in n], text=n, obj=pl.obj(o)))
        else:
            p, own = rng.choice(pats)
            n = rng.choice(names) if names and rng.random() < 0.2 else spell(p, rng, own)
            names.append(n)
            if rng.random() < 0.5:
                pl.has(n)
            pl.get(n, rng.choice([0, 1]))
    return [dict(id=f"c16u-{seed}", cfg=dict(CFG, pats=[]), ev=pl.ev)]


def record(jobs):
    out = []
    for kind, seed in jobs:
        out += real(seed) if kind == "real" else unit(seed)
    return out


def canary(t, rng):
    ks = [k for k, e in enumerate(t["ev"]) if e["t"] == "get" and e["ok"] == 1 and e["args"]
          and not any(f["t"] == "register" or (f["t"] == "get" and f is not e and f["name"] == e["name"]) for f in t["ev"] if f.get("name") == e["name"])]
    if not ks:
        return None
    e = t["ev"][rng.choice(ks)]
    ks = [k for k, a in enumerate(e["args"]) if a[0] not in e["dflt"]]
    if not ks:
        return None
    e["args"][rng.choice(ks)][1] = [-77]
    return t


def run(chk):
    inv = ["OneObject", "Distinct", "Described", "Agree", "Unhidden"]
    chk.mc("ModelNames", constants=dict(Bug="", MaxOps=5 if env.THOROUGH else 3), invariants=inv)
    for b, n in (("prefix", 3), ("any", 3), ("again", 4), ("shared", 4), ("late", 3)):
        chk.mc("ModelNames", constants=dict(Bug=b, MaxOps=n), invariants=inv, expect=b)
    jobs = [("real", chk.seed * 100000 + k) for k in range(env.cases(24, 240))] + [("unit", chk.seed * 100000 + k) for k in range(env.cases(400, 6000))]
    chk.validate("NamesTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=300), canary=canary)
    chk.assumptions.append("texts of a superposition in a name are taken as they are: an unknown superposition is refused when the model is initialised")
