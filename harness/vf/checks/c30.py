"""C30 the wake of a single turbine is well formed."""
import random

import vf.env as env
import numpy as np
import pandas as pd
import foxes
import foxes.constants as FC
import foxes.variables as FV
from foxes.models.turbine_types import PCtFile
from vf import zoo
from vf.tlc import Raw

WIND = ["Jensen", "Bastankhah2014", "Bastankhah2014B", "Bastankhah025", "Bastankhah025B", "Bastankhah2016", "Bastankhah2016B", "TurbOPark", "TurbOParkB"]
TI = ["CrespoHernandez", "IECTI2019", "IECTI2019k", "IECTI2005", "IECTI2005k"]
IND = ["RHB", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"]
NOK = {"IECTI2019", "IECTI2005"} | set(IND)
KS = [2, 3, 4, 5, 7, 9]
WS = dict(RHB="", Rathmann="", VortexSheet="", SelfSimilar="", SelfSimilar2020="")
NR = 30
XS = [-48, -40, -32, -24, -20, -16, -12, -10, -8, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20, 24, 28, 32, 40, 48, 60, 80, 100, 120, 140, 160]


def name(base, k, sup, dx):
    n = base
    if base in IND:
        return n if sup == "" or base == "RHB" else f"{n}_{sup}"
    n += f"_{sup}"
    if base not in NOK:
        n += f"_k{k:03d}" if k < 100 else "_k"
    return n


class Case:
    def __init__(self, rng):
        self.kind = rng.choice(["ws", "ws", "ws", "ti", "ind"])
        self.base = rng.choice(dict(ws=WIND, ti=TI, ind=IND)[self.kind])
        self.D = rng.choice([80.0, 100.0, 126.0, 164.0])
        self.H = 10 * self.D
        self.ct = rng.choice([200, 400, 550, 700, 800])
        self.ti = rng.choice([0.04, 0.08, 0.12])
        self.ws = rng.choice([6.0, 8.0, 10.0, 13.0])
        self.k = rng.choice(KS)
        self.sup = rng.choice(["linear", "linear_lim", "linear_amb", "quadratic", "max"] if self.kind == "ws" else ["linear", "quadratic", "max", "cubic"] if self.kind == "ti" else ["", "linear"])
        self.wd = rng.choice([0.0, 90.0, 180.0, 270.0])
        self.xy = [rng.choice([0.0, 1000.0, -350.0]), rng.choice([0.0, 640.0])]
        self.frame = "rotor_wd"
        self.ground = None
        self.yaw = None
        self.dx = 10.0

    def but(self, **kw):
        c = object.__new__(Case)
        c.__dict__.update(self.__dict__)
        c.__dict__.update(kw)
        return c

    def run(self, pts):
        """Effect at points given in the frame of the wake, relative to the hub."""
        mb = foxes.ModelBook()
        u = np.arange(0.0, 30.5, 0.5)
        mb.turbine_types["tt"] = PCtFile(pd.DataFrame(dict(ws=u, P=u, ct=np.full(len(u), self.ct / 1000))), col_ws="ws", col_P="P", col_ct="ct", p_ct=0.0, p_P=0.0,
                                         D=self.D, H=self.H, P_nominal=30.0, P_unit="kW")
        models = ["tt"]
        if self.yaw is not None:
            mb.turbine_models["yawm"] = foxes.models.turbine_models.SetFarmVars()
            mb.turbine_models["yawm"].add_var(FV.YAWM, np.array([[self.yaw]]))
            models = ["yawm", "yawm2yaw", "tt"]
        farm = foxes.WindFarm()
        farm.add_turbine(foxes.Turbine(xy=np.array(self.xy), turbine_models=models), verbosity=0)
        st = foxes.input.states.SingleStateStates(ws=self.ws, wd=self.wd, ti=self.ti, rho=1.2)
        a = np.deg2rad(self.wd)
        n = np.round(np.array([-np.sin(a), -np.cos(a)]))
        m = np.array([-n[1], n[0]])
        pts = np.asarray(pts, dtype=float)
        p = np.zeros((1, len(pts), 3))
        p[0, :, :2] = np.array(self.xy) + pts[:, 0, None] * n + pts[:, 1, None] * m
        p[0, :, 2] = self.H + pts[:, 2]
        w = name(self.base, self.k, self.sup, self.dx)
        kw = {} if self.ground is None else dict(ground_models=self.ground)
        A = foxes.algorithms.Iterative if self.kind == "ind" else foxes.algorithms.Downwind
        algo = A(farm, st, [w], wake_frame=self.frame, mbook=mb, verbosity=0, **kw)
        fr = algo.calc_farm(finalize=False)
        r = algo.calc_points(fr, p)
        v = r[FV.TI].to_numpy()[0] - self.ti if self.kind == "ti" else 1 - r[FV.WS].to_numpy()[0] / self.ws
        v = np.nan_to_num(v * 1e6, nan=-1.9e9)
        return np.clip(np.round(v), -2e9, 2e9).astype(int)


def axis(c, y=0.0, z=0.0):
    return [[x * c.D / 8, y, z] for x in XS]


def rings(c, x, n, dr):
    R = [(i + 0.5) * dr for i in range(n)]
    return [[x, s * r, 0.0] for s in (1, -1) for r in R] + [[x, 0.0, s * r] for s in (1, -1) for r in R]


def record1(seed):
    rng = random.Random(f"c30-{seed}")
    c = Case(rng)
    ev = []
    cfg = dict(kind=c.kind, flat=int(c.base == "RHB"))
    pos = [i for i, x in enumerate(XS) if (x > 0 if c.kind != "ind" else x < 0)]

    def fail(e, f):
        try:
            e.update(f())
        except Exception as x:
            e = dict(t="fail", err=f"{c.base}: {type(x).__name__}: {str(x)[:120]}")
        ev.append(e)

    with zoo.engine("single"):
        base = []

        def first():
            base.extend(c.run(axis(c)).tolist())
            return dict(x=XS, v=base)
        fail(dict(t="axis"), first)
        if len(base) == 0:
            return [dict(id=f"c30-{seed}", cfg=cfg, ev=ev, scn=dict(vars(c)))]
        A = [base[i] for i in pos]

        def pair(rel, what, d, y=0.0, z=0.0, a=None):
            fail(dict(t="pair", rel=rel, what=what, a=A if a is None else [int(a[i]) for i in pos]), lambda: dict(b=[int(d.run(axis(d, y, z))[i]) for i in pos]))

        xc = rng.choice([2.0, 4.0, 6.0, 9.0, 15.0]) * c.D
        if c.kind != "ind":
            def cross():
                v = c.run(rings(c, xc, NR, c.D / 4 if xc < 8 * c.D else c.D / 3)).reshape(4, NR)
                return dict(v=v.tolist())
            fail(dict(t="cross"), cross)
        else:
            def cross():
                v = c.run(rings(c, -xc / 2, NR, c.D / 2)).reshape(4, NR)
                return dict(v=v.tolist())
            fail(dict(t="cross"), cross)
        todo = ["scale", "speed", "ct", "k", "place", "ground", "yaw", "flux", "top", "ti", "sup"]
        for t in rng.sample(todo, len(todo) if env.THOROUGH else 6):
            if t == "scale" and not c.base.startswith("IECTI2005x"):
                f = rng.choice([0.5, 2.0, 1.25])
                pair("same", "the scale of all lengths", c.but(D=c.D * f, H=c.H * f, dx=c.dx * f))
            elif t == "speed" and not c.base.startswith("IECTI2005"):
                pair("same", "the wind speed", c.but(ws=c.ws * 1.5))
            elif t == "place":
                pair("same", "place and wind direction", c.but(wd=(c.wd + 90.0) % 360, xy=[123.0, -77.0], H=c.H * 2))
            elif t == "ct" and c.ct <= 550:
                pair("atleast" if c.base.startswith("IECTI2005") else "ends" if c.base.startswith("Bastankhah2016") else "more", "more thrust", c.but(ct=c.ct + 100))
            elif t == "k" and c.kind == "ws":
                pair("less", "faster expansion", c.but(k=c.k + 2))
            elif t == "ti" and c.base in ("Bastankhah2016", "Bastankhah2016B"):
                pair("less", "more turbulent inflow", c.but(ti=c.ti * 1.5))
            elif t == "sup" and c.kind != "ind":
                pair("same", "the superposition", c.but(sup="linear"))
            elif t == "ground" and c.kind == "ws" and c.sup.startswith("linear"):
                low = c.but(H=rng.choice([0.8, 1.5]) * c.D)
                fl = low.run(axis(low, 0.0, -low.H))
                if max(fl) < 450000:
                    pair("twice", "the ground", low.but(ground="ground_mirror"), 0.0, -low.H, fl)
            elif t == "yaw" and c.kind == "ws" :
                yw = rng.choice([10.0, 20.0, 30.0])
                P = [[xc, -j * c.D / 8, 0.0] for j in range(-20, 21)]
                P[20][1] = 0.0
                fr = f"yawed_k{c.k:03d}"
                fail(dict(t="yaw", side=-1, hat=1 if c.base == "Jensen" else 0), lambda: dict(a=[int(x) for x in c.but(yaw=yw, frame=fr).run(P)], b=[int(x) for x in c.but(yaw=-yw, frame=fr).run(P)]))
                f = rng.choice([0.5, 1.5])
                if ev[-1]["t"] == "yaw":
                    fail(dict(t="pair", rel="same", what="the scale of all lengths", a=ev[-1]["a"]),
                         lambda: dict(b=[int(x) for x in c.but(yaw=yw, frame=fr, D=c.D * f, H=c.H * f).run([[f * x, f * y, 0.0] for x, y, _ in P])]))
            elif t == "flux" and c.kind == "ws" and c.base.endswith("B") and c.base.startswith("Bastankhah") and base[XS.index(60)] < 0.95 * base[XS.index(48)]:
                x, w = 10 * c.D, 8
                n = 48
                v = c.run([[x, (i + 0.5) * c.D / w, 0.0] for i in range(n)])
                fail(dict(t="flux", ct=c.ct, w=w), lambda: dict(v=[int(round(q / 100)) for q in v]))
            elif t == "top" and c.base == "Jensen":
                s = int(round(1000 * (1 - np.sqrt(1 - c.ct / 1000))))
                fail(dict(t="top", k=c.k, start=s, x=XS), lambda: dict(v=[int(round(q / 1000)) for q in base]))
    return [dict(id=f"c30-{seed}", cfg=cfg, ev=ev, tags=[c.base], scn=dict(vars(c)))]


def record(seeds):
    return [t for s in seeds for t in record1(s)]


def canary(t, rng):
    e = t["ev"][rng.randrange(len(t["ev"]))]
    if e["t"] == "axis":
        for i, x in enumerate(e["x"]):
            if x == -16:
                e["v"][i] = -50
    elif e["t"] == "cross":
        e["v"][2][0] = 2 * e["v"][2][0] + 50
    elif e["t"] == "pair":
        e["b"][len(e["b"]) // 2] = 5 if e["rel"] in ("same", "more", "atleast", "twice") else 10**6
    elif e["t"] == "yaw":
        e["a"] = e["b"]
    elif e["t"] in ("flux", "top"):
        e["v"] = [q // 3 for q in e["v"]]
    return t


def run(chk):
    base = dict(R0=1, Ks=Raw("{0, 1, 2}"), Fs=Raw("{%s}" % ", ".join(str(i) for i in range(1, 21 if env.THOROUGH else 10))), Steps=5, Top=6)
    inv = ["WellFormed"]
    chk.mc("WakeForm", constants=dict(base, Bug=""), invariants=inv, properties=["Leaves"])
    for b, i in (("front", "Behind"), ("narrow", "Mirrored"), ("flux", "Kept"), ("core", "Bounded"), ("refill", "Recovers")):
        chk.mc("WakeForm", constants=dict(base, Bug=b), invariants=[i], expect=i)
    seeds = [chk.seed * 100000 + k for k in range(env.cases(360, 3000))]
    chk.validate("WakeFormTrace", chk.record(record, [seeds[i::36] for i in range(36)], timeout=300), canary=canary)
    chk.assumptions += ["one turbine with constant thrust coefficient up to 0.8 in a uniform flow", "deflection by the yawed frames only, at hub height"]
