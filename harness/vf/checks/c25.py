"""C25 rotor and partial-wake averages are true averages over the rotor."""

import random

import numpy as np
import pandas as pd

import foxes
import foxes.constants as FC
import foxes.models as fm
import foxes.models.rotor_models as RM
import foxes.models.turbine_models as TM
import foxes.variables as FV
from foxes.core import States
from foxes.models.partial_wakes import PartialSegregated
from foxes.models.wake_models.axisymmetric import AxisymmetricWakeModel
from foxes.models.wake_models.top_hat import TopHatWakeModel

from .. import env, zoo
from ..tlc import Raw

BAD = -1000001
WS0 = 10.0


def iround(x, sc=1.0):
    x = float(x) * sc
    return int(round(x)) if np.isfinite(x) and abs(x) < 2e9 else BAD


class Field(States):
    """Values per state and rotor point; one value at the hub."""

    def __init__(self, hub, tabs):
        super().__init__()
        self.hub, self.tabs, self.seen = hub, tabs, []

    def size(self):
        return len(self.hub["ws"])

    def output_point_vars(self, algo):
        return [FV.WS, FV.WD, FV.TI, FV.RHO]

    def calculate(self, algo, mdata, fdata, tdata):
        i0 = mdata.states_i0(counter=True)
        s = np.arange(i0, i0 + mdata.n_states)
        shp = (tdata.n_states, tdata.n_targets, tdata.n_tpoints)
        P = shp[2]
        for v, k in ((FV.WS, "ws"), (FV.WD, "wd"), (FV.TI, "ti"), (FV.RHO, "rho")):
            tdata[v] = np.zeros(shp)
            t = np.asarray(self.tabs[k], dtype=float)[s]
            if P == t.shape[-1] and self.rotor_stage(fdata):
                tdata[v][:] = np.take_along_axis(np.broadcast_to(t[:, None, :], shp), self.rank(fdata, tdata), axis=2)
            else:
                tdata[v][:] = np.asarray(self.hub[k], dtype=float)[s][:, None, None]
        if self.rotor_stage(fdata):
            self.seen.append((i0, np.array(fdata[FV.TXYH]), np.array(fdata[FV.D]), np.array(fdata[FV.YAW]), np.array(tdata[FC.TARGETS]), np.array(tdata[FC.TWEIGHTS])))
        tdata.add(FV.WEIGHT, np.full((mdata.n_states, 1, 1), 1.0 / self.size()), (FC.STATE, FC.TARGET, FC.TPOINT))
        return {v: tdata[v] for v in self.output_point_vars(algo)}

    @staticmethod
    def rank(fdata, tdata):
        """Rank of the points, from left to right and bottom to top."""
        a = np.deg2rad(fdata[FV.YAW])[..., None]
        d = (tdata[FC.TARGETS] - fdata[FV.TXYH][:, :, None]) / fdata[FV.D][:, :, None, None]
        lat = np.round(d[..., 0] * np.cos(a) - d[..., 1] * np.sin(a), 6)
        key = lat * 1e6 + np.round(d[..., 2], 6)
        return np.argsort(np.argsort(key, axis=2, kind="stable"), axis=2)

    @staticmethod
    def rotor_stage(fdata):
        # before the rotor stage the yaw is not known
        return FV.YAW in fdata and FV.TXYH in fdata and not np.any(np.isnan(fdata[FV.YAW]))


def rotor(rng, small=True):
    kind = rng.choice(["centre", "grid", "grid", "gridraw", "level", "levelraw"])
    n = {"centre": 1, "grid": rng.choice([1, 2, 3, 4, 5, 6]), "gridraw": rng.choice([1, 2, 3, 4]), "level": rng.choice([1, 2, 3, 4, 5, 8]), "levelraw": rng.choice([1, 2, 3, 5])}[kind]
    m = rng.choice([4, 6])
    if kind == "grid" and n >= 5:
        m = 4
    tol = 2
    if kind == "centre":
        o = RM.CentreRotor()
    elif kind.startswith("grid"):
        o = RM.GridRotor(n=n, reduce=kind == "grid", nint=m)
    else:
        m = rng.choice([4, 6, 10])
        o = RM.LevelRotor(n=n, reduce=kind == "level", nint=m)
    return kind, n, m, tol, o


def design(kind, n, m):
    if kind == "centre":
        return 1
    if kind in ("gridraw", "levelraw"):
        return n * n if kind == "gridraw" else n
    return None


def ttype(mb, name, D, H):
    mb.turbine_types[name] = fm.turbine_types.PCtFile(pd.DataFrame(dict(ws=[0.0, 50.0], P=[5.0, 5.0], ct=[0.8, 0.8])), col_ws="ws", col_P="P", col_ct="ct",
                                                      D=float(D), H=float(H), p_ct=None, p_P=None)


def points(e, txyh, D, yaw, pts, w, n):
    """Points in units of the n-th of the radius, in the axes of the rotor."""
    a = np.deg2rad(yaw)
    ax = -np.array([np.sin(a), np.cos(a), 0.0])
    lat = np.array([-ax[1], ax[0], 0.0])
    d = (pts - txyh) * n / (D / 2)
    out = []
    for p, x in zip(d, w):
        q = [p @ ax, p @ lat, p[2]]
        out.append(([iround(x) if abs(x - round(x)) < 1e-6 else BAD for x in q], iround(x, 1e5)))
    out.sort(key=lambda q: q[0])  # the order of the points is free
    e["pts"], e["w"] = [q[0] for q in out], [q[1] for q in out]


def average(seed):
    rng = random.Random(f"c25a-{seed}")
    mb = fm.ModelBook()
    kind, n, m, tol, o = rotor(rng)
    mb.rotor_models["rot"] = o
    ns, nt = rng.randint(1, 3), rng.randint(1, 3)
    turb = [(rng.choice([80, 126, 200]), rng.choice([90, 120])) for _ in range(nt)]
    for k, (D, H) in enumerate(turb):
        ttype(mb, f"ty{k}", D, H)
    yset = rng.random() < 0.7
    # number of points: ask the model the way a user does
    o2 = rotor_like(kind, n, m)
    P = o2
    mode = rng.choice(["uniform", "mixed", "oneway", "oneway"])
    one = kind == "centre" or P == 1
    hub = dict(ws=[rng.randint(1, 10) for _ in range(ns)], wd=[90.0 * rng.randrange(4) for _ in range(ns)], ti=[1.0] * ns, rho=[1.0] * ns)
    tabs = dict(ws=[], wd=[], ti=[], rho=[])
    for s in range(ns):
        u = rng.randint(1, 10)
        q = rng.randrange(4)
        tabs["ws"].append([u if mode == "uniform" else rng.randint(0, 10) for _ in range(P)])
        tabs["wd"].append([90.0 * (rng.randrange(4) if mode == "mixed" else q) for _ in range(P)])
        tabs["ti"].append([1 if mode == "uniform" else rng.randint(0, 9) for _ in range(P)])
        tabs["rho"].append([1 if mode == "uniform" else rng.randint(0, 9) for _ in range(P)])
        if one:  # a single point also is the hub
            for k in tabs:
                hub[k][s] = tabs[k][s][0]
        elif mode != "mixed" and not yset:
            hub["wd"][s] = tabs["wd"][s][0]
    # yaw angles: along the axes for mixed directions, else also 60 degrees off; forward if there is only one point
    yaw = np.zeros((ns, nt))
    for s in range(ns):
        for t in range(nt):
            if one:
                yaw[s, t] = (tabs["wd"][s][0] + rng.choice([0.0, 60.0, -60.0, 90.0])) % 360
            elif mode == "mixed":
                yaw[s, t] = 90.0 * rng.randrange(4)
            else:
                yaw[s, t] = (tabs["wd"][s][0] + rng.choice([0.0, 0.0, 60.0, -60.0, 90.0, 180.0])) % 360
    sety = TM.SetFarmVars()
    if yset:
        sety.add_var(FV.YAW, yaw)
    mb.turbine_models["sety"] = sety
    # request the higher averages
    mb.turbine_models["need"] = Needs()
    farm = foxes.WindFarm()
    for t in range(nt):
        farm.add_turbine(foxes.Turbine(xy=np.array([rng.randint(0, 30) * 100.0, 1000.0 * t]), turbine_models=(["sety"] if yset else []) + ["need", f"ty{t}"]), verbosity=0)
    st = Field(hub, tabs)
    ev = []
    try:
        with zoo.engine("numpy", chunk_size_states=rng.randint(1, 3), chunk_size_points=100, n_procs=1):
            # the orientation counts where wakes are evaluated: a wake without effect
            mb.wake_models["none"] = AxiProbe("hat", 10, 0.0, "ws_linear")
            a = foxes.algorithms.Downwind(farm, st, wake_models=["none"] if yset else [], rotor_model="rot", mbook=mb, verbosity=0)
            r = a.calc_farm()
        what = f"{kind}{' with yaw' if yset else ''}"
        order = r[FV.ORDER].to_numpy().astype(int) if FV.ORDER in r else None
        done = set()
        for i0, txyh, D, yw, pts, w in st.seen:
            if pts.shape[2] != P:
                continue
            for s in range(pts.shape[0]):
                for t in range(nt):
                    if (i0 + s, t) in done:
                        continue
                    done.add((i0 + s, t))
                    e = dict(t="pts", ok=1, err="", kind=kind, n=n, m=m, tol=2, what=kind)
                    points(e, txyh[s, t], D[s, t], yw[s, t], pts[s, t], w, n)
                    ev.append(e)
        if len(done) < ns * nt:
            ev.append(dict(t="avg", ok=0, err="the states were not evaluated at the rotor points"))
        for s in range(ns):
            for t in range(nt):
                y = float(r[FV.YAW][s, t])
                want = float(yaw[s, t]) if yset else float(hub["wd"][s])
                d = abs((y - want + 180) % 360 - 180)
                c2 = [2 * np.cos(np.deg2rad(want - x)) for x in tabs["wd"][s]]
                wd = np.deg2rad(float(r[FV.WD][s, t]))
                ev.append(dict(t="avg", ok=int(d < 1e-6), err="" if d < 1e-6 else "the rotor orientation is not the yaw that was set", kind=kind, n=n, m=m, what=what,
                               ws=tabs["ws"][s], dir=[int(x // 90) for x in tabs["wd"][s]], ti=tabs["ti"][s], rho=tabs["rho"][s], yaw=[int(round(x)) for x in c2],
                               r1=iround(r[FV.REWS][s, t], 1e3), r2=iround(r[FV.REWS2][s, t] ** 2, 1e2), r3=iround(r[FV.REWS3][s, t] ** 3, 10),
                               t_=0, r=iround(r[FV.RHO][s, t], 1e3), wd=[iround(np.sin(wd), 1e3), iround(np.cos(wd), 1e3)]))
                ev[-1]["ti1"] = iround(r[FV.TI][s, t], 1e3)
    except Exception as x:
        ev.append(dict(t="avg", ok=0, err=f"{type(x).__name__}: {str(x)[:200]}"))
    return [dict(id=f"c25a-{seed}", cfg=dict(kind=kind), ev=ev, tags=["avg", kind, mode])]


class Needs(fm.turbine_models.Calculator):
    """Asks for the higher averages of the wind speed."""

    def __init__(self):
        super().__init__([], ["need"], lambda st_sel: [np.zeros(1)])

    def calculate(self, algo, mdata, fdata, st_sel):
        fdata["need"][st_sel] = fdata[FV.REWS2][st_sel] + fdata[FV.REWS3][st_sel]
        return {"need": fdata["need"]}

    def output_farm_vars(self, algo):
        return ["need", FV.REWS2, FV.REWS3]


def rotor_like(kind, n, m):
    """Number of points."""
    if kind == "centre":
        return 1
    if kind == "gridraw":
        return n * n
    if kind == "levelraw":
        return n
    c = 0
    for i in range(n):
        for j in range(n if kind == "grid" else 1):
            sub = (2 * (i * m + np.arange(m)) + 1 - n * m) / (n * m)
            lat = (2 * (j * m + np.arange(m)) + 1 - n * m) / (n * m) if kind == "grid" else np.linspace(1, -1, m)
            c += bool(np.any(sub[:, None] ** 2 + lat[None, :] ** 2 <= 1.0 + 1e-12))
    return c


class AxiProbe(AxisymmetricWakeModel):
    def __init__(self, prof, L, d0, sup):
        super().__init__({FV.WS: sup})
        self.prof, self.L, self.d0 = prof, L, d0

    def new_wake_deltas(self, algo, mdata, fdata, tdata):
        return {FV.WS: np.zeros_like(tdata[FC.TARGETS][..., 0])}

    def calc_wakes_x_r(self, algo, mdata, fdata, tdata, downwind_index, x, r):
        sel = np.any(r < self.L, axis=2) & (x > 1e-8)
        rr = r[sel]
        d = np.where(rr < self.L, 1.0 if self.prof == "hat" else 1.0 - (rr / self.L) ** 2, 0.0)
        return ({FV.WS: self.d0 * d} if np.any(sel) else {}), sel


class HatProbe(TopHatWakeModel):
    def __init__(self, L, d0, sup):
        super().__init__({FV.WS: sup}, induction="Betz")
        self.L, self.d0 = L, d0

    def new_wake_deltas(self, algo, mdata, fdata, tdata):
        return {FV.WS: np.zeros_like(tdata[FC.TARGETS][..., 0])}

    def calc_wake_radius(self, algo, mdata, fdata, tdata, downwind_index, x, ct):
        return np.full_like(x, float(self.L))

    def calc_centreline(self, algo, mdata, fdata, tdata, downwind_index, st_sel, x, wake_r, ct):
        return {FV.WS: np.full_like(x, self.d0)}


def partial(seed):
    rng = random.Random(f"c25w-{seed}")
    prof = rng.choice(["hat", "quad"])
    ev = []
    D0, D1 = rng.choice([(100, 100), (80, 160), (160, 80), (120, 120)])
    H0, H1 = rng.choice([(100, 100), (100, 130), (120, 90)])
    R = D1 // 2
    full = rng.random() < 0.25
    L = 400 if full and prof == "hat" else rng.choice([60, 100, 150])
    mirror = not full and rng.random() < 0.4
    lat = rng.choice([0, R, R // 2, 20, 60, 100, D0 // 2])
    wd = rng.choice([270.0, 0.0, 90.0, 33.0])
    up = rng.random() < 0.5
    off = [[lat, H1 - H0]] + ([[lat, H1 + H0]] if mirror else [])
    if mirror:
        L = max(L, 150)
        H0, H1 = 60 if H0 == H1 else H0 - 40, 60 if H0 == H1 else H1 - 40
        H0, H1 = max(H0, 50), max(H1, 50)
        off = [[lat, H1 - H0], [lat, H1 + H0]]
    schemes = ["rotor_points", "centre", "grid", "level", "axi"] + (["top_hat"] if prof == "hat" else [])
    th = np.deg2rad(wd)
    down = -np.array([np.sin(th), np.cos(th)])
    left = np.array([-down[1], down[0]])
    xy1 = down * 700.0 + left * lat * (1 if up else -1)
    for scheme in schemes:
        mb = fm.ModelBook()
        ttype(mb, "src", D0, H0)
        ttype(mb, "tgt", D1, H1)
        ttype(mb, "oth", 50, 100)
        g = rng.choice([2, 3, 4, 6])
        m = 4
        kind, n, exact, tol = "grid", g, 1, 30
        rot = rng.choice(["centre", "grid9", "level3"])
        if scheme == "rotor_points":
            mb.rotor_models["rp"] = RM.GridRotor(n=g, nint=m)
            rot = "rp"
            pw = "rotor_points"
        elif scheme == "centre":
            pw, kind, n = "centre", "centre", 1
        elif scheme == "grid":
            mb.partial_wakes["pg"] = PartialSegregated(RM.GridRotor(n=g, nint=m, calc_vars=[]))
            pw = "pg"
        elif scheme == "level":
            mb.partial_wakes["pg"] = PartialSegregated(RM.LevelRotor(n=g, nint=m, calc_vars=[]))
            pw, kind = "pg", "level"
        elif scheme == "axi":
            pw, exact, tol = f"axiwake{24 if prof == 'hat' else rng.choice([16, 24])}", 0, 500 if prof == "hat" else 150
        else:
            pw, exact, tol = "top_hat", 0, 200
        sup = rng.choice(["ws_linear", "ws_quadratic"]) if not mirror else "ws_linear"
        d0 = -0.4
        mb.wake_models["probe"] = HatProbe(L, d0, sup) if prof == "hat" else AxiProbe(prof, L, d0, sup)
        if mirror:
            mb.ground_models.setdefault("ground_mirror", fm.ground_models.GroundMirror()) if hasattr(mb.ground_models, "setdefault") else None
        e = dict(t="wake", ok=1, err="", scheme=scheme, kind=kind, n=n, m=m, exact=exact, prof=prof, L=L, R=R, off=off, tol=tol * len(off),
                 mix=(", turbines of different size" if D0 != D1 else "") + (", with ground" if mirror else ""))
        try:
            f = foxes.WindFarm()
            ts = [("src", np.zeros(2)), ("tgt", xy1)]
            if rng.random() < 0.4:  # a bystander upstream, aside
                ts.insert(rng.randint(0, 2), ("oth", -down * 300 + left * 5000.0))
            if rng.random() < 0.5:
                ts = ts[::-1]
            for k, p in ts:
                f.add_turbine(foxes.Turbine(xy=p, turbine_models=[k]), verbosity=0)
            st = foxes.input.states.SingleStateStates(ws=WS0, wd=wd, ti=0.08, rho=1.225)
            A = rng.choice([foxes.algorithms.Downwind, foxes.algorithms.Downwind, foxes.algorithms.Iterative])
            with zoo.engine("numpy", chunk_size_states=1, chunk_size_points=100, n_procs=1):
                r = A(f, st, wake_models=["probe"], partial_wakes=pw, rotor_model=rot, mbook=mb, verbosity=0,
                      **(dict(ground_models={"probe": "ground_mirror"}) if mirror else {})).calc_farm()
            k = [t[0] for t in ts].index("tgt")
            e["f"] = iround((WS0 - float(r[FV.REWS][0, k])) / (WS0 * abs(d0)), 1e4)
        except Exception as x:
            e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:200]}")
        ev.append(e)
    return [dict(id=f"c25w-{seed}", cfg=dict(kind=prof), ev=ev, tags=["wake", prof] + (["mirror"] if mirror else []) + (["mixed"] if D0 != D1 else []))]


def record(jobs):
    out = []
    for kind, seed in jobs:
        out += average(seed) if kind == "avg" else partial(seed)
    return out


def canary(t, rng):
    for e in t["ev"]:
        if e["ok"] and e["t"] == "avg":
            e["r1"] += 1000
            return t
        if e["ok"] and e["t"] == "wake":
            e["f"] += 3000
            return t
    return None


def run(chk):
    T = env.THOROUGH
    base = dict(N=2, MaxV=3, MaxW=2, Steps=2, Bug="")
    inv = ["SameMean", "Uniform", "Bounded", "PowerMean"]
    chk.mc("RotorAvg", constants=dict(base, N=3) if T else base, invariants=inv, properties=["Finishes"])
    chk.mc("RotorAvg", constants=dict(base, Bug="nonorm"), invariants=inv, expect="SameMean")
    chk.mc("RotorAvg", constants=dict(base, Bug="lost"), invariants=inv, expect="SameMean")
    s = chk.seed * 100000
    jobs = [("avg", s + k) for k in range(env.cases(250, 3000))] + [("wake", s + k) for k in range(env.cases(120, 1200))]
    chk.validate("DiscTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=500), canary=canary)
    chk.assumptions += ["sub-cell resolutions of 4 to 10 per cell for grids and levels, so that the specification counts the same cells",
                        "top hat and axial wake averages are compared with a 32 x 32 grid average, tolerance 1.5 to 5 percent of the full deficit"]
