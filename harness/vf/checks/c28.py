"""C28 wind roses, slices and point outputs show the calculated data."""

import contextlib
import io
import random
import shutil
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import xarray as xr

import foxes
import foxes.constants as FC
import foxes.variables as FV
from foxes.core import States
from foxes.output import FlowPlots2D, PointCalculator, RosePlotOutput, SliceData, SlicesData, StatesRosePlotOutput, WindRoseBinPlot, grids

from .. import env, zoo

EMPTY, OFF, INF = -2000000000, -1999999999, 1000000
VARS = [FV.WS, FV.TI, FV.RHO]


def num(x, sc):
    x = float(x)
    if np.isnan(x):
        return EMPTY
    return int(round(x * sc)) if abs(x * sc) < 1.9e9 else OFF


class Field(States):
    """A linear flow field in space and state; weights differ between west and east."""

    def __init__(self, fields, weights, labels):
        super().__init__()
        self.fields, self.weights, self.labels = fields, weights, labels

    def size(self):
        return len(self.labels)

    def index(self):
        return self.labels

    def output_point_vars(self, algo):
        return [FV.WS, FV.WD, FV.TI, FV.RHO]

    def load_data(self, algo, verbosity=0):
        out = super().load_data(algo, verbosity)
        out["coords"][FC.STATE] = np.asarray(self.labels)
        w = np.array(self.weights, dtype=float)
        out["data_vars"].update(no=((FC.STATE,), np.arange(self.size())), west=((FC.STATE,), w[:, 0]), east=((FC.STATE,), w[:, 1]))
        return out

    def calculate(self, algo, mdata, fdata, tdata):
        p = tdata[FC.TARGETS]
        s = mdata["no"][:, None, None]
        out = {FV.WD: np.full(p.shape[:3], 270.0)}
        for v, f in zip(VARS, self.fields):
            out[v] = (f["c"] + f["s"] * s + f["x"] * np.round(p[..., 0], 6) + f["y"] * np.round(p[..., 1], 6) + f["z"] * p[..., 2]) / 100.0
        w = np.where(np.round(p[..., 0], 6) < 0, mdata["west"][:, None, None], mdata["east"][:, None, None])
        if all(a == b for a, b in self.weights):
            w = mdata["east"][:, None, None]
        tdata.add(FV.WEIGHT, w, (FC.STATE, FC.TARGET, FC.TPOINT))
        return out


@contextlib.contextmanager
def guard(e, *objs):
    f0 = [zoo.fingerprint(o) for o in objs]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    except Exception as x:
        e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:150]}")
    finally:
        plt.close("all")
        e["args"] = int([zoo.fingerprint(o) for o in objs] == f0)


# -- roses ------------------------------------------------------------------

def directions(rng, n, ns):
    out = []
    for _ in range(ns):
        q = rng.random()
        if q < 0.35:  # near or on a sector edge
            x = (2 * rng.randrange(n) + 1) * 36000 / (2 * n)
            x = int(round(x)) + rng.choice([0, 0, -1, 1])
        elif q < 0.5:
            x = rng.choice([0, 1, 35999, 35950, 18000, 9000])
        else:
            x = rng.randrange(36000)
        out.append(x % 36000)
    return out


def rose(rng):
    n = rng.choice([1, 2, 3, 4, 6, 7, 8, 11, 12, 12, 13, 16, 17, 24, 29, 36, 50, 161, 229, 343] if rng.random() < 0.85 else list(range(1, 361)))
    ns, nt = rng.randint(1, 7), rng.randint(1, 3)
    k = rng.randrange(nt)
    tab = [directions(rng, n, ns) for _ in range(nt)]
    b = sorted(rng.sample([0, 20, 35, 50, 65, 80, 100, 120, 150, 200], rng.randint(2, 5)))
    spd = [[rng.choice([rng.choice(b), rng.randrange(0, 220)]) for _ in range(ns)] for _ in range(nt)]
    wt = [[rng.randint(0, 9) for _ in range(ns)] for _ in range(nt)]
    val = [[rng.randint(-500, 1000) for _ in range(ns)] for _ in range(nt)]
    per = rng.random() < 0.4
    point = rng.random() < 0.3
    dim = "point" if point else "turbine"
    vw, vd = (FV.WS, FV.WD) if point else rng.choice([(FV.AMB_REWS, FV.AMB_WD), (FV.REWS, FV.WD)])
    T = lambda a, s: ((("state", dim)), np.array(a, dtype=float).T / s)
    ds = xr.Dataset(coords=dict(state=np.arange(ns)), data_vars={
        vw: T(spd, 10), vd: T(tab, 100), FV.P: T(val, 1),
        FV.WEIGHT: T(wt, 1000) if per else (("state",), np.array(wt[0], dtype=float) / 1000)})
    kind = rng.choice(["freq", "freq", "freq", "weights", "mean_no_weights", "sum_no_weights"])
    if point:
        kind = "freq"
    e = dict(t="rose", how=kind, ok=1, err="", n=n, b=list(b), wd=tab[k], ws=spd[k], w=wt[k] if per else wt[0], kind=kind, var=val[k], sc=10 if kind == "freq" else 1000,
             got=[], centres=[], edges=[], bars=[])
    B = rng.choice([list, tuple, np.array])([x / 10 for x in b])
    with guard(e, ds, B):
        if kind == "freq":
            o = RosePlotOutput(point_results=ds) if point else RosePlotOutput(ds)
            kw = {dim: k}
            if rng.random() < 0.3:
                kw["add_inf"] = True
                e["b"].append(INF)
            draw = n < 40 and rng.random() < 0.15 and (e["b"][-1] != INF)
            if draw:
                ax, d = o.get_figure(n, vw, B, wd_var=vd, ret_data=True, **kw)
                for j, c in enumerate(ax.containers):
                    for r in c.patches:
                        a = np.mod(90 - np.rad2deg(r.get_x() + r.get_width() / 2), 360) * n / 360
                        e["bars"].append([int(round(a)) % n if abs(a - round(a)) < 1e-6 else -1, j + 1, num(r.get_height(), 100), num(r.get_y(), 100)])
            else:
                d = o.get_data(n, vw, B, wd_var=vd, **kw)
            g = d["frequency"].transpose(vd, vw).to_numpy()
            e["got"] = [[num(x, 100) for x in r] for r in g]
        else:
            o = WindRoseBinPlot(ds)
            kw = dict(turbine=k, contraction=kind, wd_var=vd, ws_var=vw, wd_sectors=n)
            if rng.random() < 0.15 and n < 40:
                __, d = o.get_figure(FV.P, B, ret_data=True, **kw)
            else:
                d = o.get_data(FV.P, B, **kw)
            e["got"] = [[num(x, 1000) for x in r] for r in d[FV.P].transpose(vd, vw).to_numpy()]
        e["centres"] = [num(x, n * 100) for x in d[vd].to_numpy()]
        e["edges"] = [INF if np.isinf(x) else num(x, 10) for x in d.attrs[f"{vw}_bounds"]]
    return e


def states_rose(rng):
    n = rng.choice([4, 8, 12, 36])
    ns = rng.randint(1, 6)
    w = [rng.randint(1, 9) for _ in range(ns)]
    wd = [rng.randrange(n) * 36000 // n + rng.choice([-400, -7, 0, 3, 400]) for _ in range(ns)]
    ws = [rng.choice([45, 55, 75, 95, 115]) for _ in range(ns)]
    b = [40, 50, 70, 100]
    df = pd.DataFrame(dict(ws=[x / 10 for x in ws], wd=[(x % 36000) / 100 for x in wd], w=[x / 1000 for x in w]))
    e = dict(t="rose", how="states", ok=1, err="", n=n, b=b, wd=[x % 36000 for x in wd], ws=ws, w=w, kind="freq", var=w, sc=10, got=[], centres=[], edges=[], bars=[])
    with guard(e, df), zoo.engine("numpy", chunk_size_states=rng.choice([1, 2, 100]), chunk_size_points=100, n_procs=1):
        st = foxes.input.states.StatesTable(df, [FV.WS, FV.WD, FV.TI, FV.RHO], {FV.WS: "ws", FV.WD: "wd", FV.WEIGHT: "w"}, {FV.TI: 0.05, FV.RHO: 1.225})
        d = StatesRosePlotOutput(st, [100.0, 20.0, 90.0]).get_data(n, FV.AMB_WS, [x / 10 for x in b])
        e["got"] = [[num(x, 100) for x in r] for r in d["frequency"].to_numpy()]
        e["centres"] = [num(x, n * 100) for x in d[FV.AMB_WD].to_numpy()]
        e["edges"] = [num(x, 10) for x in d.attrs[f"{FV.AMB_WS}_bounds"]]
    return e


# -- slices and points --------------------------------------------------------

class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.dir = tempfile.mkdtemp(dir=env.SCRATCH)
        self.ns = rng.randint(1, 5)
        self.fields = [dict(c=rng.randint(5000, 6000), **{a: rng.randint(-2, 2) for a in "xyz"}, s=rng.randint(1, 50)) for _ in VARS]
        self.w = [[rng.randint(1, 5), rng.randint(1, 5)] for _ in range(self.ns)]
        if rng.random() < 0.5:
            self.w = [[a, a] for a, _ in self.w]
        W = [[a / 8, b / 8] for a, b in self.w]
        self.labels = list(range(self.ns)) if rng.random() < 0.5 else rng.sample(range(50), self.ns)
        self.turb = [[400 * rng.randint(-2, 2), 400 * rng.randint(-2, 2), 20 * rng.randint(4, 6)] for _ in range(rng.randint(1, 3))]
        farm = foxes.WindFarm()
        for q in self.turb:
            farm.add_turbine(foxes.Turbine(xy=q[:2], H=float(q[2]), D=80.0, turbine_models=["null_type"]), verbosity=0)
        self.algo = foxes.algorithms.Downwind(farm, Field(self.fields, W, self.labels), wake_models=[], verbosity=0)
        self.fres = self.algo.calc_farm(finalize=False)
        self.n = 0

    def selection(self, kw):
        rng = self.rng
        sel = list(range(1, self.ns + 1))
        q = rng.random()
        if q < 0.4:
            sel = sorted(rng.sample(sel, rng.randint(1, self.ns)))
            if rng.random() < 0.2:
                rng.shuffle(sel)
            if q < 0.2:
                kw["states_isel"] = [s - 1 for s in sel]
            else:
                kw["states_sel"] = [self.labels[s - 1] for s in sel]
        return sel

    def request(self, kw, every=True):
        rng = self.rng
        names = rng.sample(VARS, rng.randint(1, 3))
        if not (every and rng.random() < 0.2):
            kw["variables"] = list(names)
        else:
            names = list(VARS)
        fs = [dict(self.fields[VARS.index(v)], norm=1, lo=EMPTY, hi=EMPTY) for v in names]
        if rng.random() < 0.2:
            k = rng.randrange(len(names))
            fs[k]["norm"] = rng.choice([2, 5, 10])
            kw["normalize_v"] = {names[k]: float(fs[k]["norm"])}
        for a, key in (("lo", "vmin"), ("hi", "vmax")):
            if rng.random() < 0.2:
                k = rng.randrange(len(names))
                x = rng.randint(50, 62)
                fs[k][a] = x * 100
                kw[key] = {names[k]: float(x)}
        return names, fs

    def grid(self, ori, kw):
        """Description of the grid; every spacing is a whole number of metres."""
        rng = self.rng
        d = 270
        if ori != "xy" and rng.random() < 0.6:
            d = kw["x_direction"] = rng.choice([0, 90, 180, 270])
        ax = {"xy": ("x", "y", "z"), "xz": ("x", "z", "y"), "yz": ("y", "z", "x")}[ori]
        e = dict(ori=ori, dir=d, given=[0] * 5, bounds=[0] * 5, space=[500, 500], num=[0, 0], res=0, turb=self.turb)
        vals = [-1600, -800, 0, 800, 1600]
        for k in (0, 1):
            lo, hi = sorted(rng.sample(vals if ax[k] != "z" else [0, 80, 160, 320], 2))
            for j, x in ((0, lo), (1, hi)):
                if rng.random() < 0.5:
                    e["given"][2 * k + j] = 1
                    e["bounds"][2 * k + j] = x
                    kw[f"{ax[k]}{('min', 'max')[j]}"] = rng.choice([int, float])(x)
        if rng.random() < 0.5:
            e["given"][4] = 1
            e["bounds"][4] = rng.choice([0, 40, 100, 400])
            kw[ax[2]] = rng.choice([int, float])(e["bounds"][4])
        for k in (0, 1):
            if rng.random() < 0.5:
                e["space"][k] = rng.choice([400, 800, 0])
                kw[f"{ax[k]}space"] = e["space"][k]
        if ori != "xy" and not e["given"][2]:
            if rng.random() < 0.5:  # default: ground
                e["given"][2], e["bounds"][2] = 1, 0
            else:
                kw["zmin"] = None
        X = {(0): lambda q: -q[1], 90: lambda q: -q[0], 180: lambda q: q[1], 270: lambda q: q[0]}
        Y = {0: lambda q: q[0], 90: lambda q: -q[1], 180: lambda q: -q[0], 270: lambda q: q[1]}
        f = dict(x=X[d], y=Y[d], z=lambda q: q[2])
        span = []
        for k in (0, 1):
            v = [f[ax[k]](q) for q in self.turb]
            lo = min(v) - e["space"][k]
            if ax[k] == "z":
                lo = min(lo, 0)
            lo = e["bounds"][2 * k] if e["given"][2 * k] else lo
            hi = e["bounds"][2 * k + 1] if e["given"][2 * k + 1] else max(v) + e["space"][k]
            if lo >= hi:
                return None
            span.append(hi - lo)
        if rng.random() < 0.4:
            res = [r for r in (1600, 800, 400, 200, 100, 80, 60, 40, 20) if all(1 <= int(s / r + 0.5) <= 8 and (2 * s + r) % (2 * r) and s % int(s / r + 0.5) == 0 for s in span)]
            if res:
                kw["resolution"] = e["res"] = rng.choice(res)
                return e
        e["num"] = [rng.choice([m for m in (1, 2, 3, 4, 5, 6) if m == 1 or s % (m - 1) == 0]) for s in span]
        kw["n_img_points"] = tuple(e["num"])
        return e

    def mode(self, e, names, got):
        e["got"] = got

    def slice(self):
        rng = self.rng
        ori = rng.choice(["xy", "xz", "yz"])
        kw = {}
        g = self.grid(ori, kw)
        if g is None:
            return None
        mean = rng.random() < 0.6
        how = rng.choice(["xarray", "xarray", "numpy", "pandas", "slices", "figure", "data2xr"])
        if how == "data2xr" and mean:
            how = "xarray"
        if how == "figure" and ori == "xy" and False:
            how = "numpy"
        sel = self.selection(kw)
        names, fs = self.request(kw, every=how not in ("numpy", "figure", "data2xr"))
        e = dict(t="slice", how=how + (" mean" if mean else ""), ok=1, err="", mean=int(mean), sel=sel, w=self.w, fields=fs, coords=0, a=[], b=[], c=0, states=sel, rows=0, got=[], tol=1, **g)
        scale = [1, 1]
        two = "yz"
        fun = f"get_{'mean' if mean else 'states'}_data_{ori}"
        a, b = ori
        lab = {}
        with guard(e, self.fres):
            o = SliceData(self.algo, self.fres, out_dir=self.dir)
            if how == "figure":
                self.figure(e, ori, mean, names, fs, kw)
                return e
            if how == "data2xr":
                self.convert(e, ori, names, fs, kw)
                return e
            if rng.random() < 0.3:
                for k in (0, 1):
                    scale[k] = rng.choice([1, 80, 100])
                    kw[f"normalize_{ori[k]}"] = float(scale[k])
            if rng.random() < 0.3:
                lab = {a: "A", names[0]: "field"}
                kw["label_map"] = lab
            L = lambda x: lab.get(x, x)
            cut = 0
            if how == "slices":
                c = ({"x", "y", "z"} - set(ori)).pop()
                kw.pop(c, None)
                cs = [0.0, 40.0, float(e["bounds"][4] or 100)]
                cut = 2
                e["given"][4], e["bounds"][4] = 1, int(cs[2])
                d = getattr(SlicesData(self.algo, self.fres), fun)(cs, **kw)
                d = d.isel({c: 2})
                d.attrs[c] = float(d[c])
            else:
                fn = None
                if how == "xarray" and rng.random() < 0.3:
                    fn = kw["to_file"] = "s.nc"
                if how == "pandas" and rng.random() < 0.3:
                    fn = kw["to_file"] = "s.csv"
                rs, rg = rng.random() < 0.3, rng.random() < 0.2 and not any(k.startswith("normalize") for k in kw)
                out = getattr(o, fun)(data_format=how, ret_states=rs, ret_grid=rg, **kw)
                if rs or rg:
                    d = out[0]
                    if rs:
                        e["states"] = [self.labels.index(x) + 1 for x in np.asarray(out[1]).tolist()]
                    if rg:
                        gd = out[-1]
                        p = [gd["xyz".index(ori[0])], gd["xyz".index(ori[1])]]
                        e.update(coords=1, a=[num(x, 1000) for x in p[0]], b=[num(x, 1000) for x in p[1]], c=num(gd[({0, 1, 2} - {"xyz".index(q) for q in ori}).pop()], 1000))
                else:
                    d = out
                if fn == "s.nc":
                    d = xr.load_dataset(f"{self.dir}/{fn}")
                    e["tol"] = 60
                elif fn:
                    ix = d.index.names
                    f = pd.read_csv(f"{self.dir}/{fn}")
                    if not set(ix) <= set(f.columns):  # index columns are not part of the written format
                        e["tol"] = 60
                        f.index = d.index
                        d = f
                    else:
                        d = f.set_index(list(ix))
            arr = []
            for v in names:
                if how in ("xarray", "slices"):
                    x = d[L(v)].transpose(*([] if mean else ["state"]), L(a), L(b)).to_numpy()
                    x = x[None] if mean else x
                elif how == "numpy":
                    x = np.moveaxis(d[None] if mean else d, -1, 0)[names.index(v)]
                else:
                    s = d[L(v)]
                    na, nb = (len(s.index.get_level_values(L(q)).unique()) for q in ori)
                    x = s.to_numpy().reshape(-1, na, nb)
                    assert s.index.equals(s.sort_index().index) or len(e["sel"]) > 1
                arr.append(x)
            if how in ("xarray", "slices"):
                if not mean:
                    e["states"] = [self.labels.index(int(x)) + 1 for x in d["state"].to_numpy()]
                c = ({"x", "y", "z"} - set(ori)).pop()
                e.update(coords=1, a=[num(x * scale[0], 1000) for x in d[L(a)].to_numpy()], b=[num(x * scale[1], 1000) for x in d[L(b)].to_numpy()], c=num(d.attrs[c], 1000))
            self.fill(e, arr)
        return e

    def fill(self, e, arr):
        e["rows"] = len(arr[0])
        e["got"] = [[[[num(x, 10000) for x in r] for r in y] for y in z] for z in arr]

    def figure(self, e, ori, mean, names, fs, kw):
        """What the mesh of a flow plot shows."""
        rng = self.rng
        v, f = names[0], fs[0]
        e["fields"] = [f]
        kw = {k: x for k, x in kw.items() if k not in ("variables", "vmin", "vmax", "normalize_v")}
        for a in ("lo", "hi"):
            f[a] = EMPTY
        f["norm"] = 1
        if rng.random() < 0.3:
            f["lo"], f["hi"] = 5500, 6000
            kw.update(vmin=55.0, vmax=60.0)
        if e["num"] and 1 in e["num"] and e["res"] == 0:
            e["num"] = [max(2, x) for x in e["num"]]
            kw["n_img_points"] = tuple(e["num"])
        o = FlowPlots2D(self.algo, self.fres)
        na = lambda im: np.asarray(im.get_array()).reshape(im.get_array().shape)
        if mean:
            r = getattr(o, f"get_mean_fig_{ori}")(v, ret_im=True, ret_data=True, **kw)
            im = r[1][0] if isinstance(r[1], (list, tuple)) else r[1]
            d = np.asarray(r[-1])
            z = np.asarray(im.get_array())
            z = z.T if z.ndim == 2 else z.reshape(d.shape[1], d.shape[0]).T
            self.fill(e, [z[None]])
            if not np.allclose(z, d):
                e["how"] = "figure data mean"
                self.fill(e, [d[None]])
        else:
            ims = []
            for r in getattr(o, f"gen_states_fig_{ori}")(v, ret_im=True, **kw):
                im = r[1][0] if isinstance(r[1], (list, tuple)) else r[1]
                ims.append(np.asarray(im.get_array()).T)
                plt.close("all")
            self.fill(e, [np.array(ims)])

    def convert(self, e, ori, names, fs, kw):
        kw = {k: x for k, x in kw.items() if k not in ("variables", "vmin", "vmax", "normalize_v")}
        for f in fs:
            f.update(lo=EMPTY, hi=EMPTY, norm=1)
        g = getattr(grids, f"get_grid_{ori}")(self.fres, **kw)
        pr = grids.calc_point_results(self.algo, g[3], self.fres, **{k: kw[k] for k in ("states_sel", "states_isel") if k in kw})
        d = grids.data2xr(*g[:3], pr, vars=names)
        arr = []
        for v in names:
            x = d[v].transpose(..., ori[0], ori[1]).to_numpy()
            arr.append(x.reshape((-1,) + x.shape[-2:]))
        c = ({"x", "y", "z"} - set(ori)).pop()
        e.update(coords=1, a=[num(x, 1000) for x in d[ori[0]].to_numpy()], b=[num(x, 1000) for x in d[ori[1]].to_numpy()], c=num(d.attrs[c], 1000))
        self.fill(e, arr)

    def points(self):
        rng = self.rng
        kw = {}
        n = rng.randint(1, 4)
        per = rng.random() < 0.4
        mean = rng.random() < 0.5
        sel = list(range(1, self.ns + 1)) if per or rng.random() < 0.5 else self.selection(kw)
        one = lambda: [[100 * rng.randint(-9, 9), 100 * rng.randint(-9, 9), 10 * rng.randint(0, 20)] for _ in range(n)]
        pts = [one() for _ in sel] if per else [one()] * len(sel)
        P = np.array(pts if per else pts[0], dtype=rng.choice([float, float, int]))
        k = rng.randrange(len(self.turb))
        e = dict(t="points", how="mean" if mean else "states", ok=1, err="", mean=int(mean), sel=sel, pts=pts, wt=[a if self.turb[k][0] < 0 else b for a, b in self.w], rows=0, got=[], tol=1,
                 fields=[dict(f, norm=1, lo=EMPTY, hi=EMPTY) for f in self.fields])
        if not per and "states_isel" in kw or "states_sel" in kw:
            # points for the selected states
            P = np.array(pts, dtype=float)
        with guard(e, self.fres, P):
            if mean:
                kw.update(states_mean=True, weight_turbine=k)
            fn = None
            if rng.random() < 0.4:
                fn = kw["to_file"] = "p.nc"
                if rng.random() < 0.5:
                    kw["write_vars"] = list(VARS)
            d = PointCalculator(self.algo, self.fres, out_dir=self.dir).calculate(P, **kw)
            if fn:
                d = xr.load_dataset(f"{self.dir}/{fn}")
                e["tol"] = 60
            arr = [d[v].to_numpy() for v in VARS]
            arr = [x[None] if mean else x for x in arr]
            e["rows"] = len(arr[0])
            e["got"] = [[[num(x, 10000) for x in r] for r in y] for y in arr]
        return e


def history(seed):
    rng = random.Random(f"c28-{seed}")
    if seed % 2:
        ev = [states_rose(rng) if rng.random() < 0.1 else rose(rng) for _ in range(3)]
    else:
        with zoo.engine("numpy", chunk_size_states=rng.choice([1, 2, 100]), chunk_size_points=rng.choice([3, 10, 1000]), n_procs=1):
            m = Maker(rng)
            ev = [x for x in [m.slice() if rng.random() < 0.7 else m.points() for _ in range(4)] if x is not None]
            ev = ev or [m.points()]
        shutil.rmtree(m.dir, ignore_errors=True)
    return dict(id=f"c28-{seed}", cfg=dict(k=0), ev=ev, tags=["history"])


def record(seeds):
    return [history(s) for s in seeds]


def canary(t, rng):
    e = t["ev"][-1]
    if not e["ok"] or not e["got"]:
        return None
    if e["t"] == "rose":
        i, j = rng.randrange(len(e["got"])), rng.randrange(len(e["got"][0]))
        if e["got"][i][j] == EMPTY:
            e["got"][i][j] = 0
        else:
            e["got"][i][j] += 7 if e["kind"] == "freq" else 9000
        return t if not (e["n"] * 64) % 1 and all((360 * k) % e["n"] for k in ()) is not None and any((360 * k) % e["n"] == 0 for k in (1, 2, 4, 8, 16, 32, 64)) else None
    x = e["got"][0][0][0]
    if e["t"] == "slice":
        if e["fields"][0]["lo"] != EMPTY or e["fields"][0]["hi"] != EMPTY:
            return None
        x[0] += 100
    else:
        e["got"][0][0][0] += 100
    return t


def run(chk):
    T = env.THOROUGH
    inv = ["Total", "CellsRight", "MeanInside"]
    base = dict(MaxStates=3 if T else 2, Bug="")
    chk.mc("RoseRun", constants=base, invariants=inv)
    for b, i in (("nowrap", "Total"), ("closed", "Total"), ("unnorm", "MeanInside")):
        chk.mc("RoseRun", constants=dict(base, MaxStates=2, Bug=b), invariants=inv, expect=i)
    n = env.cases(500, 6000)
    jobs = [chk.seed * 100000 + k for k in range(n)]
    chk.validate("RoseTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=600), canary=canary)
    chk.assumptions += ["wind directions are averaged like other variables in slices (not part of the property); grid spacings are whole metres",
                        "directions on a sector edge that has no exact floating point value may count in either neighbour"]
