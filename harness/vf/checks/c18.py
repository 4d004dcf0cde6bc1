"""C18 inflow objects deliver the tabulated data at each state, height and place."""

import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
import xarray as xr

import foxes
import foxes.constants as FC
import foxes.variables as FV
from foxes.input import states as ST

from .. import env, zoo
from ..tlc import Raw

DIV = {FV.WS: 10.0, FV.TI: 1000.0, FV.RHO: 1000.0, FV.WD: 1.0}
MAX = {FV.WS: (30, 250), FV.TI: (20, 200), FV.RHO: (900, 1300)}
OV = [FV.WS, FV.WD, FV.TI, FV.RHO]
COLS = {FV.WS: "speed", FV.WD: "direction", FV.TI: "turb", FV.RHO: "dens", FV.WEIGHT: "freq"}
KINDS = ["table", "timeseries", "scan", "single", "tab", "tabfile", "mh", "mhts", "mhnc", "mhnct", "field", "fieldds", "wrg", "shear", "log", "ustar", "data", "singleprof"]


def draw(rng, v, *shape):
    if not shape:
        return rng.randrange(0, 360, 15) if v == FV.WD else rng.randint(*MAX[v])
    return [draw(rng, v, *shape[1:]) for _ in range(shape[0])]


def axis(rng, n, gaps=(1, 2, 4)):
    out = [rng.randint(0, 3)]
    while len(out) < n:
        out.append(out[-1] + rng.choice(gaps))
    return out


def chan(v, t, ah=(0,), ay=(0,), ax=(0,)):
    return dict(n=v, fix=0, fv=0, ah=list(ah), ay=list(ay), ax=list(ax), t=t)


def fixed(v, x):
    return dict(n=v, fix=1, fv=x, ah=[0], ay=[0], ax=[0], t=[])


def phys(v, a):
    return np.asarray(a, dtype=float) / DIV[v]


class Case:
    """An inflow object with its specification."""

    def __init__(self, rng, tmp, kind):
        self.rng, self.tmp, self.kind = rng, tmp, kind
        self.n = rng.randint(1, 7)
        self.x0 = (1000.0 * rng.randint(-3, 3), 1000.0 * rng.randint(-3, 3))
        self.uh, self.uxy = rng.choice([10.0, 12.5, 5.0]), 50.0
        self.ranges = [(1, 20), (0, 20), (0, 20)]  # heights and positions of queries, in units
        self.oob = "edge"
        self.prof = dict(kind="none", rows=[])
        self.heights2 = None
        self.cfg = dict(src="tab", wk="uni", w=[], scan=[], sf=[], wf=[], norm=0, mid=[], dir=[])
        self.chans, self.labels, self.sel = [], list(range(self.n)), list(range(1, self.n + 1))
        self.index = None
        self.kw = {}
        getattr(self, "make_" + kind)()

    # -- tables ---------------------------------------------------------
    def rowsel(self, allow_loc=True):
        rng, kw = self.rng, {}
        how = rng.choice(["all", "all", "iloc", "slice"] + (["loc"] if allow_loc else []))
        if how in ("iloc", "loc"):
            k = sorted(rng.sample(range(self.n), rng.randint(1, self.n)))
            if rng.random() < 0.4:
                rng.shuffle(k)
            self.sel = [i + 1 for i in k]
            if how == "iloc":
                kw["states_sel"] = k
            else:
                kw["states_loc"] = [self.index[i] for i in k]
        elif how == "slice":
            a = rng.randint(0, self.n - 1)
            kw["states_sel"] = slice(a, None)
            self.sel = list(range(a + 1, self.n + 1))
        return kw

    def weights(self, df, v2c):
        if self.rng.random() < 0.6:
            w = [self.rng.randint(0, 400000) for _ in range(self.n)]
            c = COLS[FV.WEIGHT] if self.rng.random() < 0.5 else FV.WEIGHT
            if c != FV.WEIGHT:
                v2c[FV.WEIGHT] = c
            df[c] = np.array(w) / 1e6
            self.cfg.update(wk="given", w=w)

    def frame(self, ov=OV, times=False):
        """Columns for the variables, some renamed, some replaced by fixed values."""
        rng = self.rng
        if times:
            self.index = pd.date_range("2020-03-28 22:00", periods=self.n, freq="30min")
        else:
            self.index = rng.sample(range(100, 200), self.n)
        df = pd.DataFrame(index=self.index)
        df.index.name = "Time" if times else FC.STATE
        v2c, fx = {}, {}
        for v in ov:
            if rng.random() < 0.25:
                x = draw(rng, v)
                fx[v] = float(x / DIV[v])
                self.chans.append(fixed(v, x))
                if rng.random() < 0.5:
                    df[v] = phys(v, draw(rng, v, self.n))
                continue
            t = draw(rng, v, self.n)
            c = v
            if rng.random() < 0.4:
                c = v2c[v] = COLS[v]
                if rng.random() < 0.5:
                    df[v] = phys(v, draw(rng, v, self.n))
            df[c] = phys(v, t)
            self.chans.append(chan(v, [[[[x]]] for x in t]))
        self.weights(df, v2c)
        cols = list(df.columns)
        rng.shuffle(cols)
        return df[cols], v2c, fx

    def stored(self, df, name="table.csv"):
        if self.rng.random() < 0.4:
            p = self.tmp / self.rng.choice([name, name + ".gz"])
            df.to_csv(p)
            return str(p)
        return df

    def make_table(self, cls=None, times=False):
        df, v2c, fx = self.frame(times=times)
        kw = self.rowsel()
        self.obj = (cls or ST.StatesTable)(self.stored(df), output_vars=OV, var2col=v2c, fixed_vars=fx, **kw)

    def make_timeseries(self):
        self.make_table(ST.Timeseries, times=True)

    def make_scan(self):
        rng = self.rng
        vs = rng.sample(OV, 4)
        ln = {v: rng.randint(1, 3) for v in vs}
        sc = {v: draw(rng, v, ln[v]) for v in vs}
        self.cfg.update(src="scan", scan=[sc[v] for v in vs])
        self.chans = [chan(v, []) for v in vs]
        self.sel = []
        self.n = int(np.prod([len(a) for a in sc.values()]))
        self.labels = list(range(self.n))
        self.obj = ST.ScanStates({v: list(phys(v, a)) for v, a in sc.items()})

    def make_single(self):
        x = {v: draw(self.rng, v) for v in OV}
        self.n, self.sel, self.labels = 1, [1], [0]
        self.chans = [chan(v, [[[[a]]]]) for v, a in x.items()]
        self.obj = ST.SingleStateStates(ws=x[FV.WS] / 10, wd=float(x[FV.WD]), ti=x[FV.TI] / 1000, rho=x[FV.RHO] / 1000)

    # -- frequencies ----------------------------------------------------
    def make_tab(self, file=False):
        rng = self.rng
        nj = rng.choice([4, 8, 12, 6])
        ni = rng.randint(1, 5)
        a = rng.choice([1.0, 0.5])
        edges, e = [], 0
        for _ in range(ni):
            e += rng.choice([4, 8, 2])
            edges.append(e)
        full = [0] + [round(10 * a * x) for x in edges]
        mid = [(p + q) // 2 for p, q in zip(full[:-1], full[1:])]
        while True:
            wf = [rng.randint(0, 5) for _ in range(nj)]
            sf = [[rng.choice([0, 1, 2, 5]) for _ in range(nj)] for _ in range(ni)]
            if sum(wf) and all(sum(r[j] for r in sf) for j in range(nj)):
                break
        norm = rng.random() < 0.5
        dirs = [j * 360 // nj for j in range(nj)]
        if any(d % 15 for d in dirs):
            raise ValueError
        x = {FV.TI: draw(rng, FV.TI), FV.RHO: draw(rng, FV.RHO)}
        self.chans = [chan(FV.WS, []), chan(FV.WD, [])] + [fixed(v, b) for v, b in x.items()]
        self.cfg.update(src="freq", sf=sf, wf=wf, mid=mid, dir=dirs, wk="freq", norm=int(norm))
        self.sel = []
        self.n = sum(1 for r in sf for j in range(nj) if r[j] * wf[j])
        self.labels = list(range(self.n))
        if file:
            p = self.tmp / "inflow.tab"
            sep = rng.choice(["\t", " ", "   "])
            lines = ["some site", sep.join(["54.0", "7.0", "90.0"]), sep.join([str(nj), str(a), "0"]), sep.join(str(b) for b in wf)]
            lines += [sep.join([str(edges[i])] + [str(b) for b in sf[i]]) for i in range(ni)]
            p.write_text("\n".join(lines) + "\n")
            src = str(p) if rng.random() < 0.5 else p
        else:
            s, w = np.array(sf, dtype=float), np.array(wf, dtype=float)
            if norm:
                s, w = s * 1000 / s.sum(axis=0), w * 100 / w.sum()
            src = xr.Dataset(coords=dict(ws=np.array(edges, dtype=float), wd=np.array(dirs, dtype=float)),
                             data_vars=dict(wd_freq=(("wd",), w), ws_freq=(("ws", "wd"), s)),
                             attrs=dict(factor_ws=a, shift_wd=0.0))
        self.obj = ST.TabStates(src, output_vars=OV, fixed_vars={v: b / DIV[v] for v, b in x.items()}, **({} if norm and rng.random() < 0.5 else dict(normalize=norm)))

    def make_tabfile(self):
        self.make_tab(file=True)

    # -- heights --------------------------------------------------------
    def make_mh(self, cls=None, times=False):
        rng = self.rng
        nh = rng.randint(2, 4)
        ah = axis(rng, nh)
        ah = [a + 3 for a in ah]
        self.index = list(pd.date_range("2021-10-31 00:00", periods=self.n, freq="10min")) if times else rng.sample(range(300, 400), self.n)
        df = pd.DataFrame(index=self.index)
        df.index.name = "Time" if times else FC.STATE
        v2c, fx = {}, {}
        tall = 0
        for k, v in enumerate(OV):
            how = rng.choice(["h", "h", "solo", "fix"]) if tall or k < 3 else "h"
            if how == "fix":
                x = draw(rng, v)
                fx[v] = float(x / DIV[v])
                self.chans.append(fixed(v, x))
                if rng.random() < 0.5:
                    df[v] = phys(v, draw(rng, v, self.n))
            elif how == "solo":
                t = draw(rng, v, self.n)
                c = v
                if rng.random() < 0.4:
                    c = v2c[v] = COLS[v]
                df[c] = phys(v, t)
                self.chans.append(chan(v, [[[[x]]] for x in t]))
            else:
                tall += 1
                t = draw(rng, v, self.n, nh)
                base = v
                if rng.random() < 0.3:
                    base = v2c[v] = COLS[v]
                for i, a in enumerate(ah):
                    h = a * self.uh
                    c = f"{base}-{int(h) if h == int(h) else h}"
                    if rng.random() < 0.2:
                        v2c[c] = c = f"m{i}_{v}"
                    df[c] = phys(v, [r[i] for r in t])
                self.chans.append(chan(v, [[[[x]] for x in r] for r in t], ah=ah))
        self.weights(df, v2c)
        cols = list(df.columns)
        rng.shuffle(cols)
        kw = self.rowsel()
        self.oob = rng.choice(["edge", "err", "err"])
        if self.oob == "edge":
            kw["bounds_error"] = False
        self.ranges[0] = (max(ah[0] - 2, 1), ah[-1] + 2) if self.oob == "edge" or rng.random() < 0.2 else (ah[0], ah[-1])
        self.obj = (cls or ST.MultiHeightStates)(self.stored(df[cols]), output_vars=OV, heights=[a * self.uh for a in ah], var2col=v2c, fixed_vars=fx, **kw)

    def make_mhts(self):
        self.make_mh(ST.MultiHeightTimeseries, times=True)

    def make_mhnc(self, times=False):
        rng = self.rng
        nh = rng.randint(2, 4)
        ah = [a + 3 for a in axis(rng, nh)]
        sc, hc = ("t" if rng.random() < 0.5 else FC.TIME) if times else rng.choice([FC.STATE, "case"]), rng.choice([FV.H, "z"])
        self.index = list(pd.date_range("2021-10-31 00:00", periods=self.n, freq="10min")) if times else rng.sample(range(300, 400), self.n)
        v2c, fx, dv, attrs = {}, {}, {}, {}
        use = list(range(nh))
        if nh > 2 and rng.random() < 0.4:
            use = sorted(rng.sample(use, nh - 1))
        tall = 0
        for k, v in enumerate(OV):
            how = rng.choice(["h", "h", "solo", "fix", "attr"]) if tall or k < 3 else "h"
            c = v
            if how != "fix" and rng.random() < 0.4:
                c = v2c[v] = COLS[v]
            if how == "fix":
                x = draw(rng, v)
                fx[v] = float(x / DIV[v])
                self.chans.append(fixed(v, x))
            elif how == "attr":
                x = draw(rng, v)
                attrs[c] = float(x / DIV[v])
                self.chans.append(chan(v, [[[[x]]]] * self.n))
            elif how == "solo":
                t = draw(rng, v, self.n)
                dv[c] = ((sc,), phys(v, t))
                self.chans.append(chan(v, [[[[x]]] for x in t]))
            else:
                tall += 1
                t = draw(rng, v, self.n, nh)
                dv[c] = ((sc, hc), phys(v, t))
                self.chans.append(chan(v, [[[[r[i]]] for i in use] for r in t], ah=[ah[i] for i in use]))
        wd = pd.DataFrame(index=range(self.n))
        self.weights(wd, v2c)
        for c in wd:
            dv[c] = ((sc,), wd[c].to_numpy())
        ds = xr.Dataset(coords={sc: np.array(self.index, dtype="datetime64[ns]") if times else self.index, hc: [a * self.uh for a in ah]}, data_vars=dv, attrs=attrs)
        if rng.random() < 0.5:
            src = self.tmp / "heights.nc"
            ds.to_netcdf(src, engine="h5netcdf")
        else:
            src = ds
        kw = self.rowsel()
        if len(use) < nh:
            kw["heights"] = [ah[i] * self.uh for i in use]
        self.oob = rng.choice(["edge", "err", "err"])
        if self.oob == "edge":
            kw["bounds_error"] = False
        uah = [ah[i] for i in use]
        self.ranges[0] = (max(uah[0] - 2, 1), uah[-1] + 2) if self.oob == "edge" or rng.random() < 0.2 else (uah[0], uah[-1])
        kw["time_coord" if times else "state_coord"] = sc
        if not times:
            kw["format_times_func"] = None
        self.obj = (ST.MultiHeightNCTimeseries if times else ST.MultiHeightNCStates)(src, output_vars=OV, var2col=v2c, fixed_vars=fx, h_coord=hc, **kw)

    def make_mhnct(self):
        self.make_mhnc(times=True)

    # -- fields ---------------------------------------------------------
    def make_field(self, inmem=False):
        rng = self.rng
        nh, ny, nx = rng.randint(2, 3), rng.randint(2, 3), rng.randint(2, 3)
        ah, ay, ax = [a + 3 for a in axis(rng, nh)], axis(rng, ny), axis(rng, nx)
        if rng.random() < 0.4:
            sc, hc, yc, xc = "s", "z", "north", "east"
            names = dict(states_coord=sc, h_coord=hc, y_coord=yc, x_coord=xc)
        else:
            sc, hc, yc, xc = "Time", "height", "UTMY", "UTMX"
            names = {}
        forms = [(sc, hc, yc, xc), (sc, hc, xc, yc), (sc, yc, xc), (sc, xc, yc), (sc, hc), (sc,)]
        flat = rng.random() < 0.2
        if flat:
            forms = [(sc, yc, xc), (sc, xc, yc), (sc,)]
            names["h_coord"] = None
        size = {sc: self.n, hc: nh, yc: ny, xc: nx}
        axes = {hc: ah, yc: ay, xc: ax}
        v2c, fx, dv = {}, {}, {}
        times = rng.random() < 0.5
        for k, v in enumerate(OV):
            if rng.random() < 0.25:
                x = draw(rng, v)
                fx[v] = float(x / DIV[v])
                self.chans.append(fixed(v, x))
                continue
            f = rng.choice(forms)
            if k == 3 and not dv:
                f = forms[0]
            t = np.array(draw(rng, v, *[size[d] for d in f]))
            c = v
            if rng.random() < 0.5:
                c = v2c[v] = COLS[v]
            dv[c] = (f, phys(v, t))
            order = [f.index(d) for d in (sc, hc, yc, xc) if d in f]
            t = np.transpose(t, order).reshape([size[d] if d in f else 1 for d in (sc, hc, yc, xc)])
            self.chans.append(chan(v, t.tolist(), **{a: axes[d] if d in f else [0] for a, d in (("ah", hc), ("ay", yc), ("ax", xc))}))
        if not any(set((yc, xc)) <= set(d[0]) for d in dv.values()):
            # a field has at least one quantity that depends on the place
            f = (sc, yc, xc)
            t = np.array(draw(rng, FV.TI, *[size[d] for d in f]))
            self.chans = [c for c in self.chans if c["n"] != FV.TI]
            fx.pop(FV.TI, None)
            dv.pop(v2c.pop(FV.TI, FV.TI), None)
            dv[FV.TI] = (f, phys(FV.TI, t))
            self.chans.append(chan(FV.TI, t[:, None].tolist(), ay=ay, ax=ax))
        if rng.random() < 0.5:
            w = [rng.randint(0, 400000) for _ in range(self.n)]
            dv["wgt"] = ((sc,), np.array(w) / 1e6)
            names["weight_ncvar"] = "wgt"
            self.cfg.update(wk="given", w=w)
        if times:
            self.index = list(pd.date_range("2022-01-01 00:00", periods=self.n, freq="h"))
            names["time_format"] = rng.choice([None, "%Y-%m-%d_%H:%M:%S"])
        else:
            self.index = list(range(10, 10 + self.n))
            names["time_format"] = None
        x0 = self.x0
        coords = {sc: np.array(self.index, dtype="datetime64[ns]") if times else self.index}
        used = set(sum([list(d[0]) for d in dv.values()], []))
        if hc in used:
            coords[hc] = [a * self.uh for a in ah]
        coords[yc] = [x0[1] + a * self.uxy for a in ay]
        coords[xc] = [x0[0] + a * self.uxy for a in ax]
        ds = xr.Dataset(coords=coords, data_vars=dv)
        if hc not in used:
            names["h_coord"] = None
        lm = rng.choice(["preload", "lazy", "fly"])
        single = False
        if rng.random() < 0.3:
            # a selection of states, from one file
            single = True
            k = sorted(rng.sample(range(self.n), rng.randint(1, self.n)))
            self.sel = [i + 1 for i in k]
            if rng.random() < 0.5:
                names["isel"] = {sc: k}
            else:
                names["sel"] = {sc: [coords[sc][i] for i in k]}
        if inmem:
            src, lm = ds, rng.choice(["preload", "lazy"])
        else:
            parts = 1 if self.n == 1 or single else rng.randint(1, min(3, self.n))
            cuts = np.array_split(np.arange(self.n), parts)
            for i, c in enumerate(cuts):
                ds.isel({sc: c}).to_netcdf(self.tmp / f"fld_{i}.nc", engine="h5netcdf")
            src = str(self.tmp / ("fld_0.nc" if parts == 1 and rng.random() < 0.5 else "fld_*.nc"))
        self.oob = "err"
        self.ranges = [(ah[0], ah[-1]), (ay[0], ay[-1]), (ax[0], ax[-1])]
        if hc not in used:
            self.ranges[0] = (1, 20)
        if rng.random() < 0.1:
            self.ranges[1] = (ay[0] - 3, ay[-1] + 3)
        self.load_mode = lm
        self.obj = ST.FieldDataNC(src, output_vars=OV, var2ncvar=v2c, fixed_vars=fx, load_mode=lm, bounds_extra_space=rng.choice([1000, 700.0, "20D"]), **names)

    def make_fieldds(self):
        self.make_field(inmem=True)

    def make_wrg(self):
        rng = self.rng
        nx, ny, ns = rng.randint(2, 5), rng.randint(2, 5), rng.choice([4, 8, 12])
        res = int(4 * self.uxy)
        f = [[[rng.randint(1, 200) for _ in range(nx)] for _ in range(ny)] for _ in range(ns)]
        A, k = rng.randint(60, 120), rng.randint(150, 250)
        rows = []
        for j in range(ny):
            for i in range(nx):
                r = ["P", self.x0[0] + i * res, self.x0[1] + j * res, 0, 100, A / 10, k / 100, 300, ns]
                for s in range(ns):
                    r += [f[s][j][i], A, k]
                rows.append(" ".join(str(b) for b in r))
        p = self.tmp / "site.wrg"
        p.write_text(f"{nx} {ny} {self.x0[0]} {self.x0[1]} {res}\n" + "\n".join(rows) + "\n")
        edges = [0.0] + sorted(rng.sample(range(1, 25), rng.randint(1, 4)))
        mid = [(a + b) / 2 for a, b in zip(edges[:-1], edges[1:])]
        fac = [(b - a) * (k / 100) / (A / 10) * (m / (A / 10)) ** (k / 100 - 1) * np.exp(-((m / (A / 10)) ** (k / 100))) for m, a, b in zip(mid, edges[:-1], edges[1:])]
        dirs = [j * 360 // ns for j in range(ns)]
        self.n = len(mid) * ns
        self.sel = list(range(1, self.n + 1))
        self.labels = list(range(self.n))
        self.sec = [j + 1 for _ in mid for j in range(ns)]
        self.fac = [int(round(1e4 * x)) for x in fac for _ in range(ns)]
        ax, ay = [4 * i for i in range(nx)], [4 * j for j in range(ny)]
        self.chans = [chan(FV.WS, [[[[int(round(10 * m))]]] for m in mid for _ in range(ns)]), chan(FV.WD, [[[[d]]] for _ in mid for d in dirs]),
                      chan("f", [[f[s]] for s in range(ns)], ay=ay, ax=ax)]
        fx = {}
        for v in (FV.TI, FV.RHO):
            x = draw(rng, v)
            fx[v] = x / DIV[v]
            self.chans.append(fixed(v, x))
        self.cfg["wk"] = "rel"
        self.oob = "err"
        self.ranges = [(1, 20), (0, ay[-1]), (0, ax[-1])]
        if rng.random() < 0.1:
            self.ranges[1] = (0, ay[-1] + 3)
        ext = rng.choice([None, 5000.0, "80D", "1D"])
        self.near = ext == "1D"
        self.obj = ST.WRGStates(str(p), [float(e) for e in edges], fixed_vars=fx, **(dict(bounds_extra_space=ext) if ext != "1D" else {}))

    # -- profiles -------------------------------------------------------
    def profrows(self, kind):
        rng = self.rng
        bs = list(range(4, 9))
        rows = []
        for _ in range(self.n):
            sg = rng.choice([-1, 0, 1]) if kind in ("log", "ustar") else 0
            m = rng.choice(bs)
            rows.append(dict(ws=rng.randint(30, 150) if kind != "ustar" else rng.randint(2, 20), m=m, a=rng.randint(1, 6), j=rng.randint(6, 11) if sg > 0 else rng.randint(8, 11), sg=sg, sh2=rng.choice([0, 2, -2, 4])))
        return rows

    def make_shear(self, kind="shear"):
        rng = self.rng
        rows = self.profrows(kind)
        cls = dict(shear="ShearedProfile", log="ABLLogWsProfile", ustar="ABLLogWsProfile")[kind]
        sgs = rng.choice([[-1, 0, 1], [0], [1], [-1]])
        if kind != "shear":
            for r in rows:
                r["sg"] = rng.choice(sgs)
                r["j"] = rng.randint(6, 11) if r["sg"] > 0 else rng.randint(8, 11)
            if len(sgs) == 1 and rng.random() < 0.6:
                cls = {0: "ABLLogNeutralWsProfile", 1: "ABLLogStableWsProfile", -1: "ABLLogUnstableWsProfile"}[sgs[0]]
        self.prof = dict(kind=kind, rows=rows)
        ov = [FV.WD, FV.TI, FV.RHO]
        df, v2c, fx = self.frame(ov=ov, times=rng.random() < 0.5)
        self.chans.insert(0, fixed(FV.WS, 0))
        cols = {FV.H: [2.0 ** r["m"] for r in rows]}
        if kind == "ustar":
            cols = {FV.USTAR: [0.41 * r["ws"] / 10 for r in rows]}
        else:
            cols[FV.WS] = [r["ws"] / 10 for r in rows]
        if kind == "shear":
            cols[FV.SHEAR] = [r["sh2"] / 2 for r in rows]
        else:
            cols[FV.Z0] = [2.0 ** -r["a"] for r in rows]
            if "Neutral" not in cls:
                zero = rng.choice([np.nan, 0.0])
                cols[FV.MOL] = [r["sg"] * 2.0 ** r["j"] if r["sg"] else zero for r in rows]
        for v, a in cols.items():
            if len(set(map(str, a))) == 1 and v != FV.WS and rng.random() < 0.7:
                fx[v] = a[0]
                if rng.random() < 0.5:
                    df[v] = a[0] * 3 + 1
                continue
            c = v
            if rng.random() < 0.3:
                c = v2c[v] = "col_" + v
            df[c] = a
        par = dict(ustar_input=True) if kind == "ustar" else {}
        how = rng.choice(["str", "dict", "obj"]) if not par else rng.choice(["dict", "obj"])
        p = cls if how == "str" else dict(type=cls, **par) if how == "dict" else foxes.core.VerticalProfile.new(cls, **par)
        self.powers = (3, 9) if not any(r["sg"] < 0 for r in rows) else (4, 8)
        kw = self.rowsel()
        ts = isinstance(df.index, pd.DatetimeIndex)
        self.obj = (ST.Timeseries if ts else ST.StatesTable)(self.stored(df), output_vars=OV, var2col=v2c, fixed_vars=fx, profiles={FV.WS: p}, **kw)

    def make_log(self):
        self.make_shear("log")

    def make_ustar(self):
        self.make_shear("ustar")

    def make_data(self):
        """A height profile from a table, for the turbulence."""
        rng = self.rng
        nh = rng.randint(2, 4)
        ah = [a + 2 for a in axis(rng, nh)]
        t = draw(rng, FV.TI, nh)
        z, d = [a * self.uh for a in ah], list(phys(FV.TI, t))
        pairs = list(zip(z, d))
        if rng.random() < 0.3:
            rng.shuffle(pairs)
        form = rng.choice(["df", "array", "csv", "cols"])
        z, d = [p[0] for p in pairs], [p[1] for p in pairs]
        if form == "array":
            src, kw = np.array([z, d]), {}
        elif form == "cols":
            src, kw = pd.DataFrame({"q": d, "hh": z, "other": 1.0}), dict(col_z="hh", col_var="q")
        else:
            src, kw = pd.DataFrame({FV.TI: d}, index=z), {}
            if form == "csv":
                src.to_csv(self.tmp / "prof.csv")
                src, kw = str(self.tmp / "prof.csv"), dict(pd_read_pars=dict(index_col=0))
        self.oob = rng.choice(["err", "edge"])
        if self.oob == "edge":
            kw.update(bounds_error=False, fill_value=(float(phys(FV.TI, t[0])), float(phys(FV.TI, t[-1]))))
        df, v2c, fx = self.frame(ov=[FV.WS, FV.WD, FV.RHO])
        if rng.random() < 0.3:
            df[FV.TI] = 0.5
        self.chans.append(chan(FV.TI, [[[[x]] for x in t]] * self.n, ah=ah))
        self.ranges[0] = (max(ah[0] - 2, 1), ah[-1] + 2) if self.oob == "edge" or rng.random() < 0.2 else (ah[0], ah[-1])
        kw2 = self.rowsel()
        prof = foxes.core.VerticalProfile.new("DataProfile", data_source=src, variable=FV.TI, **kw)
        self.obj = ST.StatesTable(df, output_vars=OV, var2col=v2c, fixed_vars=fx, profiles={FV.TI: prof}, **kw2)

    def make_singleprof(self):
        rng = self.rng
        self.n, self.sel, self.labels = 1, [1], [0]
        kind = rng.choice(["shear", "log", "ustar"])
        r = self.profrows(kind)[0]
        self.prof = dict(kind=kind, rows=[r])
        x = {v: draw(rng, v) for v in OV}
        self.chans = [fixed(FV.WS, 0)] + [chan(v, [[[[x[v]]]]]) for v in OV[1:]]
        self.powers = (3, 9) if r["sg"] >= 0 else (4, 8)
        mol = r["sg"] * 2.0 ** r["j"] if r["sg"] else rng.choice([np.nan, 0.0])
        if kind == "shear":
            cls, kw = "ShearedProfile", {FV.H: 2.0 ** r["m"], FV.SHEAR: r["sh2"] / 2}
        else:
            cls = rng.choice(["ABLLogWsProfile", {0: "ABLLogNeutralWsProfile", 1: "ABLLogStableWsProfile", -1: "ABLLogUnstableWsProfile"}[r["sg"]]])
            kw = {FV.Z0: 2.0 ** -r["a"]}
            if "Neutral" not in cls:
                kw[FV.MOL] = mol
            if kind == "log":
                kw[FV.H] = 2.0 ** r["m"]
        p = dict(type=cls)
        if kind == "ustar":
            kw[FV.USTAR] = 0.41 * r["ws"] / 10
            p["ustar_input"] = True
        ws = {} if kind == "ustar" else dict(ws=r["ws"] / 10)
        self.obj = ST.SingleStateStates(wd=float(x[FV.WD]), ti=x[FV.TI] / 1000, rho=x[FV.RHO] / 1000, profiles={FV.WS: p}, **ws, **kw)


def one(seed):
    rng = random.Random(seed)
    kind = rng.choice(KINDS)
    tmp = Path(tempfile.mkdtemp(prefix="c18-", dir=env.SCRATCH))
    try:
        c = Case(rng, tmp, kind)
        ns = len(c.sel) if c.cfg["src"] == "tab" else c.n
        npt = rng.randint(1, 4)
        per = rng.random() < 0.5
        powers = getattr(c, "powers", None)

        def position():
            p = [rng.randint(*r) for r in c.ranges]
            return p + [rng.randint(*powers) if powers else 0]

        # the turbine stands at a place with data, its hub is within the heights
        hs = [ch["ah"] for ch in c.chans if len(ch["ah"]) > 1]
        hub = hs[0][rng.randrange(len(hs[0]))] * c.uh if hs else 2.0 ** rng.randint(*powers) if powers else 10 * rng.randint(4, 12)
        ys = [ch["ay"] for ch in c.chans if len(ch["ay"]) > 1]
        xs = [ch["ax"] for ch in c.chans if len(ch["ax"]) > 1]
        uy = rng.randint(ys[0][0], ys[0][-1]) if ys else 0
        ux = rng.randint(xs[0][0], xs[0][-1]) if xs else 0
        ty, tx = c.x0[1] + uy * c.uxy, c.x0[0] + ux * c.uxy
        if getattr(c, "near", False):
            # data are loaded around the farm only
            c.ranges = [c.ranges[0]] + [(max(u - 1, a[0][0]), min(u + 1, a[0][-1])) for u, a in ((uy, ys), (ux, xs))]
        same = [position() for _ in range(npt)]
        pos = [[position() for _ in range(npt)] if per else same for _ in range(ns)]
        cfg = dict(c.cfg, chans=c.chans, sel=c.sel, labels=c.labels, oob=c.oob, pos=pos, prof=c.prof)
        ev = []
        pts = np.array([[[c.x0[0] + p[2] * c.uxy, c.x0[1] + p[1] * c.uxy, 2.0 ** p[3] if powers else p[0] * c.uh] for p in q] for q in pos])
        farm = foxes.WindFarm()
        mbook = foxes.ModelBook()
        mbook.turbine_types["null"] = foxes.models.turbine_types.NullType(D=60.0, H=hub)
        farm.add_turbine(foxes.Turbine(xy=[tx, ty], turbine_models=["null"]), verbosity=0)
        eng = zoo.engine(rng.choice(["single", "threads", "numpy"]), chunk_size_states=rng.choice([None, 1, 2, 3]), chunk_size_points=rng.choice([None, 1, 3]))
        algo = foxes.algorithms.Downwind(farm, c.obj, wake_models=[], mbook=mbook, verbosity=0)
        try:
            with eng:
                fres = algo.calc_farm()
                pres = algo.calc_points(fres, points=pts if per else pts[0])
        except Exception as ex:
            ev.append(dict(t="run", ok=0, err=(type(ex).__name__ + " " + str(ex))[:70]))
            return [dict(id=f"inflow-{seed}", cfg=cfg, ev=ev, tags=[kind])]
        ev.append(dict(t="run", ok=1, err=""))
        ev.append(dict(t="size", n=int(fres.sizes[FC.STATE])))
        if fres.sizes[FC.STATE] != ns:
            return [dict(id=f"inflow-{seed}", cfg=cfg, ev=ev, tags=[kind])]
        if c.index is not None:
            lab = {str(pd.Timestamp(a)) if isinstance(a, pd.Timestamp) else str(a): i for i, a in enumerate(c.index)}
            got = [str(pd.Timestamp(a)) if np.issubdtype(np.asarray(a).dtype, np.datetime64) else str(a) for a in fres[FC.STATE].to_numpy()]
            ev.append(dict(t="label", got=[lab.get(a, -1) for a in got]))
        w = fres[FV.WEIGHT].to_numpy()

        def grab(ds, names):
            out = {}
            for v in names:
                out[v] = ds[v].to_numpy().reshape(ns, -1)
            return out

        for ds, amb in ((pres, True), (pres, False)):
            n_ = grab(ds, OV if not amb else [FV.var2amb[v] for v in OV])
            g = {v: n_[FV.var2amb[v] if amb else v] for v in OV}
            val = lambda a, k: np.where(np.isfinite(a), np.rint(np.nan_to_num(a) * k), -99999999).astype(int).tolist()
            if c.prof["kind"] == "none":
                r = np.deg2rad(g[FV.WD])
                ev.append(dict(t="val", c="U", got=val(-g[FV.WS] * np.sin(r), 1e5)))
                ev.append(dict(t="val", c="V", got=val(-g[FV.WS] * np.cos(r), 1e5)))
            else:
                ev.append(dict(t="prof", got=val(g[FV.WS], 100)))
                ev.append(dict(t="val", c=FV.WD, got=val(g[FV.WD], 10)))
            for v in (FV.TI, FV.RHO):
                ev.append(dict(t="val", c=v, got=val(g[v], DIV[v] * 10)))
        if kind == "wrg":
            pw = pres[FV.WEIGHT].to_numpy().reshape(ns, -1)
            ev.append(dict(t="wrel", sec=c.sec, fac=c.fac, got=[[int(round(min(1e7 * x, 5e6))) for x in r] for r in pw]))
        else:
            for ds in (fres, pres):
                a = ds[FV.WEIGHT].to_numpy().reshape(ns, -1)
                if ds is pres:
                    a = a[:, :1]
                ev.append(dict(t="weight", got=[int(round(1e6 * x)) for x in a[:, 0]]))
                ev.append(dict(t="wsum", got=int(round(1e6 * float(a[:, 0].sum())))))
        return [dict(id=f"inflow-{seed}", cfg=cfg, ev=ev, tags=[kind])]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def record(seeds):
    out = []
    for s in seeds:
        out += one(s)
    return out


def canary(t, rng):
    es = [e for e in t["ev"] if e["t"] in ("val", "prof")]
    if not es:
        return None
    e = rng.choice(es)
    k = rng.randrange(len(e["got"]))
    p = rng.randrange(len(e["got"][k]))
    e["got"][k][p] += 1500 if e["t"] == "val" and e["c"] in ("U", "V") else 40
    return t


def run(chk):
    T = env.THOROUGH
    base = dict(NR=4 if T else 3, Bug="")
    inv = ["Nodes", "Between", "Complete"]
    chk.mc("InflowRun", constants=base, invariants=inv, properties=["Finishes"])
    for b, x in (("colwins", "Nodes"), ("above", "Between"), ("scalar", "Between"), ("chunkN", "Complete"), ("selw", "Complete")):
        chk.mc("InflowRun", constants=dict(base, NR=3, Bug=b), invariants=inv, expect=x)
    s = chk.seed * 100000
    jobs = [s + k for k in range(env.cases(900, 9000))]
    chk.validate("InflowTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=600), canary=canary)
