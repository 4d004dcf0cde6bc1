"""C19 written results read back as the results."""

import contextlib
import copy
import hashlib
import io
import random
import shutil
import tempfile
import zlib
from pathlib import Path

import numpy as np
import pandas as pd
import xarray as xr

import foxes.variables as FV
from foxes.output import Output, ResultsWriter, StateTurbineTable
from foxes.utils import write_nc

from .. import env, zoo

SC = 10**7
MISSING, OFF = -2000000000, -1999999999
VARS = [FV.WD, FV.YAW, FV.REWS, FV.TI, FV.RHO, FV.P, FV.CT, FV.AMB_P, FV.AMB_REWS, FV.AMB_TI, FV.CAP, FV.EFF, FV.WS, FV.X, FV.H, FV.AMB_YAW, FV.YLD, FV.REWS3]


def digest(*o):
    return hashlib.sha1(repr([zoo.fingerprint(x) for x in o]).encode()).hexdigest()[:12]


def num(x):
    if isinstance(x, str):
        return -1700000000 - zlib.crc32(x.encode()) % 10**8
    x = float(x)
    if np.isnan(x):
        return MISSING
    y = round(x * SC)
    return int(y) if abs(x) < 200 and abs(x * SC - y) < 1e-3 else OFF


def label(x):
    if isinstance(x, (np.datetime64, pd.Timestamp)):
        return pd.Timestamp(x).isoformat()
    return str(x)


class Maker:
    def __init__(self, seed):
        self.rng = rng = random.Random(f"c19-{seed}")
        self.dir = tempfile.mkdtemp(dir=env.SCRATCH)
        self.ev, self.files = [], {}
        ns, nt = rng.randint(1, 4), rng.randint(1, 4)
        self.dates = rng.random() < 0.5
        st = pd.date_range("2020-01-31 23:30", periods=ns, freq=rng.choice(["10min", "1h", "1D"])) if self.dates else [
            np.arange(ns), np.arange(ns) + 5, np.array(rng.sample(range(50), ns))][rng.randrange(3)]
        names = rng.sample(["T0", "T1", "WEA 7", "b,c", "Ae", 'q"t', "zz", "10"], nt)
        self.vars = rng.sample(VARS, rng.randint(1, 5))
        ints = {v: [[self.value(v) for _ in range(nt)] for _ in range(ns)] for v in self.vars}
        w = [rng.randrange(0, SC) for _ in range(ns)]
        ds = {v: (("state", "turbine"), np.array([[np.nan if x == MISSING else x / SC for x in r] for r in ints[v]])) for v in self.vars}
        extra = {"tname": (("turbine",), np.array(names)), "weight": (("state",), np.array(w) / SC)}
        allv = {**extra, **ds} if rng.random() < 0.3 else {**ds, **extra}
        self.ds = xr.Dataset(coords=dict(state=st), data_vars=allv)
        if rng.random() < 0.2:
            self.ds = self.ds.transpose("turbine", "state")
        self.order = [v for v in allv]
        val = dict(ints, tname=[[num(x) for x in names]] * ns, weight=[[x] * nt for x in w])
        self.labels = [label(x) for x in np.asarray(st)]
        self.tb = dict(states=self.labels, turbines=[str(t) for t in range(nt)], names=names, val=val)
        self.ns, self.nt = ns, nt
        self.fun = rng.random() < 0.2
        self.frame = None
        if rng.random() < 0.3:
            self.frame = self.ds.to_dataframe(dim_order=["state", "turbine"])[self.order]
        self.given = self.ds if self.frame is None else self.frame
        self.digest = digest(self.ds, self.frame)
        self.writer = self.new_writer()

    def value(self, v):
        rng = self.rng
        q = rng.random()
        if q < 0.05:
            return MISSING
        if q < 0.15:
            return rng.choice([0, 1, 5, 50, 500, 5000, 50000, 499999, 999999995, -5, -123456789])
        return rng.randrange(-10**9, 10**9) if q < 0.6 else rng.randrange(0, 2000) * 5 * 10 ** rng.randint(0, 4)

    def opts(self):
        o = dict(out_dir=self.dir)
        if self.fun:
            o["out_fname_fun"] = lambda p: p.with_name("run1_" + p.name)
        return o

    def new_writer(self):
        if self.frame is not None:
            return ResultsWriter(data=self.frame, **self.opts())
        return ResultsWriter(farm_results=self.ds, **self.opts())

    def where(self, fn):
        return f"{self.dir}/{'run1_' if self.fun else ''}{fn}"

    def request(self):
        """Variables, names and digits: arguments and their description."""
        rng = self.rng
        how = rng.choice(["all", "list", "dict", "dict"])
        q = dict(vars=list(self.order), ren=[], names=0, wide=0, fmt=[], alias=[], keep=0, ss=list(range(1, self.ns + 1)), tt=list(range(1, self.nt + 1)))
        arg = None
        if how != "all":
            q["vars"] = rng.sample(self.order, rng.randint(1, min(4, len(self.order))))
            arg = rng.choice([list, tuple])(q["vars"])
        if how == "dict":
            arg = {}
            for v in q["vars"]:
                arg[v] = rng.choice([v, f"my_{v}", f"{v} [u]"])
            if rng.random() < 0.5:
                arg["state"] = rng.choice(["Time", "case"])
            if rng.random() < 0.5:
                arg["turbine"] = rng.choice(["wt", "Turbine"])
            arg = {k: arg[k] for k in rng.sample(list(arg), len(arg))} if rng.random() < 0.5 else arg
            q["vars"] = [v for v in arg if v not in ("state", "turbine")]
            q["ren"] = [[a, b] for a, b in arg.items() if a != b]
        return q, arg

    def event(self, t, kind, path, **kw):
        e = dict(t=t, kind=kind, path=path, ok=1, err="", **kw)
        self.ev.append(e)
        return e

    def run(self, e, call, *given):
        f0 = [zoo.fingerprint(g) for g in given]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return call()
        except Exception as x:
            e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:120]}")
        finally:
            e["args"] = int([zoo.fingerprint(g) for g in given] == f0)
            e["digest"] = digest(self.ds, self.frame)

    def named(self, q, v):
        return dict((a, b) for a, b in q["ren"]).get(v, v)

    def csv(self):
        rng = self.rng
        q, arg = self.request()
        kw = {}
        if rng.random() < 0.3:
            kw["turbine_names"] = True
            q["names"] = 1
            if "tname" in q["vars"] and self.named(q, "tname") == "tname":
                q["vars"].remove("tname")  # then it is an index column
                if not q["vars"]:
                    return
        if rng.random() < 0.3 and len(q["vars"]) == 1 and arg is not None and len([v for v in (arg if not isinstance(arg, dict) else q["vars"])]) == 1 and q["vars"][0] not in ("tname", "weight"):
            kw["state_turbine_table"] = True
            q["wide"] = 1
        fmt = {}
        for v in q["vars"]:
            if v not in ("tname",) and rng.random() < 0.2:
                d = rng.randint(0, 6)
                fmt[self.named(q, v)] = f"{{:.{d}f}}"
                q["fmt"].append([self.named(q, v), d])
        if fmt or rng.random() < 0.2:
            kw["format_dict"] = fmt
        if q["ren"] and not q["wide"] and rng.random() < 0.4:
            al = {b: a for a, b in q["ren"] if a in self.vars and b not in fmt}
            kw["format_col2var"] = al
            q["alias"] = [[a, b] for a, b in al.items()]
        elif rng.random() < 0.2:
            kw["format_col2var"] = {}
        sep = ","
        if rng.random() < 0.3:
            kw["sep"] = sep = rng.choice([";", "\t"])
        fn = f"f{rng.randint(1, 3)}.csv" + rng.choice(["", "", "", ".gz", ".bz2", ".zip"])
        e = self.event("write", "csv", fn, q=q)
        W = self.writer if rng.random() < 0.8 else self.new_writer()
        A = dict(variables=arg) if arg is not None or rng.random() < 0.5 else {}
        P = rng.choice([str, Path])(fn)
        self.run(e, lambda: W.write_csv(P, verbosity=rng.choice([0, 1]), **A, **kw), A, kw)
        self.files[fn] = ("csv", sep, q)

    def nc(self):
        rng = self.rng
        q, arg = self.request()
        if "tname" in q["vars"]:
            if arg is None:
                if rng.random() < 0.7:
                    arg = q["vars"] = [v for v in q["vars"] if v != "tname"]
        kw = {}
        if rng.random() < 0.3:
            kw["turbine_names"] = True
            q["names"] = 1
        self.digits(q, kw)
        if rng.random() < 0.3:
            kw["complevel"] = rng.choice([None, 0, 4])
        fn = f"n{rng.randint(1, 3)}.nc"
        e = self.event("write", "nc", fn, q=q)
        W = self.writer if rng.random() < 0.8 else self.new_writer()
        A = dict(variables=arg) if arg is not None else {}
        self.run(e, lambda: W.write_nc(fn, verbosity=rng.choice([0, 0, 2]), **A, **kw), A, kw)
        self.files[fn] = ("nc", None, q)

    def digits(self, q, kw):
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            kw["round"] = None
            q["keep"] = 1
        elif r < 0.5:
            kw["round"] = {}
            for v in q["vars"]:
                if v != "tname" and rng.random() < 0.4:
                    kw["round"][self.named(q, v)] = d = rng.randint(0, 6)
                    q["fmt"].append([self.named(q, v), d])

    def table(self):
        """State-turbine tables, returned and written."""
        rng = self.rng
        q, arg = self.request()
        nm = {a: b for a, b in q["ren"]}
        vs = [v for v in q["vars"] if v not in ("tname", "weight")]
        if not vs:
            return
        q["vars"] = vs
        kw, sel = {}, {}
        for dim, key, lab in (("state", "ss", self.labels), ("turbine", "tt", self.tb["turbines"])):
            if rng.random() < 0.3:
                k = rng.sample(range(len(lab)), rng.randint(1, len(lab)))
                q[key] = [i + 1 for i in k]
                sel[nm.get(dim, dim)] = (k, lab)
        for d, (k, lab) in sel.items():
            w = rng.choice(["isel", "sel"])
            x = k if w == "isel" else ([pd.Timestamp(lab[i]).to_datetime64() for i in k] if self.dates and d == nm.get("state", "state") else [int(lab[i]) for i in k])
            kw.setdefault(w, {})[d] = x
        ds = self.ds if "turbine" not in self.ds.sizes else self.ds.transpose("state", "turbine", ...)
        self.digits(q, kw)
        fn = f"n{rng.randint(1, 3)}.nc"
        write = rng.random() < 0.7
        e = self.event("write", "nc", fn if write else "#returned", q=q if write else dict(q, keep=1))
        if not write:
            kw.pop("round", None)
        if nm or rng.random() < 0.3:
            kw["name_map"] = nm
        o = StateTurbineTable(ds, **self.opts())
        if write:
            kw["verbosity"] = 0
        ret = self.run(e, lambda: o.get_dataset(rng.choice([list, tuple])(vs), to_file=fn if write else None, **kw), kw, vs)
        if not e["ok"]:
            return
        if write:
            self.files[fn] = ("nc", None, q)
            e2 = self.event("write", "nc", "#returned", q=dict(q, keep=1), args=1, digest=e["digest"])
        self.read("#returned", ("ds", ret, dict(q)))

    def plain(self):
        """A table written without a results writer."""
        rng = self.rng
        vs = rng.sample(self.vars, rng.randint(1, len(self.vars)))
        q = dict(vars=vs, ren=[], names=0, wide=0, fmt=[], alias=[], keep=0, ss=list(range(1, self.ns + 1)), tt=list(range(1, self.nt + 1)))
        if rng.random() < 0.5:
            ds = self.ds[vs].transpose("state", "turbine")
            kw = {}
            self.digits(q, kw)
            fn = f"n{rng.randint(1, 3)}.nc"
            e = self.event("write", "nc", fn, q=q)
            self.run(e, lambda: write_nc(ds, self.where(fn), verbosity=0, **kw), kw, ds)
            self.files[fn] = ("nc", None, q)
        else:
            df = self.ds[vs].to_dataframe(dim_order=["state", "turbine"])[vs]
            fn = f"f{rng.randint(1, 3)}.csv"
            kw, sep = {}, ","
            if rng.random() < 0.4:
                kw["sep"] = sep = ";"
            e = self.event("write", "csv", fn, q=q)
            self.run(e, lambda: Output(**self.opts()).write(fn, df, **kw), kw, df)
            self.files[fn] = ("csv", sep, q)

    def read(self, fn, f):
        kind, x, q = f
        wide = q["wide"] == 1
        e = self.event("read", kind if kind != "ds" else "nc", fn, cols=[], states=[], turbines=[], si="", ti="")
        try:
            if kind == "csv":
                df = pd.read_csv(self.where(fn), sep=x, dtype={"tname": str, "my_tname": str, "tname [u]": str}, keep_default_na=True)
                cols = list(df.columns)
                e["si"], k = cols[0], 1
                st = df[cols[0]]
                e["states"] = [label(a) for a in (pd.to_datetime(st) if self.dates else st)]
                if not wide:
                    e["ti"], k = cols[1], 2
                    e["turbines"] = [label(a) for a in df[cols[1]]]
                e["cols"] = [dict(col=c, vals=[num(a) for a in df[c]]) for c in cols[k:]]
            else:
                ds = x if kind == "ds" else xr.open_dataset(self.where(fn))
                vs = list(ds.data_vars)
                e["si"], e["ti"] = ds[vs[0]].dims
                e["states"] = [label(a) for a in ds[e["si"]].to_numpy()]
                e["turbines"] = [label(a) for a in ds[e["ti"]].to_numpy()]
                e["cols"] = [dict(col=v, vals=[num(a) for a in ds[v].transpose(e["si"], e["ti"]).to_numpy().reshape(-1)]) for v in vs]
                if kind != "ds":
                    ds.close()
        except Exception as y:
            e.update(ok=0, err=type(y).__name__)


def history(seed):
    m = Maker(seed)
    rng = m.rng
    for _ in range(rng.randint(2, 6)):
        rng.choice([m.csv, m.csv, m.csv, m.nc, m.nc, m.table, m.plain])()
        if m.ev and not m.ev[-1]["ok"]:
            break
        if m.files and rng.random() < 0.4:
            fn = rng.choice(list(m.files))
            m.read(fn, m.files[fn])
    if not m.ev:
        m.plain()
    for fn, f in m.files.items():
        if m.ev[-1]["ok"]:
            m.read(fn, f)
    shutil.rmtree(m.dir, ignore_errors=True)
    return dict(id=f"c19-{seed}", cfg=dict(tb=m.tb, numeric=m.vars + ["weight"], digest=m.digest, tags=[f"_T{t:04d}" for t in range(m.nt)]), ev=m.ev, tags=["history"])


def record(seeds):
    return [history(s) for s in seeds]


def canary(t, rng):
    es = [e for e in t["ev"] if e["t"] == "read" and e["ok"] and e["cols"]]
    if not es:
        return None
    e = rng.choice(es)
    c = e["cols"][-1]
    if rng.random() < 0.5:
        c["vals"][0] = 1234567890 if c["vals"][0] != 1234567890 else 0
    else:
        e["states"][0] += "x"
    return t


def run(chk):
    T = env.THOROUGH
    inv = ["FilesHoldTheResults", "ResultsStay"]
    base = dict(MaxWrites=5 if T else 3, Bug="")
    chk.mc("ResultFiles", constants=base, invariants=inv, constraint="Bound")
    for b, i in (("leak", inv[0]), ("index", inv[0]), ("round", inv[1]), ("order", inv[0])):
        chk.mc("ResultFiles", constants=dict(base, MaxWrites=3, Bug=b), invariants=inv, constraint="Bound", expect=i)
    n = env.cases(400, 6000)
    jobs = [chk.seed * 100000 + k for k in range(n)]
    chk.validate("WriteTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=300), canary=canary)
    chk.assumptions += ["tables given as data frames are ordered by states, then turbines; turbine names and column names are distinct",
                        "HDF5 files are not written: the package they need is not installed"]
