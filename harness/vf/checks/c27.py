"""C27 layouts contain exactly the described turbines."""

import json
import random
import shutil
import tempfile

import numpy as np
import pandas as pd

import foxes
from foxes.input import farm_layout as FL
from foxes.output import FarmLayoutOutput
from foxes.utils.geom2d import Circle, ClosedPolygon

from .. import env, zoo
from ..tlc import Raw

SC = 10
BAD = -1000001
NONE, AUTO = -1, "#auto"
MODELS = ["kTI_02", "PMask", "yaw2yawm", "thrust2ct", "T_a", "T_b"]


def num(x, tol=1e-4):
    """Tenths, NONE for a missing value."""
    if x is None:
        return NONE
    x = float(x) * SC
    return int(round(x)) if np.isfinite(x) and abs(x) < 2e9 and abs(x - round(x)) < tol else BAD


def image(farm, exact=True):
    tol = 1e-4 if exact else 1.0
    return [dict(x=num(t.xy[0], tol), y=num(t.xy[1], tol), h=num(t.H), d=num(t.D), name=str(t.name), id=int(t.index), models=[str(m) for m in t.models]) for t in farm.turbines]


class Maker:
    def __init__(self, seed):
        self.rng = random.Random(f"c27-{seed}")
        self.farm = foxes.WindFarm(name=self.rng.choice(["wind_farm", "Park A"]))
        self.dir = tempfile.mkdtemp(dir=env.SCRATCH)
        self.ev, self.inexact = [], False
        self.used = set()
        self.templates = [[], ["T_a"], ["kTI_02", "T_b"]]

    def base(self, **kw):
        return dict(ok=1, err="", how="", args=1, k0=len(self.farm.turbines), farm=[], **kw)

    def run(self, e, call, *given):
        f0 = [zoo.fingerprint(g) for g in given]
        try:
            call()
            e["args"] = int([zoo.fingerprint(g) for g in given] == f0)
        except Exception as x:
            e.update(ok=0, err=f"{type(x).__name__}: {str(x)[:150]}")
        e["farm"] = image(self.farm, not self.inexact)
        self.ev.append(e)
        return e["ok"]

    def coord(self):
        return self.rng.randint(-3000, 3000) / self.rng.choice([1, 1, 2, 5])

    def vec(self, a):
        return self.rng.choice([list, np.array, tuple])([float(x) if self.rng.random() < 0.5 else x for x in a])

    def pars(self):
        """Turbine parameters with their description."""
        rng = self.rng
        kw, d = {}, dict(h=NONE, d=NONE, models=[])
        if rng.random() < 0.5:
            kw["H"] = rng.choice([90, 100.5, 120])
            d["h"] = num(kw["H"])
        if rng.random() < 0.5:
            kw["D"] = rng.choice([80, 126.4])
            d["d"] = num(kw["D"])
        if rng.random() < 0.7:
            kw["turbine_models"] = rng.choice(self.templates)  # the same list may describe several groups
            d["models"] = list(kw["turbine_models"])
        return kw, d

    def ids(self, n):
        rng = self.rng
        names = [f"{rng.choice('ABC')}{len(self.ev)}_{k}" for k in range(n)] if rng.random() < 0.4 else []
        ids = rng.sample(range(100, 200), n) if rng.random() < 0.4 else []
        return names, ids

    def row(self):
        rng = self.rng
        n = rng.randint(1, 5)
        b, s = [self.coord(), self.coord()], [self.coord(), rng.choice([0, self.coord()])]
        kw, d = self.pars()
        names, ids = self.ids(n)
        e = self.base(t="row", base=[num(x) for x in b], step=[num(x) for x in s], n=n, names=names, ids=ids, **d)
        B, S, N, I = self.vec(b), self.vec(s), names or None, ids or None
        self.run(e, lambda: FL.add_row(self.farm, B, S, n, indices=I, names=N, verbosity=0, **kw), B, S, N, I, kw)

    def grid(self):
        rng = self.rng
        n1, n2 = rng.randint(1, 3), rng.randint(1, 3)
        b, v1, v2 = ([self.coord(), self.coord()] for _ in range(3))
        kw, d = self.pars()
        names, ids = self.ids(n1 * n2)
        e = self.base(t="grid", base=[num(x) for x in b], v1=[num(x) for x in v1], v2=[num(x) for x in v2], n1=n1, n2=n2, names=names, ids=ids, **d)
        B, V, N, I = self.vec(b), rng.choice([list, np.array])([v1, v2]), names or None, ids or None
        self.run(e, lambda: FL.add_grid(self.farm, B, V, rng.choice([list, tuple])([n1, n2]), indices=I, names=N, verbosity=0, **kw), B, V, N, I, kw)

    def ring(self):
        rng = self.rng
        n = rng.randint(1, 9)
        dist = rng.choice([300, 500.0, 777])
        b = [rng.randint(-2000, 2000), rng.randint(-2000, 2000)]
        off = rng.choice([0, 90, 180, 270, 0.0, 45.0, 30, 53.0, 200, None])
        kw, d = self.pars()
        names, ids = self.ids(n)
        o = 0 if off is None else off
        R = n * dist / (2 * np.pi)
        e = self.base(t="ring", base=[num(x) for x in b], rad=int(round(R * SC)), first=[int(round(1000 * np.sin(np.deg2rad(o)))), int(round(1000 * np.cos(np.deg2rad(o))))],
                      n=n, names=names, ids=ids, **d)
        self.inexact = True
        B, N, I = self.vec(b), names or None, ids or None
        if off is not None:
            kw["offset_deg"] = off
        self.run(e, lambda: FL.add_ring(self.farm, B, dist, n, indices=I, names=N, verbosity=0, **kw), B, N, I, kw)

    def rand(self):
        rng = self.rng
        n, md = rng.randint(1, 10), rng.choice([200, 350.0])
        b = [rng.randint(-2000, 2000), rng.randint(-2000, 2000)]
        seed = rng.choice([0, 1, 42, None])
        kw, d = self.pars()
        e = self.base(t="random", base=[num(x) for x in b], min=num(md), n=n, names=[], ids=[], same=1, **d)
        self.inexact = True
        B = self.vec(b)
        other = foxes.WindFarm()
        np.random.seed(rng.randint(1, 1000))

        def call():
            FL.add_random(self.farm, n, md, B, seed=seed, verbosity=0, **kw)
            if seed is not None:
                np.random.uniform(0, 1, 3)
                FL.add_random(other, n, md, B, seed=seed, verbosity=0, **kw)
                e["same"] = int(all(np.array_equal(a.xy, b.xy) for a, b in zip(self.farm.turbines[e["k0"]:], other.turbines)))

        self.run(e, call, B, kw)

    def table(self):
        rng = self.rng
        n = rng.randint(1, 6)
        kw, d = self.pars()
        cx, cy = rng.choice([("x", "y"), ("E", "N")])
        lab = rng.choice(["range", "range", "shift", "perm", "twice"])
        labs = dict(range=list(range(n)), shift=list(range(3, 3 + n)), perm=rng.sample(range(n), n), twice=[k // 2 for k in range(n)])[lab]
        df = pd.DataFrame({cx: [self.coord() for _ in range(n)], cy: [self.coord() for _ in range(n)]}, index=labs)
        if rng.random() < 0.3:
            df = df.round().astype(int)
        rows = [dict(x=num(df[cx].iloc[k]), y=num(df[cy].iloc[k]), h=NONE, d=NONE, name="#label", lab=labs[k], id=NONE, pre=[], post=[]) for k in range(n)]
        args = {}
        if (cx, cy) != ("x", "y") or rng.random() < 0.5:
            args.update(col_x=cx, col_y=cy)
        for c, key, vals in (("hub", "h", [90.0, 100.5, 120.0]), ("dia", "d", [80.0, 126.5])):
            if rng.random() < 0.5:
                v = [None if rng.random() < 0.25 else rng.choice(vals) for _ in range(n)]
                df[c] = np.array([np.nan if x is None else x for x in v])
                if rng.random() < 0.8:
                    args["col_H" if key == "h" else "col_D"] = c
                    for r, x in zip(rows, v):
                        r[key] = num(x)
        if rng.random() < 0.4:
            df["label"] = [f"W{len(self.ev)}_{k}" for k in range(n)]
            if rng.random() < 0.8:
                args["col_name"] = "label"
                for k, r in enumerate(rows):
                    r["name"] = f"W{len(self.ev)}_{k}"
        q = rng.random()
        if q < 0.3:
            ids = rng.sample(range(200, 300), n)
            args["turbine_ids"] = ids
            for r, i in zip(rows, ids):
                r["id"] = i
        elif q < 0.6:
            df["nr"] = rng.sample(range(300, 400), n)
            args["col_id"] = "nr"
            for r, i in zip(rows, df["nr"]):
                r["id"] = int(i)
        if rng.random() < 0.3:
            df["m1"], df["m2"] = [rng.choice(MODELS) for _ in range(n)], [rng.choice(MODELS) for _ in range(n)]
            args["cols_models_pre"] = cols = rng.choice([["m1"], ["m2", "m1"]])
            for k, r in enumerate(rows):
                r["pre"] += [df[c].iloc[k] for c in cols]
        if rng.random() < 0.4:
            df["ty"] = [rng.choice(["NREL5MW", "DTU10MW"]) for _ in range(n)]
            args["col_turbine_type"] = "ty"
            for k, r in enumerate(rows):
                r["pre"].append(df["ty"].iloc[k])
        if rng.random() < 0.3:
            df["m3"] = [rng.choice(MODELS) for _ in range(n)]
            args["cols_models_post"] = ["m3"]
            for k, r in enumerate(rows):
                r["post"].append(df["m3"].iloc[k])
        e = self.base(t="table", rows=rows, nbase="T", shift=0, **d)
        if rng.random() < 0.3:
            e["nbase"] = args["turbine_base_name"] = "WT"
        if rng.random() < 0.3:
            args["turbine_base_name_count_shift"] = True
            e["shift"] = 1
        df = df[rng.sample(list(df.columns), len(df.columns))]
        how = rng.choice(["df", "df", "csv", "file", "csv.gz"])
        e["how"] = f" ({how}, {lab})"
        if how == "df":
            self.run(e, lambda: FL.add_from_df(self.farm, df, verbosity=0, **args, **kw), df, args, kw)
            return
        p = f"{self.dir}/t{len(self.ev)}.{'csv.gz' if how == 'csv.gz' else 'csv'}"
        df.to_csv(p, index_label="idx")
        args["col_index"] = "idx"
        f = FL.add_from_csv if how == "csv" else FL.add_from_file
        P = rng.choice([str, lambda x: __import__("pathlib").Path(x)])(p)
        self.run(e, lambda: f(self.farm, P, verbosity=0, **args, **kw), args, kw)

    def js(self):
        rng = self.rng
        n = rng.randint(1, 4)
        kw, d = self.pars()
        rows, dic = [], {}
        for k in range(n):
            r = dict(x=num(x := self.coord()), y=num(y := self.coord()), h=NONE, d=NONE, name=f"J{len(self.ev)}_{k}", lab=0, id=NONE, pre=[], post=[])
            w = dict(UTMX=x, UTMY=y)
            if rng.random() < 0.5:
                w["H"] = 111.5
                r["h"] = num(111.5)
            if rng.random() < 0.5:
                w["D"] = 77
                r["d"] = num(77)
            if rng.random() < 0.5:
                w["id"] = r["id"] = 400 + 10 * len(self.ev) + k
            if rng.random() < 0.5:
                w["turbine_models"] = r["pre"] = [rng.choice(MODELS) for _ in range(rng.randint(0, 2))]
            rows.append(r)
            dic[r["name"]] = w
        e = self.base(t="table", rows=rows, nbase="T", shift=0, **d)
        e["how"] = " (json)"
        p = f"{self.dir}/j{len(self.ev)}.json"
        with open(p, "w") as f:
            json.dump({"Farm": dic}, f)
        call = rng.choice([FL.add_from_json, FL.add_from_file])
        self.run(e, lambda: call(self.farm, p, verbosity=0, **kw), kw)

    def single(self):
        rng = self.rng
        kw, d = self.pars()
        xy = [self.coord(), self.coord()]
        r = dict(x=num(xy[0]), y=num(xy[1]), h=d["h"], d=d["d"], name=AUTO, lab=0, id=NONE, pre=[], post=[])
        if rng.random() < 0.3:
            kw["name"] = r["name"] = f"S{len(self.ev)}"
        if rng.random() < 0.3:
            kw["index"] = r["id"] = 500 + len(self.ev)
        e = self.base(t="single", rows=[r], nbase="T", shift=0, **d)
        X = self.vec(xy)
        self.run(e, lambda: self.farm.add_turbine(foxes.Turbine(xy=X, **kw), verbosity=0), X, kw)

    def model(self):
        rng = self.rng
        k = rng.randrange(len(self.farm.turbines))
        t = self.farm.turbines[k]
        n = len(t.models)
        m = rng.choice(MODELS)
        e = self.base(t="model", k=k + 1, m=m, pos=n)
        if rng.random() < 0.5:
            self.run(e, lambda: t.add_model(m), *self.templates)
        else:
            e["pos"] = rng.randint(0, n)
            self.run(e, lambda: t.insert_model(e["pos"], m), *self.templates)

    def read(self):
        """Write the layout and read it into a new farm."""
        rng = self.rng
        how = rng.choice(["csv", "json"])
        e = self.base(t="read", got=[], keep=[])
        e["how"] = how
        g = foxes.WindFarm()

        def call():
            o = FarmLayoutOutput(self.farm, out_dir=self.dir)
            fn = rng.choice([None, f"out{len(self.ev)}.{how}"])
            p = f"{self.dir}/{fn or self.farm.name + '.' + how}"
            if how == "csv":
                o.write_csv(fn)
                FL.add_from_csv(g, p, col_index="index", col_name="name", col_H="h", col_D="D", verbosity=0)
                e["keep"] = ["x", "y", "h", "d", "name"]
            else:
                o.write_json(fn)
                FL.add_from_json(g, p, verbosity=0)
                e["keep"] = ["x", "y", "h", "d", "name", "id"]
                if g.name != self.farm.name:
                    raise ValueError("farm name lost")
            e["got"] = image(g, not self.inexact)

        names = [t.name for t in self.farm.turbines]
        if len(set(names)) == len(names):
            self.run(e, call)

    def layout(self):
        e = self.base(t="layout", tab=[])
        e["how"] = ""

        def call():
            p = f"{self.dir}/l{len(self.ev)}.xyh"
            FarmLayoutOutput(self.farm, out_dir=self.dir).write_xyh(p)
            e["tab"] = [[num(a, 1.0 if self.inexact else 1e-4) if k < 2 else (NONE if np.isnan(a) else num(a)) for k, a in enumerate(r)] for r in np.loadtxt(p, ndmin=2)]

        self.run(e, call)

    def bounds(self):
        rng = self.rng
        ex = rng.choice([None, 0, 50, 100.5])
        e = self.base(t="bounds", extra=num(ex or 0), lo=[], hi=[])

        def call():
            lo, hi = self.farm.get_xy_bounds(extra_space=ex)
            tol = 1.0 if self.inexact else 1e-4
            e["lo"], e["hi"] = [num(x, tol) for x in lo], [num(x, tol) for x in hi]

        self.run(e, call)


def history(seed):
    m = Maker(seed)
    rng = m.rng
    for _ in range(rng.randint(2, 8)):
        if len(m.farm.turbines) > 25:
            break
        ops = [m.row, m.grid, m.ring, m.rand, m.table, m.table, m.table, m.js, m.single]
        if m.farm.turbines:
            ops += [m.model] * 4 + [m.read] * 3 + [m.layout, m.bounds]
        rng.choice(ops)()
        if not m.ev:
            continue
        if not m.ev[-1]["ok"]:
            break
    if not m.ev:
        m.single()
    shutil.rmtree(m.dir, ignore_errors=True)
    return dict(id=f"c27-{seed}", cfg=dict(k=0), ev=m.ev, tags=["history"])


def record(seeds):
    return [history(s) for s in seeds]


def canary(t, rng):
    e = t["ev"][-1]
    if not e["ok"] or not e["farm"] or e["t"] in ("ring", "random"):
        return None
    a = rng.choice(["x", "h", "models", "id"])
    f = rng.choice(e["farm"])
    f[a] = f[a] + ["extra"] if a == "models" else f[a] + 7
    return t


def run(chk):
    T = env.THOROUGH
    inv = ["AsDescribed", "IdsFollow"]
    base = dict(MaxOps=6 if T else 4, Bug="")
    chk.mc("FarmLayout", constants=base, invariants=inv)
    for b, i in (("shared", "AsDescribed"), ("restart", "AsDescribed"), ("nan", "AsDescribed"), ("nosize", "AsDescribed")):
        chk.mc("FarmLayout", constants=dict(base, MaxOps=4, Bug=b), invariants=inv, expect=i)
    n = env.cases(500, 6000)
    jobs = [chk.seed * 100000 + k for k in range(n)]
    chk.validate("LayoutTrace", chk.record(record, [jobs[i::32] for i in range(32)], timeout=300), canary=canary)
    chk.assumptions += ["file names, table columns and labels follow the documented formats; turbine names within a written layout are distinct"]
