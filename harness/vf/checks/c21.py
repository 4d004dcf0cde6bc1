"""C21 area geometry obeys set algebra and gives true boundary distances."""

import math
import random

import numpy as np

from foxes.utils.geom2d import AreaIntersection, AreaUnion, Circle, ClosedPolygon, HalfPlane

from .. import env

Q, R, BIG = 20, 10, 10**6


def shapes(rng):
    out = []
    for _ in range(rng.randint(3, 5)):
        k = rng.choice(["half", "circle", "poly", "poly"])
        if k == "half":
            n = rng.choice([[1, 0], [-1, 0], [0, 1], [0, -1], [rng.randint(-4, 4), rng.randint(1, 4)]])
            out.append(dict(k=k, c=[rng.randint(-R, R), rng.randint(-R, R)], n=n, r=0, pts=[]))
        elif k == "circle":
            out.append(dict(k=k, c=[rng.randint(-7, 7), rng.randint(-7, 7)], n=[0, 0], r=rng.randint(1, 8), pts=[]))
        else:
            while True:
                c = [rng.randint(-4, 4), rng.randint(-4, 4)]
                pts = {}
                for _ in range(rng.randint(3, 7)):
                    p = [rng.randint(-R, R), rng.randint(-R, R)]
                    if p != c:
                        pts.setdefault(round(math.atan2(p[1] - c[1], p[0] - c[0]), 6), p)
                ang = sorted(pts)
                # star shaped around c, so the polygon is simple
                gaps = [(b - a) % (2 * math.pi) for a, b in zip(ang, ang[1:] + ang[:1])]
                if len(ang) >= 3 and max(gaps) < math.pi - 1e-3:
                    break
            ps = [pts[a] for a in ang]
            if rng.random() < 0.5:
                ps = ps[::-1]
            j = rng.randrange(len(ps))
            out.append(dict(k=k, c=[0, 0], n=[0, 0], r=0, pts=ps[j:] + ps[:j]))
    return out


def build(rng, sh):
    if sh["k"] == "half":
        return HalfPlane(rng.choice([list, np.array])(sh["c"]), rng.choice([list, np.array])(sh["n"]))
    if sh["k"] == "circle":
        return Circle(rng.choice([list, np.array])(sh["c"]), sh["r"])
    p = sh["pts"] + ([sh["pts"][0]] if rng.random() < 0.3 else [])
    return ClosedPolygon(np.array(p, dtype=rng.choice([float, float, int])))


def tokens(rng, n, made):
    """A random expression over n basic areas and areas made earlier."""
    toks, depth = [], 0
    for _ in range(rng.randint(1, 9)):
        opts = ["a"] * (3 if depth < 2 else 1)
        if depth >= 1:
            opts += ["inv"]
        if depth >= 2:
            opts += ["+", "+", "-", "-", "u", "i", "i", "+l", "-l"]
        o = rng.choice(opts)
        if o == "a" and made and rng.random() < 0.4:
            toks.append(dict(t="old", n=rng.randrange(len(made))))
            depth += 1
        elif o == "a":
            toks.append(dict(t="a", n=rng.randint(1, n)))
            depth += 1
        elif o == "inv":
            toks.append(dict(t="inv", n=1))
        elif o in "+-":
            toks.append(dict(t=o, n=2))
            depth -= 1
        elif o in ("u", "i"):
            k = rng.randint(1, depth)
            toks.append(dict(t=o, n=k))
            depth -= k - 1
        else:
            k = rng.randint(1, depth - 1)
            toks.append(dict(t=o, n=k))
            depth -= k
    if not any(t["t"] in ("a", "old") for t in toks):
        toks = [dict(t="a", n=1)]
    return toks


def evaluate(toks, geoms, made):
    """The area and its tokens; composed areas are kept with the tokens they stand for."""
    st = []
    for t in toks:
        n = t["n"]
        if t["t"] == "a":
            st.append((geoms[n - 1], [t]))
            continue
        if t["t"] == "old":
            st.append(made[n])
            continue
        k = dict(inv=1, u=n, i=n).get(t["t"], n + 1 if t["t"][-1] == "l" else 2)
        x, st = st[-k:], st[:-k]
        a = [g for g, _ in x]
        g = {"inv": lambda: a[0].inverse(), "+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "u": lambda: AreaUnion(list(a)),
             "i": lambda: AreaIntersection(list(a)), "+l": lambda: a[0] + a[1:], "-l": lambda: a[0] - a[1:]}[t["t"]]()
        st.append((g, [u for _, q in x for u in q] + [t]))
        if len(st[-1][1]) <= 14:
            made.append(st[-1])
    return st[-1]


def big(x):
    return BIG if x > BIG else -BIG if x < -BIG else int(round(x))


def record(seed):
    rng = random.Random(f"c21-{seed}")
    shp = shapes(rng)
    geoms = [build(rng, s) for s in shp]
    ev = []
    made = []
    n_new = rng.randint(4, 8)
    for k in range(n_new + 3):
        pts = [[rng.randint(-R, R), rng.randint(-R, R)] for _ in range(rng.randint(1, 25))]
        e = dict(t="inside", ok=1, err="", toks=[], pts=pts, ins=[], lo=[], hi=[])
        toks = tokens(rng, len(shp), made)
        try:
            if k >= n_new and made:  # an area made earlier, after its use in others
                g, e["toks"] = rng.choice(made)
            else:
                g, e["toks"] = evaluate(toks, geoms, made)
            P = np.array(pts, dtype=float)
            res = g.points_inside(P)
            e["ins"] = [int(x) for x in res]
            if len(res) != len(pts) or not np.array_equal(P, np.array(pts, dtype=float)):
                raise ValueError("points altered or lost")
            lo, hi = g.p_min(), g.p_max()
            e["lo"], e["hi"] = [big(Q * x) for x in lo], [big(Q * x) for x in hi]
        except Exception as ex:
            e.update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:150]}")
        ev.append(e)
    for i, (s, g) in enumerate(zip(shp, geoms)):
        pts = [[rng.randint(-R, R), rng.randint(-R, R)] for _ in range(rng.randint(1, 15))]
        if s["k"] == "circle" and rng.random() < 0.4:
            pts.append(s["c"])
        if s["k"] == "poly" and rng.random() < 0.4:
            pts.append(s["pts"][0])
        if rng.random() < 0.3:
            g = g.inverse()
        e = dict(t="dist", ok=1, err="", sh=i + 1, pts=pts, d=[], dn=[], near=[])
        try:
            P = np.array(pts, dtype=float)
            e["d"] = [int(round(Q * x)) for x in g.points_distance(P)]
            d, q = g.points_distance(P, return_nearest=True)
            e["dn"] = [int(round(Q * x)) for x in d]
            e["near"] = np.round(Q * np.asarray(q)).astype(int).tolist()
        except Exception as ex:
            e.update(ok=0, err=f"{type(ex).__name__}: {str(ex)[:150]}")
        ev.append(e)
    rng.shuffle(ev)
    return [dict(id=f"c21-{seed}", cfg=dict(shapes=shp), ev=ev)]


def batch(seeds):
    return [t for s in seeds for t in record(s)]


def canary(t, rng):
    e = rng.choice(t["ev"])
    if not e["ok"]:
        return None
    if e["t"] == "dist":
        k = rng.randrange(len(e["d"]))
        e["d"][k] += 5
        e["dn"][k] += 5
    elif len(e["ins"]) > 5:
        e["ins"] = [1 - x for x in e["ins"]]
    else:
        return None
    return t


def run(chk):
    T = env.THOROUGH
    chk.mc("AreaAlgebra", constants=dict(MaxOps=9 if T else 7, Bug=""), invariants=["Right"])
    for b in ("nodemorgan", "nested"):
        chk.mc("AreaAlgebra", constants=dict(MaxOps=8, Bug=b), invariants=["Right"], expect="Right")
    n = env.cases(160, 2400)
    jobs = [chk.seed * 100000 + k for k in range(n)]
    chk.validate("AreaTrace", chk.record(batch, [jobs[i::16] for i in range(16)], timeout=300), canary=canary)
