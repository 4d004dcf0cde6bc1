"""Interning of floating point values as small integers.

Two values get the same number iff they agree within the tolerance, so that the
specifications compare values by identity. Values are collected per class
(normally one variable of one scenario) over all runs and then clustered.
"""

import numpy as np


class Interner:
    def __init__(self, rtol=1e-8, atol=1e-9):
        self.rtol, self.atol = rtol, atol
        self.vals = {}
        self.fixed = {}

    def add(self, cls, arr):
        self.vals.setdefault(cls, []).append(np.asarray(arr, dtype=float).ravel())

    def freeze(self):
        for c, vs in self.vals.items():
            a = np.unique(np.concatenate(vs))
            a = a[np.isfinite(a)]
            if len(a):
                gap = np.diff(a) > (self.atol + self.rtol * np.maximum(np.abs(a[1:]), np.abs(a[:-1])))
                ids = np.concatenate([[0], np.cumsum(gap)])
            else:
                ids = np.array([], dtype=int)
            self.fixed[c] = (a, ids + 1)

    def ids(self, cls, arr):
        arr = np.asarray(arr, dtype=float)
        a, ids = self.fixed[cls]
        out = np.zeros(arr.shape, dtype=int)
        fin = np.isfinite(arr)
        out[fin] = ids[np.searchsorted(a, arr[fin])]
        out[np.isnan(arr)] = 0
        out[np.isposinf(arr)] = -1
        out[np.isneginf(arr)] = -2
        return out


class Rows:
    """Interns tuples of ints as ints (one id per distinct result row)."""

    def __init__(self):
        self.d = {}

    def __call__(self, t):
        return self.d.setdefault(tuple(t), len(self.d) + 1)


def intern_tables(tables, circ=(), rtol=1e-8, atol=1e-9, skip=()):
    """tables: list of {var: array(s,t)}. Returns (list of id arrays(s,t), vars).
    One id stands for the tuple of all variables' value classes at a cell.
    Angles are compared on the circle."""
    it = Interner(rtol, atol)
    vs = sorted(set().union(*[set(t) for t in tables]) - set(skip))

    def comps(v, a):
        if v in circ:
            r = np.deg2rad(np.where(np.isfinite(a), a, 0.0))
            return [(v + "/c", np.where(np.isfinite(a), np.cos(r), a)), (v + "/s", np.where(np.isfinite(a), np.sin(r), a))]
        return [(v, a)]

    for t in tables:
        for v in vs:
            if v in t:
                for c, a in comps(v, t[v]):
                    it.add(c, a)
    it.freeze()
    rows = Rows()
    out = []
    for t in tables:
        shp = next(iter(t.values())).shape
        layers = []
        for v in vs:
            if v in t:
                for c, a in comps(v, t[v]):
                    layers.append(it.ids(c, a))
            else:
                layers.append(np.full(shp, -9))
        st = np.stack(layers, axis=-1).reshape(-1, len(layers))
        out.append(np.array([rows(r) for r in st.tolist()], dtype=int).reshape(shp))
    return out, vs


CIRC = ("WD", "AMB_WD", "YAW", "AMB_YAW", "YAWM", "AMB_YAWM")
