"""Stand-ins for scipy's scattered-data interpolators in symbolic mode.

Piecewise linear interpolation on the Delaunay triangulation of the table
points (computed by the real library) and nearest-neighbour lookup.  Table
positions are concrete up to one common symbolic offset per coordinate; the
values and the query positions may be symbolic.
"""
import math
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import is_sym, s_and
from .symnp import SymArray, finish


def _flat(a):
    if hasattr(a, 'dims'):
        a = a.values
    if isinstance(a, np.ndarray):
        return a.reshape(-1).view(np.ndarray).tolist()
    return list(a)


def _relative(vals):
    """(offset, concrete differences from it)."""
    if not any(is_sym(v) for v in vals):
        return 0, [core.to_frac(v) for v in vals]
    z3, off, out = core.z3, vals[0], []
    for v in vals:
        ta, tb = core._pair(v, off)
        d = z3.simplify(ta - tb, som=True)
        if not (z3.is_rational_value(d) or z3.is_int_value(d)):
            raise NotImplementedError('table positions with independent symbols')
        out.append(Fraction(d.as_fraction()) if z3.is_rational_value(d) else Fraction(d.as_long()))
    return off, out


class _Base:
    def __init__(self, points, values, **k):
        if isinstance(points, tuple):
            cols = [_flat(p) for p in points]
        else:
            p = np.asarray(points)
            cols = [_flat(p[:, i]) for i in range(p.shape[1])]
        (self.ox, xs), (self.oy, ys) = (_relative(col) for col in cols)
        self.pts = list(zip(xs, ys))
        self.vals = _flat(values)
        self.setup()

    def setup(self):
        pass

    def __call__(self, *loc):
        loc = loc[0] if len(loc) == 1 else np.stack([np.asarray(v) for v in loc], axis=-1)
        if hasattr(loc, 'dims'):
            loc = loc.values
        rows = np.asarray(loc)
        rows = rows.reshape(-1, 2)
        out = np.empty(len(rows), dtype=object)
        for i in range(len(rows)):
            x, y = rows[i].tolist()
            out[i] = self.one(x - self.ox, y - self.oy)
        return out.view(SymArray)


_tri = {}


def _triangulate(pts):
    key = tuple(pts)
    if key not in _tri:
        from scipy.spatial import Delaunay
        p = np.array([[float(a), float(b)] for a, b in pts])
        s = Delaunay(p).simplices
        q = p[s]
        _tri[key] = [tuple(int(i) for i in t) for t in s], q.min(axis=1), q.max(axis=1)
    return _tri[key]


class LinearNDInterpolator(_Base):
    def setup(self):
        self.tri, self.lo, self.hi = _triangulate(self.pts)

    def candidates(self, x, y):
        """Triangles that the query can reach on this path."""
        if len(self.tri) <= 32:
            return self.tri
        (xa, xb), (ya, yb) = core.bounds(x), core.bounds(y)
        ok = np.ones(len(self.tri), dtype=bool)
        for k, (a, b) in enumerate(((xa, xb), (ya, yb))):
            slack = 1e-9 * max(1.0, float(np.abs(self.hi[:, k]).max()))
            if a is not None:
                ok &= self.hi[:, k] >= a - slack
            if b is not None:
                ok &= self.lo[:, k] <= b + slack
        return [self.tri[i] for i in np.flatnonzero(ok)]

    def one(self, x, y):
        if core.special(x) or core.special(y):
            return math.nan
        for t in self.candidates(x, y):
            (ax, ay), (bx, by), (cx, cy) = (self.pts[i] for i in t)
            det = (by - cy) * (ax - cx) + (cx - bx) * (ay - cy)
            if det == 0:
                continue
            u = (x - cx) * ((by - cy) / det) + (y - cy) * ((cx - bx) / det)
            v = (x - cx) * ((cy - ay) / det) + (y - cy) * ((ax - cx) / det)
            w = 1 - u - v
            if bool(s_and(u >= 0, s_and(v >= 0, w >= 0))):
                vals = [self.vals[i] for i in t]
                if not any(is_sym(q) for q in vals) and vals[0] == vals[1] == vals[2]:
                    return vals[0]
                return u * self.vals[t[0]] + v * self.vals[t[1]] + w * self.vals[t[2]]
        return math.nan


class NearestNDInterpolator(_Base):
    def one(self, x, y):
        best = 0
        for k in range(1, len(self.pts)):
            (ax, ay), (bx, by) = self.pts[best], self.pts[k]
            # |q-b|^2 < |q-a|^2, with the squares of q cancelled
            closer = bx * bx + by * by - ax * ax - ay * ay < 2 * (bx - ax) * x + 2 * (by - ay) * y
            if bool(closer):
                best = k
        return self.vals[best]


def make_module():
    import scipy.interpolate as real
    m = types.ModuleType('scipy.interpolate')
    for k, v in vars(real).items():
        if not k.startswith('__'):
            setattr(m, k, v)
    m.LinearNDInterpolator = LinearNDInterpolator
    m.NearestNDInterpolator = NearestNDInterpolator
    return m
