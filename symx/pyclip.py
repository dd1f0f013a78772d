"""Stand-in for the pyclipper library in symbolic mode.

Contract assumed of the library (trusted, validated by the concrete replays):
the intersection of two polygons is the list of pieces with positive area, the
union of polygons covers the same region as its inputs.  Exact for axis-aligned
rectangles with symbolic coordinates; other shapes are handed to the real
library when they are concrete and are out of bounds otherwise.
"""
import types

import numpy as np

from . import core
from .core import is_sym, s_min, s_max, s_and
from .symnp import SymArray


def _pts(path):
    if hasattr(path, 'dims'):
        path = path.values
    out = []
    for p in path:
        if isinstance(p, np.ndarray):
            p = p.view(np.ndarray).tolist()
        out.append((p[0], p[1]))
    return out


def _same(a, b):
    if is_sym(a) and is_sym(b):
        return a.e.eq(b.e)
    if not is_sym(a) and not is_sym(b):
        return a == b
    return False


def as_rect(pts):
    """(xa, xb, ya, yb) if the four points form an axis-aligned rectangle."""
    if len(pts) != 4:
        return None
    (x0, y0), (x1, y1), (x2, y2), (x3, y3) = pts
    if _same(x0, x3) and _same(x1, x2) and _same(y0, y1) and _same(y2, y3):
        return x0, x1, y0, y2
    if _same(x0, x1) and _same(x2, x3) and _same(y0, y3) and _same(y1, y2):
        return x0, x2, y0, y1
    return None


def norm_rect(r):
    xa, xb, ya, yb = r
    if bool(xa > xb):
        xa, xb = xb, xa
    if bool(ya > yb):
        ya, yb = yb, ya
    return xa, xb, ya, yb


def concrete(pts):
    return not any(is_sym(v) for p in pts for v in p)


class Unsupported(Exception):
    pass


class Pyclipper:
    def __init__(self):
        self.Clear()

    def Clear(self):
        self.subj, self.clip = [], []

    def AddPath(self, path, poly_type, closed=True):
        p = _pts(path)
        (self.subj if poly_type == PT_SUBJECT else self.clip).append(p)
        return True

    def AddPaths(self, paths, poly_type, closed=True):
        for p in paths:
            self.AddPath(p, poly_type, closed)
        return True

    def Execute(self, clip_type, subj_fill_type=0, clip_fill_type=0):
        if clip_type == CT_INTERSECTION:
            out = []
            for s in self.subj:
                for c in self.clip:
                    out.extend(self._intersect(s, c))
            return out
        if clip_type == CT_UNION:
            return self._union(self.subj + self.clip, (subj_fill_type, clip_fill_type))
        raise Unsupported('clip type %r' % (clip_type,))

    def _intersect(self, s, c):
        rs, rc = as_rect(s), as_rect(c)
        if rs is None or rc is None:
            if concrete(s) and concrete(c):
                return _real_exec(real.CT_INTERSECTION, [s], [c])
            return _convex_clip(s, c)
        ax, bx, ay, by = norm_rect(rs)
        cx, dx, cy, dy = norm_rect(rc)
        x0, x1 = s_max(ax, cx), s_min(bx, dx)
        y0, y1 = s_max(ay, cy), s_min(by, dy)
        if not bool(x0 < x1) or not bool(y0 < y1):
            return []
        return [[[x1, y1], [x0, y1], [x0, y0], [x1, y0]]]

    def _union(self, polys, fill):
        if all(concrete(q) for q in polys):
            return _real_exec(real.CT_UNION, self.subj, self.clip, fill)
        if fill != (real.PFT_NONZERO, real.PFT_NONZERO):
            raise Unsupported('fill types %r' % (fill,))
        rects = []
        for p in polys:
            r = as_rect(p)
            if r is None:
                raise Unsupported('union of general polygons')
            r = norm_rect(r)
            rects.append(r)
        changed = True
        while changed:
            changed = False
            for i in range(len(rects)):
                for j in range(i + 1, len(rects)):
                    m = _merge(rects[i], rects[j])
                    if m is not None:
                        rects = [r for k, r in enumerate(rects) if k not in (i, j)] + [m]
                        changed = True
                        break
                if changed:
                    break
        return [[[b, d], [a, d], [a, c], [b, c]] for a, b, c, d in rects]


def _merge(p, q):
    """Union of two rectangles when it is a rectangle; None if they are
    disjoint; otherwise the shape is outside the bounds of this model."""
    a, b, c, d = p
    e, f, g, h = q
    if bool(b < e) or bool(f < a) or bool(d < g) or bool(h < c):
        return None
    samex = bool(s_and(a == e, b == f))
    samey = bool(s_and(c == g, d == h))
    if samex and samey:
        return p
    if samex:
        return a, b, s_min(c, g), s_max(d, h)
    if samey:
        return s_min(a, e), s_max(b, f), c, d
    if bool(s_and(s_and(a <= e, f <= b), s_and(c <= g, h <= d))):
        return p
    if bool(s_and(s_and(e <= a, b <= f), s_and(g <= c, d <= h))):
        return q
    # corner or partial-edge contact without overlap: still separate polygons
    if bool(b == e) or bool(f == a) or bool(d == g) or bool(h == c):
        if (bool(b == e) or bool(f == a)) and (bool(d == g) or bool(h == c)):
            return None
    core.engine().flags.add('clip-bound')
    raise core.PathEnd('union shape outside bounds')


def _area2(pts):
    t = 0
    for i in range(len(pts)):
        x0, y0 = pts[i]
        x1, y1 = pts[(i + 1) % len(pts)]
        t = t + (x0 * y1 - x1 * y0)
    return t


def _convex_clip(subj, clip):
    """Sutherland-Hodgman for convex polygons."""
    if bool(_area2(clip) < 0):
        clip = clip[::-1]
    out = list(subj)
    for i in range(len(clip)):
        if not out:
            break
        ax, ay = clip[i]
        bx, by = clip[(i + 1) % len(clip)]

        def side(p):
            return (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)
        inp, out = out, []
        for k in range(len(inp)):
            p, q = inp[k], inp[(k + 1) % len(inp)]
            sp, sq = side(p), side(q)
            pin, qin = bool(sp >= 0), bool(sq >= 0)
            if pin:
                out.append(p)
            if pin != qin:
                t = sp / (sp - sq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    if len(out) < 3 or not bool(core.s_abs(_area2(out)) > 1e-9):
        return []
    return [[[x, y] for x, y in out]]


def _real_exec(kind, subj, clip, fill=None):
    pc = real.Pyclipper()
    up, down = real.scale_to_clipper, real.scale_from_clipper
    if subj:
        pc.AddPaths(up([[tuple(map(float, p)) for p in s] for s in subj]), real.PT_SUBJECT, True)
    if clip:
        pc.AddPaths(up([[tuple(map(float, p)) for p in s] for s in clip]), real.PT_CLIP, True)
    return down(pc.Execute(kind, *(fill or (real.PFT_EVENODD, real.PFT_EVENODD))))


def _identity(x, scale=None):
    if isinstance(x, SymArray):
        x = x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x.tolist()
    return [_identity(v) if isinstance(v, (list, tuple, np.ndarray)) else v for v in x]


real = None
PT_SUBJECT = PT_CLIP = CT_INTERSECTION = CT_UNION = None


def make_module():
    global real, PT_SUBJECT, PT_CLIP, CT_INTERSECTION, CT_UNION
    import pyclipper as real_mod
    real = real_mod
    m = types.ModuleType('pyclipper')
    for k, v in vars(real_mod).items():
        if not k.startswith('__'):
            setattr(m, k, v)
    PT_SUBJECT, PT_CLIP = real_mod.PT_SUBJECT, real_mod.PT_CLIP
    CT_INTERSECTION, CT_UNION = real_mod.CT_INTERSECTION, real_mod.CT_UNION
    m.Pyclipper = Pyclipper
    m.scale_to_clipper = _identity
    m.scale_from_clipper = _identity
    return m
