"""C23: flashes, groups and events each split by the grid, one row per piece."""
import os
import pickle
import shutil
import tempfile

import numpy as real_np

from ..harness import Registry
from . import glmds
from .e2e import area, clip
from .c11 import DAY, EID, FID, GID, T, XE, YE, cells, mesh_for, table, world

R = Registry()
ASSUMPTIONS = ['square event outlines at fixed places (energies and areas are symbolic)',
               'pieces that cover less than 1e-6 of a cell are outside the bounds']
H = 0.002
EXTRA = 1.02   # outlines are widened by this factor before joining

# flash of each group, group of each event, places of the events
WORLDS = {
    'alone': ((0,), (0,), [(0.0071, 0.0072)]),
    'neighbours': ((0,), (0, 0), [(0.0051, 0.0072), (0.0091, 0.0072)]),
    'overlapping': ((0, 0), (0, 1, 0), [(0.0051, 0.0072), (0.0081, 0.0087), (0.0051, 0.0072)]),
    'two flashes': ((1, 0), (1, 0, 1), [(0.0051, 0.0072), (0.0081, 0.0087), (0.0091, 0.0072)]),
    'apart': ((0,), (0, 0), [(0.0031, 0.0041), (0.0121, 0.0112)]),
    'ring': ((0,), (0, 0, 0, 0), [(0.0102, 0.0083), (0.0042, 0.0083), (0.0072, 0.0113), (0.0072, 0.0053)]),
    'groups apart': ((0, 1, 0), (0, 1, 2, 2), [(0.0031, 0.0041), (0.0072, 0.0083), (0.0121, 0.0112), (0.0123, 0.0051)]),
}

# three teeth above a bar, for cells as wide as all of it
COMB = ((0,), (0,) * 8, [(0.002 + 0.004 * k, 0.0041) for k in range(5)] + [(0.002 + 0.008 * k, 0.0075) for k in range(3)])

SOLID = sorted(set(WORLDS) - {'ring'})


def union_area(boxes, clip=None):
    """Area covered by boxes (x0, x1, y0, y1), inside the box clip."""
    if clip:
        boxes = [(max(b[0], clip[0]), min(b[1], clip[1]), max(b[2], clip[2]), min(b[3], clip[3])) for b in boxes]
        boxes = [b for b in boxes if b[0] < b[1] and b[2] < b[3]]
    xs, ys = sorted(set(v for b in boxes for v in b[:2])), sorted(set(v for b in boxes for v in b[2:]))
    return sum((x1 - x0) * (y1 - y0) for x0, x1 in zip(xs, xs[1:]) for y0, y1 in zip(ys, ys[1:])
               if any(b[0] <= x0 and x1 <= b[1] and b[2] <= y0 and y1 <= b[3] for b in boxes))


def box(p, hx, hy=None):
    hy = hx if hy is None else hy
    return p[0] - hx, p[0] + hx, p[1] - hy, p[1] + hy


def check_split(c, rows, shapes, energy, when, project, xe=XE, ye=YE):
    """rows of one level; shapes: {id: boxes}; energy and when by id."""
    c.check('only known ids', set(int(v) for v in rows['flash_id']) <= set(shapes))
    for i, boxes in shapes.items():
        mine = [k for k in range(len(rows)) if int(rows['flash_id'][k]) == i]
        whole, total = union_area(boxes), 0
        for ci, cj, x0, x1, y0, y1 in cells(c, xe, ye):
            here = [k for k in mine if (int(rows['mesh_yi'][k]), int(rows['mesh_xi'][k])) == (ci, cj)]
            a = union_area(boxes, (x0, x1, y0, y1))
            cell = (x1 - x0) * (y1 - y0)
            if a <= 1e-6 * cell:
                c.check('no row for untouched cells', len(here) == 0)
                continue
            c.check('rows for touched cells', len(here) > 0, 'id %d, cell %s' % (i, (ci, cj)))
            c.close('cover of the cell', sum(rows['mesh_frac'][k] for k in here), a / cell, T)
            p = 0
            for k in here:
                p = p + rows['power'][k]
                c.close('time', rows['time'][k], when[i])
                if project:
                    x, y = project(rows['lon'][k], rows['lat'][k])
                    m = 1e-3 * (x1 - x0)
                    c.check('place in the cell', x0 - m <= x <= x1 + m and y0 - m <= y <= y1 + m,
                            '%s %s, cell %s' % (x, y, (x0, x1, y0, y1)))
            c.close('energy in the cell', p, energy[i] * (a / whole), T)
            total = total + p
        c.close('energy conserved', total, energy[i], T)


def projection(c, nadir):
    fixed, lla = c.mod('lmatools.grid.fixed').get_GOESR_coordsys(sat_lon_nadir=nadir)

    def f(lon, lat):
        x, y, z = fixed.fromECEF(*lla.toECEF(real_np.array([float(lon)]), real_np.array([float(lat)]), real_np.array([0.0])))
        return float(x[0]), float(y[0])
    return f


def grid_world(c, name):
    gp, ep, at = WORLDS.get(name, COMB)
    n = dict(flash=max(gp) + 1, group=len(gp), event=len(ep))
    en = {k: c.reals(k + 'en', n[k], 0.01, 100) for k in n}
    fa, ga = c.reals('fa', n['flash'], 1, 1000), c.reals('ga', n['group'], 1, 1000)
    glm = world(c, gp, ep, [p[0] for p in at], [p[1] for p in at], en['event'], fa, ga)
    for lv, dim in (('flash', glmds.FL), ('group', glmds.GR)):
        glm.dataset[lv + '_energy'] = ((dim,), c.farray(en[lv]))
    return dict(glm=glm, gp=gp, ep=ep, at=at, n=n, en=en, fa=fa, ga=ga, half=lambda p: (H, H))


def check_all(c, out, w, project, xe=XE, ye=YE, flashes=None):
    """flashes: positions of the flashes expected, all by default."""
    gp, ep, at, n, en = (w[k] for k in ('gp', 'ep', 'at', 'n', 'en'))
    every = dict(flash=FID, group=GID, event=EID)
    flashes = list(range(n['flash'])) if flashes is None else flashes
    keep = dict(flash=flashes, group=[k for k in range(n['group']) if gp[k] in flashes],
                event=[k for k in range(n['event']) if gp[ep[k]] in flashes])
    step = dict(flash=0.005, group=0.003, event=0.002)
    for lv in ('flash', 'group', 'event'):
        ev, parents = out[lv]
        own = {'event': lambda k: k, 'group': lambda k: ep[k], 'flash': lambda k: gp[ep[k]]}[lv]
        f = 1 if lv == 'event' else EXTRA
        ids = {q: every[lv][q] for q in keep[lv]}
        shapes = {i: [box(at[k], *[f * h for h in w['half'](at[k])]) for k in range(n['event']) if own(k) == q]
                  for q, i in ids.items()}
        check_split(c, ev, shapes, {i: en[lv][q] for q, i in ids.items()},
                    {i: 16320 + step[lv] * q for q, i in ids.items()}, project, xe, ye)
        c.check('one row each', sorted(int(v) for v in parents['flash_id']) == sorted(ids.values()))
        for r in range(len(parents)):
            q = every[lv].index(int(parents['flash_id'][r]))
            c.close('energy', parents['total_energy'][r], en[lv][q], T)
            if lv != 'event':
                c.close('area', parents['area'][r], w['fa' if lv == 'flash' else 'ga'][q], T)


class Sink:
    def __init__(self):
        self.got = []

    def send(self, pair):
        self.got.append(pair)


@R.scenario('all levels split on the fixed grid, returned or sent on; energies and areas symbolic', covers=SOLID + ['sent'])
def fixed(c):
    name = c.choice('world', SOLID)
    w = grid_world(c, name)
    sinks = c.choice('send', [None, dict]) and {k: Sink() for k in ('flash', 'group', 'event')}
    with table(H, H) as path:
        out = c.mod('glmtools.io.mimic_lma').read_flash_chunk(
            w['glm'].dataset, glm=w['glm'], target=sinks, base_date=DAY, nadir_lon=-75.0, fixed_grid=True,
            clip_events=mesh_for(c, XE, YE), corner_pickle=path)
    if sinks:
        c.check('sent once', all(len(s.got) == 1 for s in sinks.values()))
        out = {k: s.got[0] for k, s in sinks.items()}
        c.cover('sent')
    check_all(c, out, w, projection(c, -75.0))
    c.cover(name)


@R.scenario('a footprint like a comb on cells as wide as all of it; energies and areas symbolic', covers=['any'])
def comb(c):
    w = grid_world(c, 'comb')
    xe, ye = [-0.002, 0.022, 0.046], [-0.0004, 0.0036, 0.0076, 0.0116]
    with table(H, H) as path:
        out = c.mod('glmtools.io.mimic_lma').read_flash_chunk(
            w['glm'].dataset, glm=w['glm'], base_date=DAY, nadir_lon=-75.0, fixed_grid=True, clip_events=mesh_for(c, xe, ye),
            corner_pickle=path)
    check_all(c, out, w, projection(c, -75.0), xe, ye)
    c.cover('any')


@R.scenario('an outline standing on its corner, its place and the cells touched; energies symbolic', covers=['any'])
def corner(c):
    w = grid_world(c, 'alone')
    x, y = c.choice('at', [(0.0071, 0.0072), (0.00887, 0.01013), (0.0063, 0.0079)])
    w['glm'].dataset['event_x'] = ((glmds.EV,), real_np.array([x]))
    w['glm'].dataset['event_y'] = ((glmds.EV,), real_np.array([y]))
    outline = [(x + a, y + b) for a, b in ((0, H), (-H, 0), (0, -H), (H, 0))]
    with table(H, H, turn=True) as path:
        out = c.mod('glmtools.io.mimic_lma').read_flash_chunk(
            w['glm'].dataset, glm=w['glm'], base_date=DAY, nadir_lon=-75.0, fixed_grid=True, clip_events=mesh_for(c, XE, YE),
            corner_pickle=path)
    project = projection(c, -75.0)
    for lv, f in (('event', 1), ('group', EXTRA), ('flash', EXTRA)):
        rows = out[lv][0]
        wide = [(x + f * (a - x), y + f * (b - y)) for a, b in outline]
        for ci, cj, x0, x1, y0, y1 in cells(c, XE, YE):
            here = [k for k in range(len(rows)) if (int(rows['mesh_yi'][k]), int(rows['mesh_xi'][k])) == (ci, cj)]
            a = area(clip(wide, x0, x1, y0, y1))
            c.check('cells touched', (a > 1e-6 * (x1 - x0) * (y1 - y0)) == (len(here) == 1), '%s %s' % (lv, (ci, cj)))
            for k in here:
                c.close('cover of the cell', rows['mesh_frac'][k], a / ((x1 - x0) * (y1 - y0)), T)
                c.close('energy in the cell', rows['power'][k], w['en'][lv][0] * (a / (2 * H * H * f * f)), T)
                px, py = project(rows['lon'][k], rows['lat'][k])
                m = 1e-3 * (x1 - x0)
                c.check('place in the cell', x0 - m <= px <= x1 + m and y0 - m <= py <= y1 + m, '%s' % ((px, py),))
                c.check('place in the outline', abs(px - x) + abs(py - y) <= f * H + m, '%s' % ((px, py),))
    c.cover('any')


@R.scenario('some of the flashes split on the fixed grid', covers=['first', 'second'])
def some(c):
    w = grid_world(c, 'two flashes')
    q = c.choice('which', [0, 1])
    with table(H, H) as path:
        out = c.mod('glmtools.io.mimic_lma').read_flash_chunk(
            w['glm'].get_flashes([FID[q]]), glm=w['glm'], base_date=DAY, nadir_lon=-75.0, fixed_grid=True,
            clip_events=mesh_for(c, XE, YE), corner_pickle=path)
    check_all(c, out, w, projection(c, -75.0), flashes=[q])
    c.cover(['first', 'second'][q])


@R.scenario('a footprint with a hole; energies and areas symbolic', covers=['any'])
def ring(c):
    w = grid_world(c, 'ring')
    with table(H, H) as path:
        out = c.mod('glmtools.io.mimic_lma').read_flash_chunk(
            w['glm'].dataset, glm=w['glm'], base_date=DAY, nadir_lon=-75.0, fixed_grid=True, clip_events=mesh_for(c, XE, YE),
            corner_pickle=path)
    check_all(c, out, w, projection(c, -75.0))
    c.cover('any')


class lonlat_table:
    """A corner lookup table file in degrees from the satellite longitude, with
    outlines wider towards the east."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='symx')
        g = real_np.array([-30.0, 0.0, 30.0])
        x, y = real_np.meshgrid(g, g)
        lut = real_np.zeros((3, 3, 4, 2))
        for k, (sx, sy) in enumerate(((-1, 1), (-1, -1), (1, -1), (1, 1))):
            lut[:, :, k, 0], lut[:, :, k, 1] = sx * 1000 * H * (1 + x / 60), sy * 1000 * H
        path = os.path.join(self.dir, 'lut.pickle')
        with open(path, 'wb') as f:
            pickle.dump((x, y, lut), f)
        return path

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


@R.scenario('all levels split on a longitude and latitude grid; energies and areas symbolic', covers=SOLID)
def lonlat(c):
    name = c.choice('world', SOLID)
    nadir = c.choice('nadir', [-75.0, -137.0])
    w = grid_world(c, name)
    w['at'] = [(nadir + 1000 * x, 1000 * y) for x, y in w['at']]
    w['half'] = lambda p: (1000 * H * (1 + (p[0] - nadir) / 60), 1000 * H)
    d = w['glm'].dataset
    d['event_lon'] = ((glmds.EV,), real_np.array([p[0] for p in w['at']]))
    d['event_lat'] = ((glmds.EV,), real_np.array([p[1] for p in w['at']]))
    xe, ye = [nadir + 1000 * v for v in XE], [1000 * v for v in YE]
    with lonlat_table() as path:
        out = c.mod('glmtools.io.mimic_lma').read_flash_chunk(
            d, glm=w['glm'], base_date=DAY, nadir_lon=nadir, fixed_grid=False, clip_events=mesh_for(c, xe, ye),
            corner_pickle=path)
    check_all(c, out, w, lambda lon, lat: (float(lon), float(lat)), xe, ye)
    c.cover(name)
