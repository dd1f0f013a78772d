"""C11: the tables handed to the gridder conserve energy and weight counts by cell cover."""
import os
import pickle
import shutil
import tempfile
from datetime import datetime, timedelta

import numpy as real_np

from ..harness import Registry
from . import glmds

R = Registry()
ASSUMPTIONS = ['pieces of an outline that cover less than 1% of a cell width are outside the bounds',
               'a corner lookup table with constant offsets (square event outlines); C10 covers varying offsets']
DAY = datetime(2018, 7, 2)
T = 1e-5   # tables hold single precision numbers


class table:
    """A corner lookup table file with constant offsets, in microradians."""

    def __init__(self, hx, hy, turn=False):
        self.hx, self.hy = hx * 1e6, hy * 1e6
        self.corners = ((0, 1), (-1, 0), (0, -1), (1, 0)) if turn else ((-1, 1), (-1, -1), (1, -1), (1, 1))

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='symx')
        g = real_np.array([-200000.0, 0.0, 200000.0])
        x, y = real_np.meshgrid(g, g)
        lut = real_np.zeros((3, 3, 4, 2))
        for k, (sx, sy) in enumerate(self.corners):
            lut[:, :, k, 0], lut[:, :, k, 1] = sx * self.hx, sy * self.hy
        path = os.path.join(self.dir, 'lut.pickle')
        with open(path, 'wb') as f:
            pickle.dump((x, y, lut), f)
        return path

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def overlap(c, a0, a1, b0, b1):
    return c.max(c.min(a1, b1) - c.max(a0, b0), 0)


def cells(c, xe, ye):
    for j in range(len(ye) - 1):
        for i in range(len(xe) - 1):
            yield i, j, xe[i], xe[i + 1], ye[j], ye[j + 1]


def away(c, v, h, edges, margin):
    """The outline of half width h around v has no edge near a grid edge."""
    for e in edges:
        for s in (-h, h):
            c.assume(c.or_(v + s <= e - margin, v + s >= e + margin))


def mesh_for(c, xe, ye):
    np = c.np
    X, Y = np.meshgrid(np.array(xe, dtype='f8'), np.array(ye, dtype='f8'))
    return c.mod('glmtools.grid.clipping').QuadMeshSubset(X, Y, n_neighbors=160, regular=True)


FID, GID = [9, 70004, 6, 2 ** 20, 7], [70012, 30, 21, 2 ** 20 + 3, 8]
EID = [5, 66001, 8, 3, 2 ** 24 + 1, 6, 7, 300]


def world(c, gp, ep, x, y, en, fa, ga, **kw):
    nf, ng, ne = max(gp) + 1, len(gp), len(ep)
    f, g, e = FID[:nf], GID[:ng], EID[:ne]
    glm = glmds.load(c, glmds.dataset(c, f, g, e, [f[i] for i in gp], [g[i] for i in ep], **kw))
    d = glm.dataset
    d['event_x'] = ((glmds.EV,), c.farray(x))
    d['event_y'] = ((glmds.EV,), c.farray(y))
    d['event_energy'] = ((glmds.EV,), c.farray(en))
    d['flash_area'] = ((glmds.FL,), c.farray(fa))
    d['group_area'] = ((glmds.GR,), c.farray(ga))
    return glm


H = 0.004
XE = [0.0, 0.003, 0.006, 0.009, 0.012, 0.015, 0.018]
YE = [0.0, 0.004, 0.008, 0.012, 0.016]

SHAPES = {
    'single': ((0,), (0,)),
    'two': ((0, 1), (0, 1)),
    'shared': ((0, 0), (0, 1)),
    'three': ((0, 1, 0), (0, 1, 2)),
}


def check_tables(c, got, gp, ep, x, y, en, fa, ga, hx, hy, xe, ye, inside=True):
    """x may be symbolic; events at equal (x, y) share one location."""
    ev = got['event'][0]
    c.check('same table for all levels', got['flash'][0] is ev or len(got['flash'][0]) == len(ev))
    ne = len(x)
    rows = {}
    for k in range(len(ev)):
        key = (int(ev['mesh_yi'][k]), int(ev['mesh_xi'][k]))
        c.check('one row per cell', key not in rows)
        rows[key] = k
    # locations: events on the same point
    loc = []
    for k in range(ne):
        for p in loc:
            if x[k] is x[p[0]] and y[k] == y[p[0]]:
                p.append(k)
                break
        else:
            loc.append([k])
    total = 0
    for i, j, x0, x1, y0, y1 in cells(c, xe, ye):
        want = dict(power=0, mesh_frac=0, lutevent_count=0, lutevent_flash_count=0, lutevent_group_count=0,
                    lutevent_total_flash_area=0, lutevent_total_group_area=0)
        smallest, hits = None, 0
        for p in loc:
            a = overlap(c, x[p[0]] - hx, x[p[0]] + hx, x0, x1) * overlap(c, y[p[0]] - hy, y[p[0]] + hy, y0, y1)
            if not c.decide(a > 0):
                continue
            hits += 1
            fr, mf = a / (4 * hx * hy), a / ((x1 - x0) * (y1 - y0))
            fl, gr = sorted(set(gp[ep[k]] for k in p)), sorted(set(ep[k] for k in p))
            want['power'] += fr * sum(en[k] for k in p)
            want['mesh_frac'] += mf
            want['lutevent_count'] += mf * len(p)
            want['lutevent_flash_count'] += mf * len(fl)
            want['lutevent_group_count'] += mf * len(gr)
            want['lutevent_total_flash_area'] += mf * sum(fa[q] for q in fl)
            want['lutevent_total_group_area'] += mf * sum(ga[q] for q in gr)
            for q in fl:
                smallest = fa[q] if smallest is None else c.min(smallest, fa[q])
        if hits > 1:
            c.cover('overlap')
        key = (i, j)
        c.check('a row exactly for touched cells', (key in rows) == (hits > 0), 'cell %s' % (key,))
        if key in rows and hits:
            k = rows[key]
            for name, w in want.items():
                c.close(name, ev[name][k], w, T)
            c.close('smallest flash area', ev['lutevent_min_flash_area'][k], smallest, T)
            total = total + ev['power'][k]
    if inside:
        c.close('energy conserved', total, sum(en), T)
        c.cover('conserved')
    c.check('no cells outside', len(rows) <= (len(xe) - 1) * (len(ye) - 1))


def values(c, shape, fixed=False):
    gp, ep = SHAPES[shape]
    if fixed:
        return gp, ep, [7.0, 0.5, 31.0][:len(ep)], [410.0, 96.0][:max(gp) + 1], [64.0, 33.0, 21.0][:len(gp)]
    return (gp, ep, c.reals('e', len(ep), 0.01, 100), c.reals('fa', max(gp) + 1, 1, 1000),
            c.reals('ga', len(gp), 1, 1000))


B = 'tree "%s" on a 6x4 grid; %s'
AT = [0.0052, 0.0081, 0.0106, 0.0133]


@R.scenario(B % ('single', 'energy, areas and horizontal position symbolic'), shape='single', covers=['conserved'])
@R.scenario(B % ('two', 'horizontal position of one event symbolic'), shape='two', vals='fixed',
            covers=['conserved', 'overlap'])
@R.scenario(B % ('two', 'energies and areas symbolic'), shape='two', at='fixed', covers=['conserved', 'overlap'])
@R.scenario(B % ('shared', 'energies and areas symbolic, both events on one spot'), shape='shared', together=True,
            at='fixed', covers=['conserved'])
@R.scenario(B % ('shared', 'energies, areas and the position of both events symbolic'), shape='shared', together=True,
            covers=['conserved'], tier='thorough')
@R.scenario(B % ('three', 'horizontal position of one event symbolic'), shape='three', vals='fixed',
            covers=['conserved', 'overlap'], tier='thorough')
@R.scenario(B % ('three', 'energies and areas symbolic'), shape='three', at='fixed', covers=['conserved', 'overlap'])
def gridded(c, shape, together=False, vals=None, at=None):
    gp, ep, en, fa, ga = values(c, shape, vals == 'fixed')
    if at == 'fixed':
        x0 = c.choice('at', AT)
    else:
        x0 = c.real('x', 0.004, 0.014)
        away(c, x0, H, XE, 0.0001)
    if together:
        xs, ys = [x0] * len(ep), [0.0070] * len(ep)
    else:
        xs, ys = [x0, 0.0097, 0.0121][:len(ep)], [0.0070, 0.0105, 0.0055][:len(ep)]
        c.assume(c.or_(x0 < 0.0096, x0 > 0.0098))
    glm = world(c, gp, ep, xs, ys, en, fa, ga)
    nf, ng, d = max(gp) + 1, len(gp), glm.dataset
    fen, gen = c.reals('fen', nf, 0.01, 100), c.reals('gen', ng, 0.01, 100)
    fxy = list(zip(c.reals('fx', nf, 0, 0.01), c.reals('fy', nf, 0, 0.01)))
    gxy = list(zip(c.reals('gx', ng, 0, 0.01), c.reals('gy', ng, 0, 0.01)))
    for lv, dim, e_, xy in (('flash', glmds.FL, fen, fxy), ('group', glmds.GR, gen, gxy)):
        d[lv + '_energy'] = ((dim,), c.farray(e_))
        d[lv + '_x'] = ((dim,), c.farray([v[0] for v in xy]))
        d[lv + '_y'] = ((dim,), c.farray([v[1] for v in xy]))
    mesh = mesh_for(c, XE, YE)
    # a reference date up to 40 days before the flashes
    base = DAY if at is None else DAY - timedelta(days=dict(zip(AT, (0, 1, 40, 12)))[x0], seconds=11.4)
    since = (DAY - base).total_seconds() + 16320
    with table(H, H) as path:
        out = c.mod('glmtools.io.mimic_lma').read_flashes(glm, None, base_date=base, clip_events=mesh,
                                                          fixed_grid=True, nadir_lon=-75.0, corner_pickle=path)
    c.check('one chunk', len(out) == 1)
    check_tables(c, out[0], gp, ep, xs, ys, en, fa, ga, H, H, XE, YE)
    fl = out[0]['flash'][1]
    c.check('flash rows', len(fl) == max(gp) + 1)
    gr = out[0]['group'][1]
    c.check('group rows', len(gr) == len(gp))
    fid, gid = [int(v) for v in fl['flash_id']], [int(v) for v in gr['flash_id']]
    c.check('flash ids', sorted(fid) == sorted(FID[:max(gp) + 1]))
    c.check('group ids', sorted(gid) == sorted(GID[:len(gp)]))
    for r, v in enumerate(fid):
        k = FID.index(v)
        c.close('flash area', fl['area'][r], fa[k], T)
        c.check('flash start', abs(fl['start'][r] - (since + 0.005 * k)) < 1e-6, '%s' % fl['start'][r])
        c.close('flash duration', fl['duration'][r], 0.007, T)
        c.close('flash energy', fl['total_energy'][r], fen[k], T)
        c.close('flash x', fl['ctr_x'][r] * 100, fxy[k][0] * 100, T)
        c.close('flash y', fl['ctr_y'][r] * 100, fxy[k][1] * 100, T)
        c.check('flash events', int(fl['n_points'][r]) == len([q for q in ep if gp[q] == k]))
    for r, v in enumerate(gid):
        k = GID.index(v)
        c.close('group area', gr['area'][r], ga[k], T)
        c.check('group time', abs(gr['start'][r] - (since + 0.003 * k)) < 1e-6, '%s' % gr['start'][r])
        c.close('group duration', gr['duration'][r], 0)
        c.close('group energy', gr['total_energy'][r], gen[k], T)
        c.close('group x', gr['ctr_x'][r] * 100, gxy[k][0] * 100, T)
        c.close('group y', gr['ctr_y'][r] * 100, gxy[k][1] * 100, T)
        c.check('group events', int(gr['n_points'][r]) == ep.count(k))


@R.scenario('event near the border: only the part on the grid is kept', covers=['partly', 'off'])
def border(c):
    gp, ep, en, fa, ga = values(c, 'single')
    x0 = c.real('x', -0.006, 0.003)
    away(c, x0, H, XE, 0.0001)
    glm = world(c, gp, ep, [x0], [0.0070], en, fa, ga)
    mesh = mesh_for(c, XE, YE)
    with table(H, H) as path:
        out = c.mod('glmtools.io.mimic_lma').read_flashes(glm, None, base_date=DAY, clip_events=mesh,
                                                          fixed_grid=True, nadir_lon=-75.0, corner_pickle=path)
    off = c.decide(x0 < -H)
    c.cover('off' if off else 'partly')
    if off:
        c.check('nothing on the grid', len(out[0]['event'][0]) == 0)
        return
    check_tables(c, out[0], gp, ep, [x0], [0.0070], en, fa, ga, H, H, XE, YE, inside=False)


@R.scenario('event outline much larger than the cells', covers=['conserved'])
def large_event(c):
    gp, ep, en, fa, ga = values(c, 'single')
    xe = [0.002 * k for k in range(11)]
    x0 = c.real('x', 0.0095, 0.0115)
    away(c, x0, 0.008, xe, 0.00005)
    glm = world(c, gp, ep, [x0], [0.0080], en, fa, ga)
    mesh = mesh_for(c, xe, YE)
    with table(0.008, 0.003) as path:
        out = c.mod('glmtools.io.mimic_lma').read_flashes(glm, None, base_date=DAY, clip_events=mesh,
                                                          fixed_grid=True, nadir_lon=-75.0, corner_pickle=path)
    check_tables(c, out[0], gp, ep, [x0], [0.0080], en, fa, ga, 0.008, 0.003, xe, YE)


class Sink:
    def __init__(self):
        self.got = []

    def send(self, pair):
        self.got.append(pair)


@R.scenario('five flashes sent in chunks of any size; energies and some areas symbolic', covers=['several chunks', 'one chunk'])
def chunks(c):
    gp, ep = (0, 1, 2, 3, 4), (0, 1, 2, 3, 4)
    en, fa = c.reals('e', 5, 0.01, 100), c.reals('fa', 2, 1, 1000) + [500.0, 20.0, 60.0]
    xs, ys = [0.0052, 0.0097, 0.0125, 0.0060, 0.0111], [0.0070, 0.0105, 0.0055, 0.0100, 0.0081]
    glm = world(c, gp, ep, xs, ys, en, fa, [10.0, 20.0, 30.0, 40.0, 50.0])
    size = c.choice('size', [1, 2, 3, 4, 5, 9])
    sinks = dict(flash=Sink(), group=Sink(), event=Sink())
    with table(H, H) as path:
        c.mod('glmtools.io.mimic_lma').read_flashes(glm, sinks, base_date=DAY, clip_events=mesh_for(c, XE, YE),
                                                    fixed_grid=True, nadir_lon=-75.0, chunk_size=size,
                                                    corner_pickle=path)
    n = len(sinks['flash'].got)
    c.check('same chunks on each level', n == len(sinks['group'].got) == len(sinks['event'].got) and n >= 1)
    c.cover('several chunks' if n > 1 else 'one chunk')
    ids = sorted(int(v) for ev, fl in sinks['flash'].got for v in fl['flash_id'])
    c.check('each flash sent once', ids == sorted(FID))
    ids = sorted(int(v) for ev, fl in sinks['group'].got for v in fl['flash_id'])
    c.check('each group sent once', ids == sorted(GID))
    for level in ('flash', 'group', 'event'):
        total, count = 0, {}
        for ev, fl in sinks[level].got:
            for k in range(len(ev)):
                total = total + ev['power'][k]
                key = (int(ev['mesh_yi'][k]), int(ev['mesh_xi'][k]))
                a, b = count.get(key, (0, None))
                m = ev['lutevent_min_flash_area'][k]
                count[key] = a + ev['lutevent_total_flash_area'][k], m if b is None else c.min(b, m)
        c.close('energy conserved', total, sum(en), T)
        for i, j, x0, x1, y0, y1 in cells(c, XE, YE):
            want, least = 0, None
            for k in range(5):
                a = overlap(c, xs[k] - H, xs[k] + H, x0, x1) * overlap(c, ys[k] - H, ys[k] + H, y0, y1)
                if a > 1e-12:
                    want += a / ((x1 - x0) * (y1 - y0)) * fa[k]
                    least = fa[k] if least is None else c.min(least, fa[k])
            c.check('cells touched', ((i, j) in count) == (least is not None))
            if least is not None:
                c.close('area over chunks', count[i, j][0], want, T)
                c.close('smallest area over chunks', count[i, j][1], least, T)


@R.scenario('a selection of the flashes is gridded', covers=['all', 'some'])
def selected(c):
    """Only flashes that meet the selection contribute."""
    gp, ep = (0, 1), (0, 1, 1)
    en = c.reals('e', 3, 0.01, 100)
    xs, ys = [0.0052, 0.0097, 0.0125], [0.0070, 0.0105, 0.0055]
    glm = world(c, gp, ep, xs, ys, en, [100.0, 50.0], [10.0, 20.0])
    d = glm.dataset
    d['flash_x'] = ((glmds.FL,), c.farray([0.0052, 0.0111]))
    d['flash_y'] = ((glmds.FL,), c.farray([0.0070, 0.0080]))
    kind = c.choice('kind', ['x', 'y', 'lon', 'lat', 'events', 'groups'])
    lo = c.real('lo', -80, 80)
    kw, vals = {}, None
    if kind in ('x', 'y'):
        # the window test also applies to events, here of the same flash
        lim = c.real('lim', 0.001, 0.0075) if kind == 'y' else c.real('lim', 0.001, 0.009)
        kw[kind + '_range'] = (lim, 0.1)
        fl = [0.0052, 0.0111] if kind == 'x' else [0.0070, 0.0080]
        e_ = xs if kind == 'x' else ys
        keep = [c.decide(c.and_(fl[k] > lim, c.or_(*[e_[q] > lim for q in range(3) if gp[ep[q]] == k])))
                for k in range(2)]
    elif kind in ('lon', 'lat'):
        kw[kind + '_range'] = (lo, 90.0)
        f_ = [-75.0, -74.5] if kind == 'lon' else [10.0, 10.25]
        keep = [c.decide(f_[k] > lo) for k in range(2)]
    else:
        n = c.int('n', 0, 2)
        kw['min_' + kind] = n
        cnt = [1, 2] if kind == 'events' else [1, 1]
        keep = [c.decide(cnt[k] >= n) for k in range(2)]
    with table(H, H) as path:
        out = c.mod('glmtools.io.mimic_lma').read_flashes(glm, None, base_date=DAY, clip_events=mesh_for(c, XE, YE),
                                                          fixed_grid=True, nadir_lon=-75.0, corner_pickle=path, **kw)
    total, ids = 0, []
    for o in out:
        ev, fl = o['flash']
        ids += [int(v) for v in fl['flash_id']]
        for k in range(len(ev)):
            total = total + ev['power'][k]
    c.check('flashes sent', sorted(ids) == sorted(FID[k] for k in range(2) if keep[k]))
    c.close('energy of the selection', total, sum(en[q] for q in range(3) if keep[gp[ep[q]]]), T)
    if all(keep):
        c.cover('all')
    elif any(keep):
        c.cover('some')


@R.scenario('a flash of 400 events in 130 groups beside small ones; one energy and the areas symbolic', covers=['any'])
def busy(c):
    """The tables of a file with many more events than cells."""
    n = 400
    gp = (0,) * 130 + (1, 2)
    ep = tuple(k % 130 for k in range(n)) + (130, 131)
    spots = [(0.0052, 0.0070), (0.0097, 0.0105), (0.0125, 0.0055)]
    at = [spots[0] if k % 4 else spots[1] for k in range(n)] + [spots[1], spots[2]]
    e = c.real('e', 0.01, 100)
    en = [0.5 + (k % 7) for k in range(n + 2)]
    en[11] = e
    fa = c.reals('fa', 3, 1, 1000)
    f, g, ev_id = FID[:3], list(range(132)), list(range(n + 2))
    glm = glmds.load(c, glmds.dataset(c, f, g, ev_id, [f[i] for i in gp], [g[i] for i in ep]))
    d = glm.dataset
    for nm, dim, v in (('event_x', glmds.EV, [p[0] for p in at]), ('event_y', glmds.EV, [p[1] for p in at]),
                       ('event_energy', glmds.EV, en), ('flash_area', glmds.FL, fa)):
        d[nm] = ((dim,), c.farray(v))
    with table(H, H) as path:
        out, = c.mod('glmtools.io.mimic_lma').read_flashes(glm, None, base_date=DAY, clip_events=mesh_for(c, XE, YE),
                                                           fixed_grid=True, nadir_lon=-75.0, corner_pickle=path)
    fl, gr = out['flash'][1], out['group'][1]
    c.check('flashes', sorted(int(v) for v in fl['flash_id']) == sorted(f))
    c.check('groups', sorted(int(v) for v in gr['flash_id']) == g)
    for r in range(len(fl)):
        k = f.index(int(fl['flash_id'][r]))
        c.check('events of a flash', int(fl['n_points'][r]) == (n, 1, 1)[k], '%s' % fl['n_points'][r])
    for r in range(len(gr)):
        c.check('events of a group', int(gr['n_points'][r]) == ep.count(int(gr['flash_id'][r])))
    ev = out['event'][0]
    total = 0
    for k in range(len(ev)):
        i, j = int(ev['mesh_yi'][k]), int(ev['mesh_xi'][k])
        want = dict(power=0, lutevent_count=0, lutevent_flash_count=0, lutevent_group_count=0, lutevent_total_flash_area=0)
        least = None
        for p in spots:
            a = overlap(c, p[0] - H, p[0] + H, XE[i], XE[i + 1]) * overlap(c, p[1] - H, p[1] + H, YE[j], YE[j + 1])
            if a < 1e-12:
                continue
            here = [q for q in range(n + 2) if at[q] == p]
            fls, grs = sorted(set(gp[ep[q]] for q in here)), set(ep[q] for q in here)
            mf = a / ((XE[i + 1] - XE[i]) * (YE[j + 1] - YE[j]))
            want['power'] += a / (4 * H * H) * sum(en[q] for q in here)
            want['lutevent_count'] += mf * len(here)
            want['lutevent_flash_count'] += mf * len(fls)
            want['lutevent_group_count'] += mf * len(grs)
            want['lutevent_total_flash_area'] += mf * sum(fa[q] for q in fls)
            for q in fls:
                least = fa[q] if least is None else c.min(least, fa[q])
        for name, w in want.items():
            c.close(name, ev[name][k], w, T)
        c.close('smallest flash area', ev['lutevent_min_flash_area'][k], least, T)
        total = total + ev['power'][k]
    c.close('energy conserved', total, sum(en), T)
    c.cover('any')
