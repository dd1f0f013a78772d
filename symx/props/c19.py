"""C19: lightning as point tables for other analysis tools."""
from datetime import datetime, timedelta

import numpy as real_np
import xarray as xr

from ..harness import Registry
from . import e2e, glmds
from .tree import attach

R = Registry()
ASSUMPTIONS = ['the lmatools base classes of the file collections are stand-ins (that library is not installed)']
T = 1e-5   # tables hold single precision numbers
DAY = datetime(2018, 7, 2)
START = datetime(2018, 7, 2, 4, 32)

# group -> flash and event -> group, as positions
TREES = {'one': ((0,), (0, 0)), 'two': ((0, 1), (1, 0, 1)), 'three': ((1, 0, 1), (2, 0, 1, 2)),
         'apart': ((2, 0, 1), (2, 0, 1, 2)), 'six': ((2, 0, 1, 5, 3, 4), (2, 0, 1, 2, 3, 5, 4))}
FID, GID = (9, 4, 6, 70000, 3, 2 ** 31 - 200), (12, 30, 21, 2 ** 31 - 300, 19, 15)
EID = (5, 1, 8, 3, 90000, 2, 2 ** 31 - 400)


def world(c, tree, first=0, start=START, tag='', **k):
    gp, ep = TREES[tree]
    n = dict(flash=max(gp) + 1, group=len(gp), event=len(ep))
    ids = dict(flash=[first + v for v in FID][:n['flash']], group=[first + v for v in GID][:n['group']],
               event=[first + v for v in EID][:n['event']])
    lon = {k: c.reals(tag + k + 'lon', n[k], -100, -40) for k in n}
    lat = {k: c.reals(tag + k + 'lat', n[k], -50, 50) for k in n}
    en = {k: [v * 1e-9 for v in c.reals(tag + k + 'en', n[k], 1, 100)] for k in n}
    ar = {k: c.reals(tag + k + 'ar', n[k], 1, 100) for k in ('flash', 'group')}
    ds = glmds.dataset(c, ids['flash'], ids['group'], ids['event'], [ids['flash'][k] for k in gp],
                       [ids['group'][k] for k in ep], energy=en, area=ar, units=('J', 'km2'), time=start.isoformat(), **k)
    w = dict(gp=gp, ep=ep, n=n, ids=ids, lon=lon, lat=lat, ar=ar, en={k: [v * 1e9 for v in en[k]] for k in n},
             start=start)
    return w, ds, (lon, lat)


def place(c, ds, where):
    """Give the entities of a loaded file their (symbolic) positions."""
    lon, lat = where
    for lv, dim in (('flash', glmds.FL), ('group', glmds.GR), ('event', glmds.EV)):
        ds[lv + '_lon'] = ((dim,), c.farray(lon[lv]))
        ds[lv + '_lat'] = ((dim,), c.farray(lat[lv]))


def t_of(w, lv, k, base):
    return (w['start'] - base).total_seconds() + dict(flash=0.005, group=0.003, event=0.002)[lv] * k


def check_level(c, lv, events, parents, w, base, flashes=None):
    """flashes: positions of the flashes expected, all by default."""
    flashes = list(range(w['n']['flash'])) if flashes is None else flashes
    groups = [k for k in range(w['n']['group']) if w['gp'][k] in flashes]
    evs = [k for k in range(w['n']['event']) if w['ep'][k] in groups]
    keep = dict(flash=flashes, group=groups, event=evs)
    # events: all of them, each with its parent on this level
    c.check('event rows', len(events) == len(evs), '%d' % len(events))
    todo = list(evs)
    for r in range(len(events)):
        # the row is the event with its time
        k = [q for q in todo if abs(float(events['time'][r]) - t_of(w, 'event', q, base)) < 1e-6]
        c.check('one event per row', len(k) == 1, 'time %s' % events['time'][r])
        if not k:
            continue
        todo.remove(k[0])
        k = k[0]
        parent = dict(event=k, group=w['ep'][k], flash=w['gp'][w['ep'][k]])[lv]
        c.check('parent', int(events['flash_id'][r]) == w['ids'][lv][parent])
        c.close('event longitude', events['lon'][r], w['lon']['event'][k], T)
        c.close('event latitude', events['lat'][r], w['lat']['event'][k], T)
        c.close('event energy', events['power'][r], w['en']['event'][k], T)
        c.close('event altitude', events['alt'][r], 0.0)
    # parents
    c.check('parent rows', sorted(int(v) for v in parents['flash_id']) == sorted(w['ids'][lv][k] for k in keep[lv]),
            '%s' % parents['flash_id'])
    for r in range(len(parents)):
        k = w['ids'][lv].index(int(parents['flash_id'][r]))
        for p in ('ctr', 'init'):
            c.close(p + ' longitude', parents[p + '_lon'][r], w['lon'][lv][k], T)
            c.close(p + ' latitude', parents[p + '_lat'][r], w['lat'][lv][k], T)
            c.close(p + ' altitude', parents[p + '_alt'][r], 0.0)
        c.close('energy', parents['total_energy'][r], w['en'][lv][k], T)
        c.close('area', parents['area'][r], w['ar'][lv][k] if lv != 'event' else 0.0, T)
        c.close('start', parents['start'][r], t_of(w, lv, k, base), 1e-9)
        c.check('number of events', int(parents['n_points'][r]) == sum(
            k == dict(event=q, group=w['ep'][q], flash=w['gp'][w['ep'][q]])[lv] for q in range(w['n']['event'])))
        c.close('duration', parents['duration'][r], 0.007 if lv == 'flash' else 0.0, T)


@R.scenario('tables of a tree of up to three flashes on all levels; every value symbolic', tree='two', covers=['any'])
@R.scenario('tables of a tree of up to three flashes on all levels; every value symbolic', tree='three', covers=['any'])
@R.scenario('tables of a tree of six flashes on all levels; every value symbolic', tree='six', covers=['any'])
def tables(c, tree):
    w, ds, where = world(c, tree)
    glm = glmds.load(c, ds)
    place(c, glm.dataset, where)
    base = c.choice('base', [DAY, datetime(2018, 7, 1), START, datetime(2018, 4, 2),
                             datetime(2018, 7, 2, 4, 31, 58, 600000)])
    out = c.mod('glmtools.io.mimic_lma').read_flashes(glm, None, base_date=base, clip_events=False, nadir_lon=-75.0)
    c.check('one chunk', len(out) == 1)
    for lv in ('flash', 'group', 'event'):
        check_level(c, lv, out[0][lv][0], out[0][lv][1], w, base)
    c.cover('any')


class Sink:
    def __init__(self):
        self.got = []

    def send(self, pair):
        self.got.append(pair)


@R.scenario('three flashes sent in chunks; every value symbolic', tree='apart', covers=['several', 'one'])
@R.scenario('six flashes sent in chunks; every value symbolic', tree='six', covers=['several', 'one'])
def chunks(c, tree):
    w, ds, where = world(c, tree)
    glm = glmds.load(c, ds)
    place(c, glm.dataset, where)
    sinks = dict(flash=Sink(), group=Sink(), event=Sink())
    c.mod('glmtools.io.mimic_lma').read_flashes(glm, sinks, base_date=DAY, clip_events=False, nadir_lon=-75.0,
                                                chunk_size=c.choice('size', [1, 2, 4, 9]))
    n = len(sinks['flash'].got)
    for lv in sinks:
        c.check('chunks', len(sinks[lv].got) == n)
        check_level(c, lv, real_np.concatenate([a for a, _ in sinks[lv].got]) if not c.symbolic else
                    joined([a for a, _ in sinks[lv].got]),
                    real_np.concatenate([a for _, a in sinks[lv].got]) if not c.symbolic else
                    joined([a for _, a in sinks[lv].got]), w, DAY)
    c.cover('several' if n > 1 else 'one')


class joined:
    """Tables read one after another."""

    def __init__(self, tables):
        self.tables = tables

    def __len__(self):
        return sum(len(t) for t in self.tables)

    def __getitem__(self, name):
        return [v for t in self.tables for v in t[name]]


@R.scenario('collection of two files, in either order, with any selection of flashes', covers=['some', 'all', 'none'])
def collection(c):
    order = c.choice('order', [(0, 1), (1, 0)])
    starts = [START, START + timedelta(seconds=20)]
    made = [world(c, 'two', 0, starts[0]), world(c, 'one', 100, starts[1], 'b')]
    kind = c.choice('kind', ['all', 'events', 'groups', 'lat'])
    kw = {}
    if kind == 'events':
        kw['min_points'] = c.int('n', 1, 3)
    elif kind == 'groups':
        kw['min_groups'] = c.int('n', 1, 2)
    elif kind == 'lat':
        kw['lat_range'] = (c.real('lo', 9, 11), 90.0)
    kw.setdefault('min_points', None)
    base = c.choice('base', [DAY, datetime(2018, 7, 1)])
    ml = c.mod('glmtools.io.mimic_lma')
    with e2e.captured([made[k][1] for k in order]) as cap:
        col = ml.GLMncCollection(cap.names(), base_date=base, **kw)
        c.check('times', list(col.times) == starts, '%s' % (col.times,))
        for k, t in enumerate(starts):
            w = made[k][0]
            nev = [sum(w['gp'][g] == f for g in w['ep']) for f in range(w['n']['flash'])]
            ngr = [w['gp'].count(f) for f in range(w['n']['flash'])]
            # positions as written to the file
            w['lon'] = {lv: [-75.0 + 0.5 * q for q in range(w['n'][lv])] for lv in w['n']}
            w['lat'] = {lv: [10.0 + 0.25 * q for q in range(w['n'][lv])] for lv in w['n']}
            keep = list(range(w['n']['flash']))
            if kind == 'events':
                keep = [f for f in keep if c.decide(nev[f] >= kw['min_points'])]
            elif kind == 'groups':
                keep = [f for f in keep if c.decide(ngr[f] >= kw['min_groups'])]
            elif kind == 'lat':
                keep = [f for f in keep if c.decide(w['lat']['flash'][f] > kw['lat_range'][0])]
            events, flashes = col.data_for_time(t)
            check_level(c, 'flash', events, flashes, w, base, keep)
            c.cover('none' if not keep else 'all' if len(keep) == w['n']['flash'] else 'some')


@R.scenario('collection of two files, one far north, with both thresholds or none, starting within a second',
            covers=['some', 'all', 'none'])
def both(c):
    starts = [START + timedelta(milliseconds=300), START + timedelta(seconds=20, milliseconds=900)]
    kw = dict(min_points=None)
    lat0 = 55.5
    if c.decide(c.bool('select')):
        # within the field of view, as flashes are selected by that as well
        kw, lat0 = dict(min_points=c.int('events', 1, 3), min_groups=c.int('groups', 1, 3)), 10.0
    far = {lv: [lat0 + 0.05 * q for q in range(n)] for lv, n in (('flash', 6), ('group', 6), ('event', 7))}
    made = [world(c, 'six', 0, starts[0], lat=far), world(c, 'three', 100, starts[1], 'b')]
    ml = c.mod('glmtools.io.mimic_lma')
    with e2e.captured([m[1] for m in made]) as cap:
        col = ml.GLMncCollection(cap.names(), base_date=DAY, **kw)
        c.check('times', list(col.times) == [t.replace(microsecond=0) for t in starts], '%s' % (col.times,))
        for w, _, _ in made:
            w['lon'] = {lv: [-75.0 + 0.5 * q for q in range(w['n'][lv])] for lv in w['n']}
            w['lat'] = far if w is made[0][0] else {lv: [10.0 + 0.25 * q for q in range(w['n'][lv])] for lv in w['n']}
            keep = list(range(w['n']['flash']))
            if 'min_groups' in kw:
                keep = [f for f in keep if c.decide(c.and_(sum(w['gp'][g] == f for g in w['ep']) >= kw['min_points'],
                                                           w['gp'].count(f) >= kw['min_groups']))]
            events, flashes = col.data_for_time(w['start'].replace(microsecond=0))
            check_level(c, 'flash', events, flashes, w, DAY, keep)
            c.cover('none' if not keep else 'all' if len(keep) == w['n']['flash'] else 'some')


@R.scenario('time series over two files, with and without a reference date', covers=['given', 'default'])
def series(c):
    made = [world(c, 'two', 0, START), world(c, 'one', 100, START + timedelta(seconds=20), 'b')]
    base = c.choice('base', [None, datetime(2018, 7, 1), datetime(2018, 7, 2)])
    ml = c.mod('glmtools.io.mimic_lma')
    with e2e.captured([m[1] for m in made]) as cap:
        ts = ml.TimeSeriesGLMFlashSubset(cap.names(), START, START + timedelta(seconds=40), timedelta(seconds=20),
                                         base_date=base, min_events=None)
        c.check('reference date', ts.base_date == (base or DAY), '%s' % ts.base_date)
        c.check('same reference date for the files', ts.lma.base_date == (base or DAY), '%s' % ts.lma.base_date)
        c.check('files', list(ts.lma.times) == [START, START + timedelta(seconds=20)])
        c.check('period', (ts.t_start, ts.t_end, ts.dt) ==
                (START, START + timedelta(seconds=40), timedelta(seconds=20)))
        w = made[1][0]
        w['lon'] = {lv: [-75.0 + 0.5 * q for q in range(w['n'][lv])] for lv in w['n']}
        w['lat'] = {lv: [10.0 + 0.25 * q for q in range(w['n'][lv])] for lv in w['n']}
        events, flashes = ts.lma.data_for_time(START + timedelta(seconds=20))
        check_level(c, 'flash', events, flashes, w, base or DAY)
    c.cover('default' if base is None else 'given')


@R.scenario('time series over two files with a selection of flashes', covers=['some', 'all', 'none'])
def series_selection(c):
    made = [world(c, 'six', 0, START), world(c, 'one', 100, START + timedelta(seconds=20), 'b')]
    kind = c.choice('kind', ['events', 'groups', 'lat', 'lon'])
    kw = {}
    if kind in ('events', 'groups'):
        kw['min_' + kind] = c.int('n', 1, 3)
    else:
        lo = c.real('lo', -76, -74) if kind == 'lon' else c.real('lo', 9, 11)
        kw[kind + '_range'] = (lo, lo + 1)
    ml = c.mod('glmtools.io.mimic_lma')
    with e2e.captured([m[1] for m in made]) as cap:
        ts = ml.TimeSeriesGLMFlashSubset(cap.names(), START, START + timedelta(seconds=40), timedelta(seconds=20), **kw)
        for w, _, _ in made:
            w['lon'] = {lv: [-75.0 + 0.5 * q for q in range(w['n'][lv])] for lv in w['n']}
            w['lat'] = {lv: [10.0 + 0.25 * q for q in range(w['n'][lv])] for lv in w['n']}
            keep = list(range(w['n']['flash']))
            if kind == 'events':
                keep = [f for f in keep if c.decide(sum(w['gp'][g] == f for g in w['ep']) >= kw['min_events'])]
            elif kind == 'groups':
                keep = [f for f in keep if c.decide(w['gp'].count(f) >= kw['min_groups'])]
            else:
                a, b = kw[kind + '_range']
                keep = [f for f in keep if c.decide(c.and_(w[kind]['flash'][f] > a, w[kind]['flash'][f] < b))]
            events, flashes = ts.lma.data_for_time(w['start'])
            check_level(c, 'flash', events, flashes, w, DAY, keep)
            c.cover('none' if not keep else 'all' if len(keep) == w['n']['flash'] else 'some')


@R.scenario('a file of 260 flashes, one with 300 events, 40 days after the reference date', covers=['any'])
def busy(c):
    nf, ng, ne = 260, 520, 1200
    f, g, e = [3 * k + 40000 for k in range(nf)][::-1], list(range(ng)), list(range(ne))
    gp, ep = attach(ng, nf, 150), attach(ne, ng, 300)
    ds = glmds.dataset(c, f, g, e, [f[k] for k in gp], [g[k] for k in ep], lon={'flash': [-75.0 + 0.1 * k for k in range(nf)],
                       'group': [-74.0 + 0.05 * k for k in range(ng)], 'event': [-73.0 + 0.02 * k for k in range(ne)]},
                       lat={lv: [10.0 + 0.01 * k for k in range(n)] for lv, n in (('flash', nf), ('group', ng), ('event', ne))})
    base = datetime(2018, 5, 23)
    size = c.choice('size', [None, 30, 7])
    kw = {} if size is None else dict(chunk_size=size)
    out = c.mod('glmtools.io.mimic_lma').read_flashes(glmds.load(c, ds), None, base_date=base, clip_events=False,
                                                      nadir_lon=-75.0, **kw)
    t0 = (START - base).total_seconds()
    nev = {'flash': [0] * nf, 'group': [0] * ng, 'event': [1] * ne}
    for p in ep:
        nev['group'][p] += 1
        nev['flash'][gp[p]] += 1
    for lv, ids, lon0, dlon, dt in (('flash', f, -75.0, 0.1, 0.005), ('group', g, -74.0, 0.05, 0.003),
                                    ('event', e, -73.0, 0.02, 0.002)):
        pos = {v: k for k, v in enumerate(ids)}
        seen, count = set(), {}
        for o in out:
            ev, fl = o[lv]
            for r in range(len(fl)):
                v = int(fl['flash_id'][r])
                c.check('each row once', v in pos and v not in seen, '%s' % v)
                seen.add(v)
                k = pos.get(v, 0)
                c.check('number of events', int(fl['n_points'][r]) == nev[lv][k], '%s' % fl['n_points'][r])
                c.check('start', abs(float(fl['start'][r]) - t0 - dt * k) < 1e-6, '%s' % fl['start'][r])
                c.close('longitude', float(fl['ctr_lon'][r]), lon0 + dlon * k, T)
            for v in ev['flash_id']:
                count[int(v)] = count.get(int(v), 0) + 1
        c.check('every row', len(seen) == len(ids), '%d of %d' % (len(seen), len(ids)))
        c.check('events of each', count == {v: nev[lv][k] for v, k in pos.items()})
    c.cover('any')


@R.scenario('collection with a file of six flashes that is read in chunks, as large files are', covers=['any'])
def collected_chunks(c):
    made = [world(c, 'six', 0, START), world(c, 'one', 100, START + timedelta(seconds=20), 'b')]
    ml = c.mod('glmtools.io.mimic_lma')
    whole, size = ml.read_flashes, c.choice('size', [1, 2, 3])
    ml.read_flashes = lambda *a, **k: whole(*a, **dict(k, chunk_size=size))
    try:
        with e2e.captured([m[1] for m in made]) as cap:
            col = ml.GLMncCollection(cap.names(), base_date=DAY, min_points=None)
            for w, _, _ in made:
                w['lon'] = {lv: [-75.0 + 0.5 * q for q in range(w['n'][lv])] for lv in w['n']}
                w['lat'] = {lv: [10.0 + 0.25 * q for q in range(w['n'][lv])] for lv in w['n']}
                events, flashes = col.data_for_time(w['start'])
                check_level(c, 'flash', events, flashes, w, DAY)
    finally:
        ml.read_flashes = whole
    c.cover('any')
