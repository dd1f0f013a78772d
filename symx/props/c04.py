"""C04: flash selection returns exactly the flashes that satisfy every criterion."""
import xarray as xr

from ..harness import Registry
from . import glmds
from .tree import distinct_ids, member, spread

R = Registry()
ASSUMPTIONS = ['fixed grid positions are taken from the loaded dataset (the navigation itself is C08)']

FOV = 0.1349
# tree shapes: (group -> flash row, event -> group row)
SHAPES = {
    'a': ((0, 1), (0, 1, 1)),
    'b': ((0, 1, 0), (0, 1, 2)),
    'c': ((1, 0, 0), (1, 0, 2, 2)),
    'd': ((0, 1, 1), (0, 0, 1, 2)),
}


def make(c, shape, sym, evs=True, fmt='i'):
    gp, ep = SHAPES[shape]
    nf = max(gp) + 1
    f = [9, 4, 6][:nf]
    g = [12, 30, 21][:len(gp)]
    e = [5, 1, 8, 3][:len(ep)]
    pos = {}
    for nm in ('lon', 'lat', 'x', 'y'):
        if nm in sym:
            r = 0.3 if nm in 'xy' else 80
            pos[nm] = c.reals('f' + nm, nf, -r, r)
        else:
            pos[nm] = [0.01 * (i + 1) for i in range(nf)]
    glm = glmds.load(c, glmds.dataset(c, f, g, e, [f[i] for i in gp], [g[i] for i in ep],
                                      lon={'flash': [-70.0] * nf}, lat={'flash': [20.0] * nf}))
    d = glm.dataset
    ex = c.reals('ex', len(ep), -0.3, 0.3) if evs else [0.02 * (i + 1) for i in range(len(ep))]
    ey = c.reals('ey', len(ep), -0.3, 0.3) if evs else [-0.02 * (i + 1) for i in range(len(ep))]
    d['flash_lon'] = ((glmds.FL,), c.farray(pos['lon']))
    d['flash_lat'] = ((glmds.FL,), c.farray(pos['lat']))
    d['flash_x'] = ((glmds.FL,), c.farray(pos['x']))
    d['flash_y'] = ((glmds.FL,), c.farray(pos['y']))
    d['event_x'] = ((glmds.EV,), c.farray(ex))
    d['event_y'] = ((glmds.EV,), c.farray(ey))
    return glm, f, g, e, gp, ep, pos, ex, ey


def rng(c, name, r):
    lo = c.real(name + '_lo', -r, r)
    hi = c.real(name + '_hi', -r, r)
    return lo, hi


def expect(c, glm_parts, ranges, min_events, min_groups, check_xy):
    glm, f, g, e, gp, ep, pos, ex, ey = glm_parts
    efl = [gp[p] for p in ep]
    lim = {}
    for ax in 'xy':
        lo, hi = -FOV, FOV
        if ax in ranges:
            lo, hi = c.max(lo, ranges[ax][0]), c.min(hi, ranges[ax][1])
        lim[ax] = lo, hi
    keep = []
    for i in range(len(f)):
        ok = [True]
        for nm, (lo, hi) in ranges.items():
            ok += [pos[nm][i] < hi, pos[nm][i] > lo]
        if min_events is not None:
            ok.append(min_events <= efl.count(i))
        if min_groups is not None:
            ok.append(min_groups <= gp.count(i))
        if check_xy:
            seen = [c.and_(ex[k] < lim['x'][1], ex[k] > lim['x'][0],
                           ey[k] < lim['y'][1], ey[k] > lim['y'][0])
                    for k in range(len(e)) if efl[k] == i]
            ok.append(c.or_(*seen))
        if c.decide(c.and_(*ok)):
            keep.append(i)
    return keep


def verify(c, parts, out, keep):
    glm, f, g, e, gp, ep, pos, ex, ey = parts
    efl = [gp[p] for p in ep]
    want_g = sorted(g[k] for k in range(len(g)) if gp[k] in keep)
    want_e = sorted(e[k] for k in range(len(e)) if efl[k] in keep)
    got = {nm: [int(v) for v in out[nm + '_id'].values] for nm in ('flash', 'group', 'event')}
    c.check('flashes', sorted(got['flash']) == sorted(f[i] for i in keep),
            'got %s expected %s' % (got['flash'], [f[i] for i in keep]))
    c.check('all of their groups and nothing else', sorted(got['group']) == want_g,
            'got %s expected %s' % (got['group'], want_g))
    c.check('all of their events and nothing else', sorted(got['event']) == want_e,
            'got %s expected %s' % (got['event'], want_e))
    if sorted(got['flash']) == sorted(f[i] for i in keep) and sorted(got['event']) == want_e:
        for j, x in enumerate(got['flash']):
            c.close('flash rows intact', out['flash_x'].values[j], pos['x'][f.index(x)])
        for j, x in enumerate(got['event']):
            c.close('event rows intact', out['event_y'].values[j], ey[e.index(x)])
    c.observe('kept', sorted(got['flash']))
    c.cover('none' if not keep else ('all' if len(keep) == len(f) else 'some'))


@R.scenario('two flashes, fixed grid window symbolic in both axes, event positions symbolic', shape='a',
            by=('x', 'y'), covers=['none', 'some', 'all'])
@R.scenario('x window only', shape='b', by=('x',), covers=['none', 'some', 'all'])
@R.scenario('y window only', shape='b', by=('y',), covers=['none', 'some', 'all'])
@R.scenario('longitude and latitude window', shape='a', by=('lon', 'lat'), covers=['none', 'some', 'all'])
@R.scenario('longitude window only', shape='c', by=('lon',), covers=['none', 'some'])
@R.scenario('latitude window only', shape='d', by=('lat',), covers=['none', 'some'])
@R.scenario('longitude and x windows together', shape='a', by=('lon', 'x'), covers=['none', 'some', 'all'],
            evs=False)
def windows(c, shape, by, evs=True):
    parts = make(c, shape, by, evs)
    ranges = {nm: rng(c, nm, 0.3 if nm in 'xy' else 80) for nm in by}
    out = parts[0].subset_flashes(**{nm + '_range': r for nm, r in ranges.items()})
    verify(c, parts, out, expect(c, parts, ranges, None, None, True))


@R.scenario('event and group count thresholds symbolic, each optional', shape='b', covers=['none', 'some', 'all'])
@R.scenario('event and group count thresholds symbolic, each optional', shape='c', covers=['none', 'some', 'all'])
@R.scenario('event and group count thresholds symbolic, each optional', shape='d', covers=['none', 'some', 'all'])
def thresholds(c, shape):
    parts = make(c, shape, (), evs=False)
    me = c.int('min_events', 0, 5) if c.choice('use_e', [False, True]) else None
    mg = c.int('min_groups', 0, 5) if c.choice('use_g', [False, True]) else None
    kw = {}
    if me is not None:
        kw['min_events'] = me
    if mg is not None:
        kw['min_groups'] = mg
    out = parts[0].subset_flashes(**kw)
    verify(c, parts, out, expect(c, parts, {}, me, mg, True))


@R.scenario('no criteria: only the field of view of the events decides', shape='d', check=True,
            covers=['none', 'some', 'all'])
@R.scenario('field of view check switched off, x window', shape='a', check=False, covers=['none', 'some', 'all'])
def field_of_view(c, shape, check):
    parts = make(c, shape, () if check else ('x',), evs=True)
    ranges = {} if check else {'x': rng(c, 'x', 0.3)}
    kw = {nm + '_range': r for nm, r in ranges.items()}
    if not check:
        kw['check_event_xy'] = False
    out = parts[0].subset_flashes(**kw)
    verify(c, parts, out, expect(c, parts, ranges, None, None, check))


@R.scenario('window, event and group thresholds together', shape='b', covers=['none', 'some'])
def combined(c, shape):
    parts = make(c, shape, ('x', 'lat'), evs=False)
    ranges = {'x': rng(c, 'x', 0.3), 'lat': rng(c, 'lat', 80)}
    me, mg = c.int('min_events', 0, 4), c.int('min_groups', 0, 4)
    out = parts[0].subset_flashes(x_range=ranges['x'], lat_range=ranges['lat'],
                                  min_events=me, min_groups=mg)
    verify(c, parts, out, expect(c, parts, ranges, me, mg, True))


@R.scenario('two flashes with any ids, any two requested ids', covers=['none', 'some', 'all'])
def by_id(c):
    gp, ep = SHAPES['c']
    f = distinct_ids(c, 'f', 2)
    g, e = [12, 30, 21], [5, 1, 8, 3]
    glm = glmds.load(c, glmds.dataset(c, f, g, e, [f[i] for i in gp], [g[i] for i in ep]))
    req = distinct_ids(c, 'r', 2)
    out = glm.get_flashes(c.iarray(req))
    keep = [i for i in range(2) if c.decide(member(c, f[i], req))]
    efl = [gp[p] for p in ep]
    got = list(out['flash_id'].values)
    want = [i for r in req for i in keep if c.decide(f[i] == r)]
    c.check('as many as asked for', len(got) == len(want))
    for a, i in zip(got, want):
        c.check('in the order asked for', a == f[i])
    c.check('all of their groups', sorted(int(v) for v in out['group_id'].values)
            == sorted(g[k] for k in range(3) if gp[k] in keep))
    c.check('all of their events', sorted(int(v) for v in out['event_id'].values)
            == sorted(e[k] for k in range(4) if efl[k] in keep))
    c.cover('none' if not keep else ('all' if len(keep) == 2 else 'some'))


@R.scenario('six flashes of 1 to 500 events in 1 to 300 groups, thresholds symbolic', covers=['none', 'some', 'all'])
def many(c):
    gs, es = [1, 2, 40, 128, 300, 5], [1, 200, 41, 130, 500, 260]
    f = spread(6)
    gpar = [k for k, n in enumerate(gs) for _ in range(n)]
    first = [gpar.index(k) for k in range(6)]
    # each group has one event, the first group of a flash the others
    epar = list(range(len(gpar))) + [first[k] for k in range(6) for _ in range(max(es[k] - gs[k], 0))]
    g, e = sorted(spread(len(gpar), 1)), sorted(spread(len(epar), 2))
    glm = glmds.load(c, glmds.dataset(c, f, g, e, [f[k] for k in gpar], [g[k] for k in epar]))
    d = glm.dataset
    for ax in 'xy':
        d['flash_' + ax] = ((glmds.FL,), c.farray([0.01] * len(f)))
        d['event_' + ax] = ((glmds.EV,), c.farray([0.01] * len(e)))
    ne = [sum(gpar[p] == k for p in epar) for k in range(6)]
    which = c.choice('which', ['min_events', 'min_groups'])
    n = c.int('n', 0, 600)
    out = glm.subset_flashes(**{which: n})
    keep = [k for k in range(6) if c.decide((ne if which == 'min_events' else gs)[k] >= n)]
    for nm, ids, rows in (('flash', f, keep), ('group', g, [k for k in range(len(g)) if gpar[k] in keep]),
                          ('event', e, [k for k in range(len(e)) if gpar[epar[k]] in keep])):
        got = sorted(int(v) for v in out[nm + '_id'].values)
        c.check(nm + ' kept', got == sorted(ids[k] for k in rows), '%d, expected %d' % (len(got), len(rows)))
    c.cover('none' if not keep else ('all' if len(keep) == 6 else 'some'))


@R.scenario('300 flashes in a row, the ends of the window symbolic between them', covers=['none', 'some', 'all'])
def row(c):
    m = 300
    f, g, e = spread(m), spread(m, 1), sorted(spread(2 * m, 2))
    gpar, epar = list(range(m)), [k // 2 for k in range(2 * m)]
    glm = glmds.load(c, glmds.dataset(c, f, g, e, [f[k] for k in gpar], [g[k] for k in epar]))
    d = glm.dataset
    d['flash_x'] = ((glmds.FL,), c.farray([k / 16384 for k in range(m)]))
    d['flash_y'] = ((glmds.FL,), c.farray([0.01] * m))
    d['event_x'] = ((glmds.EV,), c.farray([k / 16384 for k in epar]))
    d['event_y'] = ((glmds.EV,), c.farray([0.01] * len(e)))
    lo, hi = c.choice('window', [(-5, 400), (-2, 90), (130, 280), (250, 320), (400, 490)])
    a, b = c.real('a', 0, 1), c.real('b', 0, 1)
    c.assume(c.and_(a > 0, a < 1, b > 0, b < 1))
    out = glm.subset_flashes(x_range=((lo + a) / 16384, (hi + b) / 16384))
    keep = set(k for k in range(m) if lo < k <= hi)
    for nm, ids, rows in (('flash', f, keep), ('group', g, keep), ('event', e, [k for k in range(2 * m) if epar[k] in keep])):
        got = sorted(int(v) for v in out[nm + '_id'].values)
        c.check(nm + ' kept', got == sorted(ids[k] for k in rows), '%d, expected %d' % (len(got), len(rows)))
    c.cover('none' if not keep else ('all' if len(keep) == m else 'some'))
