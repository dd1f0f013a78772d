"""C06: combining events by location conserves energy, counts and areas."""
from ..harness import Registry
from . import glmds
from .tree import spread

R = Registry()
ASSUMPTIONS = ['event positions lie inside the stated range and at least 1% of a step away from a step boundary']

STEP, LO, HI = 28e-6, -0.31, 0.31
NMAX = int((HI - LO) / STEP)

# (group -> flash row, event -> group row)
SHAPES = {
    'one': ((0,), (0, 0)),
    'two': ((0, 1), (0, 1, 1)),
    'mix': ((0, 1, 0), (0, 1, 2)),
    'four': ((0, 1, 1), (0, 2, 1, 1)),
}


def positions(c, n, step, lo, nmax, frac=True):
    """Cell numbers and the coordinates inside those cells."""
    ix, iy = c.ints('ix', n, 0, nmax), c.ints('iy', n, 0, nmax)
    fx = c.reals('fx', n, 0.01, 0.99) if frac else [0.5] * n
    fy = c.reals('fy', n, 0.01, 0.99) if frac else [0.25] * n
    x = [lo + (i + f) * step for i, f in zip(ix, fx)]
    y = [lo + (i + f) * step for i, f in zip(iy, fy)]
    return ix, iy, x, y


def partition(c, ix, iy):
    """Lists of event rows that share a cell, decided by the solver."""
    out = []
    for k in range(len(ix)):
        for g in out:
            if c.decide(c.and_(ix[k] == ix[g[0]], iy[k] == iy[g[0]])):
                g.append(k)
                break
        else:
            out.append([k])
    return out


def verify(c, out, parts, gp, ep, x, y, en, fa, ga):
    """parts: lists of the events that share a location."""
    ne = len(ep)
    n = len(out['lutevent_id'].values)
    c.check('one entry per occupied location', n == len(parts), '%d, expected %d' % (n, len(parts)))
    c.check('events themselves are kept', len(out['event_id']) == ne)
    if n != len(parts):
        return
    ids = list(out['lutevent_id'].values)
    owner = list(out['event_parent_lutevent_id'].values)
    col = {k: list(out['lutevent_' + k].values) for k in
           ('x', 'y', 'energy', 'count', 'flash_count', 'group_count', 'total_flash_area', 'total_group_area',
            'min_flash_area')}
    t = out['lutevent_time_offset'].values
    for p in parts:
        j = [k for k in range(n) if c.decide(ids[k] == owner[p[0]])]
        c.check('the events name their location', len(j) == 1)
        if len(j) != 1:
            return
        j = j[0]
        for k in p:
            c.check('all events of a location name it', owner[k] == ids[j])
        fl = sorted(set(gp[ep[k]] for k in p))
        gr = sorted(set(ep[k] for k in p))
        c.close('event count', col['count'][j], len(p))
        c.close('flash count', col['flash_count'][j], len(fl))
        c.close('group count', col['group_count'][j], len(gr))
        c.close('energy', col['energy'][j], sum(en[k] for k in p))
        c.close('mean x', col['x'][j] * 1000, sum(x[k] for k in p) / len(p) * 1000)
        c.close('mean y', col['y'][j] * 1000, sum(y[k] for k in p) / len(p) * 1000)
        c.close('flash area', col['total_flash_area'][j], sum(fa[k] for k in fl))
        c.close('group area', col['total_group_area'][j], sum(ga[k] for k in gr))
        m = fa[fl[0]]
        for k in fl[1:]:
            m = c.min(m, fa[k])
        c.close('smallest flash area', col['min_flash_area'][j], m)
        c.check('time', t[j] == out['product_time'].values)
        c.cover('shared' if len(p) > 1 else 'separate')
        if len(fl) > 1:
            c.cover('several flashes')
    c.close('total energy', sum(col['energy']), sum(en))
    c.close('total events', sum(col['count']), ne)
    c.observe('n', n)


B = 'tree %s; every position in the default range, every energy and area symbolic'


@R.scenario(B % 'of one flash, two events', shape='one', covers=['shared', 'separate'])
@R.scenario(B % 'of two flashes, three events', shape='two', covers=['shared', 'separate', 'several flashes'])
@R.scenario(B % 'with interleaved groups', shape='mix', covers=['shared', 'separate', 'several flashes'])
@R.scenario(B % 'of four events', shape='four', covers=['shared', 'separate', 'several flashes'], tier='thorough')
@R.scenario('coarse step and narrow range given by the caller', shape='two', step=0.01, lo=-0.1, hi=0.1,
            covers=['shared', 'separate', 'several flashes'])
def combine(c, shape, step=STEP, lo=LO, hi=HI):
    gp, ep = SHAPES[shape]
    nf, ng, ne = max(gp) + 1, len(gp), len(ep)
    f, g, e = [9, 4, 6][:nf], [12, 30, 21][:ng], [5, 1, 8, 3][:ne]
    glm = glmds.load(c, glmds.dataset(c, f, g, e, [f[i] for i in gp], [g[i] for i in ep]))
    d = glm.dataset
    nmax = int(round((hi - lo) / step)) - 1 if step != STEP else NMAX - 1
    ix, iy, x, y = positions(c, ne, step, lo, nmax)
    en = c.reals('e', ne, 0, 100)
    fa, ga = c.reals('fa', nf, 1, 10000), c.reals('ga', ng, 1, 10000)
    d['event_x'] = ((glmds.EV,), c.farray(x))
    d['event_y'] = ((glmds.EV,), c.farray(y))
    d['event_energy'] = ((glmds.EV,), c.farray(en))
    d['flash_area'] = ((glmds.FL,), c.farray(fa))
    d['group_area'] = ((glmds.GR,), c.farray(ga))
    kw = {} if step == STEP else dict(scale_factor=step, x_range=(lo, hi), y_range=(lo, hi))
    out = c.mod('glmtools.io.glm').get_lutevents(d, **kw)
    verify(c, out, partition(c, ix, iy), gp, ep, x, y, en, fa, ga)


@R.scenario('a selection without any flash')
def nothing(c):
    glm = glmds.load(c, glmds.dataset(c, [9], [12], [5], [9], [12]))
    lo = c.real('lo', 0.2, 0.3)
    sub = glm.subset_flashes(x_range=(lo, lo + 0.001))
    out = c.mod('glmtools.io.glm').get_lutevents(sub)
    c.check('no locations', len(out['lutevent_id']) == 0)


@R.scenario('five flashes, eight groups and twelve events on three locations; energies and areas symbolic',
            n=12, covers=['shared', 'several flashes'])
@R.scenario('700 events of five flashes on three locations; areas and some energies symbolic', n=700,
            covers=['shared', 'several flashes'])
def crowded(c, n):
    gp = (0, 1, 2, 3, 4, 2, 0, 3)
    ep = tuple((5 * k) % 8 for k in range(n))
    # most events on the first location, with a part of each flash
    cell = [(500, 9000), (500, 9001), (21000, 40)]
    at = [cell[0] if k % 12 < 8 else cell[1] if k % 12 < 11 else cell[2] for k in range(n)]
    f, g, e = spread(5), sorted(spread(8, 1)), sorted(spread(n, 2))
    glm = glmds.load(c, glmds.dataset(c, f, g, e, [f[i] for i in gp], [g[i] for i in ep]))
    d = glm.dataset
    x = [LO + (p[0] + 0.02 + 0.96 * k / n) * STEP for k, p in enumerate(at)]
    y = [LO + (p[1] + 0.5) * STEP for p in at]
    some = min(n, 12)
    en = c.reals('e', some, 0, 100) + [1.0 + 0.01 * k for k in range(some, n)]
    fa, ga = c.reals('fa', 5, 1, 10000), c.reals('ga', 8, 1, 10000)
    for nm, dim, v in (('event_x', glmds.EV, x), ('event_y', glmds.EV, y), ('event_energy', glmds.EV, en),
                       ('flash_area', glmds.FL, fa), ('group_area', glmds.GR, ga)):
        d[nm] = ((dim,), c.farray(v))
    out = c.mod('glmtools.io.glm').get_lutevents(d)
    parts = [[k for k in range(n) if at[k] == p] for p in cell]
    verify(c, out, parts, gp, ep, x, y, en, fa, ga)
