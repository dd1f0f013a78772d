"""C12: products add up over files, frame by frame."""
from datetime import datetime, timedelta

import numpy as real_np

from ..harness import Registry
from . import e2e
from .c13 import check_images

R = Registry()
ASSUMPTIONS = ['event positions are fixed points; energies, areas and the assignment of files to times are symbolic',
               'the lmatools pipeline stages are stand-ins (that library is not installed)']
T = 5e-5
WHEN = [0, 20, 40, 59.5, 60, 100, 119, 120, -20]


def small(c, k, at, when, first=0, start=e2e.START):
    n = len(at)
    return e2e.source(c, tuple(range(n)), tuple(range(n)), at, start + timedelta(seconds=when),
                      c.reals('e%d_' % k, n, 0.01, 10), c.reals('fa%d_' % k, n, 0.1, 60000),
                      c.reals('ga%d_' % k, n, 0.1, 60000), first=first)


@R.scenario('two files each in any of nine places around two frames; energies and areas symbolic',
            covers=['same frame', 'different frames', 'outside'])
def history(c):
    a = c.choice('a', WHEN)
    b = c.choice('b', [0, 60, 119])
    files = [small(c, 0, [(0.0, 0.0), (0.1, 0.05)], a), small(c, 1, [(0.03, 0.02)], b, first=100)]
    g = e2e.Grid()
    written, ret = e2e.run(c, files, g, frames=2)
    check_images(c, written, g, files, 2, 60)
    f = [int(v // 60) for v in (a, b)]
    if f[0] not in (0, 1):
        c.cover('outside')
    else:
        c.cover('same frame' if f[0] == f[1] else 'different frames')


@R.scenario('three files over the same spot in one frame, in any order', covers=['any'])
def three(c):
    order = c.choice('order', [(0, 1, 2), (2, 0, 1), (1, 2, 0)])
    files = [small(c, k, [(0.02 * k, 0.01)], 20 * k, first=100 * k) for k in order]
    g = e2e.Grid()
    written, ret = e2e.run(c, files, g)
    check_images(c, written, g, files, 1, 60)
    c.cover('any')


@R.scenario('six frames over midnight, a file in each and two in one of them; energies and areas symbolic',
            covers=['earlier', 'later'])
def many_frames(c):
    start = datetime(2018, 7, 2, 23, 57)
    extra = c.choice('extra', [59.999, 350.0])
    when = [0.0, 119.998, 130.0, 239.997, 240.0, 359.999, extra]
    files = [small(c, k, [(0.02 * (k % 4), 0.01), (0.1, 0.05)][:1 + k % 2], t, first=100 * k, start=start)
             for k, t in enumerate(when)]
    g = e2e.Grid()
    written, ret = e2e.run(c, files, g, frames=6, start=start)
    check_images(c, written, g, files, 6, 60, start=start)
    c.cover('earlier' if extra < 100 else 'later')


@R.scenario('two files with flashes of several events in one or two groups, any minimum of events and of groups given or not',
            covers=['all', 'some', 'none'])
def fewest(c):
    files = []
    for k, (gp, ep, at) in enumerate([((0, 1, 1), (0, 0, 1, 2), [(0, 0), (0.12, 0.05), (-0.1, -0.12), (-0.05, 0.05)]),
                                      ((0, 0, 0), (0, 1, 2, 2), [(0.02, 0), (0.1, 0.05), (-0.1, 0.1), (-0.05, 0.05)])]):
        nf, ng = max(gp) + 1, len(gp)
        files.append(e2e.source(c, gp, ep, at, e2e.START + timedelta(seconds=20 * k), c.reals('e%d_' % k, 4, 0.01, 10),
                                c.reals('fa%d_' % k, nf, 1, 60000), c.reals('ga%d_' % k, ng, 1, 60000), first=100 * k))
    ne, ng = c.choice('events', [None, 2, 3, 5]), c.choice('groups', [None, 1, 2, 3])
    kept, n = [], 0
    for w in files:
        keep = [f for f in range(max(w['gp']) + 1) if w['gp'].count(f) >= (ng or 0)
                and sum(w['gp'][g] == f for g in w['ep']) >= (ne or 0)]
        n += len(keep)
        if keep:
            kept.append(e2e.only(w, keep))
    g = e2e.Grid()
    written, ret = e2e.run(c, files, g, min_points_per_flash=ne, **({} if ng is None else dict(min_groups_per_flash=ng)))
    check_images(c, written, g, kept, 1, 60)
    c.cover('none' if not n else 'some' if n < 3 else 'all')


@R.scenario('a sequence of tables accumulated on a 2x3 grid: cells and values symbolic', n=3, covers=['repeat', 'apart'])
@R.scenario('a sequence of tables accumulated on a 2x3 grid: cells and values symbolic', n=4, tier='thorough')
def tables(c, n):
    acc = c.mod('glmtools.grid.accumulate')
    np = c.np
    total = np.zeros((2, 3), dtype='float32')
    least = np.zeros((2, 3), dtype='float32')
    keep = c.choice('keep', [True, False])
    kept = [dict(out={}), dict(out={})] if keep else [{}, {}]
    add = acc.accumulate_var_on_grid_direct_idx(total, 'power', 'mesh_xi', 'mesh_yi', **kept[0])
    low = acc.accumulate_minvar_on_grid_direct_idx(least, 'area', 'mesh_xi', 'mesh_yi', **kept[1])
    dt = [('power', 'f4'), ('area', 'f4'), ('mesh_xi', 'i4'), ('mesh_yi', 'i4')]
    hist = []
    for k in range(n):
        xi, yi = c.int('xi%d' % k, 0, 2), c.int('yi%d' % k, 0, 1)
        p, a = c.real('p%d' % k, 0.01, 100), c.real('a%d' % k, 0.1, 60000)
        rows = [(xi, yi, p, a)]
        if k == 0:
            # a second, different cell in the same table
            rows.append((2 - xi, 1 - yi, p + 1, a + 2))
            c.assume(c.not_(c.and_(xi == 1, yi == 1 - yi)))
        t = np.empty(len(rows), dtype=dt)
        t['mesh_xi'] = c.iarray([r[0] for r in rows])
        t['mesh_yi'] = c.iarray([r[1] for r in rows])
        t['power'] = c.farray([r[2] for r in rows])
        t['area'] = c.farray([r[3] for r in rows])
        add.send(t)
        low.send(t)
        hist += rows
    add.close()
    low.close()
    if keep:
        total, least = kept[0]['out']['out'], kept[1]['out']['out']
    for j in range(2):
        for i in range(3):
            want, small_ = 0, None
            for xi, yi, p, a in hist:
                if c.decide(c.and_(xi == i, yi == j)):
                    c.cover('apart' if small_ is None else 'repeat')
                    want = want + p
                    small_ = a if small_ is None else c.min(small_, a)
            c.close('sum', total[j, i], want, 1e-5)
            c.close('smallest', least[j, i], 0 if small_ is None else small_, 1e-5)


@R.scenario('tables reach their stage only when they hold rows', covers=['sent', 'skipped'])
def routing(c):
    acc = c.mod('glmtools.grid.accumulate')

    class Sink:
        got = None

        def send(self, v):
            self.got = v

    ne, nf = c.choice('ne', [0, 1, 3]), c.choice('nf', [0, 1, 2])
    events, flashes = real_np.zeros(ne), real_np.ones(nf)
    for use in (True, False, None):
        s = Sink()
        stage = acc.select_dataset(s) if use is None else acc.select_dataset(s, use_event_data=use)
        stage.send((events, flashes))
        want = flashes if use is False else events
        if len(want):
            c.check('the chosen table', s.got is want)
            c.cover('sent')
        else:
            c.check('nothing', s.got is None)
            c.cover('skipped')
