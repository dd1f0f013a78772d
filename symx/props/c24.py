"""C24: what is done with a loaded file does not affect the file or what is done next."""
from datetime import datetime, timedelta

import numpy as real_np

from ..harness import Registry
from . import c13, e2e, glmds
from .c11 import mesh_for, table

R = Registry()
ASSUMPTIONS = ['positions are fixed points; energies and areas, and the limits asked for, are symbolic',
               'a corner lookup table with constant offsets']
DAY = datetime(2018, 7, 2)
H = 0.002
XE, YE = [0.003 * k for k in range(7)], [0.004 * k for k in range(5)]
# group -> flash and event -> group, as positions; events of one spot in two groups
GP, EP = (1, 0, 1), (2, 0, 1, 2, 0)
X, Y = [0.0041, 0.0102, 0.0102, 0.0155, 0.0048], [0.0061, 0.0051, 0.0051, 0.0113, 0.0068]
F, G, E = [9, 4], [30, 12, 21], [5, 66001, 8, 3, 7]


def load(c, v):
    glm = glmds.load(c, glmds.dataset(c, F, G, E, [F[k] for k in GP], [G[k] for k in EP]))
    d = glm.dataset
    for name, dim in (('event_x', glmds.EV), ('event_y', glmds.EV), ('event_energy', glmds.EV), ('flash_area', glmds.FL),
                      ('group_area', glmds.GR)):
        d[name] = ((dim,), c.farray(v[name]))
    return glm


def values(c):
    return dict(event_x=X, event_y=Y, event_energy=c.reals('e', 5, 0.1, 10), flash_area=c.reals('fa', 2, 1, 100),
                group_area=c.reals('ga', 3, 1, 100))


def rows(v):
    return list(v.tolist()) if hasattr(v, 'tolist') else list(v)


def state(ds):
    """Everything a dataset holds, by name: kind, dimensions, attributes and values."""
    out = {'attributes': sorted((k, str(v)) for k, v in ds.attrs.items())}
    for name in ds.variables:
        v = ds[name]
        out[name] = (name in ds.coords, v.dims, sorted((k, str(q)) for k, q in v.attrs.items()),
                     rows(real_np.asarray(v.values).reshape(-1)))
    return out


def tables(out, skip=()):
    """Point tables as a dictionary of columns."""
    r = {}
    for k, o in enumerate(out):
        for lv in sorted(o):
            for which, t in zip(('points', 'rows'), o[lv]):
                for name in (t.dtype.names if hasattr(t.dtype, 'names') else t.names):
                    if name in skip:
                        continue
                    r['%d %s %s %s' % (k, lv, which, name)] = (rows(real_np.asarray(t[name]).reshape(-1)),)
    return r


class Work:
    """The things that can be done with a file."""

    def __init__(self, c, path):
        self.c, self.ml, self.path = c, c.mod('glmtools.io.mimic_lma'), path
        self.low = c.real('low', -76, -73)
        self.least = c.int('least', 1, 3)
        self.mesh = None

    def window(self, glm):
        return state(glm.subset_flashes(lon_range=(self.low, -60.0)))

    def thresholds(self, glm):
        return state(glm.subset_flashes(min_events=self.least, min_groups=2))

    def inside(self, glm):
        return state(glm.subset_flashes(x_range=(-0.1, 0.1), y_range=(-0.1, 0.0102)))

    def some(self, glm):
        return state(glm.get_flashes([4]))

    def groups(self, glm):
        return state(glm.reduce_to_entities('group_id', [21, 30]))

    def combined(self, glm):
        return state(self.c.mod('glmtools.io.glm').get_lutevents(glm.dataset))

    def points(self, glm):
        # without a grid the columns for grid cells are left open
        return tables(self.ml.read_flashes(glm, None, base_date=DAY, clip_events=False, nadir_lon=-75.0),
                      ('mesh_xi', 'mesh_yi', 'mesh_frac'))

    def gridded(self, glm):
        if self.mesh is None:
            self.mesh = mesh_for(self.c, XE, YE)
        return tables(self.ml.read_flashes(glm, None, base_date=DAY, clip_events=self.mesh, fixed_grid=True,
                                           nadir_lon=-75.0, corner_pickle=self.path))

    def split(self, glm):
        if self.mesh is None:
            self.mesh = mesh_for(self.c, XE, YE)
        return tables([self.ml.read_flash_chunk(glm.dataset, glm=glm, base_date=DAY, nadir_lon=-75.0, fixed_grid=True,
                                                clip_events=self.mesh, corner_pickle=self.path)])

    def counts(self, glm):
        n = glm.count_children('flash_id', 'event_id')
        return {'counts %d' % k: (rows(v),) for k, v in enumerate(n)} | {
            'ids': (rows(glm.replicate_parent_ids('flash_id', 'event_parent_group_id')),),
            'bad': (str([sorted((k, v) for k, v in s.items()) for s in glm.check_parent_child()]),)}


NAMES = ['window', 'thresholds', 'inside', 'some', 'groups', 'combined', 'points', 'gridded', 'split', 'counts']


def same(c, label, a, b):
    c.check(label + ': contents', sorted(a) == sorted(b), '%s' % sorted(set(a) ^ set(b)))
    for k in a:
        if k not in b:
            continue
        p, q = a[k], b[k]
        if not isinstance(p, tuple):
            c.check('%s: %s' % (label, k), p == q)
            continue
        c.check('%s: form of %s' % (label, k), p[:-1] == q[:-1] and len(p[-1]) == len(q[-1]), '%s for %s' % (p[:-1], q[:-1]))
        for u, v in zip(p[-1], q[-1]):
            if isinstance(u, (int, str, bytes, datetime)) or isinstance(v, (int, str, bytes, datetime)):
                c.check('%s: %s' % (label, k), u == v)
            else:
                c.close('%s: %s' % (label, k), u, v, 1e-9)


@R.scenario('any operation after any other on one file', covers=NAMES)
def pairs(c):
    v = values(c)
    first, then = c.choice('first', NAMES), c.choice('then', NAMES)
    with table(H, H) as path:
        w = Work(c, path)
        alone = getattr(w, then)(load(c, v))
        glm = load(c, v)
        before = state(glm.dataset)
        getattr(w, first)(glm)
        same(c, 'file after ' + first, state(glm.dataset), before)
        got = getattr(w, then)(glm)
        same(c, 'file after ' + then, state(glm.dataset), before)
        same(c, '%s after %s' % (then, first), got, alone)
        w.mesh = None
        same(c, '%s of the file loaded again' % then, getattr(w, then)(load(c, v)), alone)
    c.cover(first)


@R.scenario('every operation after all the others, in ten orders', covers=['any'])
def histories(c):
    v = values(c)
    k = c.choice('order', list(range(len(NAMES))))
    order = [NAMES[(3 * q + k) % len(NAMES)] for q in range(len(NAMES))] + [NAMES[k]]
    with table(H, H) as path:
        w = Work(c, path)
        alone = getattr(w, order[-1])(load(c, v))
        glm = load(c, v)
        before = state(glm.dataset)
        for name in order:
            got = getattr(w, name)(glm)
        same(c, 'file', state(glm.dataset), before)
        same(c, order[-1], got, alone)
    c.cover('any')


# a gridding run: files, seconds a frame takes, scaled integers, grid, satellite and ellipsoid
RUNS = {'plain': ([20], 60, False, {}, -75.0, 0), 'scaled': ([40], 60, True, dict(nx=4, tall=2, ny=3), -75.0, 0),
        'frames': ([70, 10], 60, False, dict(ny=4), -75.0, 0), 'short': ([3, 12], 10, False, dict(i0=182, nx=5, ny=4), -75.0, 0),
        'west': ([30], 60, False, dict(nx=5, ny=5), -137.0, 1)}


def product(ds):
    """What an image holds and how it is stored, apart from when it was made."""
    out = {k: (sorted((q, str(w)) for q, w in v.encoding.items()), v.dims, sorted((q, str(w)) for q, w in v.attrs.items()),
               rows(real_np.asarray(v.values).reshape(-1))) for k, v in ds.variables.items()}
    out['attributes'] = sorted((k, str(v)) for k, v in ds.attrs.items() if k not in ('dataset_name', 'date_created', 'id'))
    return out


@R.scenario('any gridding run after any other in one process, and the first again', covers=list(RUNS))
def runs(c):
    first, then = c.choice('first', list(RUNS)), c.choice('then', list(RUNS))
    e, fa, ga = c13.values(c, 3, 2, 2)
    before = None
    keep = {name: {'scale_and_offset': RUNS[name][2]} for name in RUNS}
    for n, name in enumerate((first, then, first)):
        times, seconds, scale, at, nadir, rev = RUNS[name]
        plat = 'G%d' % (16 + (nadir < -100))
        files = [e2e.source(c, (0, 1), (0, 1, 1), c13.AT, e2e.START + timedelta(seconds=t), e, fa, ga, nadir=nadir, rev=rev,
                            platform_ID=plat) for t in times]
        g, frames = e2e.Grid(**at), max(times) // seconds + 1
        written, ret = e2e.run(c, files, g, frames=frames, seconds=seconds, nadir=nadir, ellipse_rev=rev, output_kwargs=keep[name])
        got = [product(ds) for path, ds in written]
        if n == 2:
            c.check('as many images', len(got) == len(before))
            for p, q in zip(got, before):
                same(c, 'image made again', p, q)
            continue
        c13.check_images(c, written, g, files, frames, seconds, scaled=scale)
        for path, ds in written:
            c.close('longitude', float(ds.nominal_satellite_subpoint_lon.values), nadir, 1e-6)
            c.check('satellite', ds.attrs['platform_ID'] == plat)
        before = got if n == 0 else before
    c.cover(first)
