"""C21: numbers stored as signed but meant as unsigned are read as meant."""
import os
import shutil
import tempfile

import numpy as real_np
import xarray as xr

from ..harness import Registry
from . import glmds

R = Registry()
ASSUMPTIONS = ['unpacking a stored integer gives its value to a ten-thousandth of a storage step (rounding)',
               'decoding of raw times follows the file conventions (scale, offset, unsigned mark); concrete runs '
               'write and read real files instead']

BITS = {'i1': 8, 'i2': 16}
PACKS = [(0.00203128, -66.56), (1.5259e-15, 2.8515e-16), (152601.9, 0.0), (0.25, 7.0), (0.3814756, -5.0)]


def meant(c, n, bits):
    return c.ite(n < 0, n + 2**bits, n)


@R.scenario('any stored number of one or two bytes, five packings', covers=['i1', 'i2', 'negative', 'positive'])
def unsigned(c):
    dt = c.choice('type', sorted(BITS))
    s, o = c.choice('packing', PACKS)
    bits = BITS[dt]
    ns = [c.int('n%d' % k, -2**(bits - 1), 2**(bits - 1) - 1) for k in range(2)]
    eps = [c.real('eps%d' % k, -1e-4, 1e-4) for k in range(2)]
    data = xr.DataArray(c.farray([n * s + o + e * s for n, e in zip(ns, eps)]), dims=['n'])
    data.encoding.update(dtype=real_np.dtype(dt), scale_factor=s, add_offset=o)
    got = c.mod('glmtools.io.glm').fix_unsigned(data)
    c.check('length', len(got) == 2)
    for k, n in enumerate(ns):
        # in units of the storage step
        c.close('value', (got[k] - o) / s, meant(c, n, bits), 1e-6)
        c.cover('negative' if c.decide(n < 0) else 'positive')
    c.cover(dt)


class Stored:
    """What reading a variable of an open file looks like."""

    def __init__(self, raw, scaled):
        self.raw, self.scaled, self.auto = raw, scaled, True

    def set_auto_scale(self, v):
        self.auto = v

    def __getitem__(self, k):
        return (self.scaled if self.auto else self.raw)[k]


@R.scenario('any stored event positions, as read by either library', covers=['xarray', 'file', 'negative', 'positive'])
def positions(c):
    lats = [c.int('lat%d' % k, -2**15, 2**15 - 1) for k in range(2)]
    lons = [c.int('lon%d' % k, -2**15, 2**15 - 1) for k in range(2)]
    eps = [c.real('eps%d' % k, -1e-4, 1e-4) for k in range(4)]
    s = 0.00203128
    la = [n * s - 66.56 + e * s for n, e in zip(lats, eps)]
    lo = [n * s - 156.06 + e * s for n, e in zip(lons, eps[2:])]
    m = c.mod('glmtools.io.glm')
    if c.choice('by', ['xarray', 'file']) == 'xarray':
        got = m.fix_event_locations(xr.DataArray(c.farray(la), dims=['n']), xr.DataArray(c.farray(lo), dims=['n']),
                                    is_xarray=True)
        c.cover('xarray')
    else:
        got = m.fix_event_locations(Stored(c.iarray(lats, 'i2'), c.farray(la)), Stored(c.iarray(lons, 'i2'), c.farray(lo)))
        c.cover('file')
    for k in range(2):
        c.close('latitude', (got[0][k] + 66.56) / s, meant(c, lats[k], 16), 1e-6)
        c.close('longitude', (got[1][k] + 156.06) / s, meant(c, lons[k], 16), 1e-6)
        c.cover('negative' if c.decide(lats[k] < 0) else 'positive')


TIMES = {'event_time_offset': 'event', 'group_time_offset': 'group', 'group_frame_time_offset': 'group',
         'flash_time_offset_of_first_event': 'flash', 'flash_time_offset_of_last_event': 'flash',
         'flash_frame_time_offset_of_first_event': 'flash', 'flash_frame_time_offset_of_last_event': 'flash'}
SCALE, OFF = 0.3814756, -5.0
DIM = dict(flash=glmds.FL, group=glmds.GR, event=glmds.EV)
T0S = {'before': '2018-10-14T23:59:20', 'first': '2018-10-15T00:00:00', 'during': '2018-10-20T17:31:40',
       'last': '2018-11-05T23:59:40', 'after': '2018-11-06T00:00:00', 'later': '2019-10-20T17:31:40'}


def ms(v, t0):
    """Time of a decoded variable, in ms after t0."""
    if isinstance(v, real_np.datetime64):
        return (v - real_np.datetime64(t0, 'ns')) / real_np.timedelta64(1, 'us') / 1000.0
    return v


class stored_file:
    """A file of raw numbers.  Symbolically: served from memory, with the
    decoding rules of the file conventions."""

    def __init__(self, c, ds, raw, t0):
        self.c, self.ds, self.raw, self.t0 = c, ds, raw, t0

    def __enter__(self):
        c = self.c
        self.dir = tempfile.mkdtemp(prefix='symx')
        self.path = os.path.join(self.dir, 'glm.nc')
        if not c.symbolic:
            ds = self.ds.drop_vars([k for k in TIMES if k in self.ds.variables])
            ds = ds.assign({k: ((DIM[TIMES[k]],), real_np.array(v, dtype='i2'),
                                dict(units='milliseconds since ' + self.t0.replace('T', ' '), scale_factor=SCALE,
                                     add_offset=OFF)) for k, v in self.raw.items()})
            for v in ds.variables.values():
                if v.encoding:
                    v.encoding.clear()
            for lv in ('flash', 'group', 'event'):
                ds[lv + '_energy'].encoding.update(dtype='i2', scale_factor=glmds.E_SCALE, add_offset=glmds.E_OFF)
                if lv != 'event':
                    ds[lv + '_area'].encoding.update(dtype='i2', scale_factor=glmds.A_SCALE, add_offset=0.0, _FillValue=-1)
            ds.to_netcdf(self.path)
            return self.path
        self.open, self.decode = xr.open_dataset, xr.decode_cf

        def open_dataset(path, *a, mask_and_scale=True, decode_cf=True, **k):
            assert path == self.path
            plain = not (mask_and_scale and decode_cf)
            ds = self.ds.reset_coords() if plain else self.ds.copy()
            for name, v in self.raw.items():
                vals = v if plain else [x * SCALE + OFF for x in v]
                ds[name] = ((DIM[TIMES[name]],), (c.iarray if plain else c.farray)(vals))
            return ds

        def decode_cf(ds, *a, **k):
            out = xr.Dataset()
            for name, v in ds.variables.items():
                vals = v.values.reshape(-1).tolist()
                if str(v.attrs.get('_Unsigned')).lower() == 'true':
                    vals = [meant(c, x, 16) for x in vals]
                out[name] = (v.dims, c.farray([x * SCALE + OFF for x in vals]))
            return out
        xr.open_dataset, xr.decode_cf = open_dataset, decode_cf
        return self.path

    def __exit__(self, *a):
        if self.c.symbolic:
            xr.open_dataset, xr.decode_cf = self.open, self.decode
        shutil.rmtree(self.dir)


@R.scenario('files before, during and after the weeks without the mark; any stored times',
            covers=['mended', 'as stored', 'pruned'])
def times(c):
    when = c.choice('when', sorted(T0S))
    t0 = T0S[when]
    frame = c.choice('frame', [True, False]) if when in ('during', 'after') else True
    fix = c.choice('fix', [True, False]) if when == 'during' else True
    broken = c.choice('broken', [False, True]) if when == 'during' and fix and frame else False
    f, g, e = [9, 4], [12, 30, 21], [5, 1, 8, 2]
    gp, ep = [9, 4, 9], [12, 30, 21, 30]
    keep = dict(flash=[0, 1], group=[0, 1, 2], event=[0, 1, 2, 3])
    if broken:
        gp = [9, 77, 9]
        keep = dict(flash=[0], group=[0, 2], event=[0, 2])
        c.cover('pruned')
    ds = glmds.dataset(c, f, g, e, gp, ep, time=t0)
    raw = {}
    n = dict(flash=2, group=3, event=4)
    names = [k for k in TIMES if frame or 'frame' not in k]
    for name in names:
        raw[name] = [c.int('%s%d' % (name, k), -2**15, 2**15 - 1) for k in range(n[TIMES[name]])]
    with stored_file(c, ds, raw, t0) as path:
        d = c.mod('glmtools.io.glm').GLMDataset(path, ellipse_rev=0, fix_bad_DO07_times=fix)
        got = {k: list(d.dataset[k].values) for k in names}
        ids = d.dataset.event_id.values.tolist()
        getattr(d.dataset, 'close', lambda: None)()
    mend = fix and frame and when in ('first', 'during', 'last')
    c.cover('mended' if mend else 'as stored')
    c.check('events', ids == [e[k] for k in keep['event']], '%s' % ids)
    for name in names:
        lv = TIMES[name]
        c.check('rows of ' + name, len(got[name]) == len(keep[lv]), '%d' % len(got[name]))
        for v, k in zip(got[name], keep[lv]):
            x = raw[name][k]
            w = meant(c, x, 16) if mend else x
            c.close(name, ms(v, t0), w * SCALE + OFF, 1e-5)


@R.scenario('part of a file of those weeks', covers=['any'])
def part(c):
    ds = glmds.dataset(c, [9, 4], [12, 30], [5, 1], [9, 4], [12, 30], time=T0S['during'], gfto=True,
                       energy=dict(event=[c.real('e0', 1e-14, 1e-10), c.real('e1', 1e-14, 1e-10)]))
    want = {k: ds[k].values.copy() for k in TIMES if k in ds.variables}
    d = c.mod('glmtools.io.glm').GLMDataset(ds, ellipse_rev=0).dataset
    for k, v in want.items():
        c.check(k + ' untouched', (d[k].values == v).all())
    c.cover('any')
