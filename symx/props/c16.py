"""C16: aggregating images over time."""
from datetime import datetime, timedelta

import numpy as real_np
import xarray as xr

from ..harness import Registry

R = Registry()
ASSUMPTIONS = ['images without lightning hold missing values, as after reading them from files']
T0 = datetime(2018, 7, 2, 4, 32)
SUMS = ('flash_extent_density', 'flash_centroid_density', 'total_energy', 'group_extent_density',
        'group_centroid_density')


def series(c, nt, at, empty):
    """nt images of 1x2 cells at the given minutes; empty[t] marks images
    whose first cell holds no lightning."""
    names = SUMS + ('average_flash_area', 'average_group_area', 'minimum_flash_area')
    vals, ds = {}, {}
    for n, name in enumerate(names):
        v = [[None, None] for _ in range(nt)]
        for t in range(nt):
            for k in range(2):
                if k == 0 and empty[t]:
                    v[t][k] = float('nan')
                elif name in ('flash_extent_density', 'group_extent_density'):
                    v[t][k] = c.real('%s%d%d' % (name, t, k), 0.1, 10) if k == 0 else 1.0 + n
                else:
                    v[t][k] = c.real('%s%d%d' % (name, t, k), 0.1, 100) if k == 0 else 5.0 + n + t
        vals[name] = v
        ds[name] = (('time', 'y', 'x'), c.farray([q for row in v for q in row], shape=(nt, 1, 2)),
                    {'units': 'unit of ' + name, 'long_name': name})
    d = xr.Dataset(ds, coords=dict(time=real_np.array([T0 + timedelta(minutes=m) for m in at], dtype='M8[ns]'),
                                   x=[0.1, 0.2], y=[0.3]))
    d['goes_imager_projection'] = (('time',), real_np.full(nt, -2147483647))
    for lv, deg in (('lat', 0.0), ('lon', -75.0)):
        d['nominal_satellite_subpoint_' + lv] = (('time',), real_np.full(nt, deg))
    return d, vals


def check(c, got, vals, at, minutes, nbins, start=0, without=()):
    c.check('intervals', got.sizes['time_bins'] == nbins, '%s' % got.sizes['time_bins'])
    edges = [(v.left, v.right) for v in got.time_bins.values]
    for name in SUMS + ('minimum_flash_area',):
        if name not in without:
            c.check('description', got[name].attrs.get('units') == 'unit of ' + name, name)
    for b in range(nbins):
        lo = start + b * minutes
        c.check('interval start', edges[b][0] == T0 + timedelta(minutes=lo))
        c.check('interval end', edges[b][1] == T0 + timedelta(minutes=lo + minutes))
        for k in range(2):
            ts = [t for t in range(len(at)) if lo <= at[t] < lo + minutes]
            ts = [t for t in ts if not c.isnan(vals['total_energy'][t][k])]

            def out(name):
                v = got[name].transpose('time_bins', 'y', 'x').values
                return v[b, 0, k]

            for name in SUMS:
                if name in without:
                    continue
                if not ts and c.isnan(out(name)):
                    continue
                c.close(name, out(name), sum(vals[name][t][k] for t in ts), 1e-6)
            for lv in ('flash', 'group'):
                n = sum(vals[lv + '_extent_density'][t][k] for t in ts)
                a = sum(vals['average_%s_area' % lv][t][k] * vals[lv + '_extent_density'][t][k] for t in ts)
                if ts:
                    c.close('average %s area' % lv, out('average_%s_area' % lv), a / n, 1e-6)
                else:
                    c.check('no average', c.isnan(out('average_%s_area' % lv)))
            if 'minimum_flash_area' in without:
                c.cover('none' if not ts else 'combined' if len(ts) > 1 else 'single')
            elif ts:
                least = vals['minimum_flash_area'][ts[0]][k]
                for t in ts[1:]:
                    least = c.min(least, vals['minimum_flash_area'][t][k])
                c.close('smallest flash area', out('minimum_flash_area'), least, 1e-6)
                c.cover('combined' if len(ts) > 1 else 'single')
            else:
                c.check('no smallest area', c.isnan(out('minimum_flash_area')))
                c.cover('none')
    c.check('coverage start', got.attrs['time_coverage_start'] == (T0 + timedelta(minutes=start)).isoformat())
    c.check('coverage end', got.attrs['time_coverage_end'] ==
            (T0 + timedelta(minutes=start + minutes * nbins)).isoformat())


@R.scenario('four images a minute apart combined by two; values and gaps symbolic', at=(0, 1, 2, 3), minutes=2,
            covers=['combined', 'single', 'none'])
@R.scenario('three images combined by three', at=(0, 1, 2), minutes=3, covers=['combined'])
@R.scenario('three images with a longer gap between them', at=(0, 1, 5), minutes=2, covers=['combined', 'none'])
@R.scenario('images not in order of time', at=(2, 0, 3, 1), minutes=2, covers=['combined', 'none'])
@R.scenario('images twenty seconds apart combined by the minute', at=(0, 1 / 3, 2 / 3, 1), minutes=1,
            covers=['combined', 'none'])
@R.scenario('five images combined by two', at=(0, 1, 2, 3, 4), minutes=2, tier='thorough')
def default_range(c, at, minutes):
    empty = [c.decide(c.bool('empty%d' % t)) for t in range(len(at))]
    d, vals = series(c, len(at), at, empty)
    got = c.mod('glmtools.io.imagery').aggregate(d, minutes)
    nbins = int(((max(at) + minutes) - min(at)) // minutes)
    check(c, got, vals, at, minutes, nbins)


@R.scenario('an hour of images a minute apart combined by five; values symbolic', at=tuple(range(60)), minutes=5,
            covers=['combined', 'none'])
@R.scenario('14 images over midnight combined by one minute; values symbolic', at=tuple(range(1161, 1175)), minutes=1,
            covers=['single', 'none'])
@R.scenario('images a day apart combined by the day', at=(0, 1440, 2880, 4320), minutes=1440, covers=['single', 'none'])
@R.scenario('images ten minutes apart combined by the hour', at=tuple(range(0, 180, 10)), minutes=60,
            covers=['combined', 'none'])
def long_series(c, at, minutes):
    gaps = c.choice('gaps', [(), (0,), tuple(range(0, min(len(at), 6))), tuple(range(1, len(at), 3))])
    d, vals = series(c, len(at), at, [t in gaps for t in range(len(at))])
    got = c.mod('glmtools.io.imagery').aggregate(d, minutes)
    nbins = int(((max(at) + minutes) - min(at)) // minutes)
    check(c, got, vals, at, minutes, nbins, start=min(at))


@R.scenario('images combined over a requested range', at=(0, 1, 2, 3), minutes=2, covers=['combined'])
def given_range(c, at, minutes):
    d, vals = series(c, len(at), at, [False] * len(at))
    lo, n = c.choice('range', [(0, 2), (0, 1), (2, 1), (1, 1), (-2, 3), (-1, 2), (-3, 2), (2, 3)])
    got = c.mod('glmtools.io.imagery').aggregate(
        d, minutes, start_end=(T0 + timedelta(minutes=lo), T0 + timedelta(minutes=lo + n * minutes)))
    check(c, got, vals, at, minutes, n, start=lo)


WITHOUT = [('total_energy',), ('flash_centroid_density', 'group_centroid_density'), ('minimum_flash_area',),
           ('total_energy', 'flash_centroid_density', 'group_centroid_density', 'minimum_flash_area'),
           ('goes_imager_projection', 'nominal_satellite_subpoint_lat', 'nominal_satellite_subpoint_lon')]


@R.scenario('three images that lack some of the products combined by two', at=(0, 1, 2), minutes=2, covers=['combined', 'single'])
def some_products(c, at, minutes):
    without = c.choice('without', WITHOUT)
    d, vals = series(c, len(at), at, [False] * len(at))
    got = c.mod('glmtools.io.imagery').aggregate(d.drop_vars(without), minutes)
    check(c, got, vals, at, minutes, 2, without=without)
    for name in without:
        c.check('not made up', name not in got, name)
    for name in ('total_energy', 'minimum_flash_area', 'goes_imager_projection'):
        c.check('kept', name in without or name in got, name)
