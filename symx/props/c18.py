"""C18: imagery files opened as a time series."""
from datetime import datetime, timedelta

import numpy as real_np
import xarray as xr

from ..harness import Registry
from . import e2e
from .c16 import check

R = Registry()
ASSUMPTIONS = ['files are served from memory and joined along the requested dimension (the library for reading many '
               'files at once is not installed)']
T0 = datetime(2018, 7, 2, 4, 32)
FIELDS = ('flash_extent_density', 'flash_centroid_density', 'total_energy', 'group_extent_density',
          'group_centroid_density', 'average_flash_area', 'average_group_area', 'minimum_flash_area')


class served(e2e.captured):
    def __enter__(self):
        super().__enter__()
        self.many = xr.open_mfdataset

        def read_many(paths, *a, concat_dim=None, combine='by_coords', preprocess=None, **k):
            d = [(preprocess or (lambda v: v))(xr.open_dataset(p)) for p in paths]
            assert combine == 'nested' and concat_dim, 'joining by coordinates is not supported here'
            return xr.concat(d, dim=concat_dim)
        xr.open_mfdataset = read_many
        return self

    def __exit__(self, *a):
        xr.open_mfdataset = self.many
        return super().__exit__(*a)


def image(c, k, start, seconds, gap, frac=False):
    ds, vals = {}, {}
    for name in FIELDS:
        if name.endswith('_extent_density'):
            v = [c.real('%s%d' % (name, k), 0.1, 10), 2.0]
        else:
            v = [c.real('%s%d' % (name, k), 0.1, 100), 5.0 + k]
        if gap:
            v[0] = float('nan')
        vals[name] = v
        ds[name] = (('y', 'x'), c.farray(v, shape=(1, 2)), {'units': 'unit of ' + name, 'long_name': name})
    d = xr.Dataset(ds, coords=dict(x=[0.1, 0.2], y=[0.3]))
    d['goes_imager_projection'] = ((), -2147483647, {'longitude_of_projection_origin': -75.0})
    d['nominal_satellite_subpoint_lat'] = ((), 0.0)
    d['nominal_satellite_subpoint_lon'] = ((), -75.0)
    end = start + timedelta(seconds=seconds)
    d.attrs.update(time_coverage_start=start.isoformat() + 'Z', time_coverage_end=end.isoformat() + 'Z')
    return d, vals


ORDERS = [(0, 1, 2), (2, 0, 1), (1, 0, 2), (2, 1, 0)]


def series(c, minutes):
    n = len(minutes)
    order = c.choice('order', ORDERS if n == 3 else [tuple(range(n)), tuple((7 * k + 2) % n for k in range(n))])
    gap = c.choice('gap', [None, 0, 2])
    made = [image(c, k, T0 + timedelta(minutes=minutes[k]), 60, k == gap) for k in range(n)]
    with served([made[k][0] for k in order]) as s:
        d = c.mod('glmtools.io.imagery').open_glm_time_series(s.names())
    return order, [made[k][1] for k in order], d


@R.scenario('three images in four orders, with any values and gaps', minutes=(0, 1, 2), covers=['any'])
@R.scenario('three images an uneven time apart over midnight', minutes=(1100, 1168, 1500), covers=['any'])
@R.scenario('three images, two of them of the same time', minutes=(0, 1, 0), covers=['any'])
@R.scenario('20 images in two orders', minutes=tuple(range(20)), covers=['any'])
@R.scenario('three images starting within a second or at fractions of it', minutes=(0.005, 0.3333, 1.0125), covers=['any'])
def opened(c, minutes):
    order, vals, d = series(c, minutes)
    times = [T0 + timedelta(minutes=minutes[k]) for k in order]
    c.check('times', [v.isoformat() for v in d.indexes['time']] == [t.isoformat() for t in times],
            '%s' % d.indexes['time'])
    c.check('coverage start', d.attrs['time_coverage_start'] == min(times).isoformat(), d.attrs['time_coverage_start'])
    c.check('coverage end', d.attrs['time_coverage_end'] == (max(times) + timedelta(minutes=1)).isoformat(),
            d.attrs['time_coverage_end'])
    for n, t in enumerate(times):
        one = d.isel(time=n)
        for name in FIELDS:
            got = real_np.asarray(one[name].values).reshape(-1)
            for k in range(2):
                if c.isnan(vals[n][name][k]):
                    c.check('gap', c.isnan(got[k]))
                else:
                    c.close(name, got[k], vals[n][name][k])
    c.close('longitude', d.goes_imager_projection.attrs['longitude_of_projection_origin'], -75.0)
    c.cover('any')


@R.scenario('three images in four orders, opened and combined by two minutes', minutes=(0, 1, 2), covers=['combined'])
@R.scenario('20 images in two orders, combined by two minutes', minutes=tuple(range(20)), covers=['combined'])
def combined(c, minutes):
    order, vals, d = series(c, minutes)
    by_field = {name: [v[name] for v in vals] for name in FIELDS}
    got = c.mod('glmtools.io.imagery').aggregate(d, 2)
    check(c, got, by_field, [minutes[k] for k in order], 2, (len(minutes) + 1) // 2)
