"""C15: imagery stored as scaled integers reads back as it was."""
import os
import shutil
import tempfile
from datetime import timedelta

import numpy as real_np
import xarray as xr

from ..harness import Registry
from . import e2e
from .c13 import STEP

R = Registry()
ASSUMPTIONS = ['storage follows the netCDF convention value = scale_factor * stored + add_offset with rounding to the '
               'nearest integer; concrete runs write and read real files instead']
# largest value each product is meant to hold
TOP = dict(flash_extent_density=4095, flash_centroid_density=65535, average_flash_area=10000, minimum_flash_area=10000,
           group_extent_density=16383, group_centroid_density=65535, average_group_area=10000, total_energy=0.1)
NAMES = sorted(STEP)


def integers(enc):
    n = real_np.iinfo(enc['dtype'])
    if enc.get('_Unsigned') == 'true':
        return 0, int(n.max) - int(n.min)
    return int(n.min), int(n.max)


def read_back(c, ds):
    """{name: array} after a trip through a file, missing values as NaN."""
    if not c.symbolic:
        for name in list(ds.variables):
            enc = ds[name].encoding
            if 'scale_factor' in enc or 'add_offset' in enc:
                k = real_np.rint((ds[name].values - enc.get('add_offset', 0.0)) / enc.get('scale_factor', 1.0))
                lo, hi = integers(enc)
                c.check('%s fits its storage type' % name, bool(((k >= lo) & (k <= hi)).all()))
        d = tempfile.mkdtemp(prefix='symx')
        try:
            p = os.path.join(d, 'a.nc')
            ds.to_netcdf(p)
            with xr.open_dataset(p) as got:
                return got.load()
        finally:
            shutil.rmtree(d)
    out = {}
    for name in list(ds.variables):
        v = ds[name]
        enc = dict(v.encoding)
        vals = v.values
        flat = vals.reshape(-1).tolist() if hasattr(vals, 'reshape') else [vals]
        res = []
        for q in flat:
            if 'scale_factor' in enc or 'add_offset' in enc:
                s, o = enc.get('scale_factor', 1.0), enc.get('add_offset', 0.0)
                k = c.core.s_rint((q - o) / s)
                lo, hi = integers(enc)
                c.check('%s fits its storage type' % name, c.and_(k >= lo, k <= hi))
                if '_FillValue' in enc and c.decide(k == float(enc['_FillValue'])):
                    res.append(float('nan'))
                else:
                    res.append(k * s + o)
            elif '_FillValue' in enc and c.decide(q == float(enc['_FillValue'])):
                res.append(float('nan'))
            else:
                res.append(q)
        o = real_np.empty(len(res), dtype=object)
        for n, q in enumerate(res):
            o[n] = q
        out[name] = o.reshape(v.shape)
    return out


def agrees(c, label, got, v, step, tol=1e-6):
    """got is v to half a step, one step if it is less, missing if it is none."""
    if c.decide(v > 0):
        c.check(label + ' present', c.not_(c.isnan(got)))
        want = c.ite(v < step, step, v)
        slack = step * 0.5 + tol * c.max(v, step)
        c.check(label, c.and_(got >= want - slack, got <= want + slack), 'got %s for %s' % (got, v))
        c.cover('present')
    else:
        c.check(label + ' missing', c.isnan(got))
        c.cover('missing')


@R.scenario('a 1x3 image of each product: values zero to the largest', covers=['present', 'missing'])
def values(c):
    name = c.choice('product', NAMES)
    im = c.mod('glmtools.io.imagery')
    top = TOP[name]
    v = [c.real('v0', 0, top), c.real('v1', 0, STEP[name] * 2), c.choice('v2', [0.0, float(top), STEP[name]])]
    var = im.glm_image_to_var(c.farray(v, shape=(1, 3)), name, 'a field', '1', ('y', 'x'), **im.glm_scaling[name])
    c.check('dimensions', var.dims == ('y', 'x'))
    c.check('units', var.attrs['units'] == '1')
    ds = xr.Dataset({name: var})
    ds[name].encoding.update(var.encoding)
    got = read_back(c, ds)
    got = real_np.asarray(got[name] if c.symbolic else got[name].values).reshape(-1)
    for k in range(3):
        agrees(c, name, got[k], v[k], STEP[name])


@R.scenario('pixel coordinates anywhere on the 2 km full disk grid', covers=['any'])
def coordinates(c):
    i0, j0 = c.int('i0', 0, 5420), c.int('j0', 0, 5420)
    n = 3
    x = [(i0 + k) * 0.000056 - 0.151844 for k in range(n)]
    y = [0.151844 - (j0 + k) * 0.000056 for k in range(n)]
    lon = c.real('lon', -180, 180)
    im = c.mod('glmtools.io.imagery')
    ds, scene, res = im.new_goes_imagery_dataset(c.farray(x), c.farray(y), lon)
    got = read_back(c, ds)
    for name, want in (('x', x), ('y', y)):
        g = real_np.asarray(got[name]) if c.symbolic else got[name].values
        for k in range(n):
            c.check(name + ' present', c.not_(c.isnan(g[k])))
            c.close(name, g[k] * 1e3, want[k] * 1e3, 1e-4)
        c.check(name + ' units', ds[name].attrs['units'] == 'rad')
    p = ds['goes_imager_projection'].attrs
    c.check('projection', p['grid_mapping_name'] == 'geostationary' and p['sweep_angle_axis'] == 'x')
    c.close('projection longitude', p['longitude_of_projection_origin'], lon)
    for key, want in (('perspective_point_height', 35786023.0), ('semi_major_axis', 6378137.0),
                      ('semi_minor_axis', 6356752.31414), ('latitude_of_projection_origin', 0.0),
                      ('inverse_flattening', 298.2572221)):
        c.close(key, p[key], want)

    def scalar(k):
        return (real_np.asarray(got[k]).reshape(-1)[0] if c.symbolic else got[k].values.reshape(-1)[0])
    c.close('subpoint longitude', scalar('nominal_satellite_subpoint_lon'), lon)
    c.close('subpoint latitude', scalar('nominal_satellite_subpoint_lat'), 0.0)
    c.check('quality flags', ds['DQF'].shape == (n, n) and not ds['DQF'].values.any())
    c.check('resolution', res == '2km at nadir', res)
    c.cover('any')


@R.scenario('imagery of one file with three events, packed or plain; energies and areas symbolic',
            covers=['present', 'missing', 'plain'])
def written(c):
    en, fa, ga = c.reals('e', 3, 2e-6, 0.02), c.reals('fa', 2, 1, 1000), c.reals('ga', 2, 1, 1000)
    scale = c.decide(c.bool('scale'))
    w = e2e.source(c, (0, 1), (0, 1, 1), [(0.0, 0.0), (0.1, 0.05), (0.12, -0.1)], e2e.START, en, fa, ga)
    g = e2e.Grid()
    (path, ds), = e2e.run(c, [w], g, scale=scale)[0]
    want = e2e.expect(c, g, [w], e2e.START, e2e.START + timedelta(seconds=60))
    got = read_back(c, ds)
    for name, n, at in (('x', g.nx, lambda i: (g.i0 + i + 0.5) * g.dx), ('y', g.ny, lambda j: (g.j0 + g.ny - j - 0.5) * g.dy)):
        a = real_np.asarray(got[name]) if c.symbolic else got[name].values
        c.check(name + ' size', a.shape == (n,))
        for k in range(n):
            c.check(name + ' coordinate', abs(float(a[k]) - at(k)) <= 28.001e-6, '%s, expected %s' % (a[k], at(k)))
    for field in e2e.FIELDS:
        c.check('grid mapping', ds[field].attrs['grid_mapping'] == 'goes_imager_projection')
        a = real_np.asarray(got[field]) if c.symbolic else got[field].values
        for (i, j), v in want[field].items():
            q = a[g.ny - 1 - j, i]
            if scale:
                agrees(c, field, q, v, STEP[field], 5e-4)
            elif c.decide(v > 0):
                c.close(field, q / STEP[field], v / STEP[field], 5e-5)
                c.cover('plain')
            else:
                c.check(field + ' missing', c.isnan(q))
