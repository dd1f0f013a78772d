"""Grids small lightning files for the demonstrations."""
import glob
import os
import shutil
import tempfile
from datetime import datetime, timedelta

import numpy as np
import xarray as xr

import fixture
from glmtools.grid.make_grids import grid_GLM_flashes
from glmtools.io.lightning_ellipse import ltg_ellps_lon_lat_to_fixed_grid

START = datetime(2018, 7, 2, 4, 32)
D = 2.0 ** -14


def lonlat(dx, dy):
    return -74.0 + dx, 10.0 + dy


def source(gp, ep, at, seconds=0, first=0, **over):
    """gp: flash of each group, ep: group of each event, at: (lon, lat) offsets of the events."""
    nf, ng, ne = max(gp) + 1, len(gp), len(ep)
    f = [first + 9, first + 4, first + 6][:nf]
    g = [first + 12, first + 30, first + 21][:ng]
    e = [first + k + 1 for k in range(ne)]
    fa = [at[[k for k in range(ne) if gp[ep[k]] == q][0]] for q in range(nf)]
    ga = [at[[k for k in range(ne) if ep[k] == q][0]] for q in range(ng)]
    for lv, pos in (('flash', fa), ('group', ga), ('event', at)):
        over.setdefault(lv + '_lon', [lonlat(*p)[0] for p in pos])
        over.setdefault(lv + '_lat', [lonlat(*p)[1] for p in pos])
    over.setdefault('time', (over.pop('start', START) + timedelta(seconds=seconds)).isoformat())
    return fixture.glm(f, g, e, [f[k] for k in gp], [g[k] for k in ep], **over)


def where(dx, dy):
    lon, lat = lonlat(dx, dy)
    x, y = ltg_ellps_lon_lat_to_fixed_grid(np.array([lon]), np.array([lat]), -75.0, 0)
    return float(x[0]), float(y[0])


def grid(files, nx=16, ny=16, frames=1, seconds=60, at=(0.0, 0.0), start=START, subdivide=1, scale=False, dx=D, dy=D,
         returned=None, **kw):
    """Returns the written images, in order of path."""
    x, y = where(*at)
    x0, y0 = np.floor(x / dx - nx // 2) * dx, np.floor(y / dy - ny // 2) * dy
    args = dict(proj_name='geos', dx=dx, dy=dy, frame_interval=float(seconds), x_bnd=(x0, x0 + nx * dx),
                y_bnd=(y0, y0 + ny * dy), ctr_lat=10.0, ctr_lon=-75.0, min_points_per_flash=None, output_writer=None,
                subdivide=subdivide, output_filename_prefix='GLM', output_kwargs={'scale_and_offset': scale},
                spatial_scale_factor=1.0, fixed_grid=True, nadir_lon=-75.0, clip_events=True,
                energy_grids=('total_energy',), ellipse_rev=0)
    args.update(kw)
    tmp = tempfile.mkdtemp(prefix='demo')
    real = xr.Dataset.to_netcdf
    try:
        names = []
        for k, ds in enumerate(files):
            names.append(os.path.join(tmp, 'in%d.nc' % k))
            ds.to_netcdf(names[-1])
        # one file per image even if written within a second
        count = [0]

        def numbered(ds, path=None, *a, **k):
            count[0] += 1
            return real(ds, '%s.%03d' % (path, count[0]), *a, **k)
        xr.Dataset.to_netcdf = numbered
        out = grid_GLM_flashes(names, start, start + timedelta(seconds=seconds * frames),
                               outpath=os.path.join(tmp, 'out', '{dataset_name}'), **args)
        if returned is not None:
            returned.append(out)
        paths = sorted(glob.glob(os.path.join(tmp, 'out', '*')))
        images = []
        for p in paths:
            with xr.open_dataset(p) as d:
                images.append(d.load())
        return images
    finally:
        xr.Dataset.to_netcdf = real
        shutil.rmtree(tmp, ignore_errors=True)


def total(images, field):
    return sum(float(np.nansum(d[field].values)) for d in images)
