"""Whole gridding runs: files in, imagery datasets out, and what they should hold."""
import os
import shutil
import tempfile
from datetime import datetime, timedelta

import numpy as real_np
import xarray as xr

from . import glmds

D = 2.0 ** -12            # grid spacing (rad); exact in floating point
X0, Y0 = 205 * D, 123 * D  # lower left corner of the grid, around (0.05, 0.03) rad
START = datetime(2018, 7, 2, 4, 32)
FIELDS = ('flash_extent_density', 'flash_centroid_density', 'average_flash_area', 'total_energy',
          'group_extent_density', 'group_centroid_density', 'average_group_area', 'minimum_flash_area')


class captured:
    """Records datasets instead of writing them and serves the given ones as
    if read from files; output directories are made in a scratch directory."""

    def __init__(self, files=()):
        # names that do not sort in the order of the list
        self.files = {'glm%d.nc' % ((61 * k + 40) % 97): ds for k, ds in enumerate(files)}

    def names(self):
        return [os.path.join(self.dir, n) for n in self.files]

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='symx')
        self.written = []
        self.real = xr.Dataset.to_netcdf, xr.open_dataset

        def record(ds, path=None, *a, **k):
            self.written.append((str(path), ds))
            if os.path.realpath(path).startswith(os.path.realpath(self.dir) + os.sep):
                open(path, 'w').close()

        def read(path, *a, **k):
            return self.files[os.path.basename(str(path))].copy(deep=True)

        xr.Dataset.to_netcdf, xr.open_dataset = record, read
        return self

    def __exit__(self, *a):
        xr.Dataset.to_netcdf, xr.open_dataset = self.real
        shutil.rmtree(self.dir)


LON, LAT = -60.0, 10.0    # near the middle of the grid


def source(c, gp, ep, at, when, en, fa, ga, flash_at=None, group_at=None, first=0, quiet=False,
           nadir=-75.0, place=(LON, LAT), rev=0, **attrs):
    """One file: events at (longitude, latitude) offsets `at` in degrees from
    the reference point `place` (as seen from the satellite at 75 W), energies
    in nJ and areas in km2."""
    nf, ng, ne = max(gp) + 1, len(gp), len(ep)
    f = [first + v for v in (9, 4, 6)][:nf]
    g = [first + v for v in (12, 30, 21)][:ng]
    e = [first + v for v in (5, 1, 8, 3)][:ne]
    fl = flash_at or [at[[k for k in range(ne) if gp[ep[k]] == q][0]] for q in range(nf)]
    gr = group_at or [at[[k for k in range(ne) if ep[k] == q][0]] for q in range(ng)]
    pos = dict(flash=fl, group=gr, event=at)
    lon = {k: [nadir + place[0] + 75.0 + p[0] for p in v] for k, v in pos.items()}
    lat = {k: [place[1] + p[1] for p in v] for k, v in pos.items()}
    ds = glmds.dataset(c, f, g, e, [f[i] for i in gp], [g[i] for i in ep], time=when.isoformat(), lon=lon, lat=lat,
                       energy=dict(event=[v * 1e-9 for v in en]), area=dict(flash=fa, group=ga), units=('J', 'km2'),
                       attrs=attrs, nadir=nadir)
    seen = glmds.load(c, ds.copy(deep=True), ellipse_rev=rev).dataset
    xy = {k: list(zip([float(v) for v in seen[k + '_x'].values], [float(v) for v in seen[k + '_y'].values]))
          for k in ('flash', 'group', 'event')}
    if quiet:
        ds = ds.isel({glmds.FL: slice(0, 0), glmds.GR: slice(0, 0), glmds.EV: slice(0, 0)})
    return dict(ds=ds, gp=gp, ep=ep, xy=xy, time=when, en=en, fa=fa, ga=ga)


def only(w, flashes):
    """The part of a file that belongs to the given flashes."""
    groups = [q for q, f in enumerate(w['gp']) if f in flashes]
    events = [k for k, q in enumerate(w['ep']) if q in groups]
    xy = {lv: [w['xy'][lv][k] for k in keep] for lv, keep in (('flash', flashes), ('group', groups), ('event', events))}
    return dict(w, gp=[flashes.index(w['gp'][q]) for q in groups], ep=[groups.index(w['ep'][k]) for k in events], xy=xy,
                en=[w['en'][k] for k in events], fa=[w['fa'][f] for f in flashes], ga=[w['ga'][q] for q in groups])


def clip(poly, x0, x1, y0, y1):
    for axis, lim, sign in ((0, x0, 1), (0, x1, -1), (1, y0, 1), (1, y1, -1)):
        out = []
        for k in range(len(poly)):
            p, q = poly[k - 1], poly[k]
            a, b = sign * (p[axis] - lim), sign * (q[axis] - lim)
            if (a < 0) != (b < 0):
                t = a / (a - b)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
            if b >= 0:
                out.append(q)
        poly = out
    return poly


def area(poly):
    return abs(sum(poly[k - 1][0] * poly[k][1] - poly[k][0] * poly[k - 1][1] for k in range(len(poly)))) / 2


_lut = {}


def outline(x, y):
    """Event outline from the corner table that comes with the package, with
    the ordinary interpolation routine."""
    import pickle
    from scipy.interpolate import LinearNDInterpolator
    from ..loader import REPO
    if not _lut:
        with open(os.path.join(REPO, 'glmtools', 'io', 'G16_corner_lut_fixedgrid.pickle'), 'rb') as f:
            gx, gy, off = pickle.load(f)
        pts = real_np.column_stack([gx.ravel() * 1e-6, gy.ravel() * 1e-6]).astype(float)
        _lut['f'] = LinearNDInterpolator(pts, off.reshape(-1, 8) * 1e-6)
    d = _lut['f']((x, y)).reshape(4, 2)
    return [(x + float(a), y + float(b)) for a, b in d]


# resolution of the polygon clipper in the share of a cell one outline takes
CLIP = 4e-6


class Grid:
    """nx by ny cells of `wide` times D by `tall` times D with the lower left
    corner (i0, j0), in units of D."""

    def __init__(self, i0=183, nx=6, j0=122, ny=6, tall=1, wide=1):
        self.i0, self.nx, self.j0, self.ny = int(i0 // wide), nx, int(j0 // tall), ny
        self.dx, self.dy = D * wide, D * tall

    def bnd(self):
        return (real_np.array([self.i0 * self.dx, (self.i0 + self.nx) * self.dx]),
                real_np.array([self.j0 * self.dy, (self.j0 + self.ny) * self.dy]))

    def cells(self):
        for i in range(self.nx):
            for j in range(self.ny):
                yield (i, j, (self.i0 + i) * self.dx, (self.i0 + i + 1) * self.dx,
                       (self.j0 + j) * self.dy, (self.j0 + j + 1) * self.dy)


def expect(c, grid, files, t0, t1):
    """Products of one time frame: {field: {cell: value}}."""
    out = {k: {} for k in FIELDS}
    out['flash_total'], out['group_total'] = {}, {}
    slack = {}
    for i, j, x0, x1, y0, y1 in grid.cells():
        v = dict.fromkeys(list(out), 0)
        least, areas = None, {'flash': [], 'group': []}
        for w in files:
            if t0 <= w['time'] < t1:
                for k, (x, y) in enumerate(w['xy']['event']):
                    poly = outline(x, y)
                    a = area(clip(poly, x0, x1, y0, y1))
                    if a <= 1e-6 * grid.dx * grid.dy:
                        continue
                    fl, gr = w['gp'][w['ep'][k]], w['ep'][k]
                    share = a / (grid.dx * grid.dy)
                    v['flash_extent_density'] += share
                    v['group_extent_density'] += share
                    v['flash_total'] += share * w['fa'][fl]
                    v['group_total'] += share * w['ga'][gr]
                    v['total_energy'] += a / area(poly) * w['en'][k]
                    areas['flash'].append(w['fa'][fl])
                    areas['group'].append(w['ga'][gr])
                    least = w['fa'][fl] if least is None else c.min(least, w['fa'][fl])
            for lv in ('flash', 'group'):
                for q, (x, y) in enumerate(w['xy'][lv]):
                    t = w['time'] + timedelta(seconds=(0.005 if lv == 'flash' else 0.003) * q)
                    if t0 <= t < t1 and x0 <= x < x1 and y0 <= y < y1:
                        v[lv + '_centroid_density'] += 1
        v['minimum_flash_area'] = 0 if least is None else least
        for k in v:
            out[k][i, j] = v[k]
        for lv in ('flash', 'group'):
            n = v[lv + '_extent_density']
            out['average_%s_area' % lv][i, j] = v[lv + '_total'] / n if n else 0
            if len(areas[lv]) > 1:
                slack['average_%s_area' % lv, (i, j)] = CLIP / n * sum(areas[lv])
    out['slack'] = slack
    return out


def near(c, want, field, cell, got, tol, v=None):
    """The value of a cell is the expected one. Where several share a cell,
    averages carry the resolution of the clipper in each one's share."""
    v = want[field][cell] if v is None else v
    more = want['slack'].get((field, cell))
    if more is None:
        return c.close(field, got, v, tol)
    if isinstance(got, float) and not real_np.isfinite(got):
        return c.check(field, False, 'got %r' % got)
    bound = tol * c.max(1, v) + more
    c.check(field, c.and_(got - v <= bound, v - got <= bound), '' if c.symbolic else 'got %r expected %r' % (got, v))


def run(c, files, grid, frames=1, seconds=60, subdivide=1, scale=False, cwd=None, drop=(), nadir=-75.0, start=START, rerun=False, **kw):
    """Grid the files; returns the (path, dataset) pairs that would be written
    and the value returned. If asked to rerun, those of the second of two
    runs."""
    x_bnd, y_bnd = grid.bnd()
    args = dict(proj_name='geos', dx=grid.dx, dy=grid.dy, frame_interval=float(seconds), x_bnd=x_bnd, y_bnd=y_bnd, ctr_lat=LAT,
                ctr_lon=nadir, min_points_per_flash=None, output_writer=None, subdivide=subdivide,
                output_filename_prefix='GLM', output_kwargs={'scale_and_offset': scale}, spatial_scale_factor=1.0,
                fixed_grid=True, nadir_lon=nadir, clip_events=True, energy_grids=('total_energy',), ellipse_rev=0)
    args.update(kw)
    for k in drop:
        args.pop(k)
    with captured([w['ds'] for w in files]) as cap:
        args.setdefault('outpath', '{dataset_name}')
        args['outpath'] = os.path.join(cap.dir, args['outpath'])
        here = os.getcwd()
        if cwd:
            os.chdir(cap.dir)
            args['outpath'] = cwd
        try:
            for n in range(1 + rerun):
                del cap.written[:]
                ret = c.mod('glmtools.grid.make_grids').grid_GLM_flashes(
                    cap.names(), start, start + timedelta(seconds=seconds * frames), **args)
        finally:
            os.chdir(here)
        if cwd:
            return cap.written, ret
        return [(os.path.relpath(p, cap.dir), ds) for p, ds in cap.written], ret


def image(ds, field):
    """{(i, j): value} by column and by row counted from the south."""
    v = ds[field]
    assert v.dims == ('y', 'x')
    ny, nx = v.shape
    a = v.values
    return {(i, ny - 1 - r): a[r, i] for r in range(ny) for i in range(nx)}
