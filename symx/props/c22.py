"""C22: the gridding script turns its options into the grid, period and settings asked for."""
import os
from datetime import datetime, timedelta

import numpy as real_np

from ..harness import Registry
from . import e2e

R = Registry()
ASSUMPTIONS = ['the map projections and sector tables of lmatools are stand-ins; where positions are symbolic the '
               'projection is a linear map']
SCRIPT = 'examples/grid/make_GLM_grids.py'
STEPS = [0.5, 1.0, 2.0, 4.0, 8.0, 10.0]


class Geo:
    """Longitude and latitude as they are."""

    def toECEF(self, lon, lat, alt):
        return lon, lat, alt

    def fromECEF(self, X, Y, Z):
        return X, Y, Z


class Fixed:
    """Scan angles proportional to the offset from the satellite longitude."""

    def __init__(self, nadir):
        self.nadir = nadir

    def fromECEF(self, X, Y, Z):
        return (X - self.nadir) / 512, Y / 512, Z

    def toECEF(self, x, y, z):
        return x * 512 + self.nadir, y * 512, z


class lma:
    """lmatools with a linear projection and a recorded sector lookup."""

    def __init__(self, c, view=None):
        self.c, self.view, self.asked, self.local = c, view, [], []

    def __enter__(self):
        self.fixed = self.c.mod('lmatools.grid.fixed')
        self.make = self.c.mod('lmatools.grid.make_grids')
        self.real = self.fixed.get_GOESR_coordsys, self.fixed.get_GOESR_grid, self.make.dlonlat_at_grid_center

        def grid(position='east', view='full', resolution='2.0km'):
            self.asked.append((position, view, resolution))
            return dict(self.view(position, view, resolution))

        def local(ctr_lat, ctr_lon, dx=4.0e3, dy=4.0e3, x_bnd=(-100e3, 100e3), y_bnd=(-100e3, 100e3), **k):
            k = 1e-5
            return (dx * k, dy * k, (ctr_lon + x_bnd[0] * k, ctr_lon + x_bnd[1] * k),
                    (ctr_lat + y_bnd[0] * k, ctr_lat + y_bnd[1] * k))
        self.fixed.get_GOESR_coordsys = lambda sat_lon_nadir=-75.0: (Fixed(sat_lon_nadir), Geo())
        self.fixed.get_GOESR_grid = grid
        self.make.dlonlat_at_grid_center = local
        return self

    def __exit__(self, *a):
        self.fixed.get_GOESR_coordsys, self.fixed.get_GOESR_grid, self.make.dlonlat_at_grid_center = self.real


def name(start, end=None, made=None):
    def t(v):
        return v.strftime('%Y%j%H%M%S') + '%d' % (v.microsecond // 100000)
    end = end or start + timedelta(seconds=20)
    return 'OR_GLM-L2-LCFA_G16_s%s_e%s_c%s.nc' % (t(start), t(end), t(made or end + timedelta(seconds=6)))


T = datetime(2018, 7, 2, 4, 33)
NAMES = ['/data/' + name(T + timedelta(seconds=20 * k)) for k in range(3)]


def setup(c, argv):
    m = c.script(SCRIPT)
    return m, m.grid_setup(m.create_parser().parse_args(argv))


def check_bounds(c, kw, x, y, nx, ny, dx, dy):
    c.close('spacing in x', kw['dx'] * 1e3, dx * 1e3)
    c.close('spacing in y', kw['dy'] * 1e3, dy * 1e3)
    for axis, ctr, n, d in (('x', x, nx, dx), ('y', y, ny, dy)):
        b = list(kw[axis + '_bnd'])
        c.check('two limits in ' + axis, len(b) == 2)
        c.close('lower limit in ' + axis, b[0] * 1e3, (ctr - d * n / 2) * 1e3)
        c.close('upper limit in ' + axis, b[1] * 1e3, (ctr + d * n / 2) * 1e3)


@R.scenario('any centre and size of a custom grid on the fixed grid', covers=['east', 'west', 'cut'])
def custom(c):
    pos, nadir = c.choice('position', [('east', -75.0), ('west', -137.0), ('test', -89.5)])
    dx, dy = c.choice('spacing', [(10.0, 10.0), (2.0, 8.0), (5.0, 4.0)])
    w, h = c.real('width', dx, 4.9 * dx), c.real('height', dy, 3.9 * dy)
    nx, ny = c.choice('nx', [1, 2, 3, 4]), c.choice('ny', [1, 2, 3])
    c.assume(c.and_(w >= (nx + 0.01) * dx, w <= (nx + 0.9) * dx, h >= (ny + 0.01) * dy, h <= (ny + 0.9) * dy))
    lon, lat = c.real('lon', nadir - 50, nadir + 50), c.real('lat', -50, 50)
    k1 = 28e-6
    with lma(c, lambda p, v, r: dict(nadir_lon={'east': -75.0, 'west': -137.0, 'test': -89.5}[p], resolution=28e-6,
                                     pixelsEW=10, pixelsNS=10)) as L:
        m, (gridder, files, t0, t1, kw) = setup(c, [
            '--fixed_grid', '--split_events', '--goes_position', pos, '--ctr_lon=' + c.text(lon), '--ctr_lat=' + c.text(lat),
            '--dx=%r' % dx, '--dy=%r' % dy, '--width=' + c.text(w), '--height=' + c.text(h)] + NAMES)
    c.check('position', L.asked[0][0] == pos)
    check_bounds(c, kw, (lon - nadir) / 512, lat / 512, nx, ny, dx * k1, dy * k1)
    c.close('satellite longitude', kw['nadir_lon'], nadir)
    c.close('centre longitude', kw['ctr_lon'], lon)
    c.close('centre latitude', kw['ctr_lat'], lat)
    c.check('coordinate system', kw['pixel_coords'].nadir == nadir)
    c.cover(pos if pos != 'test' else 'cut')


@R.scenario('any requested spacing for the defined sectors', covers=['full', 'conus', 'meso', 'low', 'high'])
def sector(c):
    pos = c.choice('position', ['east', 'west', 'test'])
    sec = c.choice('sector', ['full', 'conus', 'meso'])
    dx = c.real('dx', 0.1, 20)
    cx, cy = c.real('cx', -0.1, 0.1), c.real('cy', -0.1, 0.1)
    nadir = {'east': -75.0, 'west': -137.0, 'test': -89.5}[pos]
    lon, lat = c.real('lon', -20, 20) + nadir, c.real('lat', -50, 50)
    # not half way between two spacings
    for a, b in zip(STEPS, STEPS[1:]):
        c.assume(c.or_(dx < (a + b) / 2 - 1e-6, dx > (a + b) / 2 + 1e-6))

    def view(p, v, r):
        d = dict(nadir_lon=nadir, resolution=float(r[:-2]) * 28e-6, pixelsEW=7, pixelsNS=4)
        if v != 'meso':
            d.update(centerEW=cx, centerNS=cy)
        return d
    with lma(c, view) as L:
        m, (gridder, files, t0, t1, kw) = setup(c, [
            '--fixed_grid', '--goes_position', pos, '--goes_sector', sec, '--dx=' + c.text(dx), '--ctr_lon=' + c.text(lon),
            '--ctr_lat=' + c.text(lat)] + NAMES)
    c.check('one lookup', len(L.asked) == 1 and L.asked[0][:2] == (pos, sec), '%s' % L.asked)
    step = float(L.asked[0][2][:-2])
    c.check('a defined spacing', L.asked[0][2] == '%.1fkm' % step and step in STEPS, '%s' % L.asked)
    for o in STEPS:
        c.check('the nearest spacing', (dx - step) * (dx - step) <= (dx - o) * (dx - o))
    x, y = ((lon - nadir) / 512, lat / 512) if sec == 'meso' else (cx, cy)
    check_bounds(c, kw, x, y, 7, 4, step * 28e-6, step * 28e-6)
    c.close('satellite longitude', kw['nadir_lon'], nadir)
    c.close('centre longitude', kw['ctr_lon'], x * 512 + nadir)
    c.close('centre latitude', kw['ctr_lat'], y * 512)
    c.cover(sec)
    c.cover('low' if step < 3 else 'high')


@R.scenario('any centre, spacing and size of a local grid', covers=['any'])
def local(c):
    lon, lat = c.real('lon', -150, 0), c.real('lat', -50, 50)
    dx, dy = c.real('dx', 0.5, 20), c.real('dy', 0.5, 20)
    w, h = c.real('w', 20, 800), c.real('h', 20, 800)
    with lma(c):
        m, (gridder, files, t0, t1, kw) = setup(c, [
            '--ctr_lon=' + c.text(lon), '--ctr_lat=' + c.text(lat), '--dx=' + c.text(dx), '--dy=' + c.text(dy),
            '--width=' + c.text(w), '--height=' + c.text(h)] + NAMES)
    k = 1e-2
    c.close('spacing in x', kw['dx'], dx * k)
    c.close('spacing in y', kw['dy'], dy * k)
    for axis, ctr, s in (('x', lon, w), ('y', lat, h)):
        c.close('lower limit in ' + axis, kw[axis + '_bnd'][0], ctr - s * k / 2)
        c.close('upper limit in ' + axis, kw[axis + '_bnd'][1], ctr + s * k / 2)
    c.close('centre longitude', kw['ctr_lon'], lon)
    c.close('centre latitude', kw['ctr_lat'], lat)
    c.check('not the fixed grid', not kw.get('fixed_grid') and kw['proj_name'] == 'latlong')
    c.cover('any')


def view(p, v, r):
    return dict(nadir_lon=-75.0, resolution=280e-6, pixelsEW=6, pixelsNS=6, centerEW=0.0, centerNS=0.0)


PERIODS = {
    'order': [T, T + timedelta(seconds=20), T + timedelta(seconds=40)],
    'reverse': [T + timedelta(seconds=40), T, T + timedelta(seconds=20)],
    'over midnight': [datetime(2018, 12, 31, 23, 59, 40), datetime(2019, 1, 1)],
    'tenths': [datetime(2020, 2, 29, 0, 0, 0, 200000)],
}


@R.scenario('period from file names in any order, or given, or partly given', covers=['named', 'given', 'partly', 'unnamed'])
def period(c):
    k = c.choice('files', sorted(PERIODS) + ['other names'])
    given = c.choice('given', ['none', 'start', 'end', 'both'])
    argv = []
    a, b = datetime(2018, 7, 2, 4, 30, 5), datetime(2018, 7, 3, 1, 2, 3)
    if given in ('start', 'both'):
        argv.append('--start=' + a.isoformat() + c.choice('zone', ['', 'Z']))
    if given in ('end', 'both'):
        argv.append('--end=' + b.isoformat())
    if k == 'other names':
        c.assume(given == 'both')
        names = ['/data/20180702-part1.nc', '/data/part.2.nc']
        starts = None
        c.cover('unnamed')
    else:
        starts = PERIODS[k]
        # the end in the name may run over into the next period
        over = c.choice('over', [0.0, 0.4])
        names = ['/data/x_1/' + name(t, t + timedelta(seconds=20 + over)) for t in starts]
    with lma(c, view):
        m, (gridder, files, t0, t1, kw) = setup(
            c, ['--fixed_grid', '--goes_position', 'east', '--goes_sector', 'full'] + argv + names)
    c.check('files', list(files) == names)
    want0 = a if given in ('start', 'both') else min(starts)
    want1 = b if given in ('end', 'both') else max(starts) + timedelta(seconds=20)
    c.check('start', t0 == want0, '%s, expected %s' % (t0, want0))
    c.check('end', t1 == want1, '%s, expected %s' % (t1, want1))
    c.check('reference date', kw['base_date'] == datetime(want0.year, want0.month, want0.day), str(kw['base_date']))
    c.cover({'none': 'named', 'both': 'given'}.get(given, 'partly'))


@R.scenario('all switches, thresholds and the frame duration', covers=['thresholds', 'none', 'packed', 'plain'])
def settings(c):
    ne, ng = c.int('ne', 0, 50), c.int('ng', 0, 50)
    dt = c.real('dt', 1, 3600)
    sub = c.int('sub', 1, 8)
    plain, split = c.choice('plain', [False, True]), c.choice('split', [False, True])
    ell = c.choice('ellipse', [None, -1, 0, 1])
    out = c.choice('out', [None, '/data/{start_time:%Y/%b/%d}/{dataset_name}'])
    argv = ['--nevents=' + c.text(ne), '--ngroups=' + c.text(ng), '--dt=' + c.text(dt), '--subdivide_grid=' + c.text(sub)]
    argv += ['--float_output'] * plain + ['--split_events'] * split
    if ell is not None:
        argv.append('--ellipse=%d' % ell)
    if out:
        argv += ['-o', out]
    with lma(c, view):
        m, (gridder, files, t0, t1, kw) = setup(
            c, ['--fixed_grid', '--goes_position', 'east', '--goes_sector', 'full'] + argv + NAMES)
    c.check('gridding function', gridder is c.mod('glmtools.grid.make_grids').grid_GLM_flashes)
    for label, got, n in (('events', kw.get('min_points_per_flash'), ne), ('groups', kw.get('min_groups_per_flash'), ng)):
        # a threshold of one or less keeps every flash, as does none
        if got is None:
            c.check('threshold for %s kept' % label, n <= 1)
            c.cover('none')
        else:
            c.check('threshold for %s' % label, c.or_(got == n, c.and_(got <= 1, n <= 1)))
            c.cover('thresholds')
    c.close('frame duration', kw['frame_interval'], dt)
    c.check('tiles', kw['subdivide'] == sub)
    c.check('packing', kw['output_kwargs']['scale_and_offset'] == (not plain))
    c.check('splitting', bool(kw.get('clip_events', False)) == split)
    c.check('ellipsoid', kw['ellipse_rev'] == (-1 if ell is None else ell))
    c.check('path', kw['outpath'] == (out or './{dataset_name}'))
    c.check('energy', tuple(kw['energy_grids']) == ('total_energy',))
    c.check('fixed grid', kw['fixed_grid'] is True and kw['proj_name'] == 'geos')
    c.cover('plain' if plain else 'packed')


@R.scenario('options that do not define a grid', covers=['any'])
def refused(c):
    argv = c.choice('argv', [['--fixed_grid'], ['--fixed_grid', '--goes_sector', 'full']])
    with lma(c, view):
        try:
            setup(c, argv + NAMES)
            ok = False
        except ValueError:
            ok = True
    c.check('refused', ok)
    c.cover('any')


@R.scenario('a file gridded by the script; energies and areas symbolic', covers=['any'])
def run(c):
    en = c.reals('e', 4, 0.01, 0.09)
    fa, ga = c.reals('fa', 2, 60, 500), c.reals('ga', 3, 60, 500)
    w = e2e.source(c, [0, 1, 1], [0, 0, 1, 2], [(0, 0), (0.12, 0.05), (-0.1, -0.12), (-0.05, 0.05)], e2e.START, en, fa, ga)
    nev, ngr = c.choice('least', [(1, 1), (2, 2), (3, 1), (1, 3), (2, 1)])
    keep = [f for f, (e, g) in enumerate([(2, 1), (2, 2)]) if e >= nev and g >= ngr]
    grid = e2e.Grid()
    (x0, x1), (y0, y1) = grid.bnd()

    def sect(p, v, r):
        return dict(nadir_lon=-75.0, resolution=e2e.D, pixelsEW=grid.nx, pixelsNS=grid.ny, centerEW=(x0 + x1) / 2,
                    centerNS=(y0 + y1) / 2)
    with lma(c, sect) as L:
        L.fixed.get_GOESR_coordsys = L.real[0]
        with e2e.captured([w['ds']]) as cap:
            path = os.path.join(cap.dir, name(e2e.START))
            cap.files = {os.path.basename(path): w['ds']}
            m, (gridder, files, t0, t1, kw) = setup(c, [
                '--fixed_grid', '--split_events', '--goes_position', 'east', '--goes_sector', 'conus', '--float_output',
                '--ellipse=0', '--dt=20', '--nevents=%d' % nev, '--ngroups=%d' % ngr, '-o', os.path.join(cap.dir, '{dataset_name}'), path])
            gridder(files, t0, t1, **kw)
            written = cap.written
    c.check('one image', len(written) == 1)
    ds = written[0][1]
    c.check('extent', ds['flash_extent_density'].shape == (grid.ny, grid.nx), str(ds['flash_extent_density'].shape))
    want = e2e.expect(c, grid, [e2e.only(w, keep)] if keep else [], e2e.START, e2e.START + timedelta(seconds=20))
    for f in ('flash_extent_density', 'group_centroid_density', 'total_energy', 'average_flash_area'):
        got = e2e.image(ds, f)
        for k in got:
            v = want[f][k]
            g = got[k]
            c.close(f, 0 if c.isnan(g) else g, v, 1e-4)
    for i, v in enumerate(real_np.asarray(ds.x.values, dtype=float)):
        c.close('x', v * 1e3, (x0 + (i + 0.5) * e2e.D) * 1e3, 1e-6)
    for i, v in enumerate(real_np.asarray(ds.y.values, dtype=float)):
        c.close('y', v * 1e3, (y1 - (i + 0.5) * e2e.D) * 1e3, 1e-6)
    c.cover('any')


@R.scenario('the time in a file name', covers=['any'])
def file_name(c):
    y = c.choice('year', [2017, 2020])
    day, h, mi, s, tenth = (c.choice('day', [1, 59, 60, 61, 200, 365]), c.choice('h', [0, 23]), c.choice('min', [0, 59]),
                            c.choice('s', [0, 40]), c.choice('tenth', [0, 3, 9]))
    t = datetime(y, 1, 1) + timedelta(days=day - 1, hours=h, minutes=mi, seconds=s, milliseconds=100 * tenth)
    e, k = t + timedelta(seconds=19.9), t + timedelta(seconds=26.3)
    got = c.mod('glmtools.io.glm').parse_glm_filename(name(t, e, k))
    c.check('fields', tuple(got[:3]) == ('OR', 'GLM-L2-LCFA', 'G16'), str(got))
    c.check('times', tuple(got[3:]) == (t, e, k), str(got))
    c.cover('any')
