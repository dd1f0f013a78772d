"""C10: event outlines follow the corner lookup table."""
from ..harness import Registry

R = Registry()
ASSUMPTIONS = ['scattered interpolation is linear on a triangulation of the table positions (the real one), nearest '
               'neighbour outside of it; replayed on the real library']

# table positions, first dimension x
GRIDS = {
    'square': ([-2, 0, 1, 3], [-1, 1, 2]),
    'tiny': ([0, 1], [0, 1]),
}


def table(c, grid):
    xs, ys = GRIDS[grid]
    return ([x for x in xs for _ in ys], [y for _ in xs for y in ys], (len(xs), len(ys)))


def offsets(c, kind, X, Y, corner, coord):
    """Corner offsets at the table positions and, as a function, between."""
    if kind == 'affine':
        a = c.real('a%d%d' % (corner, coord), -1, 1)
        b = [0.25, -0.5, 0.125, 0.0][corner] * (1 - 2 * coord)
        d = [0.5, 0.25, -0.25, -0.125][corner]
        return [a + b * x + d * y for x, y in zip(X, Y)], lambda x, y: a + b * x + d * y
    v = [c.real('v%d%d_%d' % (corner, coord, k), -1, 1) for k in range(len(X))]
    return v, None


def corners(c, kind, X, Y, shape, which=range(4)):
    cols, fns = {}, {}
    flat = [[[0.0, 0.0] for _ in range(4)] for _ in X]
    for ci in range(4):
        for co in range(2):
            if ci in which:
                v, fn = offsets(c, kind, X, Y, ci, co)
            else:
                v, fn = [0.25 * (ci + 1) - co] * len(X), None
            fns[ci, co], cols[ci, co] = fn, v
            for k in range(len(X)):
                flat[k][ci][co] = v[k]
    arr = c.farray([v for p in flat for q in p for v in q], shape=shape + (4, 2))
    return arr, fns, cols


@R.scenario('offsets varying linearly over the table, any position inside, any satellite longitude', grid='square',
            covers=['inside'])
@R.scenario('offsets varying linearly, enlarged outlines', grid='square', inflate=True, covers=['inside'])
def inside(c, grid, inflate=False):
    X, Y, shape = table(c, grid)
    nadir = c.real('nadir', -180, 180)
    k = c.real('inflate', 0.5, 2) if inflate else 1.0
    x, y = c.real('x', X[0] + 0.01, X[-1] - 0.01), c.real('y', min(Y) + 0.01, max(Y) - 0.01)
    arr, fns, _ = corners(c, 'affine', X, Y, shape)
    f = c.mod('glmtools.io.ccd').quads_from_corner_lookup
    kw = dict(inflate=k) if inflate else {}
    px, py = c.farray([x + nadir]), c.farray([y])
    q = f(c.farray(X, shape=shape), c.farray(Y, shape=shape), arr, px, py, nadir_lon=nadir, **kw)
    c.check('shape', q.shape == (1, 4, 2))
    for ci in range(4):
        c.close('corner %d x' % ci, q[0, ci, 0], x + nadir + k * fns[ci, 0](x, y))
        c.close('corner %d y' % ci, q[0, ci, 1], y + k * fns[ci, 1](x, y))
    c.cover('inside')
    c.observe('q', q)


@R.scenario('position anywhere outside the table', grid='square', covers=['outside'])
@R.scenario('position anywhere outside a four-point table', grid='tiny', covers=['outside'])
def outside(c, grid):
    X, Y, shape = table(c, grid)
    x, y = c.real('x', X[0] - 4, X[-1] + 4), c.real('y', min(Y) - 4, max(Y) + 4)
    c.assume(c.or_(x < X[0] - 0.01, x > X[-1] + 0.01, y < min(Y) - 0.01, y > max(Y) + 0.01))
    arr, _, cols = corners(c, 'free', X, Y, shape, which=[1])
    f = c.mod('glmtools.io.ccd').quads_from_corner_lookup
    q = f(c.farray(X, shape=shape), c.farray(Y, shape=shape), arr, c.farray([x]), c.farray([y]))
    # the table position that is clearly nearest
    for k in range(len(X)):
        near = c.and_(*[(X[k] ** 2 - X[j] ** 2 + Y[k] ** 2 - Y[j] ** 2) + 0.001 <=
                        2 * ((X[k] - X[j]) * x + (Y[k] - Y[j]) * y) for j in range(len(X)) if j != k])
        for ci in (0, 1, 3):
            for co, p in ((0, x), (1, y)):
                want = p + cols[ci, co][k]
                c.check('outline uses the nearest offsets',
                        c.implies(near, c.and_(q[0, ci, co] - want <= 1e-6, want - q[0, ci, co] <= 1e-6)))
    c.cover('outside')


@R.scenario('two positions, one inside and one outside the table')
def mixed(c):
    X, Y, shape = table(c, 'square')
    x = [c.real('x0', -1.9, 2.9), c.real('x1', 3.5, 6)]
    y = [c.real('y0', -0.9, 1.9), c.real('y1', 1.6, 3)]
    arr, fns, cols = corners(c, 'affine', X, Y, shape)
    f = c.mod('glmtools.io.ccd').quads_from_corner_lookup
    for order in ((0, 1), (1, 0)):
        q = f(c.farray(X, shape=shape), c.farray(Y, shape=shape), arr, c.farray([x[k] for k in order]),
              c.farray([y[k] for k in order]))
        c.check('one outline per event', q.shape == (2, 4, 2))
        for row, k in enumerate(order):
            at = (x[k], y[k]) if k == 0 else (3, 2)
            for ci in range(4):
                c.close('x', q[row, ci, 0], x[k] + fns[ci, 0](*at))
                c.close('y', q[row, ci, 1], y[k] + fns[ci, 1](*at))


@R.scenario('four positions, three of them beyond different corners of the table', covers=['any'])
def several(c):
    X, Y, shape = table(c, 'square')
    x = [c.real('x0', 3.5, 6), c.real('x1', -1.9, 2.9), c.real('x2', -6, -2.5), c.real('x3', 3.5, 6)]
    y = [c.real('y0', 2.1, 3), c.real('y1', -0.9, 1.9), c.real('y2', -3, -1.1), c.real('y3', -3, -1.1)]
    arr, fns, cols = corners(c, 'affine', X, Y, shape)
    q = c.mod('glmtools.io.ccd').quads_from_corner_lookup(c.farray(X, shape=shape), c.farray(Y, shape=shape), arr,
                                                          c.farray(x), c.farray(y))
    for k, at in enumerate([(3, 2), (x[1], y[1]), (-2, -1), (3, -1)]):
        for ci in range(4):
            c.close('x', q[k, ci, 0], x[k] + fns[ci, 0](*at))
            c.close('y', q[k, ci, 1], y[k] + fns[ci, 1](*at))
    c.cover('any')


@R.scenario('no extrapolation asked for')
def missing(c):
    X, Y, shape = table(c, 'square')
    arr, fns, cols = corners(c, 'affine', X, Y, shape)
    x = [c.real('x0', -1.9, 2.9), c.real('x1', 3.5, 6)]
    y = [c.real('y0', -0.9, 1.9), c.real('y1', -1, 3)]
    q = c.mod('glmtools.io.ccd').quads_from_corner_lookup(
        c.farray(X, shape=shape), c.farray(Y, shape=shape), arr, c.farray(x), c.farray(y), extrapolate=False)
    for ci in range(4):
        c.close('x', q[0, ci, 0], x[0] + fns[ci, 0](x[0], y[0]))
        c.check('undefined outside', c.isnan(q[1, ci, 0]) and c.isnan(q[1, ci, 1]))


@R.scenario('every offset of one corner symbolic; event at a table position', covers=['node'])
def nodes(c):
    X, Y, shape = table(c, 'square')
    arr, _, cols = corners(c, 'free', X, Y, shape, which=[2])
    f = c.mod('glmtools.io.ccd').quads_from_corner_lookup
    k = c.choice('node', range(len(X)))
    q = f(c.farray(X, shape=shape), c.farray(Y, shape=shape), arr, c.farray([X[k]]), c.farray([Y[k]]))
    for ci in range(4):
        for co, p in ((0, X[k]), (1, Y[k])):
            c.close('offset of the table', q[0, ci, co], p + cols[ci, co][k])
    c.cover('node')


@R.scenario('reading the published table: every entry symbolic', covers=['read'])
@R.scenario('reading a table with other column names', names=True, covers=['read'])
def published(c, names=False):
    import scipy.io
    cols = ['nwlon', 'swlon', 'selon', 'nelon', 'nwlat', 'swlat', 'selat', 'nelat', 'lon_grid', 'lat_grid']
    nav = {k: c.farray(c.reals(k, 4, -100, 100), shape=(2, 2)) for k in cols}
    kw = {}
    if names:
        kw = dict(x_corners=['a0', 'a1', 'a2', 'a3'], y_corners=['b0', 'b1', 'b2', 'b3'], x_grid='gx', y_grid='gy')
        nav = dict(zip(['a0', 'a1', 'a2', 'a3', 'b0', 'b1', 'b2', 'b3', 'gx', 'gy'], nav.values()))
    real = scipy.io.loadmat
    scipy.io.loadmat = lambda filename, *a, **k: nav
    try:
        lons, lats, lut = c.mod('glmtools.io.ccd').read_official_corner_lut('table.mat', **kw)
    finally:
        scipy.io.loadmat = real
    v = list(nav.values())
    c.check('shape', lut.shape == (2, 2, 4, 2))
    for i in range(2):
        for j in range(2):
            for k in range(4):
                c.close('corner x', lut[i, j, k, 0], v[k][i, j])
                c.close('corner y', lut[i, j, k, 1], v[4 + k][i, j])
            c.close('longitude', lons[i, j], v[8][i, j])
            c.close('latitude', lats[i, j], v[9][i, j])
    c.cover('read')


@R.scenario('pixel centres any of 0.02 to 5 degrees apart, sheared grid', covers=['any'])
def fine_pixels(c):
    import numpy as real_np
    d = c.choice('spacing', [0.02, 0.08, 0.7, 5.0])
    i, j = real_np.meshgrid(real_np.arange(5), real_np.arange(4), indexing='ij')
    lons, lats = -75.03 + d * i + 0.1 * d * j, 10.01 + d * j - 0.1 * d * i
    lookup, X, Y = c.mod('glmtools.io.ccd').create_pixel_lookup(real_np.ma.masked_array(lons), real_np.ma.masked_array(lats))
    c.check('one entry per pixel', len(X) == len(Y) == 20)
    near = lookup.query(real_np.column_stack([lons.ravel() + 0.3 * d, lats.ravel() - 0.2 * d]))[1]
    for k in range(20):
        q = int(near[k][0])
        c.check('pixel indices', (X[q], Y[q]) == (i.ravel()[k], j.ravel()[k]), '(%s,%s)' % (X[q], Y[q]))
    c.cover('any')


@R.scenario('pixel centres on a sheared grid with any of six pixels missing', covers=['missing', 'complete'])
def pixel_ids(c):
    import numpy as real_np
    ccd = c.mod('glmtools.io.ccd')
    lons = real_np.array([[0.0, 0.5, 1.0], [10.0, 10.5, 11.0]])
    lats = real_np.array([[0.0, 5.0, 10.0], [1.0, 6.0, 11.0]])
    bad = [c.decide(c.bool('bad%d' % k)) for k in range(6)]
    c.assume(not all(bad))
    if any(bad) or c.decide(c.bool('masked')):
        mask = real_np.array(bad).reshape(2, 3)
        # a value may be missing from one of the two only
        missing_in = c.choice('missing in', ['both', 'longitudes', 'latitudes', 'either'])
        chess = real_np.array([[0, 1, 0], [1, 0, 1]], dtype=bool)
        lons = real_np.ma.masked_array(lons, {'both': mask, 'longitudes': mask, 'latitudes': mask & False,
                                              'either': mask & chess}[missing_in])
        lats = real_np.ma.masked_array(lats, {'both': mask, 'longitudes': mask & False, 'latitudes': mask,
                                              'either': mask & ~chess}[missing_in])
    lookup, X, Y = ccd.create_pixel_lookup(lons, lats)
    c.check('one entry per good pixel', len(X) == len(Y) == 6 - sum(bad))
    for i in range(2):
        for j in range(3):
            if not bad[3 * i + j]:
                dist, idx = lookup.query([[float(lons[i, j]) + 0.1, float(lats[i, j]) - 0.1]])
                k = int(idx[0][0])
                c.check('pixel indices', X[k] == i and Y[k] == j, '(%s,%s) for (%d,%d)' % (X[k], Y[k], i, j))
    back = ccd.create_pixel_lookup(lons, lats)
    c.check('repeatable', list(back[1]) == list(X) and list(back[2]) == list(Y))
    c.cover('missing' if any(bad) else 'complete')


@R.scenario('a corner table saved to a file or as bytes and loaded again', covers=['file', 'bytes'])
def saved(c):
    import os
    import tempfile
    ccd = c.mod('glmtools.io.ccd')
    lons, lats = c.farray(c.reals('lon', 4, -100, 100), shape=(2, 2)), c.farray(c.reals('lat', 4, -100, 100), shape=(2, 2))
    lut = c.farray(c.reals('offset', 32, -1, 1), shape=(2, 2, 4, 2))
    to_file = c.decide(c.bool('file'))
    with tempfile.TemporaryDirectory(prefix='symx') as d:
        path = os.path.join(d, 'table.pickle')
        if to_file:
            ccd.save_pixel_corner_lookup(lons, lats, lut, filename=path)
        else:
            text = ccd.save_pixel_corner_lookup(lons, lats, lut)
            with open(path, 'wb') as f:
                f.write(text)
        got = ccd.load_pixel_corner_lookup(path)
        again = ccd.load_pixel_corner_lookup(path)
    for back in (got, again):
        c.check('parts', len(back) == 3)
        for name, a, b in zip(('longitudes', 'latitudes', 'corners'), back, (lons, lats, lut)):
            c.check('shape of ' + name, a.shape == b.shape)
            for u, v in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist()):
                c.close(name, u, v)
    c.cover('file' if to_file else 'bytes')


class Node:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        return self.v.copy()[k]


@R.scenario('pixel locations read from a file, looked up, saved and loaded again', covers=['missing', 'complete'])
def pixel_file(c):
    import os
    import sys
    import tempfile
    import types
    import numpy as real_np
    ccd = c.mod('glmtools.io.ccd')
    bad = c.choice('bad', [[], [2], [0, 5], [1, 3, 4]])
    names = c.choice('names', [{}, dict(lat_var='la', lon_var='lo')])
    lons = 285.0 + real_np.array([[0.0, 0.5, 1.0], [10.0, 10.5, 11.0]])
    lats = real_np.array([[0.0, 5.0, 10.0], [1.0, 6.0, 11.0]])
    for k in bad:
        lons[k // 3, k % 3] = lats[k // 3, k % 3] = real_np.nan
    root = types.SimpleNamespace(**{names.get('lat_var', 'mean_lat'): Node(lats), names.get('lon_var', 'mean_lon'): Node(lons)})
    fake = types.ModuleType('tables')
    fake.open_file = lambda *a, **k: types.SimpleNamespace(root=root, close=lambda: None)
    before = sys.modules.get('tables')
    sys.modules['tables'] = fake
    try:
        lon, lat = ccd.read_pixel_location_mat_file('pixels.mat', **names)
    finally:
        if before is None:
            del sys.modules['tables']
        else:
            sys.modules['tables'] = before
    for k in range(6):
        i, j = k // 3, k % 3
        c.check('missing', bool(real_np.ma.getmaskarray(lon)[i, j]) == bool(real_np.ma.getmaskarray(lat)[i, j]) == (k in bad))
        if k not in bad:
            c.close('longitude', float(lon[i, j]), float(lons[i, j]) - 360)
            c.close('latitude', float(lat[i, j]), float(lats[i, j]))
    lookup, X, Y = ccd.create_pixel_lookup(lon, lat)
    with tempfile.TemporaryDirectory(prefix='symx') as d:
        path = os.path.join(d, 'pixels.pickle')
        if c.decide(c.bool('file')):
            ccd.save_pixel_lookup(lookup, X, Y, lon, lat, filename=path)
        else:
            text = ccd.save_pixel_lookup(lookup, X, Y, lon, lat)
            with open(path, 'wb') as f:
                f.write(text)
        back = ccd.load_pixel_lookup(path)
    c.check('pixels', (list(back[1]), list(back[2])) == (list(X), list(Y)))
    c.check('parts', len(back) == 5)
    for name, a, b in zip(('longitudes', 'latitudes'), back[3:], (lon, lat)):
        gone = real_np.ma.getmaskarray(b)
        c.check(name + ' missing', (real_np.ma.getmaskarray(a) == gone).all())
        c.check(name + ' loaded', (real_np.ma.getdata(a) == real_np.ma.getdata(b))[~gone].all())
    for k in range(6):
        i, j = k // 3, k % 3
        if k not in bad:
            q = int(back[0].query([[float(lon[i, j]) + 0.1, float(lat[i, j]) - 0.1]])[1][0][0])
            c.check('pixel looked up', (back[1][q], back[2][q]) == (i, j))
    c.cover('missing' if bad else 'complete')
