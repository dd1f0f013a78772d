"""C08: longitude and latitude are placed where the satellite sees them."""
import math
from datetime import datetime

import numpy as np

from ..harness import Registry
from . import glmds

R = Registry()
ASSUMPTIONS = ['the geometry itself is decided at the listed offsets from the satellite; satellite longitude and the '
               'way longitudes are written are arbitrary']

RADII = {0: (6.394140e6, 6.362755e6), 1: (6.378137e6 + 14.0e3, 6.362755e6)}
RE, RP, H = 6.378137e6, 6.35675231414e6, 35.786023e6 + 6.378137e6

POINTS = [(0.0, 0.0), (10.0, 0.0), (-35.0, 0.0), (0.0, 25.0), (0.0, -50.0), (20.0, 30.0), (-33.25, 41.0),
          (47.5, -18.0), (-12.0, -61.0), (58.0, 7.0), (64.0, 0.5), (-1.0, 66.5)]


def seen(rev, off, lat, H=H):
    """East-west and north-south scan angles, straight from the geometry: the
    point of the lightning ellipsoid whose geocentric latitude belongs to the
    geodetic latitude on GRS80, seen from the satellite."""
    a, b = RADII[rev]
    lam, phi = math.radians(off), math.radians(lat)
    u = (math.cos(phi) * math.cos(lam), math.cos(phi) * math.sin(lam), (RP / RE) ** 2 * math.sin(phi))
    m = 1 / math.sqrt((u[0] ** 2 + u[1] ** 2) / a ** 2 + u[2] ** 2 / b ** 2)
    X, Y, Z = (m * v for v in u)
    return (math.atan2(Y, math.hypot(H - X, Z)), math.atan2(Z, H - X))


def nav(c):
    return c.mod('glmtools.io.lightning_ellipse').ltg_ellps_lon_lat_to_fixed_grid


@R.scenario('any satellite longitude, longitudes written anywhere in +-180, %d offsets, both ellipsoids' % len(POINTS),
            covers=['rev0', 'rev1', 'across the date line', 'direct'])
def placed(c):
    rev = c.choice('rev', [0, 1])
    c.cover('rev%d' % rev)
    sat = c.real('sat', -180, 180)
    k = c.choice('point', list(range(len(POINTS))))
    off, lat = POINTS[k]
    turn = c.choice('turn', [0, 360, -360])
    lon = sat + off + turn
    c.assume(c.and_(lon >= -180, lon <= 180))
    x, y = nav(c)(c.farray([lon]), c.farray([lat]), sat, rev)
    wx, wy = seen(rev, off, lat)
    c.check('one position', len(x) == 1 and len(y) == 1)
    c.close('east-west angle', x[0] * 1e4, wx * 1e4, 1e-7)
    c.close('north-south angle', y[0] * 1e4, wy * 1e4, 1e-7)
    c.observe('xy', [x[0], y[0]])
    c.cover('across the date line' if turn else 'direct')


@R.scenario('several points at once, any satellite longitude', covers=['mixed'])
def many(c):
    sat = c.real('sat', -180, 180)
    pts = [POINTS[5], POINTS[6], POINTS[7]]
    lons = []
    turns = []
    for k, (off, lat) in enumerate(pts):
        turn = c.choice('turn%d' % k, [0, 360, -360])
        lon = sat + off + turn
        c.assume(c.and_(lon >= -180, lon <= 180))
        lons.append(lon)
        turns.append(turn)
    arr = c.farray(lons)
    x, y = nav(c)(arr, c.farray([p[1] for p in pts]), sat, 1)
    for k, (off, lat) in enumerate(pts):
        wx, wy = seen(1, off, lat)
        c.close('east-west angle', x[k] * 1e4, wx * 1e4, 1e-7)
        c.close('north-south angle', y[k] * 1e4, wy * 1e4, 1e-7)
        c.close('the given longitudes are untouched', arr[k], lons[k])
    if len(set(turns)) > 1:
        c.cover('mixed')


# every 4 degrees over the part of the globe the satellite sees
FIELD = [(float(o), float(l)) for o in range(-72, 73, 4) for l in range(-72, 73, 4)
         if math.cos(math.radians(o)) * math.cos(math.radians(l)) > math.cos(math.radians(74))]


@R.scenario('%d offsets over the whole field of view at once, any satellite longitude, both ellipsoids' % len(FIELD),
            covers=['rev0', 'rev1'])
def field(c):
    rev = c.choice('rev', [0, 1])
    c.cover('rev%d' % rev)
    sat = c.real('sat', -105, 105)
    x, y = nav(c)(c.farray([sat + o for o, l in FIELD]), c.farray([l for o, l in FIELD]), sat, rev)
    c.check('as many positions as points', len(x) == len(y) == len(FIELD))
    for k, (off, lat) in enumerate(FIELD):
        wx, wy = seen(rev, off, lat)
        c.close('east-west angle', x[k] * 1e4, wx * 1e4, 1e-7)
        c.close('north-south angle', y[k] * 1e4, wy * 1e4, 1e-7)


@R.scenario('a single point given as plain numbers', covers=['any'])
def plain(c):
    sat = c.real('sat', -180, 180)
    off, lat = POINTS[c.choice('point', [1, 5, 7])]
    lon = sat + off + c.choice('turn', [0, 360, -360])
    c.assume(c.and_(lon >= -180, lon <= 180))
    height = c.choice('height', [None, 35.6e6, 36.5e6])
    if height is None:
        x, y = nav(c)(lon, lat, sat, 1)
        wx, wy = seen(1, off, lat)
    else:
        x, y = nav(c)(lon, lat, sat, 1, sat_grs80_height=height)
        wx, wy = seen(1, off, lat, height + RE)
    for label, got, w in (('east-west angle', x, wx), ('north-south angle', y, wy)):
        v = list(np.atleast_1d(got))
        c.check('one position', len(v) == 1)
        c.close(label, v[0] * 1e4, w * 1e4, 1e-7)
    c.cover('any')


DATES = [('2017-05-01T00:00:00', 0), ('2018-01-01T00:00:00', 0), ('2018-10-14T23:59:59', 0),
         ('2018-10-15T00:00:00', 1), ('2018-10-15T00:00:01', 1), ('2018-12-31T23:59:59', 1),
         ('2019-01-01T00:00:00', 1), ('2019-10-14T10:00:00', 1), ('2024-02-29T12:30:05', 1)]


DATES += [('2018-11-01T00:00:00', 1), ('2018-12-05T06:00:00', 1), ('2018-09-30T20:00:00', 0), ('2017-11-20T18:00:00', 0),
          ('2017-12-31T23:59:59', 0), ('2020-01-03T00:00:00', 1), ('2021-07-20T05:00:00', 1), ('2022-12-31T00:00:00', 1)]
# the first, the last and the middle days of every month of sixteen years
EVERY = [datetime(y, m, d, h) for y in range(2015, 2031) for m in range(1, 13) for d in (1, 2, 9, 14, 15, 16, 28)
         for h in (0, 23)]


@R.scenario('product dates around the change of ellipsoid, any satellite longitude', covers=['rev0', 'rev1'])
def on_load(c):
    when, rev = c.choice('date', DATES)
    given = c.choice('given', [-1, 0, 1])
    c.cover('rev%d' % rev)
    # longitudes are exact multiples of 1/64 degree, so real files hold them exactly
    nadir = c.int('sat64', -80 * 64, 80 * 64) / 64
    pts = dict(flash=[POINTS[5], POINTS[2]], group=[POINTS[6], POINTS[3], POINTS[1]],
               event=[POINTS[7], POINTS[8], POINTS[4]])
    ds = glmds.dataset(c, [9, 4], [12, 30, 21], [5, 1, 8], [9, 4, 9], [12, 30, 21], time=when, nadir=0.0,
                       lon={k: [nadir + p[0] for p in v] for k, v in pts.items()},
                       lat={k: [p[1] for p in v] for k, v in pts.items()})
    ds['lon_field_of_view'] = ((), nadir)
    d = c.mod('glmtools.io.glm').GLMDataset(ds, ellipse_rev=given).dataset
    use = rev if given < 0 else given
    for lv, ps in pts.items():
        for k, (off, lat) in enumerate(ps):
            wx, wy = seen(use, off, lat)
            c.close('%s x' % lv, d[lv + '_x'].values[k] * 1e4, wx * 1e4, 1e-7)
            c.close('%s y' % lv, d[lv + '_y'].values[k] * 1e4, wy * 1e4, 1e-7)


@R.scenario('dates around the change of ellipsoid', covers=['rev0', 'rev1'])
def radii(c):
    when, rev = c.choice('date', DATES)
    m = c.mod('glmtools.io.lightning_ellipse')
    t = datetime.strptime(when, '%Y-%m-%dT%H:%M:%S')
    c.check('revision', m.ltg_ellpse_rev(t) == rev)
    got = m.ltg_ellps_radii(t)
    for g, w in zip(got, RADII[rev]):
        c.close('radius', g, w)
    c.cover('rev%d' % rev)


@R.scenario('%d dates of the years 2015 to 2030' % len(EVERY), covers=['rev0', 'rev1'])
def calendar(c):
    month = c.choice('month', sorted(set((t.year, t.month) for t in EVERY)))
    m = c.mod('glmtools.io.lightning_ellipse')
    for t in EVERY:
        if (t.year, t.month) != month:
            continue
        rev = 0 if (t.year, t.month, t.day) < (2018, 10, 15) else 1
        c.check('revision', m.ltg_ellpse_rev(t) == rev, t.isoformat())
        for g, w in zip(m.ltg_ellps_radii(t), RADII[rev]):
            c.close('radius', g, w)
        c.cover('rev%d' % rev)
