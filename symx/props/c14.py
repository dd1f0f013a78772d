"""C14: gridding in tiles gives the same picture as gridding in one piece."""
from datetime import timedelta

from ..harness import Registry
from . import e2e
from .c13 import CENTRES, STEP

R = Registry()
ASSUMPTIONS = ['event positions are fixed points; energies and areas are symbolic',
               'grid spacing and limits exactly representable in floating point',
               'the lmatools pipeline stages are stand-ins (that library is not installed)']
T = 5e-5
AT = [(0.0, 0.0), (0.1, 0.05), (0.12, -0.1)]


def check_tiles(c, written, grid, files, tiles, frames=1, scaled=False):
    c.check('one image per tile and frame', len(written) == tiles * tiles * frames, '%d' % len(written))
    for n in range(frames):
        t0 = e2e.START + timedelta(seconds=60 * n)
        t1 = t0 + timedelta(seconds=60)
        want = e2e.expect(c, grid, files, t0, t1)
        seen = set()
        for path, ds in written:
            if ds.attrs['time_coverage_start'] != t0.isoformat() + 'Z':
                continue
            xs, ys = [float(v) for v in ds.x.values], [float(v) for v in ds.y.values]
            i_of = [v / grid.dx - 0.5 - grid.i0 for v in xs]
            j_of = [v / grid.dy - 0.5 - grid.j0 for v in ys][::-1]
            c.check('cells on the grid', all(abs(v - round(v)) < 1e-6 for v in i_of + j_of))
            c.check('packing as asked', ('scale_factor' in ds['total_energy'].encoding) == scaled)
            for field in e2e.FIELDS:
                img = e2e.image(ds, field)
                for (i, j), v in img.items():
                    cell = (int(round(i_of[i])), int(round(j_of[j])))
                    if field == e2e.FIELDS[0]:
                        c.check('no cell in two tiles', cell not in seen, '%s' % (cell,))
                        seen.add(cell)
                    w = want[field].get(cell)
                    c.check('cell of the grid', w is not None, '%s' % (cell,))
                    if w is not None:
                        if scaled:
                            w = c.ite(c.and_(w > 0, w < STEP[field]), STEP[field], w)
                        e2e.near(c, want, field, cell, v, T, w)
        c.check('every cell in a tile', len(seen) == grid.nx * grid.ny, '%d of %d' % (len(seen), grid.nx * grid.ny))


def world(c, **kw):
    return e2e.source(c, (0, 1), (0, 1, 1), AT, e2e.START + timedelta(seconds=20), c.reals('e', 3, 0.01, 10),
                      c.reals('fa', 2, 1, 60000), c.reals('ga', 2, 1, 60000), **kw)


@R.scenario('6x6 cells in 2x2 tiles', s=2)
@R.scenario('7x5 cells in 2x2 tiles', s=2, nx=7, ny=5)
@R.scenario('6x6 cells in 2x2 tiles, stored as scaled integers', s=2, scale=True)
@R.scenario('7x8 cells in 3x3 tiles', s=3, nx=7, ny=8, tier='thorough')
@R.scenario('6x4 cells twice as tall as wide in 2x2 tiles', s=2, ny=4, tall=2)
@R.scenario('6x10 cells half as tall as wide in 2x2 tiles', s=2, ny=10, tall=0.5, tier='thorough')
@R.scenario('6x6 cells in 2x2 tiles over two frames', s=2, frames=2, tier='thorough')
@R.scenario('6x6 cells in 2x2 tiles, the later ellipsoid asked for', s=2, rev=1)
def tiles(c, s, nx=6, ny=6, scale=False, frames=1, tall=1, rev=0):
    w = world(c, rev=rev)
    g = e2e.Grid(nx=nx, ny=ny, tall=tall)
    written, ret = e2e.run(c, [w], g, subdivide=s, scale=scale, frames=frames, ellipse_rev=rev)
    check_tiles(c, written, g, [w], s, scaled=scale, frames=frames)
    c.check('one result per tile', [r[0] for r in ret] == [(i, j) for i in range(s) for j in range(s)])


@R.scenario('a flash in 2x2 tiles, centred up to 90 km from its event', covers=['any'])
@R.scenario('a flash in 2x2 tiles of low cells, centred up to 90 km from its event', tall=0.5, ny=8, centres=CENTRES[:2],
            covers=['any'])
@R.scenario('a flash in 2x2 tiles of narrow cells, centred up to 90 km from its event', wide=0.5, nx=8, centres=CENTRES[2:4],
            covers=['any'])
def reach(c, nx=4, ny=4, tall=1, wide=1, centres=CENTRES[4:]):
    w = e2e.source(c, (0, 0), (0, 1), [(0.0, 0.0), (1.2, 1.2)], e2e.START, c.reals('e', 2, 0.01, 10),
                   c.reals('fa', 1, 1, 60000), c.reals('ga', 2, 1, 60000), flash_at=[c.choice('centre', centres)])
    g = e2e.Grid(i0=185, j0=123, nx=nx, ny=ny, tall=tall, wide=wide)
    written, ret = e2e.run(c, [w], g, subdivide=2)
    check_tiles(c, written, g, [w], 2)
    c.cover('any')


@R.scenario('2x2 tiles of cells wider than the margin around a tile, not as tall', wide=16, tall=8, nx=4, ny=4)
@R.scenario('2x2 tiles of cells taller than the margin around a tile, not as wide', wide=8, tall=16, nx=4, ny=4)
def coarse(c, wide, tall, nx, ny):
    w = world(c)
    g = e2e.Grid(i0=180, j0=118, nx=nx, ny=ny, wide=wide, tall=tall)
    written, ret = e2e.run(c, [w], g, subdivide=2)
    check_tiles(c, written, g, [w], 2)


@R.scenario('the same settings used for two runs', covers=['scaled', 'plain'])
def again(c):
    w = world(c)
    g = e2e.Grid(i0=184, nx=3, j0=124, ny=2)
    scale = c.decide(c.bool('scale'))
    out = {'scale_and_offset': scale}
    for k in range(2):
        written, ret = e2e.run(c, [w], g, output_kwargs=out)
        check_tiles(c, written, g, [w], 1, scaled=scale)
    c.cover('scaled' if scale else 'plain')


@R.scenario('any range of up to 12 cells cut into up to 4 tiles; start and spacing symbolic', covers=['even', 'uneven'])
def cuts(c):
    n = c.choice('n', [4, 5, 6, 7, 9, 12])
    s = c.choice('s', [1, 2, 3, 4])
    delta = c.choice('delta', [0.25, 1.0, 4.0])
    start = c.real('start', -100, 100)
    edges = c.mod('glmtools.grid.make_grids').subdivide_bnd((start, start + n * delta), delta, s=s)
    c.check('number of edges', len(edges) == s + 1)
    c.close('first', edges[0], start)
    c.close('last', edges[s], start + n * delta)
    per = n // s
    for k in range(s):
        c.close('on a cell edge', edges[k], start + k * per * delta)
    c.cover('even' if n % s == 0 else 'uneven')


@R.scenario('the ranges of the satellite sectors cut into up to 8 tiles', covers=['any'])
def sectors(c):
    delta = c.choice('spacing', [28.0e-6, 56.0e-6, 112.0e-6])
    n = c.choice('n', [5424, 2500, 1250, 501])
    start = c.choice('start', [-0.151872, -0.101360, 0.044240])
    s = c.choice('s', [1, 3, 8])
    # half a cell over, so that rounding of the range does not change the number of cells
    end = start + (n + 0.5) * delta
    edges = c.mod('glmtools.grid.make_grids').subdivide_bnd((start, end), delta, s=s)
    want = [start + k * (n // s) * delta for k in range(s)] + [end]
    c.check('number of edges', len(edges) == s + 1)
    for k in range(s + 1):
        c.check('edge', abs(float(edges[k]) - want[k]) < 1e-10, '%r' % edges[k])
    c.cover('any')


@R.scenario('2x2 tiles written by the default path template', covers=['any'])
def separate_files(c):
    w = e2e.source(c, (0,), (0,), [(0.0, 0.0)], e2e.START, [1.0], [1.0], [1.0])
    written, ret = e2e.run(c, [w], e2e.Grid(nx=4, ny=4), subdivide=2)
    c.cover('any')
    c.check('tiles in separate files', len({p for p, _ in written}) == 4, '%s' % sorted({p for p, _ in written}))
