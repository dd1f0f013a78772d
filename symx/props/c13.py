"""C13: gridding files gives images with the right lightning in the right place and time."""
from datetime import timedelta

from ..harness import Registry
from . import e2e

R = Registry()
ASSUMPTIONS = ['event positions are fixed points; energies, areas and the assignment of files to times are symbolic',
               'the lmatools pipeline stages are stand-ins (that library is not installed)']
T = 5e-5
AT = [(0.0, 0.0), (0.1, 0.05), (0.12, -0.1)]


# smallest value each product can hold when stored as scaled integers
STEP = dict(flash_extent_density=0.0625, flash_centroid_density=1.0, average_flash_area=10.0, minimum_flash_area=10.0,
            group_extent_density=0.25, group_centroid_density=1.0, average_group_area=1.0, total_energy=1.52597e-6)


def check_images(c, written, grid, files, frames, seconds, scaled=False, start=e2e.START):
    c.check('one image per frame', len(written) == frames)
    for n, (path, ds) in enumerate(written):
        t0 = start + timedelta(seconds=seconds * n)
        t1 = t0 + timedelta(seconds=seconds)
        c.check('start', ds.attrs['time_coverage_start'] == t0.isoformat() + 'Z')
        c.check('end', ds.attrs['time_coverage_end'] == t1.isoformat() + 'Z')
        xs, ys = [float(v) for v in ds.x.values], [float(v) for v in ds.y.values]
        c.check('size', (len(xs), len(ys)) == (grid.nx, grid.ny), '%s' % ((len(xs), len(ys)),))
        for i in range(grid.nx):
            c.close('x coordinate', xs[i], (grid.i0 + i + 0.5) * grid.dx, 1e-9)
        for j in range(grid.ny):
            c.close('y coordinate', ys[grid.ny - 1 - j], (grid.j0 + j + 0.5) * grid.dy, 1e-9)
        want = e2e.expect(c, grid, files, t0, t1)
        for field in e2e.FIELDS:
            img = e2e.image(ds, field)
            for cell, v in want[field].items():
                if scaled:
                    v = c.ite(c.and_(v > 0, v < STEP[field]), STEP[field], v)
                e2e.near(c, want, field, cell, img[cell], T, v)


def values(c, n, nf, ng):
    return c.reals('e', n, 0.01, 10), c.reals('fa', nf, 1, 60000), c.reals('ga', ng, 1, 60000)


@R.scenario('one file, three events on a 6x6 grid; energies and areas symbolic')
@R.scenario('one file, three events on a 6x4 grid that cuts off one of them', ny=4)
@R.scenario('one file, three events on a 3x6 grid that cuts off one of them', nx=3)
@R.scenario('one file, three events, values stored as scaled integers', scale=True)
@R.scenario('one file, three events on cells twice as tall as wide', ny=3, tall=2)
@R.scenario('one file, three events on cells half as tall as wide', ny=12, tall=0.5)
@R.scenario('one file of the western satellite', nadir=-137.0)
@R.scenario('one file of a satellite east of Greenwich', nadir=9.5)
@R.scenario('one file of a satellite near the date line', nadir=179.0, nx=4)
def single(c, nx=6, ny=6, scale=False, tall=1, nadir=-75.0):
    w = e2e.source(c, (0, 1), (0, 1, 1), AT, e2e.START + timedelta(seconds=20), *values(c, 3, 2, 2), nadir=nadir)
    g = e2e.Grid(nx=nx, ny=ny, tall=tall)
    written, ret = e2e.run(c, [w], g, scale=scale, nadir=nadir)
    for path, ds in written:
        c.close('subpoint', float(ds.nominal_satellite_subpoint_lon.values), nadir, 1e-6)
        c.close('projection', float(ds.goes_imager_projection.attrs['longitude_of_projection_origin']), nadir, 1e-6)
    check_images(c, written, g, [w], 1, 60, scaled=scale)


PLACES = [(-95.0, -20.0), (-60.0, -20.0), (-95.0, 10.0), (-75.0, 0.0), (-40.0, 40.0)]


@R.scenario('two flashes in each quarter of the disk and under the satellite; either ellipsoid', covers=['any'])
def elsewhere(c):
    place, rev = c.choice('place', PLACES), c.choice('rev', [0, 1])
    w = e2e.source(c, (0, 1), (0, 1), AT[:2], e2e.START + timedelta(seconds=20), *values(c, 2, 2, 2), place=place, rev=rev)
    x, y = w['xy']['event'][0]
    g = e2e.Grid(i0=x // e2e.D - 3, j0=y // e2e.D - 3, nx=7, ny=5)
    written, ret = e2e.run(c, [w], g, ellipse_rev=rev)
    check_images(c, written, g, [w], 1, 60)
    c.cover('any')


# centre of the flash relative to the event on the grid: up to 90 km away
CENTRES = [(0.0, 0.75), (0.0, -0.75), (0.6, 0.0), (-0.6, 0.0), (0.4, -0.6)]


@R.scenario('a flash centred up to 90 km off the grid with an event on it', covers=['any'])
@R.scenario('a flash centred up to 90 km off a grid of low cells with an event on it', tall=0.5, ny=5, covers=['any'])
@R.scenario('a flash centred up to 90 km off a grid of narrow cells with an event on it', wide=0.5, nx=5, covers=['any'])
def reach(c, nx=3, ny=3, tall=1, wide=1):
    w = e2e.source(c, (0, 0), (0, 1), [(0.0, 0.0), (1.2, 1.2)], e2e.START, *values(c, 2, 1, 2),
                   flash_at=[c.choice('centre', CENTRES)])
    g = e2e.Grid(i0=185, j0=123, nx=nx, ny=ny, tall=tall, wide=wide)
    written, ret = e2e.run(c, [w], g)
    check_images(c, written, g, [w], 1, 60)
    c.cover('any')


@R.scenario('cells wider than the margin around the grid, not as tall', wide=16, tall=8, nx=3, ny=4)
@R.scenario('cells taller than the margin around the grid, not as wide', wide=8, tall=16, nx=4, ny=3)
@R.scenario('cells wider and taller than the margin around the grid', wide=16, tall=16, nx=3, ny=3)
def coarse(c, wide, tall, nx, ny):
    w = e2e.source(c, (0, 1), (0, 1, 1), AT, e2e.START + timedelta(seconds=20), *values(c, 3, 2, 2))
    g = e2e.Grid(i0=180, j0=118, nx=nx, ny=ny, wide=wide, tall=tall)
    written, ret = e2e.run(c, [w], g)
    check_images(c, written, g, [w], 1, 60)


@R.scenario('two flashes far apart on a grid of 150x140 cells', covers=['any'])
def vast(c):
    w = e2e.source(c, (0, 1), (0, 1), [(0.0, 0.0), (6.6, 3.8)], e2e.START, *values(c, 2, 2, 2))
    g = e2e.Grid(i0=182, j0=120, nx=150, ny=140, wide=0.5, tall=0.5)
    (path, ds), = e2e.run(c, [w], g)[0]
    want = e2e.expect(c, g, [w], e2e.START, e2e.START + timedelta(seconds=60))
    for field in e2e.FIELDS:
        img = e2e.image(ds, field)
        zero = [cell for cell, v in want[field].items() if isinstance(v, (int, float)) and v == 0]
        c.check('nothing elsewhere', not any(isinstance(img[cell], (int, float)) and img[cell] != 0 for cell in zero), field)
        for cell in set(want[field]) - set(zero):
            e2e.near(c, want, field, cell, img[cell], T)
    c.check('both on the grid', max(cell[0] for cell, v in want['flash_centroid_density'].items() if v) > 127)
    c.cover('any')


@R.scenario('one file gridded without naming the ellipsoid or the packing', covers=['packed', 'unpacked'])
def defaults(c):
    # before and after the ellipsoid of the published positions changed
    start, rev = c.choice('start', [(e2e.START, 0), (e2e.START.replace(month=11), 1), (e2e.START.replace(year=2021), 1)])
    w = e2e.source(c, (0, 1), (0, 1, 1), AT, start + timedelta(seconds=20), *values(c, 3, 2, 2), rev=rev)
    x, y = w['xy']['event'][0]
    g = e2e.Grid(i0=x // e2e.D - 3, j0=y // e2e.D - 3)
    packed = c.decide(c.bool('packed'))
    drop = ['ellipse_rev', 'min_points_per_flash'] + (['output_kwargs'] if packed else [])
    written, ret = e2e.run(c, [w], g, drop=drop, start=start)
    check_images(c, written, g, [w], 1, 60, scaled=packed, start=start)
    c.cover('packed' if packed else 'unpacked')


@R.scenario('two files in different frames, overlapping in part')
@R.scenario('two files in different frames, overlapping in part, stored as scaled integers', scale=True)
def frames(c, scale=False):
    files = [e2e.source(c, (0, 1), (0, 1), AT[:2], e2e.START + timedelta(seconds=20), *values(c, 2, 2, 2)),
             e2e.source(c, (0,), (0,), AT[1:2], e2e.START + timedelta(seconds=70), c.reals('e2', 1, 0.01, 10),
                        c.reals('fa2', 1, 1, 60000), c.reals('ga2', 1, 1, 60000), first=100)]
    g = e2e.Grid()
    written, ret = e2e.run(c, files, g, frames=2, scale=scale)
    check_images(c, written, g, files, 2, 60, scaled=scale)


@R.scenario('two groups of two flashes share a spot')
def shared(c):
    en, fa, ga = values(c, 3, 2, 3)
    w = e2e.source(c, (0, 1, 1), (0, 1, 2), [AT[0]] * 3, e2e.START, en, fa, ga)
    g = e2e.Grid()
    (path, ds), = e2e.run(c, [w], g)[0]
    for cell, x0, x1, y0, y1 in ((v[:2],) + v[2:] for v in g.cells()):
        poly = e2e.outline(*w['xy']['event'][0])
        a = e2e.area(e2e.clip(poly, x0, x1, y0, y1))
        on = a > 1e-6 * e2e.D ** 2
        share = a / e2e.D ** 2 if on else 0
        img = {k: e2e.image(ds, k)[cell] for k in e2e.FIELDS}
        c.close('flash extent', img['flash_extent_density'], 2 * share, T)
        c.close('group extent', img['group_extent_density'], 3 * share, T)
        c.close('energy', img['total_energy'], a / e2e.area(poly) * sum(en) if on else 0, T)
        c.close('average flash area', img['average_flash_area'], (fa[0] + fa[1]) / 2 if on else 0, T)
        c.close('average group area', img['average_group_area'], sum(ga) / 3 if on else 0, T)
        c.close('smallest flash area', img['minimum_flash_area'], c.min(fa[0], fa[1]) if on else 0, T)


@R.scenario('writing the same grids twice, plain or as scaled integers', covers=['scaled', 'plain'])
def twice(c):
    w = e2e.source(c, (0, 1), (0, 1, 1), AT, e2e.START, *values(c, 3, 2, 2))
    scale = c.decide(c.bool('scale'))
    g = e2e.Grid()
    np = c.np
    mk = c.mod('glmtools.grid.make_grids')
    x_bnd, y_bnd = g.bnd()
    gr = mk.GLMlutGridder(e2e.START, e2e.START + timedelta(seconds=60), do_3d=False, frame_interval=60.0, dx=e2e.D,
                          dy=e2e.D, x_bnd=x_bnd, y_bnd=y_bnd, proj_name='geos', ctr_lon=-75.0,
                          event_grid_area_fraction_key='mesh_frac')
    X, Y = np.meshgrid(gr.xedge, gr.yedge)
    mesh = c.mod('glmtools.grid.clipping').QuadMeshSubset(X, Y, n_neighbors=160, regular=True)
    glm = c.mod('glmtools.io.glm').GLMDataset(w['ds'], ellipse_rev=0)
    gr.first_file_attrs = dict(glm.dataset.attrs)
    gr.process_flashes(glm, clip_events=mesh, fixed_grid=True, nadir_lon=-75.0)
    out = []
    for k in range(2):
        with e2e.captured() as cap:
            gr.write_grids(outpath=cap.dir + '/{dataset_name}', output_kwargs={'scale_and_offset': scale})
            out.append(cap.written)
    for written in out:
        check_images(c, written, g, [w], 1, 60, scaled=scale)
    c.cover('scaled' if scale else 'plain')


@R.scenario('any accumulated counts, areas and energies written in two frames, plain or as scaled integers',
            covers=['scaled', 'plain', 'some', 'none'])
def accumulated(c):
    scale = c.decide(c.bool('scale'))
    g = e2e.Grid(nx=2, ny=3)
    mk = c.mod('glmtools.grid.make_grids')
    x_bnd, y_bnd = g.bnd()
    gr = mk.GLMlutGridder(e2e.START, e2e.START + timedelta(seconds=120), do_3d=False, frame_interval=60.0, dx=e2e.D,
                          dy=e2e.D, x_bnd=x_bnd, y_bnd=y_bnd, proj_name='geos', ctr_lon=-75.0,
                          event_grid_area_fraction_key='mesh_frac')
    gr.first_file_attrs = dict(platform_ID='G16', orbital_slot='GOES-East', instrument_ID='GLM-1')
    names = list(gr.field_names)
    # the tops leave room for a tiny share of a cell
    top = dict(flash_extent_density=30, group_extent_density=30, total_energy=0.1)
    at = c.choice('cell', [(0, 0, 0), (1, 2, 1), (1, 0, 0)])
    has = c.decide(c.bool('has'))
    data, vals = [], {}
    for n, name in enumerate(names):
        flat = [1.0 + n + 0.125 * k for k in range(12)]
        pos = (at[0] * 3 + at[1]) * 2 + at[2]
        lo = 1e-6 if 'extent' in name else 1e-3
        flat[pos] = c.real('v%d' % n, lo, top.get(name, 60000)) if has else 0.0
        vals[name] = flat
        data.append(c.farray(flat, shape=(2, 3, 2)))
    gr.outgrids = tuple(data)
    with e2e.captured() as cap:
        gr.write_grids(outpath=cap.dir + '/{dataset_name}', output_kwargs={'scale_and_offset': scale})
        written = cap.written
    c.check('one image per frame', len(written) == 2)
    for t, (path, ds) in enumerate(written):
        for name in names:
            img = e2e.image(ds, name)
            for i in range(2):
                for j in range(3):
                    k = (i * 3 + j) * 2 + t
                    v = vals[name][k]
                    by = {'average_flash_area': 'flash_extent_density', 'average_group_area': 'group_extent_density'}.get(name)
                    if by and (has or (i, j, t) != at):
                        v = v / vals[by][k]
                    if scale:
                        v = c.ite(c.and_(v > 0, v < STEP[name]), STEP[name], v)
                    c.close(name, img[i, j] / STEP[name], v / STEP[name], 1e-6)
    c.cover('scaled' if scale else 'plain')
    c.cover('some' if has else 'none')
