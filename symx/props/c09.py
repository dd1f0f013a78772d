"""C09: cutting outlines by a grid accounts for every part of them."""
from ..harness import Registry
from . import mesh as M

R = Registry()
ASSUMPTIONS = ['the polygon clipping library returns the pieces of the overlap; modelled exactly for convex outlines '
               'and replayed on the real library',
               'real arithmetic stands for float64 and for the 2**-31 integer steps of the clipping library']


def build(c, edges, first='x', regular=True, **k):
    clip = c.mod('glmtools.grid.clipping')
    X, Y = M.edges2d(c, edges, first)
    m = clip.QuadMeshSubset(X, Y, regular=regular, **k)
    return m, clip.QuadMeshPolySlicer(m)


def cell_of(edges, first, i, j):
    xi, yj = (i, j) if first == 'x' else (j, i)
    return edges[0][xi], edges[0][xi + 1], edges[1][yj], edges[1][yj + 1]


def pts_of(a):
    return [(p[0], p[1]) for p in a.tolist()]


def inside(c, pts, q, slack):
    """q lies in the convex counter-clockwise outline pts."""
    t = []
    for k in range(len(pts)):
        (ax, ay), (bx, by) = pts[k], pts[(k + 1) % len(pts)]
        t.append((bx - ax) * (q[1] - ay) - (by - ay) * (q[0] - ax) >= -slack)
    return c.and_(*t)


def check_pieces(c, edges, first, outline, area, got, want_total, unit=1, slack=1e-6):
    """Pieces are in their cells and in the outline, one per cell, and their
    areas add up to the part of the outline that is on the grid."""
    polys, fracs, (ii, jj) = got
    c.check('parallel lists', len(polys) == len(fracs) == len(ii) == len(jj))
    seen = set()
    total = 0
    for p, f, i, j in zip(polys, fracs, ii, jj):
        i, j = int(i), int(j)
        c.check('one piece per cell', (i, j) not in seen)
        seen.add((i, j))
        x0, x1, y0, y1 = cell_of(edges, first, i, j)
        pts = [(q[0] / unit, q[1] / unit) for q in pts_of(p)] if unit != 1 else pts_of(p)
        for q in pts:
            c.check('piece inside its cell', c.and_(q[0] >= x0 - slack, q[0] <= x1 + slack,
                                                    q[1] >= y0 - slack, q[1] <= y1 + slack))
            c.check('piece inside the outline', inside(c, outline, q, slack))
        a = M.shoelace(pts)
        a = c.max(a, -a)
        c.close('fraction of the outline', f * area, a, slack)
        total = total + f * area
    c.close('area accounted for', total, want_total, slack)
    return len(polys)


B = 'mesh %s; outline of fixed shape at any position inside the grid'


@R.scenario(B % 'even', grid='even', shape='square', covers=['several cells'])
@R.scenario(B % 'even, y along the first dimension', grid='even', shape='bar', first='y', covers=['several cells'])
@R.scenario(B % 'uneven', grid='uneven', shape='tall', covers=['several cells'])
@R.scenario(B % 'uneven, searched without the regular-grid shortcut', grid='uneven', shape='square', regular=False,
            covers=['several cells'])
@R.scenario(B % 'uneven, wide', grid='uneven', shape='big', first='y', covers=['several cells'])
@R.scenario(B % 'even, outline inside one cell at times', grid='even', shape='speck', covers=['several cells', 'one cell'])
@R.scenario(B % 'uneven, outline smaller than a cell, no shortcut', grid='uneven', shape='speck', regular=False,
            covers=['several cells', 'one cell'])
@R.scenario(B % 'small, clockwise outline', grid='small', shape='square', flip=True, covers=['several cells'])
@R.scenario('24x20 cells, outline 20 cells wide, anywhere over four cells', grid='wide', shape='slab',
            box=(3.25, 4.5, 9.25, 9.5), covers=['several cells'])
@R.scenario('24x20 cells, outline 18 cells tall, y along the first dimension', grid='wide', shape='tower', first='y',
            box=(20.25, 20.5, 1.25, 2.25), covers=['several cells'])
@R.scenario('24x20 cells, outline 20 cells wide, no shortcut', grid='wide', shape='slab', regular=False,
            box=(3.25, 3.45, 9.25, 9.5), covers=['several cells'])
@R.scenario(B % 'even, tilted outline', grid='even', shape='tilted', covers=['several cells'], tier='thorough')
def within(c, grid, shape, first='x', regular=True, flip=False, box=None):
    edges = M.EDGES[grid]
    w, h = M.size(shape)
    x0, x1, y0, y1 = box or (edges[0][0], edges[0][-1] - w, edges[1][0], edges[1][-1] - h)
    ox, oy = c.real('ox', x0, x1), c.real('oy', y0, y1)
    m, slicer = build(c, edges, first, regular)
    out, areas = slicer.slice([M.poly(c, M.place(shape, ox, oy, flip))], bbox=True)
    c.check('one result per outline', len(out) == len(areas) == 1)
    c.close('area of the outline', areas[0], M.shape_area(shape))
    n = check_pieces(c, edges, first, M.place(shape, ox, oy), M.shape_area(shape), out[0], M.shape_area(shape))
    c.cover('several cells' if n > 1 else 'one cell')
    c.observe('n', n)


@R.scenario('cells of 0.0002, outline at any position inside the grid', unit=2.0 ** -12, covers=['several cells'])
@R.scenario('cells of 0.0002, y along the first dimension', unit=2.0 ** -12, first='y', covers=['several cells'])
@R.scenario('cells of 0.0002, no shortcut', unit=2.0 ** -12, regular=False, covers=['several cells'])
@R.scenario('cells of 4 to 16, outline at any position inside the grid', unit=8.0, grid='uneven', covers=['several cells'])
@R.scenario('cells of 4 to 16, no shortcut', unit=8.0, grid='uneven', first='y', regular=False, covers=['several cells'])
def scaled(c, unit, grid='small', first='x', regular=True):
    edges = M.EDGES[grid]
    ox, oy = c.real('ox', 0, 1.5), c.real('oy', 0, 0.5)
    m, slicer = build(c, [[v * unit for v in e] for e in edges], first, regular)
    pts = M.place('square', ox, oy)
    out, areas = slicer.slice([M.poly(c, [(x * unit, y * unit) for x, y in pts])], bbox=True)
    c.close('area of the outline', areas[0] / unit ** 2, 2.25, 2e-5)
    n = check_pieces(c, edges, first, pts, 2.25, out[0], 2.25, unit, 2e-5)
    c.cover('several cells' if n > 1 else 'one cell')


def overlap1(c, a0, a1, b0, b1):
    d = c.min(a1, b1) - c.max(a0, b0)
    return c.max(d, 0)


@R.scenario('rectangle at any position around a small grid', grid='small', shape='square', covers=['inside', 'partly', 'outside'])
@R.scenario('rectangle wider than the grid', grid='small', shape='big', covers=['partly', 'outside'])
@R.scenario('rectangle at any position around a small grid, no shortcut', grid='small', shape='square', regular=False,
            covers=['inside', 'partly', 'outside'])
@R.scenario('rectangle against a single cell', grid='one', shape='tall', covers=['inside', 'partly', 'outside'], tier='thorough')
@R.scenario('rectangle against a single cell', grid='one', shape='square', covers=['inside', 'partly', 'outside'])
@R.scenario('rectangle around an uneven grid', grid='uneven', shape='tall', first='y', tier='thorough',
            covers=['inside', 'partly', 'outside'])
def straddling(c, grid, shape, first='x', regular=True):
    edges = M.EDGES[grid]
    w, h = M.size(shape)
    X0, X1, Y0, Y1 = edges[0][0], edges[0][-1], edges[1][0], edges[1][-1]
    ox = c.real('ox', X0 - w - 1, X1 + 1)
    oy = c.real('oy', Y0 - h - 1, Y1 + 1)
    m, slicer = build(c, edges, first, regular)
    out, areas = slicer.slice([M.poly(c, M.place(shape, ox, oy))], bbox=True)
    want = overlap1(c, ox, ox + w, X0, X1) * overlap1(c, oy, oy + h, Y0, Y1)
    n = check_pieces(c, edges, first, M.place(shape, ox, oy), w * h, out[0], want)
    c.cover('outside' if n == 0 else 'inside' if c.decide(want >= w * h) else 'partly')
    c.observe('n', n)


@R.scenario('two outlines, sizes and positions symbolic', covers=['split'])
@R.scenario('two outlines, y along the first dimension', first='y', covers=['split'])
def fractions(c, first='x'):
    """Rows handed on to the gridder: centroid, both fractions, cell, owner."""
    edges = M.EDGES['uneven']
    m, slicer = build(c, edges, first)
    sp = c.mod('glmtools.grid.split_events')
    ox, oy = c.real('ox', 0.5, 3.9), c.real('oy', -1, 0.9)
    polys = [M.place('square', ox, 1.5), M.place('tall', 2.5, oy)]
    ids = [c.int('id0', 1, 10**6), c.int('id1', 1, 10**6)]
    out, areas = slicer.slice([M.poly(c, p) for p in polys], bbox=True)
    pieces, rows = sp.split_event_data(out, areas, slicer, event_ids=ids)
    n = [len(o[0]) for o in out]
    c.check('one row per piece', len(rows) == sum(n) == len(pieces))
    k = 0
    for which in (0, 1):
        part = 0
        for q in range(n[which]):
            r = rows[k]
            c.check('owner', r['event_id'] == ids[which])
            i, j = int(r['mesh_idx'][0]), int(r['mesh_idx'][1])
            c.check('cell', c.and_(i == out[which][2][0][q], j == out[which][2][1][q]))
            x0, x1, y0, y1 = cell_of(edges, first, i, j)
            pts = pts_of(out[which][0][q])
            a = M.shoelace(pts)
            a = c.max(a, -a)
            area = M.shape_area(('square', 'tall')[which])
            c.close('fraction of the outline', r['event_frac_area'] * area, a, 1e-6)
            mf = r['mesh_frac_area']
            c.close('fraction of the cell', c.max(mf, -mf) * (x1 - x0) * (y1 - y0), a, 1e-6)
            c.close('centroid x', r['poly_ctr'][0], sum(p[0] for p in pts) / len(pts), 1e-6)
            c.close('centroid y', r['poly_ctr'][1], sum(p[1] for p in pts) / len(pts), 1e-6)
            part = part + r['event_frac_area']
            k += 1
        c.close('fractions add up', part, 1, 1e-6)
        if n[which] > 1:
            c.cover('split')
    ds = sp.split_event_dataset_from_props(rows, centroid_names=('cx', 'cy'))
    for name, col in (('split_event_area_fraction', rows['event_frac_area']),
                      ('split_event_mesh_area_fraction', rows['mesh_frac_area']),
                      ('split_event_parent_event_id', rows['event_id']),
                      ('split_event_mesh_x_idx', rows['mesh_idx'][:, 0]),
                      ('split_event_mesh_y_idx', rows['mesh_idx'][:, 1]),
                      ('cx', rows['poly_ctr'][:, 0]), ('cy', rows['poly_ctr'][:, 1])):
        c.check_seq('dataset column ' + name, list(ds[name].values), list(col))
    c.observe('n', n)


@R.scenario('cells chosen near the outline centre instead of by bounding box', grid='even', shape='square',
            covers=['several cells'])
@R.scenario('cells chosen near the outline centre, narrow grid', grid='small', shape='speck',
            covers=['several cells', 'one cell'])
@R.scenario('cells chosen near the outline centre, single cell', grid='one', shape='speck', covers=['one cell'])
def nearest(c, grid, shape):
    edges = M.EDGES[grid]
    w, h = M.size(shape)
    ox = c.real('ox', edges[0][0], edges[0][-1] - w)
    oy = c.real('oy', edges[1][0], edges[1][-1] - h)
    m, slicer = build(c, edges)
    out, areas = slicer.slice([M.poly(c, M.place(shape, ox, oy))])
    n = check_pieces(c, edges, 'x', M.place(shape, ox, oy), w * h, out[0], w * h)
    c.cover('several cells' if n > 1 else 'one cell')
    c.observe('n', n)


@R.scenario('24x20 cells, the nearest ones searched with and without the shortcut; 24 places', covers=['regular', 'search'])
def neighbours(c):
    """The cells nearest to the outline suffice, of many more."""
    regular = c.choice('regular', [True, False])
    first = c.choice('first', ['x', 'y'])
    edges = M.EDGES['wide']
    at = c.choice('at', [(a, b) for a in (0.125, 3.25, 11.0, 22.375) for b in (0.25, 7.5, 12.125, 15.0, 16.75, 18.25)])
    m, slicer = build(c, edges, first, regular, **({} if regular else {'n_neighbors': 16}))
    x, y = at
    outline = [(x, y), (x + 1.5, y), (x + 1.5, y + 1.5), (x, y + 1.5)]
    out, areas = slicer.slice([M.poly(c, outline)])
    check_pieces(c, edges, first, outline, 2.25, out[0], 2.25)
    if not regular:
        # as many neighbours as the outline needs
        m, slicer = build(c, edges, first, False, n_neighbors=9)
        x, y = int(x) + 0.25, int(y) + 0.25
        outline = [(x, y), (x + 2.5, y), (x + 2.5, y + 2.5), (x, y + 2.5)]
        if x < 22 and y < 18:
            out, areas = slicer.slice([M.poly(c, outline)])
            check_pieces(c, edges, first, outline, 6.25, out[0], 6.25)
    c.cover('regular' if regular else 'search')


@R.scenario('mesh turned by 30 degrees, cells found by nearest neighbours or bounding box; 9 places', covers=['near', 'box'])
def turned(c):
    import math
    np = c.np
    X, Y = np.meshgrid(np.arange(13.0), np.arange(11.0))
    co, si = math.cos(math.pi / 6), math.sin(math.pi / 6)
    U, V = co * X - si * Y, si * X + co * Y
    clip = c.mod('glmtools.grid.clipping')
    m = clip.QuadMeshSubset(U, V, n_neighbors=20)
    p, q = c.choice('at', [(a, b) for a in (0.25, 5.125, 10.0) for b in (0.5, 4.75, 8.25)])
    # an outline with sides along the mesh, so that the shares are known
    flat = [(p, q), (p + 1.5, q), (p + 1.5, q + 1.25), (p, q + 1.25)]
    outline = [(co * a - si * b, si * a + co * b) for a, b in flat]
    near = c.choice('near', [True, False])
    out, areas = clip.QuadMeshPolySlicer(m).slice([M.poly(c, outline)], bbox=None if near else True)
    polys, fracs, (ii, jj) = out[0]
    got = {}
    for f, j, i in zip(fracs, ii, jj):
        got[int(i), int(j)] = f
    c.check('one piece per cell', len(got) == len(fracs))
    for i in range(12):
        for j in range(10):
            a = max(min(p + 1.5, i + 1) - max(p, i), 0) * max(min(q + 1.25, j + 1) - max(q, j), 0) / 1.875
            c.check('cells touched', (a > 0) == ((i, j) in got), '%s' % ((i, j),))
            if a > 0 and (i, j) in got:
                c.close('share', got[i, j], a, 1e-6)
    c.cover('near' if near else 'box')


COMB = [(0, 0), (5, 0), (5, 3), (4, 3), (4, 1), (3, 1), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)]
BARS = [(0, 5, 0, 1), (0, 1, 1, 3), (2, 3, 1, 3), (4, 5, 1, 3)]


@R.scenario('a comb of three teeth at 18 places and two sizes, with and without the shortcut', covers=['apart', 'joined'])
def comb(c):
    """An outline that is not convex: several pieces of it in one cell."""
    regular = c.choice('regular', [True, False])
    edges = M.EDGES['wide']
    x, y = c.choice('at', [(a, b) for a in (0.125, 3.25, 11.5) for b in (0.25, 7.5, 12.125)])
    k = c.choice('size', [0.19, 2.3])
    m, slicer = build(c, edges, 'x', regular)
    sp = c.mod('glmtools.grid.split_events')
    out, areas = slicer.slice([M.poly(c, [(x + k * a, y + k * b) for a, b in COMB])], bbox=True)
    polys, fracs, (ii, jj) = out[0]
    pieces, rows = sp.split_event_data(out, areas, slicer, event_ids=[7])
    c.check('parallel lists', len(polys) == len(fracs) == len(ii) == len(jj) == len(rows))
    got, cover, several = {}, {}, False
    for f, i, j, r in zip(fracs, ii, jj, rows):
        several = several or (int(i), int(j)) in got
        got[int(i), int(j)] = got.get((int(i), int(j)), 0) + f
        c.check('row of the piece', (int(r['mesh_idx'][0]), int(r['mesh_idx'][1])) == (int(i), int(j)))
        cover[int(i), int(j)] = cover.get((int(i), int(j)), 0) + abs(r['mesh_frac_area'])
    for i in range(24):
        for j in range(20):
            a = 0
            for x0, x1, y0, y1 in BARS:
                a += (max(min(x + k * x1, i + 1) - max(x + k * x0, i), 0)
                      * max(min(y + k * y1, j + 1) - max(y + k * y0, j), 0))
            c.check('cells touched', (a > 0) == ((i, j) in got), '%s' % ((i, j),))
            if a > 0 and (i, j) in got:
                c.close('share', got[i, j], a / (11 * k * k), 1e-6)
                c.close('cover', cover[i, j], a, 1e-6)
    c.cover('apart' if several else 'joined')


@R.scenario('one bounding box given for two outlines', covers=['both'])
@R.scenario('one bounding box given for two outlines, no shortcut', regular=False, covers=['both'])
def given_box(c, regular=True):
    edges = M.EDGES['even']
    m, slicer = build(c, edges, regular=regular)
    ox, oy = c.real('ox', 1, 4.5), c.real('oy', 1, 3.5)
    polys = [M.place('square', ox, 2.25), M.place('square', 2.25, oy)]
    out, areas = slicer.slice([M.poly(c, p) for p in polys], bbox=(1, 6, 1, 5))
    for p, o in zip(polys, out):
        check_pieces(c, edges, 'x', p, 2.25, o, 2.25)
    c.cover('both')
    c.observe('n', [len(o[0]) for o in out])


@R.scenario('quadrilateral mesh with symbolic corners, both corner orders')
def cell_areas(c):
    clip = c.mod('glmtools.grid.clipping')
    sx, sy = c.real('sx', 0.25, 4), c.real('sy', 0.25, 4)
    shear = c.real('shear', -2, 2)
    for sign in (1, -1):
        xs = [i * sx + j * shear for j in range(3) for i in range(4)]
        ys = [sign * j * sy for j in range(3) for i in range(4)]
        X, Y = c.farray(xs, shape=(3, 4)), c.farray(ys, shape=(3, 4))
        quads = clip.polys_from_quadmesh(X, Y)
        c.check('shape', quads.shape == (2, 3, 4, 2))
        for j in range(2):
            for i in range(3):
                pts = [tuple(p) for p in quads[j, i].tolist()]
                corners = [(X[b, a], Y[b, a]) for a, b in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))]
                for k in range(4):
                    c.close('corner x', pts[k][0], corners[k][0])
                    c.close('corner y', pts[k][1], corners[k][1])
        flat = quads.reshape(6, 4, 2)
        a = clip.vectorized_poly_area(flat[:, :, 0], flat[:, :, 1])
        for k in range(6):
            c.close('signed area', a[k], sign * sx * sy)
            c.close('signed area of one', clip.poly_area(flat[k, :, 0], flat[k, :, 1]), sign * sx * sy)


@R.scenario('cell sizes and grid orientation', first='x')
@R.scenario('cell sizes and grid orientation', first='y')
@R.scenario('descending y edges', first='y', down=True)
def cell_fraction(c, first, down=False):
    """Share of a cell covered by a piece, as a number between 0 and 1."""
    edges = M.EDGES['uneven']
    if down:
        edges = (edges[0], edges[1][::-1])
    m, slicer = build(c, edges, first)
    part, whole = c.real('part', 0.01, 1), c.real('whole', 0.5, 9)
    for i, j in ((0, 0), (1, 3), (4, 2)):
        x0, x1, y0, y1 = cell_of(edges, first, i, j)
        cell = abs((x1 - x0) * (y1 - y0))
        got = slicer.quad_frac_from_poly_frac_area([part], whole, c.np.array([i]), c.np.array([j]))
        c.close('covered share', got[0] * cell, part * whole)
        c.check('not negative', got[0] >= 0)
