"""Meshes and event outlines shared by the gridding scenarios."""

EDGES = {
    'even': ([0, 1, 2, 3, 4, 5, 6, 7], [0, 1, 2, 3, 4, 5, 6]),
    'uneven': ([0, 0.5, 2, 2.75, 4, 6, 7], [-1, 0, 0.25, 1.5, 3, 4, 6]),
    'small': ([0, 1, 2, 3], [0, 1, 2]),
    'one': ([0, 4], [1, 3]),
    'wide': (list(range(25)), list(range(21))),
}
# outlines of fixed shape (counter-clockwise), placed at a symbolic position
SHAPES = {
    'square': [(0, 0), (1.5, 0), (1.5, 1.5), (0, 1.5)],
    'bar': [(0, 0), (2.5, 0), (2.5, 0.25), (0, 0.25)],
    'tall': [(0, 0), (0.5, 0), (0.5, 3.25), (0, 3.25)],
    'big': [(0, 0), (6.5, 0), (6.5, 0.5), (0, 0.5)],
    'tilted': [(0.25, 0), (1.25, 0.5), (1, 1.5), (0, 1)],
    'slab': [(0, 0), (19.5, 0), (19.5, 0.5), (0, 0.5)],
    'tower': [(0, 0), (0.5, 0), (0.5, 17.5), (0, 17.5)],
    'speck': [(0, 0), (0.125, 0), (0.125, 0.125), (0, 0.125)],
}


def edges2d(c, edges, first='x'):
    """The 2D edge arrays; `first` is the coordinate that varies along the
    first dimension."""
    np = c.np
    x, y = np.array(edges[0], dtype='f8'), np.array(edges[1], dtype='f8')
    X, Y = np.meshgrid(x, y)
    return (X.T.copy(), Y.T.copy()) if first == 'x' else (X, Y)


def place(shape, ox, oy, flip=False):
    pts = [(ox + px, oy + py) for px, py in SHAPES[shape]]
    return pts[::-1] if flip else pts


def shape_area(shape):
    return abs(shoelace(SHAPES[shape]))


def shoelace(pts):
    a = 0
    for i in range(len(pts)):
        (x0, y0), (x1, y1) = pts[i], pts[(i + 1) % len(pts)]
        a = a + (x0 * y1 - x1 * y0)
    return a / 2


def size(shape):
    return max(p[0] for p in SHAPES[shape]), max(p[1] for p in SHAPES[shape])


def poly(c, pts):
    return c.farray([v for p in pts for v in p], shape=(len(pts), 2))
