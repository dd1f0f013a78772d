"""C07: two positions get the same location id only if they share a cell."""
import math

from ..harness import Registry

R = Registry()
ASSUMPTIONS = ['positions inside the stated range, at least 1% of a step away from a step boundary']


@R.scenario('default step and range, any two positions', step=28e-6, xr=(-0.31, 0.31), yr=(-0.31, 0.31),
            covers=['same', 'different', 'last column', 'last row'])
@R.scenario('range an exact multiple of the step', step=0.25, xr=(-1.0, 1.0), yr=(0.0, 3.0),
            covers=['same', 'different', 'last column', 'last row'])
@R.scenario('range not a multiple of the step, wider in y', step=0.5, xr=(0.0, 1.75), yr=(-4.0, 5.25),
            covers=['same', 'different', 'last column', 'last row'])
@R.scenario('range not a multiple of the step, wider in x', step=0.125, xr=(-3.0, 4.0625), yr=(2.0, 2.3),
            covers=['same', 'different', 'last column', 'last row'])
@R.scenario('single column', step=1.0, xr=(0.0, 0.75), yr=(0.0, 5.0), covers=['same', 'different', 'last row'])
def unique_ids(c, step, xr, yr):
    pos = []
    for k in range(2):
        ix, iy = c.int('ix%d' % k, 0, 10 ** 6), c.int('iy%d' % k, 0, 10 ** 6)
        fx, fy = c.real('fx%d' % k, 0.01, 0.99), c.real('fy%d' % k, 0.01, 0.99)
        x, y = xr[0] + (ix + fx) * step, yr[0] + (iy + fy) * step
        c.assume(x <= xr[1])
        c.assume(y <= yr[1])
        pos.append((ix, iy, x, y))
    f = c.mod('glmtools.io.glm').discretize_2d_location
    ids = f(c.farray([p[2] for p in pos]), c.farray([p[3] for p in pos]), step, xr, yr)
    same = c.and_(pos[0][0] == pos[1][0], pos[0][1] == pos[1][1])
    c.same_bool('same id exactly when in the same cell', ids[0] == ids[1], same)
    c.observe('same', bool(ids[0] == ids[1]))
    c.cover('same' if c.decide(same) else 'different')
    if c.decide(pos[0][0] == math.ceil((xr[1] - xr[0]) / step) - 1):
        c.cover('last column')
    if c.decide(pos[0][1] == math.ceil((yr[1] - yr[0]) / step) - 1):
        c.cover('last row')


@R.scenario('a list of three positions gives the ids of the single positions')
def elementwise(c):
    x = c.reals('x', 3, 0.01, 0.99)
    y = c.reals('y', 3, 0.01, 0.99)
    ix = c.ints('i', 3, 0, 9)
    f = c.mod('glmtools.io.glm').discretize_2d_location
    xs = [i + v for i, v in zip(ix, x)]
    ids = f(c.farray(xs), c.farray(y), 1.0, (0.0, 10.0), (0.0, 10.0))
    c.check('one id per position', len(ids) == 3)
    for k in range(3):
        one = f(c.farray([xs[k]]), c.farray([y[k]]), 1.0, (0.0, 10.0), (0.0, 10.0))
        c.check('same as alone', ids[k] == one[0])
    c.observe('ids', [int(v) for v in ids] if not c.symbolic else list(ids))
