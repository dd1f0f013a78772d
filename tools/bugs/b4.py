ML = 'glmtools/io/mimic_lma.py'
G = 'glmtools/io/glm.py'
CC = 'glmtools/io/ccd.py'
CL = 'glmtools/grid/clipping.py'
MG = 'glmtools/grid/make_grids.py'
IM = 'glmtools/io/imagery.py'
GRID = ['fixture.py', 'gridding.py', 'lmatools']

BUGS = [
    dict(id='C24-table-kept', property='C24',
         needs='gridding a second file, or the same file again, in one process',
         what_it_breaks='The corner table is kept between uses and changed by each of them, so events have no extent '
                        'after the first use.',
         edits=[(CC, '''    with open(filename, 'rb') as f:
        obj = pickle.load(f)
    return obj




def save_pixel_lookup''', '''    if filename not in _corner_tables:
        with open(filename, 'rb') as f:
            _corner_tables[filename] = [np.asarray(v, dtype='f8')
                                        for v in pickle.load(f)]
    return _corner_tables[filename]

_corner_tables = {}


def save_pixel_lookup'''),
                (ML, '''    x_lut = x_lut * 1.0e-6
    y_lut = y_lut * 1.0e-6
    corner_lut = corner_lut*1e-6
    log.debug("event x y ranges")''', '''    x_lut *= 1.0e-6
    y_lut *= 1.0e-6
    corner_lut *= 1e-6
    log.debug("event x y ranges")''')],
         files=GRID, demo='''
import numpy as np, gridding as g
src = lambda: g.source([0], [0], [(0, 0)])
a, = g.grid([src()])
b, = g.grid([src()])
for f in ('flash_extent_density', 'total_energy'):
    assert np.allclose(a[f].values, b[f].values, equal_nan=True), f
'''),
    dict(id='C24-no-copy', property='C24',
         needs='using a file after its events were combined by location',
         what_it_breaks='Combining events by location adds the combined events to the loaded file itself.',
         edits=[(G, '    dataset = dataset.copy()\n    event_x, event_y', '    event_x, event_y')],
         demo='''
import fixture
from glmtools.io.glm import GLMDataset, get_lutevents
g = GLMDataset(fixture.glm([3, 5], [1, 2], [10, 11, 12], [3, 5], [1, 2, 2]), ellipse_rev=0)
before = set(g.dataset.variables), dict(g.dataset.sizes)
get_lutevents(g.dataset)
assert (set(g.dataset.variables), dict(g.dataset.sizes)) == before, set(g.dataset.variables) - before[0]
''', files=['fixture.py', 'lmatools']),
    dict(id='C17-square-pixel', property='C17',
         needs='different grid spacing along x and y',
         what_it_breaks='The units of densities state the size of a square pixel as wide as the real one.',
         edits=[(MG, "int(dx*dy*1e12)", "int(dx*dx*1e12)")],
         files=GRID, demo='''
import gridding as g
a, = g.grid([g.source([0], [0], [(0, 0)])], ny=8, dy=2 * g.D)
u = a.flash_extent_density.attrs['units']
assert str(int(2 * g.D * g.D * 1e12)) in u, u
'''),
    dict(id='C19-either-limit', property='C19',
         needs='a collection of files with both a least number of events and a least number of groups',
         what_it_breaks='The least number of groups is ignored if a least number of events is given too.',
         edits=[(ML, '''                                min_groups=self.min_groups,
''', '''                                min_groups=(self.min_groups
                                    if self.min_points is None else None),
''')],
         files=GRID, demo='''
import os, tempfile, fixture
from datetime import datetime
from glmtools.io.mimic_lma import GLMncCollection
ds = fixture.glm([3, 5], [1, 2, 4], [10, 11, 12, 13, 14], [3, 5, 5], [1, 1, 1, 2, 4])
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.nc')
    ds.to_netcdf(p)
    c = GLMncCollection([p], base_date=datetime(2018, 7, 2), min_points=2, min_groups=2)
    events, flashes = c.data_for_time(datetime(2018, 7, 2, 4, 32))
assert list(flashes['flash_id']) == [5], flashes['flash_id']
'''),
    dict(id='C10-mean-beyond', property='C10',
         needs='two events outside the corner table, near table entries with different offsets',
         what_it_breaks='All events outside the table get the mean of the offsets of their nearest entries.',
         edits=[(CC, 'dlat[out_lat] = corner_extrap_lat(pixel_loc[out_lat])',
                 'dlat[out_lat] = corner_extrap_lat(pixel_loc[out_lat]).mean()')],
         demo='''
import numpy as np
from glmtools.io.ccd import quads_from_corner_lookup
x, y = np.meshgrid([0.0, 1.0], [0.0, 1.0])
c = np.zeros((2, 2, 4, 2))
c[..., 0] = [-0.4, -0.4, 0.4, 0.4]
c[..., 1] = [0.3, -0.3, -0.3, 0.3]
c[1] *= 2
q = quads_from_corner_lookup(x, y, c, np.array([0.5, 0.5]), np.array([-3.0, 5.0]))
assert np.allclose(q[0], c[0, 0] + [0.5, -3.0]), q[0]
assert np.allclose(q[1], c[1, 0] + [0.5, 5.0]), q[1]
'''),
    dict(id='C09-radians', property='C09',
         needs='a y-first grid whose extent along x is below a thousandth',
         what_it_breaks='On a small grid the direction of x is taken from the wrong axis.',
         edits=[(CL, 'if np.allclose(xedge[:,0].mean() - xedge[:,0], 0.0):',
                 'if np.allclose(xedge[:,0].mean() - xedge[:,0], 0.0, atol=1e-3):')],
         demo='''
import numpy as np
from glmtools.grid.clipping import QuadMeshSubset, QuadMeshPolySlicer
e = 2.0 ** -14 * np.arange(5)
x, y = np.meshgrid(e, e, indexing='ij')
s = QuadMeshPolySlicer(QuadMeshSubset(x, y, regular=True))
lo, hi = 1.25 * 2.0 ** -14, 2.75 * 2.0 ** -14
chopped, areas = s.slice([np.array([(lo, lo), (hi, lo), (hi, hi), (lo, hi)])], bbox=True)
polys, frac, (i, j) = chopped[0]
assert len(frac) == 4 and np.allclose(frac, 0.25, rtol=1e-3), frac
'''),
    dict(id='C18-repeated-time', property='C18',
         needs='two files that start at the same time, such as those of two tiles or satellites',
         what_it_breaks='Of files that start at the same time only the first is kept.',
         edits=[(IM, "    d = d.set_coords('time')\n",
                 "    d = d.set_coords('time')\n    d = d.isel(time=np.sort(np.unique(d['time'].values,\n"
                 "                                        return_index=True)[1]))\n")],
         demo='''
import numpy as np, pandas as pd, xarray as xr
import glmtools.io.imagery as im
sets = {}
for k, n in enumerate('abc'):
    t = pd.Timestamp('2018-07-02') + pd.Timedelta(minutes=k // 2)
    sets[n] = xr.Dataset({'total_energy': (('y', 'x'), [[float(k)]])}, coords={'y': [0.0], 'x': [0.0]},
                         attrs=dict(time_coverage_start=t.isoformat() + 'Z',
                                    time_coverage_end=(t + pd.Timedelta(minutes=1)).isoformat() + 'Z'))
xr.open_dataset = lambda p, *a, **k: sets[p]
xr.open_mfdataset = lambda ps, *a, **k: xr.concat([sets[p] for p in ps], 'time')
d = im.open_glm_time_series(['a', 'b', 'c'])
assert list(d.total_energy.values.ravel()) == [0.0, 1.0, 2.0]
assert [pd.Timestamp(t).minute for t in d.time.values] == [0, 0, 1], d.time.values
'''),
]
