T = 'glmtools/io/traversal.py'
G = 'glmtools/io/glm.py'
ML = 'glmtools/io/mimic_lma.py'
MG = 'glmtools/grid/make_grids.py'
AC = 'glmtools/grid/accumulate.py'
CL = 'glmtools/grid/clipping.py'
CC = 'glmtools/io/ccd.py'
LE = 'glmtools/io/lightning_ellipse.py'
IM = 'glmtools/io/imagery.py'
GRID = ['fixture.py', 'gridding.py', 'lmatools']

BUGS = [
    dict(id='C06-interleaved', property='C06',
         needs='a location whose events alternate between two flashes in stored order',
         what_it_breaks='A flash is counted again each time its events at a location resume after those of another '
                        'flash.',
         edits=[(G, 'flash_ids = np.unique(ev_flash_id[evids])',
                 'flash_ids = [fid for fid, evs in itertools.groupby(ev_flash_id[evids])]')],
         files=['fixture.py'], demo='''
import numpy as np, fixture
from glmtools.io.glm import GLMDataset, get_lutevents
ds = fixture.glm([3, 5], [1, 2], [10, 11, 12], [3, 5], [1, 2, 1])
g = GLMDataset(ds, ellipse_rev=0)
g.dataset['event_x'].values[:] = 0.01
g.dataset['event_y'].values[:] = 0.01
out = get_lutevents(g.dataset)
assert list(out.lutevent_flash_count.values) == [2], out.lutevent_flash_count.values
assert np.allclose(out.lutevent_total_flash_area.values, [600.0])
assert list(out.lutevent_group_count.values) == [2]
'''),
    dict(id='C07-shared-origin', property='C07',
         needs='ranges that start at different values along x and y',
         what_it_breaks='Positions along y are measured from the start of the x range, so cells are displaced and '
                        'positions of one cell get different ids.',
         edits=[(G, 'y_discr = ((y - y_offset) / scale).astype(int_type)',
                 'y_discr = ((y - x_offset) / scale).astype(int_type)')],
         demo='''
import numpy as np
from glmtools.io.glm import discretize_2d_location
i = discretize_2d_location(np.array([0.5, 0.5, 0.5]), np.array([2.6, 3.4, 3.6]), 1.0, (0.0, 4.0), (2.5, 6.5))
assert i[0] == i[1] and i[2] != i[1], i
'''),
    dict(id='C08-first-instant', property='C08',
         needs='a product time of exactly midnight on the day the ellipsoid changed',
         what_it_breaks='The first file on the new ellipsoid is placed with the old one.',
         edits=[(LE, 'if date < datetime(2018,10,15):', 'if date <= datetime(2018,10,15):')],
         files=['fixture.py'], demo='''
import numpy as np, fixture
from datetime import datetime
from glmtools.io.lightning_ellipse import ltg_ellpse_rev
from glmtools.io.glm import GLMDataset
assert ltg_ellpse_rev(datetime(2018, 10, 14, 23, 59, 59)) == 0
assert ltg_ellpse_rev(datetime(2018, 10, 15)) == 1
args = [3, 5], [1, 2], [10, 11], [3, 5], [1, 2]
a = GLMDataset(fixture.glm(*args, time='2018-10-15T00:00:00')).dataset
b = GLMDataset(fixture.glm(*args, time='2018-10-15T00:00:00'), ellipse_rev=1).dataset
assert np.array_equal(a.flash_y.values, b.flash_y.values)
'''),
    dict(id='C09-mean-cell', property='C09',
         needs='a grid whose cells have different sizes',
         what_it_breaks='The covered share of a cell is computed from the mean cell size of the whole grid.',
         edits=[(CL, 'quad_areas = self.mesh.quad_areas[quad_x_idx, quad_y_idx]',
                 'quad_areas = self.mesh.quad_areas.mean()')],
         demo='''
import numpy as np
from glmtools.grid.clipping import QuadMeshSubset, QuadMeshPolySlicer
x, y = np.meshgrid([0.0, 1.0, 3.0], [0.0, 1.0, 2.0])
s = QuadMeshPolySlicer(QuadMeshSubset(x, y, regular=True))
chopped, areas = s.slice([np.array([(0.25, 0.25), (2.0, 0.25), (2.0, 0.75), (0.25, 0.75)])], bbox=True)
polys, frac, (i, j) = chopped[0]
got = dict(zip(zip(i, j), s.quad_frac_from_poly_frac_area(frac, areas[0], i, j)))
assert np.allclose(got[0, 0], 0.375) and np.allclose(got[0, 1], 0.25), got
'''),
    dict(id='C10-other-axis', property='C10',
         needs='an event outside the corner table',
         what_it_breaks='Outside the table the second coordinate of each corner takes the offset of the first.',
         edits=[(CC, '''                corner_extrap_lat = NearestNDInterpolator(grid_loc,
                                    corner_points[:,:,ci,1].flatten())''',
                 '''                corner_extrap_lat = NearestNDInterpolator(grid_loc,
                                    corner_points[:,:,ci,0].flatten())''')],
         demo='''
import numpy as np
from glmtools.io.ccd import quads_from_corner_lookup
x, y = np.meshgrid([0.0, 1.0], [0.0, 1.0])
c = np.zeros((2, 2, 4, 2))
c[..., 0] = [-0.4, -0.4, 0.4, 0.4]
c[..., 1] = [0.3, -0.3, -0.3, 0.3]
q = quads_from_corner_lookup(x, y, c, np.array([5.0, 0.5]), np.array([5.0, 0.25]))
assert np.allclose(q[0], c[0, 0] + 5.0), q[0]
assert np.allclose(q[1], c[0, 0] + [0.5, 0.25])
'''),
    dict(id='C11-row-wrap', property='C11',
         needs='lightning that reaches the last occupied column of one row and the first column of the next',
         what_it_breaks='The cells of the last occupied column are merged with the first column of the next row.',
         edits=[(ML, 'xyidx = (split_events.split_event_mesh_y_idx * (xi_max+1) +',
                 'xyidx = (split_events.split_event_mesh_y_idx * xi_max +')],
         files=GRID, demo='''
import numpy as np, gridding as g
from datetime import datetime
from glmtools.grid.clipping import QuadMeshSubset
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import read_flashes
x, y = g.where(0.0, 0.0)
d = 2.0 ** -15
xe, ye = np.meshgrid(x + d * np.array([-1, 0, 1]), y + d * np.array([-1, 0, 1]))
glm = GLMDataset(g.source([0], [0], [(0.0, 0.0)]), ellipse_rev=0)
out, = read_flashes(glm, None, base_date=datetime(2018, 7, 2), clip_events=QuadMeshSubset(xe, ye, regular=True),
                    nadir_lon=-75.0)
ev = out['event'][0]
assert len(ev) == 4, len(ev)
assert np.allclose(ev['lutevent_flash_count'], 1.0)
'''),
    dict(id='C12-last-minimum', property='C12',
         needs='two files with lightning in the same cell and frame, the later with the larger flash',
         what_it_breaks='The smallest flash area of a cell is that of the last file instead of the smallest.',
         edits=[(AC, '''            grid[yi[gridnonzero], xi[gridnonzero]] = np.minimum(
                new_min[gridnonzero], prev_values[gridnonzero]
                )''', '''            grid[yi[gridnonzero], xi[gridnonzero]] = new_min[gridnonzero]''')],
         files=GRID, demo='''
import numpy as np, gridding as g
files = [g.source([0], [0], [(0, 0)], flash_area=[2e8]), g.source([0], [0], [(0, 0)], 20, flash_area=[5e8])]
a, = g.grid(files)
assert np.allclose(np.nanmin(a.minimum_flash_area.values), 200.0)
assert np.allclose(np.nanmax(a.minimum_flash_area.values), 200.0)
'''),
    dict(id='C13-divide-first-frame', property='C13',
         needs='several frames in one run with different numbers of flashes',
         what_it_breaks='Average areas of every frame are divided by the counts of the first frame.',
         edits=[(IM, 'denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,ti]',
                 'denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,0]')],
         files=GRID, demo='''
import numpy as np, gridding as g
files = [g.source([0], [0], [(0, 0)], flash_area=[2e8], group_area=[1e8]),
         g.source([0, 1], [0, 1], [(0, 0), (0, 0)], 60, flash_area=[2e8, 2e8], group_area=[1e8, 1e8])]
a, b = g.grid(files, frames=2)
for d in (a, b):
    v = d.average_flash_area.values
    assert np.allclose(v[v > 0], 200.0, rtol=1e-4), v[v > 0]
'''),
    dict(id='C14-remainder', property='C14',
         needs='an extent that does not divide evenly into the tiles',
         what_it_breaks='The pixels left over after dividing the extent are in no tile.',
         edits=[(MG, '''    s_edges[-1] = bnd[1]
''', '')],
         files=GRID, demo='''
import numpy as np, gridding as g
src = lambda: g.source([0, 1], [0, 1], [(0, 0), (0.3, 0.3)])
one = g.grid([src()], nx=17, ny=17)
four = g.grid([src()], nx=17, ny=17, subdivide=2)
assert sum(d.x.size * d.y.size for d in four) == 17 * 17
for f in ('total_energy', 'flash_extent_density'):
    assert np.allclose(g.total(one, f), g.total(four, f), rtol=1e-4)
'''),
    dict(id='C14-pad-spacing', property='C14',
         needs='different grid spacing along x and y',
         what_it_breaks='The padding along y is as many steps of the x spacing, so too much or too little is '
                        'trimmed from each tile.',
         edits=[(MG, "y_pad = float(n_y_pad*kwargs['dy'])", "y_pad = float(n_y_pad*kwargs['dx'])")],
         files=GRID, demo='''
import numpy as np, gridding as g
src = lambda: g.source([0, 1], [0, 1], [(0, 0), (0.3, 0.1)])
kw = dict(nx=16, ny=8, dy=2 * g.D)
one = g.grid([src()], **kw)
four = g.grid([src()], subdivide=2, **kw)
assert one[0].flash_extent_density.shape == (8, 16)
for f in ('total_energy', 'flash_extent_density'):
    assert np.allclose(g.total(one, f), g.total(four, f), rtol=1e-4)
'''),
    dict(id='C15-signed', property='C15',
         needs='a pixel with more than 32767 storage steps',
         what_it_breaks='The files no longer say that values are unsigned in the way readers expect, so large values '
                        'read back negative.',
         edits=[(IM, "enc['_Unsigned'] = 'true'\n            dtype= dtype[1:]",
                 "enc['_Unsigned'] = 'True'\n            dtype= dtype[1:]")],
         files=GRID, demo='''
import numpy as np, gridding as g
src = lambda: g.source([0], [0], [(0, 0)], event_energy=[1.2e-9])
a, = g.grid([src()], nx=2, ny=2, scale=True)
b, = g.grid([src()], nx=2, ny=2)
assert 0.051 < np.nanmax(b.total_energy.values) < 0.0999, b.total_energy.values
assert np.allclose(a.total_energy.values, b.total_energy.values, atol=1.6e-6), (a.total_energy, b.total_energy)
'''),
    dict(id='C16-plain-mean', property='C16',
         needs='images of one interval with different flash counts and areas at a pixel',
         what_it_breaks='The average flash area of an interval is the plain mean of the images.',
         edits=[(IM, """    aggregated['average_flash_area'] = (aggregated.total_flash_area
                                        / aggregated.flash_extent_density)""",
                 """    t_groups_avg = glm[['average_flash_area']].groupby_bins('time',
                                        bins=t_bins, right=False)
    aggregated['average_flash_area'] = t_groups_avg.mean(
                                        dim='time').average_flash_area""")],
         demo='''
import numpy as np, pandas as pd, xarray as xr
from glmtools.io.imagery import aggregate
def v(*x): return (('time', 'y', 'x'), np.array(x, float).reshape(-1, 1, 1))
ds = xr.Dataset({'flash_extent_density': v(1, 3), 'flash_centroid_density': v(1, 3), 'total_energy': v(1, 2),
                 'group_extent_density': v(2, 2), 'group_centroid_density': v(2, 2), 'average_flash_area': v(100, 200),
                 'average_group_area': v(10, 20), 'minimum_flash_area': v(100, 200)},
                coords={'time': pd.date_range('2018-07-02', periods=2, freq='1min'), 'y': [0.0], 'x': [0.0]})
out = aggregate(ds, 2)
assert np.allclose(out.average_flash_area.values.ravel()[0], 175.0), out.average_flash_area.values
assert np.allclose(out.average_group_area.values.ravel()[0], 15.0)
'''),
    dict(id='C17-midnight', property='C17',
         needs='a period that runs across midnight',
         what_it_breaks='The end time in the file name is on the day of the start.',
         edits=[(IM, "end.strftime('%Y%j%H%M%S0'), created", "start.strftime('%Y%j')+end.strftime('%H%M%S0'), created")],
         files=GRID, demo='''
import gridding as g
from datetime import datetime
s = datetime(2018, 7, 2, 23, 59)
a, = g.grid([g.source([0], [0], [(0, 0)], start=s)], start=s)
n = a.attrs['dataset_name']
assert '_s20181832359000_e20181840000000_' in n, n
'''),
    dict(id='C18-sorted', property='C18',
         needs='files that are not listed in order of time',
         what_it_breaks='Time labels are sorted while the images stay in the listed order.',
         edits=[(IM, 'starts = [t for t in gen_file_times(filenames)]', 'starts = sorted(gen_file_times(filenames))')],
         demo='''
import numpy as np, pandas as pd, xarray as xr
import glmtools.io.imagery as im
sets = {}
for k, n in enumerate('abc'):
    t = pd.Timestamp('2018-07-02') + pd.Timedelta(minutes=k)
    sets[n] = xr.Dataset({'total_energy': (('y', 'x'), [[float(k)]])}, coords={'y': [0.0], 'x': [0.0]},
                         attrs=dict(time_coverage_start=t.isoformat() + 'Z',
                                    time_coverage_end=(t + pd.Timedelta(minutes=1)).isoformat() + 'Z'))
xr.open_dataset = lambda p, *a, **k: sets[p]
xr.open_mfdataset = lambda ps, *a, **k: xr.concat([sets[p] for p in ps], 'time')
d = im.open_glm_time_series(['c', 'a', 'b'])
assert [pd.Timestamp(t).minute for t in d.time.values] == [2, 0, 1], d.time.values
assert list(d.total_energy.values.ravel()) == [2.0, 0.0, 1.0]
'''),
    dict(id='C19-remainder', property='C19',
         needs='more flashes than fit in one chunk, not a multiple of the chunk size',
         what_it_breaks='The flashes left over after filling whole chunks are dropped.',
         edits=[(ML, 'for ichunk, id_chunk in enumerate(np.array_split(flash_ids, n_chunks)):',
                 'for ichunk in range(n_chunks):\n        id_chunk = flash_ids[ichunk*chunk_size:(ichunk+1)*chunk_size]')],
         files=GRID, demo='''
import fixture
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import read_flashes
from datetime import datetime
ds = fixture.glm([3, 5, 8], [1, 2, 4], [10, 11, 12], [3, 5, 8], [1, 2, 4])
g = GLMDataset(ds, ellipse_rev=0)
out = read_flashes(g, None, base_date=datetime(2018, 7, 2), clip_events=False, nadir_lon=-75.0, chunk_size=2)
ids = sorted(int(i) for d in out for i in d['flash'][1]['flash_id'])
assert ids == [3, 5, 8], ids
'''),
    dict(id='C19-time-of-day', property='C19',
         needs='a reference date with a time of day',
         what_it_breaks='Times count from the midnight before the reference date.',
         edits=[(ML, 't_series = t64 - np.datetime64(basedate)', "t_series = t64 - np.datetime64(basedate, 'D')")],
         files=GRID, demo='''
import fixture, numpy as np
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import read_flashes
from datetime import datetime
ds = fixture.glm([3, 5], [1, 2], [10, 11], [3, 5], [1, 2])
g = GLMDataset(ds, ellipse_rev=0)
out, = read_flashes(g, None, base_date=datetime(2018, 7, 2, 4), clip_events=False, nadir_lon=-75.0)
assert np.allclose(out['flash'][1]['start'], [1920.0, 1920.005]), out['flash'][1]['start']
'''),
]
