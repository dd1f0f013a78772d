G = 'glmtools/io/glm.py'
CC = 'glmtools/io/ccd.py'
IM = 'glmtools/io/imagery.py'

BUGS = [
    dict(id='C25-step-together', property='C25',
         needs='converting energies while the child counts are switched off and the dataset is given in memory',
         what_it_breaks='Energies stay in J when a dataset in memory is loaded without child counts.',
         edits=[(G, '''        if change_energy_units:
            # Change zero-energy''', '''        if change_energy_units and (
                calculate_parent_child or not isinstance(filename, xr.Dataset)):
            # Change zero-energy''')],
         demo='''
import fixture
from glmtools.io.glm import GLMDataset
d = GLMDataset(fixture.glm([3, 5], [1, 2], [10, 11, 12], [3, 5], [1, 2, 2]), ellipse_rev=0,
               calculate_parent_child=False).dataset
for lv in ('flash', 'group', 'event'):
    assert d[lv + '_energy'].attrs['units'] == 'nJ', lv
    assert abs(float(d[lv + '_energy'][0]) - 3e-5) < 1e-9, lv
''', files=['fixture.py', 'lmatools']),
    dict(id='C25-repair-slim', property='C25',
         needs='a file with a broken reference that also holds variables on other dimensions',
         what_it_breaks='Repairing a file drops the variables that do not belong to flashes, groups or events.',
         edits=[(G, '                dataset = ds_fixed\n',
                 '''                keep = [v for v in ds_fixed.variables
                        if ds_fixed[v].size == 1 or 'time' in v or
                        v.split('_')[0] in ('flash', 'group', 'event')]
                dataset = ds_fixed[keep]
''')],
         demo='''
import numpy as np
import fixture
from glmtools.io.glm import GLMDataset
ds = fixture.glm([3, 5], [1, 2], [10, 11, 12], [3, 5], [1, 2, 99])
ds['field_of_view_bounds'] = ('number_of_field_of_view_bounds', np.array([-140.0, -10.0]))
d = GLMDataset(ds, ellipse_rev=0).dataset
assert d['field_of_view_bounds'].values.tolist() == [-140.0, -10.0]
''', files=['fixture.py', 'lmatools']),
    dict(id='C10-saved-mask', property='C10',
         needs='saving the lookup of pixels some of which are missing and loading it again',
         what_it_breaks='Missing pixels of a saved lookup come back as ordinary numbers.',
         edits=[(CC, '    obj = (lookup, X, Y, lons, lats)\n',
                 '    obj = (lookup, X, Y, np.asarray(lons), np.asarray(lats))\n')],
         demo='''
import os, tempfile
import numpy as np
from glmtools.io.ccd import create_pixel_lookup, save_pixel_lookup, load_pixel_lookup
bad = np.array([[False, True], [False, False]])
lons = np.ma.masked_array([[-75.0, 0.0], [-74.0, -73.5]], bad)
lats = np.ma.masked_array([[10.0, 0.0], [10.0, 11.0]], bad)
with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, 'lookup.pkl')
    save_pixel_lookup(*create_pixel_lookup(lons, lats), lons, lats, name)
    got = load_pixel_lookup(name)
for a, b in zip(got[-2:], (lons, lats)):
    assert np.ma.count(a) == 3 and (np.ma.getmaskarray(a) == bad).all()
    assert a.compressed().tolist() == b.compressed().tolist()
''', files=['lmatools']),
    dict(id='C16-late-start', property='C16',
         needs='a requested period that begins before the first image',
         what_it_breaks='Intervals are counted from the first image instead of the start of the requested period.',
         edits=[(IM, '        start = start_end[0]\n',
                 '''        start = max(start_end[0],
                    pd.to_datetime(glm['time'].min().data).to_pydatetime())
''')],
         demo='''
from datetime import datetime, timedelta
import numpy as np, xarray as xr
from glmtools.io.imagery import aggregate
t0 = datetime(2018, 7, 2, 4, 32)
names = ['flash_extent_density', 'flash_centroid_density', 'total_energy', 'group_extent_density',
         'group_centroid_density', 'average_flash_area', 'average_group_area', 'minimum_flash_area']
d = xr.Dataset({n: (('time', 'y', 'x'), np.arange(1.0, 4.0).reshape(3, 1, 1)) for n in names},
               coords=dict(time=np.array([t0 + timedelta(minutes=m) for m in range(3)], dtype='M8[ns]'), x=[0.1], y=[0.2]))
got = aggregate(d, 2, start_end=(t0 - timedelta(minutes=1), t0 + timedelta(minutes=3)))
assert got['total_energy'].values.ravel().tolist() == [1.0, 5.0], got['total_energy'].values
assert got.attrs['time_coverage_start'].startswith('2018-07-02T04:31:00')
''', files=['lmatools']),
    dict(id='C13-thin-cover', property='C13',
         needs='a pixel of which less than a thousandth is covered by lightning',
         what_it_breaks='Pixels that lightning only just touches show no average area.',
         edits=[(IM, 'zeros = (denom == 0) | (grid == 0)', 'zeros = (denom < 1.0e-3) | (grid == 0)')],
         demo='''
import os, tempfile
from datetime import datetime, timedelta
import numpy as np, xarray as xr
from glmtools.grid.make_grids import GLMlutGridder
t0, d = datetime(2018, 7, 2, 4, 32), 2.0 ** -14
gr = GLMlutGridder(t0, t0 + timedelta(seconds=60), do_3d=False, frame_interval=60.0, dx=d, dy=d, x_bnd=(0.0, 2 * d),
                   y_bnd=(0.0, 2 * d), proj_name='geos', ctr_lon=-75.0, event_grid_area_fraction_key='mesh_frac')
gr.first_file_attrs = dict(platform_ID='G16', orbital_slot='GOES-East', instrument_ID='GLM-1')
share = np.array([[1.0, 0.25], [0.5, 2e-4]])[:, :, None]
gr.outgrids = tuple(share * (300.0 if n.startswith('average') else 1.0) for n in gr.field_names)
with tempfile.TemporaryDirectory() as tmp:
    gr.write_grids(outpath=tmp + '/a.nc', output_kwargs={'scale_and_offset': False})
    with xr.open_dataset(tmp + '/a.nc') as ds:
        for n in ('average_flash_area', 'average_group_area'):
            assert np.allclose(ds[n].values, 300.0), ds[n].values
''', files=['lmatools']),
    dict(id='C17-cut-spacing', property='C17',
         needs='a custom grid whose spacing is not a whole number of microradians',
         what_it_breaks='The spacing in the attributes is cut off instead of rounded.',
         edits=[(IM, 'int(np.round(dx*1e6))', 'int(dx*1e6)')],
         demo='''
import numpy as np
from glmtools.io.imagery import infer_scene_from_dataset
x = 100.6e-6 * np.arange(20)
assert infer_scene_from_dataset(x, x)[1] == '101microradian at nadir'
''', files=['lmatools']),
    dict(id='C12-borrowed-minimum', property='C12',
         needs='gridding with a minimum of events but none of groups, and flashes with more events than groups',
         what_it_breaks='A minimum of events given alone is also asked of the number of groups.',
         edits=[('glmtools/grid/make_grids.py', '                     min_groups=min_groups_per_flash,',
                 '                     min_groups=min_groups_per_flash or min_points_per_flash,')],
         files=['fixture.py', 'gridding.py', 'lmatools'], demo='''
import numpy as np, gridding as g
a, = g.grid([g.source([0, 1], [0, 0, 1], [(0, 0), (0.1, 0), (-0.1, 0.1)])], min_points_per_flash=2)
assert g.total([a], 'flash_centroid_density') == 1.0, g.total([a], 'flash_centroid_density')
'''),
]
