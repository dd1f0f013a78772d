ML = 'glmtools/io/mimic_lma.py'
G = 'glmtools/io/glm.py'
CV = 'glmtools/io/convert_lcfa.py'
CL = 'glmtools/grid/clipping.py'
SPLIT = '''
import numpy as np, os, pickle, sys, tempfile, fixture
from datetime import datetime
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import read_flash_chunk
from glmtools.grid.clipping import QuadMeshSubset
H = 0.002

def split(places):
    """One flash with one group and events at the given places."""
    n = len(places)
    g = GLMDataset(fixture.glm([3], [1], list(range(10, 10 + n)), [3], [1] * n), ellipse_rev=0)
    d = g.dataset
    d['event_x'].values[:] = [p[0] for p in places]
    d['event_y'].values[:] = [p[1] for p in places]
    d['flash_energy'].values[:] = 6.0
    grid = np.array([-200000.0, 0.0, 200000.0])
    x, y = np.meshgrid(grid, grid)
    lut = np.zeros((3, 3, 4, 2))
    for k, (sx, sy) in enumerate(((-1, 1), (-1, -1), (1, -1), (1, 1))):
        lut[:, :, k, 0], lut[:, :, k, 1] = sx * H * 1e6, sy * H * 1e6
    X, Y = np.meshgrid(np.arange(7) * 0.003, np.arange(5) * 0.004)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'lut.pickle')
        with open(path, 'wb') as f:
            pickle.dump((x, y, lut), f)
        return read_flash_chunk(d, glm=g, base_date=datetime(2018, 7, 2), nadir_lon=-75.0, fixed_grid=True,
                                clip_events=QuadMeshSubset(X, Y, n_neighbors=20, regular=True), corner_pickle=path)
'''

BUGS = [
    dict(id='C20-round-ids', property='C20',
         needs='a listing with an event whose number ends in a zero, such as 10',
         what_it_breaks='Zeros at the ends of an event number are dropped, so event 10 is listed as event 1.',
         edits=[(CV, 'out = (int(cols[1][1:]),', "out = (int(cols[1].strip('#0') or 0),")],
         demo='''
import os, tempfile
from glmtools.io.convert_lcfa import parse_LCFA_ASCII
E = '\\t\\tEvent #%d Child #0 Time:543398228.069 X_Pixel:1197 Y_Pixel:748 Lat:-4.698 Lon:-47.116 Energy:4.811e-15 Parent_ID:0'
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'in.txt')
    with open(p, 'w') as f:
        f.write('\\n'.join(E % k for k in (0, 7, 10, 205, 300)) + '\\n')
    fl, gr, ev = parse_LCFA_ASCII(p)
assert list(ev.event_id) == [0, 7, 10, 205, 300], list(ev.event_id)
'''),
    dict(id='C21-either-axis', property='C21',
         needs='an event in the upper half of the stored latitudes and the lower half of the longitudes, or the reverse',
         what_it_breaks='Longitudes are moved up by the unsigned range where the latitude was negative.',
         edits=[(G, 'event_lons[event_lons < 0] += unsigned', 'event_lons[event_lats < 0] += unsigned')],
         demo='''
import numpy as np, xarray as xr
from glmtools.io.glm import fix_event_locations
step = 0.00203128
lat_n, lon_n = np.array([10, 60000, 50000, 300]), np.array([20, 40000, 100, 65000])
def stored(n, first):
    s = np.where(n > 32767, n - 65536, n)
    return xr.DataArray(s * step + first, dims='number_of_events')
lat, lon = fix_event_locations(stored(lat_n, -66.56), stored(lon_n, -156.06), is_xarray=True)
assert np.allclose(np.asarray(lat), lat_n * step - 66.56), lat
assert np.allclose(np.asarray(lon), lon_n * step - 156.06), lon
'''),
    dict(id='C22-whole-seconds', property='C22',
         needs='a file whose name gives a start that is not at a whole second',
         what_it_breaks='The tenths of a second in the times of a file name are left out.',
         edits=[(G, 'start += timedelta(0, start_tenths/10.0)', 'start += timedelta(0, start_tenths//10)')],
         files=['lmatools'], demo='''
from datetime import datetime
from glmtools.io.glm import parse_glm_filename
got = parse_glm_filename('OR_GLM-L2-LCFA_G16_s20181830433007_e20181830433203_c20181830433262.nc')
assert got[3] == datetime(2018, 7, 2, 4, 33, 0, 700000), got
assert got[4] == datetime(2018, 7, 2, 4, 33, 20, 300000), got
'''),
    dict(id='C23-even-odd', property='C23',
         needs='a flash or group with events whose outlines overlap',
         what_it_breaks='Places covered by two events of a flash drop out of its footprint.',
         edits=[(CL, '''clip_polys = pc.Execute(pyclipper.CT_UNION, pyclipper.PFT_NONZERO,
        pyclipper.PFT_NONZERO)''', '''clip_polys = pc.Execute(pyclipper.CT_UNION, pyclipper.PFT_EVENODD,
        pyclipper.PFT_NONZERO)''')],
         files=['fixture.py', 'lmatools'], demo=SPLIT + '''
out = split([(0.0071, 0.0072), (0.0081, 0.0087)])
rows = out['flash'][0]
w = 2 * H * 1.02
got, want = rows['mesh_frac'].sum() * 0.003 * 0.004, 2 * w * w - (w - 0.001) * (w - 0.0015)
assert abs(got - want) < 1e-3 * want, (got, want)
'''),
    dict(id='C23-part-ids', property='C23',
         needs='a flash whose events lie apart, so that its footprint is in several parts',
         what_it_breaks='Only the first part of the footprint of a flash is kept.',
         edits=[(ML, 'union_flash_ids.extend([fl_id,]*len(fl_join_poly))', 'union_flash_ids.append(fl_id)')],
         files=['fixture.py', 'lmatools'], demo=SPLIT + '''
out = split([(0.0031, 0.0041), (0.0121, 0.0112)])
rows = out['flash'][0]
assert set(rows['flash_id']) == {3}
got, want = rows['mesh_frac'].sum() * 0.003 * 0.004, 2 * (2 * H * 1.02) ** 2
assert abs(got - want) < 1e-3 * want, (got, want)
'''),
]
