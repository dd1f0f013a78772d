"""C17: images say what they show: scene, spacing, period, satellite, file name."""
import os
import re
from datetime import datetime, timedelta

from ..harness import Registry
from . import e2e

R = Registry()
ASSUMPTIONS = ['the sector definitions of lmatools are stand-ins with the published values',
               'spans within a tenth of the tolerance limit (1 %) are left open']
SECTOR = dict(FULL=(0.303744, 0.303744), CONUS=(0.14, 0.084), MESO1=(0.028, 0.028))
NAME = dict(FULL='Full Disk', CONUS='CONUS', MESO1='Mesoscale', MESO2='Mesoscale', OTHER='Custom')
LETTER = dict(FULL='F', CONUS='C', MESO1='M1', MESO2='M2', OTHER='M1')


def near(c, v, want):
    """Within 1 % of want; the strip around the limit is assumed away."""
    c.assume(c.or_(c.and_(v > want * 0.991, v < want * 1.009), v < want * 0.989, v > want * 1.011))
    return c.decide(c.and_(v > want * 0.991, v < want * 1.009))


SPACING = [(14e-6, '0.5km at nadir'), (28e-6, '1km at nadir'), (56e-6, '2km at nadir'), (55.8e-6, '2km at nadir'),
           (112e-6, '4km at nadir'), (224e-6, '8km at nadir'), (280e-6, '10km at nadir'),
           (50e-6, '50microradian at nadir'), (100.4e-6, '100microradian at nadir'), (100.6e-6, '101microradian at nadir')]


@R.scenario('any spans in both directions, ten spacings, either order of rows', covers=['FULL', 'CONUS', 'MESO1', 'OTHER'])
def scene(c):
    dx, res = c.choice('spacing', SPACING)
    ew, ns = c.real('ew', 0.01, 0.35), c.real('ns', 0.01, 0.35)
    x0, y0 = c.real('x0', -0.16, 0.1), c.real('y0', -0.16, 0.1)
    up = c.decide(c.bool('up'))
    x = [x0, x0 + dx, x0 + ew]
    y = [y0, y0 + dx, y0 + ns]
    got, got_res = c.mod('glmtools.io.imagery').infer_scene_from_dataset(
        c.farray(x), c.farray(y if up else y[::-1]))
    want = 'OTHER'
    for k in ('FULL', 'CONUS', 'MESO1'):
        a, b = near(c, ew, SECTOR[k][0]), near(c, ns, SECTOR[k][1])
        if a and b and want == 'OTHER':
            want = k
    if near(c, ew, 0.172732) and want == 'OTHER':
        want = 'CONUS'
    c.check('scene', got == want, '%s for %s' % (got, want))
    c.check('spacing', got_res == res, '%s for %s' % (got_res, res))
    c.cover(want)


TIMES = [datetime(2018, 7, 2, 4, 33), datetime(2018, 12, 31, 23, 59, 40), datetime(2020, 12, 31, 0, 0, 20),
         datetime(2019, 1, 1), datetime(2024, 2, 29, 12, 5, 1), datetime(2018, 7, 2, 4, 33, 0, 250000)]


@R.scenario('six start times, four durations, every scene, several satellites', covers=['any'])
def attributes(c):
    start = c.choice('start', TIMES)
    end = start + timedelta(seconds=c.choice('length', [20, 60, 300, 0.5]))
    scene = c.choice('scene', sorted(NAME))
    plat, slot, inst = c.choice('platform', [('G16', 'GOES-East', 'GLM-1'), ('G17', 'GOES-West', 'GLM-2')])
    a = c.mod('glmtools.io.imagery').get_glm_global_attrs(start, end, plat, slot, inst, scene, '2km at nadir',
                                                          'ABI Mode 3', 'DE', 'Postprocessed', 'TTU')
    c.check('start', a['time_coverage_start'] == start.isoformat() + 'Z', a['time_coverage_start'])
    c.check('end', a['time_coverage_end'] == end.isoformat() + 'Z', a['time_coverage_end'])
    want = dict(platform_ID=plat, orbital_slot=slot, instrument_ID=inst, scene_id=NAME[scene],
                spatial_resolution='2km at nadir', timeline_id='ABI Mode 3', production_environment='DE',
                production_data_source='Postprocessed', production_site='TTU')
    for k, v in want.items():
        c.check(k, a[k] == v, '%s' % a[k])
    got = c.mod('glmtools.io.glm').parse_glm_filename(a['dataset_name'])
    c.check('name', got[:3] == ('OR', 'GLM-L2-GLM%s-M3' % LETTER[scene], plat), '%s' % (got[:3],))
    # to the second: the name has room for tenths, but they are written as zero
    c.check('name times', all(timedelta(0) <= t - n < timedelta(seconds=1) for t, n in zip((start, end), got[3:5])),
            '%s %s' % got[3:5])
    c.check('created', abs((got[5] - datetime.now()).total_seconds()) < 3600)
    c.check('extension', a['dataset_name'].endswith('.nc') and os.path.basename(a['dataset_name']) == a['dataset_name'])
    c.cover('any')


@R.scenario('file name times over every tenth of a second and day of the year', covers=['any'])
def names(c):
    year = c.choice('year', [2017, 2020])
    day = c.choice('day', [1, 2, 59, 60, 61, 187, 365])
    s = c.choice('second', [0, 1, 59, 3599, 3600, 86399])
    tenth = c.choice('tenth', list(range(10)))
    t = datetime(year, 1, 1) + timedelta(days=day - 1, seconds=s, milliseconds=100 * tenth)
    text = '%04d%03d%02d%02d%02d%d' % (year, day, s // 3600, s // 60 % 60, s % 60, tenth)
    g = c.mod('glmtools.io.glm')
    got = g.parse_glm_filename('OR_GLM-L2-LCFA_G16_s%s_e20202000000200_c%s.nc' % (text, text))
    c.check('parts', got[:3] == ('OR', 'GLM-L2-LCFA', 'G16'))
    c.check('times', got[3] == t and got[5] == t and got[4] == datetime(2020, 7, 18, 0, 0, 20), '%s' % (got[3:],))
    c.cover('any')


def flat(ret):
    return [p for _, files in ret for p in files]


PATHS = ['{dataset_name}', 'a/{dataset_name}', '{start_time:%Y/%b/%d}/GLM_{start_time:%H%M%S}_{end_time:%H%M%S}.nc']


@R.scenario('two frames of one file written by three path templates, in one piece or as tiles', covers=['tiles', 'whole'])
def output(c):
    template, s, plat = c.choice('template', [(PATHS[0], 1, 'G16'), (PATHS[1], 2, 'G17'), (PATHS[2], 1, 'G17')])
    files = [e2e.source(c, (0,), (0,), [(0.0, 0.0)], e2e.START + timedelta(seconds=20), [1.0], [1.0], [1.0],
                        platform_ID=plat, orbital_slot='GOES-' + plat, instrument_ID='GLM-' + plat),
             e2e.source(c, (0,), (0,), [(0.0, 0.0)], e2e.START + timedelta(seconds=60), [1.0], [1.0], [1.0], first=100,
                        platform_ID='other')]
    g = e2e.Grid()
    written, ret = e2e.run(c, files, g, frames=2, subdivide=s, outpath=template)
    c.check('tiles', [t for t, _ in ret] == [(i, j) for i in range(s) for j in range(s)], '%s' % [t for t, _ in ret])
    c.check('files reported', [os.path.basename(p) for p in flat(ret)] == [os.path.basename(p) for p, _ in written],
            '%s for %s' % (flat(ret), [p for p, _ in written]))
    for n, (path, ds) in enumerate(written):
        t0 = e2e.START + timedelta(seconds=60 * (n % 2))
        t1 = t0 + timedelta(seconds=60)
        a = ds.attrs
        c.check('period', a['time_coverage_start'] == t0.isoformat() + 'Z' and a['time_coverage_end'] == t1.isoformat() + 'Z')
        c.check('path', path == template.format(dataset_name=a['dataset_name'], start_time=t0, end_time=t1), path)
        c.check('satellite', (a['platform_ID'], a['orbital_slot'], a['instrument_ID']) ==
                (plat, 'GOES-' + plat, 'GLM-' + plat))
        c.check('scene', a['scene_id'] == 'Custom')
        c.check('spacing', a['spatial_resolution'] == '244microradian at nadir', a['spatial_resolution'])
    c.cover('whole' if s == 1 else 'tiles')


@R.scenario('the same images written again over those of an earlier run', covers=['any'])
def again(c):
    w = e2e.source(c, (0,), (0,), [(0.0, 0.0)], e2e.START + timedelta(seconds=20), [c.real('e', 0.01, 10)], [1.0], [1.0])
    g = e2e.Grid()
    written, ret = e2e.run(c, [w], g, frames=2, outpath=PATHS[2], rerun=True)
    c.check('files', [p for p, _ in written] == [PATHS[2].format(start_time=e2e.START + timedelta(minutes=k),
            end_time=e2e.START + timedelta(minutes=k + 1)) for k in range(2)], '%s' % [p for p, _ in written])
    c.check('files reported', [os.path.basename(p) for p in flat(ret)] == [os.path.basename(p) for p, _ in written])
    c.cover('any')


@R.scenario('four frames of 2.5 s or half a second', covers=['any'])
def short(c):
    length = c.choice('length', [2.5, 0.5])
    w = e2e.source(c, (0,), (0,), [(0.0, 0.0)], e2e.START + timedelta(seconds=length), [c.real('e', 0.01, 10)], [1.0], [1.0])
    g = e2e.Grid()
    written, ret = e2e.run(c, [w], g, frames=4, seconds=length, outpath='{start_time:%H%M%S%f}-{end_time:%H%M%S%f}')
    c.check('images', len(written) == 4, '%d' % len(written))
    for k, (path, ds) in enumerate(written):
        t0, t1 = [e2e.START + timedelta(seconds=length * (k + q)) for q in (0, 1)]
        a = ds.attrs
        c.check('period', (a['time_coverage_start'], a['time_coverage_end']) == (t0.isoformat() + 'Z', t1.isoformat() + 'Z'),
                '%s %s' % (a['time_coverage_start'], a['time_coverage_end']))
        c.check('path', path == '%s-%s' % (t0.strftime('%H%M%S%f'), t1.strftime('%H%M%S%f')), path)
        c.check('content', sum(e2e.image(ds, 'flash_centroid_density').values()) == (k == 1))
    c.cover('any')


@R.scenario('units of every product for four cell shapes and four lengths of the period', covers=['any'])
def units(c):
    seconds, at = c.choice('length', [20, 60, 90, 300]), c.choice('cells', [{}, dict(tall=2, ny=3), dict(wide=2, nx=3), dict(tall=0.5)])
    w = e2e.source(c, (0,), (0,), [(0.0, 0.0)], e2e.START, [1.0], [1.0], [1.0])
    g = e2e.Grid(**at)
    written, ret = e2e.run(c, [w], g, seconds=seconds, scale=c.choice('scale', [False, True]))
    ds = written[0][1]
    for field in e2e.FIELDS:
        u = ds[field].attrs['units']
        if field.endswith('density'):
            n = [float(v) for v in re.findall(r'[0-9.]+', u)]
            c.check('pixel size', any(abs(v - g.dx * g.dy * 1e12) <= 1 for v in n), u)
            c.check('length of the period', any(abs(v - seconds / 60) <= 0.051 for v in n if v != 2), u)
        elif field == 'total_energy':
            c.check('unit of energy', u == 'nJ', u)
        else:
            lv = [v for v in ('flash', 'group') if v in u]
            c.check('unit of area', u.startswith('km^2') and lv == ([] if 'minimum' in field else [field.split('_')[1]]), u)
    c.cover('any')


@R.scenario('files written to the current directory', covers=['any'])
def current_directory(c):
    w = e2e.source(c, (0,), (0,), [(0.0, 0.0)], e2e.START, [1.0], [1.0], [1.0])
    g = e2e.Grid()
    written, ret = e2e.run(c, [w], g, cwd=c.choice('path', ['{dataset_name}', './{dataset_name}']))
    c.check('one file', len(written) == 1)
    path, ds = written[0]
    c.check('path', os.path.normpath(path) == ds.attrs['dataset_name'], path)
    c.cover('any')


@R.scenario('periods in which some or all files have no lightning', covers=['none', 'some'])
def quiet(c):
    which = c.choice('quiet', [(True,), (True, True), (True, False), (False, True)])
    files = []
    for k, q in enumerate(which):
        files.append(e2e.source(c, (0,), (0,), [(0.0, 0.0)], e2e.START + timedelta(seconds=20 * k), [c.real('e%d' % k, 0.01, 10)],
                                [1.0], [1.0], first=100 * k, quiet=q))
    g = e2e.Grid()
    written, ret = e2e.run(c, files, g)
    c.check('one file', len(written) == 1)
    ds = written[0][1]
    c.check('satellite', (ds.attrs['platform_ID'], ds.attrs['instrument_ID']) == ('G16', 'GLM-1'))
    want = e2e.expect(c, g, [w for w, q in zip(files, which) if not q], e2e.START, e2e.START + timedelta(seconds=60))
    for field in e2e.FIELDS:
        img = e2e.image(ds, field)
        for cell, v in want[field].items():
            c.close(field, img[cell], v, 5e-5)
    c.cover('none' if all(which) else 'some')
