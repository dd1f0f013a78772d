"""C05: energies come out in nJ, areas in km2, and no valid event or area is lost."""
from ..harness import Registry
from . import glmds

R = Registry()
ASSUMPTIONS = ['real arithmetic stands for float64; comparisons use a relative tolerance of 1e-7']

F, G, E = [9, 4], [12, 30, 21], [5, 1, 8]
GP, EP = [9, 4, 9], [12, 30, 21]


def close_rel(c, label, got, want, scale):
    """Compare in units where typical values are near one."""
    c.close(label, got / scale, want / scale)


@R.scenario('every energy and area of a 2/3/3 dataset symbolic, areas may be missing', covers=['floored', 'kept',
            'overflow'])
def normalised(c):
    # energies as multiples of the encoding step, over the whole encodable range
    ev = c.reals('e', 3, 0, 65535)
    fe = c.reals('fe', 2, 0, 65535)
    ge = c.reals('ge', 3, 0, 65535)
    fa = [c.real('fa%d' % i, 0, 65535, nan=True) for i in range(2)]
    ga = [c.real('ga0', 0, 65535, nan=True), c.real('ga1', 0, 65535, nan=True), c.real('ga2', 0, 65535)]
    sc, off, asc = glmds.E_SCALE, glmds.E_OFF, glmds.A_SCALE
    ds = glmds.dataset(c, F, G, E, GP, EP,
                       energy={'event': [x * sc + off for x in ev], 'flash': [x * sc + off for x in fe],
                               'group': [x * sc + off for x in ge]},
                       area={'flash': [x * asc for x in fa], 'group': [x * asc for x in ga]})
    d = glmds.load(c, ds).dataset
    for nm in ('flash', 'group', 'event'):
        c.check('%s energy unit' % nm, d[nm + '_energy'].attrs['units'] == 'nJ')
    for nm in ('flash', 'group'):
        c.check('%s area unit' % nm, d[nm + '_area'].attrs['units'] == 'km2')
    nj = sc * 1e9
    for x, got in zip(ev, d['event_energy'].values):
        small = c.decide(x < 1)
        c.cover('floored' if small else 'kept')
        # below the first step: half of the smallest representable energy
        want = 0.5 * (sc + off) * 1e9 if small else (x * sc + off) * 1e9
        close_rel(c, 'event energy', got, want, nj)
        c.check('events never have zero energy', got > 0)
    for x, got in zip(fe, d['flash_energy'].values):
        close_rel(c, 'flash energy', got, (x * sc + off) * 1e9, nj)
    for x, got in zip(ge, d['group_energy'].values):
        close_rel(c, 'group energy', got, (x * sc + off) * 1e9, nj)
    for nm, vals in (('flash', fa), ('group', ga)):
        for x, got in zip(vals, d[nm + '_area'].values):
            if c.isnan(x):
                c.cover('overflow')
                want = glmds.A_OFF + asc * glmds.A_FILL
            else:
                want = x * asc
            c.close('%s area' % nm, got, want / 1e6)
    c.observe('energy', [v / nj for v in d['event_energy'].values])
    c.observe('area', list(d['flash_area'].values))


@R.scenario('areas already in km2, with missing values', covers=['overflow'])
def already_km2(c):
    fa = [c.real('fa%d' % i, 0, 20000, nan=True) for i in range(2)]
    ga = [c.real('ga%d' % i, 0, 20000, nan=True) for i in range(3)]
    ds = glmds.dataset(c, F, G, E, GP, EP, units=('J', 'km2'), area={'flash': fa, 'group': ga})
    glmds.enc(ds, 'flash_area', scale_factor=0.25, add_offset=3.0, _FillValue=60000)
    glmds.enc(ds, 'group_area', scale_factor=0.5, add_offset=1.0, _FillValue=50000)
    d = glmds.load(c, ds).dataset
    for nm, vals, full in (('flash', fa, 15003.0), ('group', ga, 25001.0)):
        c.check('unit stays km2', d[nm + '_area'].attrs['units'] == 'km2')
        for x, got in zip(vals, d[nm + '_area'].values):
            if c.isnan(x):
                c.cover('overflow')
            c.close('%s area unchanged' % nm, got, full if c.isnan(x) else x)


@R.scenario('conversions switched off')
def switched_off(c):
    fa = [c.real('fa%d' % i, 0, 1e10, nan=True) for i in range(2)]
    ev = c.reals('e', 3, 0, 65535)
    sc = glmds.E_SCALE
    ds = glmds.dataset(c, F, G, E, GP, EP, energy={'event': [x * sc for x in ev]}, area={'flash': fa})
    d = glmds.load(c, ds, check_area_units=False, change_energy_units=False).dataset
    c.check('energy unit untouched', d['event_energy'].attrs['units'] == 'J')
    c.check('area unit untouched', d['flash_area'].attrs['units'] == 'm2')
    for x, got in zip(ev, d['event_energy'].values):
        c.close('energy untouched', got / sc, x)
    for x, got in zip(fa, d['flash_area'].values):
        c.close('area untouched', got, x)


@R.scenario('an energy unit other than J at one level', covers=['flash', 'group', 'event'])
def unknown_units(c):
    lv = c.choice('level', ['flash', 'group', 'event'])
    c.cover(lv)
    ev = c.reals('e', 3, 0, 10)
    ds = glmds.dataset(c, F, G, E, GP, EP, energy={'event': ev})
    ds[lv + '_energy'].attrs['units'] = 'nJ'
    try:
        glmds.load(c, ds)
    except ValueError:
        c.check('refused', True)
    else:
        c.check('unexpected energy units are refused', False)


@R.scenario('square metres at one level and square kilometres at the other, with missing values', covers=['flash', 'group'])
def mixed_units(c):
    m2 = c.choice('m2', ['flash', 'group'])
    fa = [c.real('fa%d' % i, 0, 20000, nan=True) for i in range(2)]
    ga = [c.real('ga%d' % i, 0, 20000, nan=True) for i in range(3)]
    area = {'flash': fa, 'group': ga}
    area[m2] = [x * 1e6 for x in area[m2]]
    ds = glmds.dataset(c, F, G, E, GP, EP, area=area)
    for nm in ('flash', 'group'):
        ds[nm + '_area'].attrs['units'] = 'm2' if nm == m2 else 'km2'
        s = 1e6 if nm == m2 else 1
        glmds.enc(ds, nm + '_area', scale_factor=0.25 * s, add_offset=3.0 * s, _FillValue=60000)
    d = glmds.load(c, ds).dataset
    for nm, vals in (('flash', fa), ('group', ga)):
        c.check('unit', d[nm + '_area'].attrs['units'] == 'km2')
        for x, got in zip(vals, d[nm + '_area'].values):
            c.close('%s area' % nm, got, 15003.0 if c.isnan(x) else x)
    c.cover(m2)


@R.scenario('300 events, one energy symbolic, none or many of the others zero', covers=['floored', 'kept'])
def many_events(c):
    sc, off = glmds.E_SCALE, glmds.E_OFF
    n = 300
    x = c.real('e', 0, 65535)
    steps = [float(k) for k in range(1, n + 1)]
    for k in c.choice('zero', [(), (4,), tuple(range(0, n, 2))]):
        steps[k] = 0.0
    steps[77] = x
    ds = glmds.dataset(c, [9], [12], list(range(n)), [9], [12] * n, energy={'event': [v * sc + off for v in steps]})
    got = list(glmds.load(c, ds).dataset['event_energy'].values)
    c.check('events', len(got) == n)
    for v, w in zip(got, steps):
        small = c.decide(w < 1)
        close_rel(c, 'event energy', v, 0.5 * (sc + off) * 1e9 if small else (w * sc + off) * 1e9, sc * 1e9)
    c.cover('floored' if c.decide(x < 1) else 'kept')
