"""C20: text listings of flashes, groups and events convert to the production layout."""
import os
import shutil
import tempfile

import xarray as xr

from ..harness import Registry

R = Registry()
ASSUMPTIONS = ['a numeral in the text reads as the number it stands for (built-in number parsing)',
               'listings follow the documented line format']

# groups per flash, events per group
TREES = {
    'one': [[1]],
    'uneven': [[2, 1], [3]],
    'three': [[1], [2], [1, 1]],
    'bare': [[], [2]],
    'none': [],
}
FIELDS = {
    'flash': ['id', 'time_offset_of_first_event', 'time_offset_of_last_event', 'lat', 'lon', 'energy', 'area',
              'child_group_count'],
    'group': ['id', 'time_offset', 'lat', 'lon', 'energy', 'area', 'parent_flash_id', 'child_event_count'],
    'event': ['id', 'time_offset', 'lat', 'lon', 'energy', 'parent_group_id'],
}


def listing(c, tree):
    """Lines of the listing, and the rows it describes."""
    rows = dict(flash=[], group=[], event=[])
    lines = []
    t = c.text

    def num(name, lo, hi):
        return c.real(name, lo, hi)

    for f, groups in enumerate(tree):
        p = 'f%d' % f
        fl = dict(id=c.int(p + 'id', 0, 10**6), time_offset_of_first_event=num(p + 't0', 0, 10**9),
                  time_offset_of_last_event=num(p + 't1', 0, 10**9), lat=num(p + 'lat', -90, 90),
                  lon=num(p + 'lon', -180, 180), energy=num(p + 'en', 1e-16, 1e-9), area=num(p + 'ar', 1, 10**5),
                  child_group_count=c.int(p + 'n', 0, 1000))
        rows['flash'].append(fl)
        lines.append('D Flash #%s Start Time:%s End Time:%s Centroid Lat:%s Centroid Lon:%s Energy:%s Footprint:%s '
                     'Child_Count:%s' % tuple(t(fl[k]) for k in FIELDS['flash']))
        for g, n in enumerate(groups):
            q = '%sg%d' % (p, g)
            gr = dict(id=c.int(q + 'id', 0, 10**6), time_offset=num(q + 't0', 0, 10**9), lat=num(q + 'lat', -90, 90),
                      lon=num(q + 'lon', -180, 180), energy=num(q + 'en', 1e-16, 1e-9), area=num(q + 'ar', 1, 10**5),
                      parent_flash_id=c.int(q + 'p', 0, 10**6), child_event_count=c.int(q + 'n', 0, 1000))
            rows['group'].append(gr)
            lines.append('\tD Group #%s Child #%d Start Time:%s End Time:%s Centroid Lat:%s Centroid Lon:%s Energy:%s '
                         'Footprint:%s Parent_ID:%s Child_Count:%s' %
                         (t(gr['id']), g, t(gr['time_offset']), t(num(q + 't1', 0, 10**9)), t(gr['lat']), t(gr['lon']),
                          t(gr['energy']), t(gr['area']), t(gr['parent_flash_id']), t(gr['child_event_count'])))
            for e in range(n):
                s = '%se%d' % (q, e)
                ev = dict(id=c.int(s + 'id', 0, 10**6), time_offset=num(s + 't', 0, 10**9), x=c.int(s + 'x', 0, 1371),
                          y=c.int(s + 'y', 0, 1299), lat=num(s + 'lat', -90, 90), lon=num(s + 'lon', -180, 180),
                          energy=num(s + 'en', 1e-16, 1e-9), parent_group_id=c.int(s + 'p', 0, 10**6))
                rows['event'].append(ev)
                lines.append('\t\tEvent #%s Child #%d Time:%s X_Pixel:%s Y_Pixel:%s Lat:%s Lon:%s Energy:%s '
                             'Parent_ID:%s' % (t(ev['id']), e, t(ev['time_offset']), t(ev['x']), t(ev['y']),
                                               t(ev['lat']), t(ev['lon']), t(ev['energy']), t(ev['parent_group_id'])))
    return lines, rows


def compare(c, ds, rows):
    for lv, want in rows.items():
        for name in FIELDS[lv]:
            v = ds['%s_%s' % (lv, name)]
            c.check('%s_%s runs along its own level' % (lv, name), v.dims == ('number_of_%ss' % lv if lv != 'flash' else 'number_of_flashes',))
            got = list(v.values.reshape(-1).tolist())
            c.check('number of rows of %s_%s' % (lv, name), len(got) == len(want), '%d, expected %d' % (len(got), len(want)))
            for i, (g, w) in enumerate(zip(got, want)):
                scale = 1e16 if name == 'energy' else 1
                c.close('%s_%s[%d]' % (lv, name, i), g * scale, w[name] * scale, 1e-12)
        if lv == 'event':
            for name in 'xy':
                for g, w in zip(ds[name + '_pixel'].values.reshape(-1).tolist(), want):
                    c.close(name + '_pixel', g, w[name])


def converted(c, lines, use):
    m = c.mod('glmtools.io.convert_lcfa')
    d = tempfile.mkdtemp(prefix='symx')
    try:
        src, dst = os.path.join(d, 'in.txt'), os.path.join(d, 'out.nc')
        with open(src, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        if c.symbolic or use == 'tables':
            return m.merge_dataframes_to_xarray(*m.parse_LCFA_ASCII(src))
        m.main(src, dst)
        with xr.open_dataset(dst, decode_times=False) as got:
            return got.load()
    finally:
        shutil.rmtree(d)


@R.scenario('listings of up to three flashes; every number symbolic', covers=['filled', 'empty'])
def listed(c):
    k = c.choice('tree', sorted(TREES))
    lines, rows = listing(c, TREES[k])
    extra = c.choice('extra', ['none', 'heading', 'blank', 'headings', 'comments'])
    if extra == 'heading':
        lines.insert(0, 'Flash and group listing 3')
    elif extra == 'blank' and lines:
        lines.insert(1, '')
    elif extra == 'headings':
        lines[1:1] = ['Flash table', '# Flash table', 'Group table', 'Events of each group', '  D', '\tGroups', '\t\tTotal']
    elif extra == 'comments':
        lines = [v for line in lines for v in ('# ' + line, line)]
    ds = converted(c, lines, 'file')
    compare(c, ds, rows)
    for name in ('event_id', 'event_time_offset', 'event_lat', 'event_lon', 'event_parent_group_id', 'group_id',
                 'group_lat', 'group_lon', 'group_parent_flash_id', 'flash_id', 'flash_lat', 'flash_lon'):
        c.check(name + ' is a coordinate', name in ds.coords)
    c.cover('filled' if lines and rows['event'] else 'empty')


@R.scenario('the three tables of a listing', covers=['any'])
def tables(c):
    k = c.choice('tree', ['uneven', 'three', 'bare'])
    lines, rows = listing(c, TREES[k])
    m = c.mod('glmtools.io.convert_lcfa')
    d = tempfile.mkdtemp(prefix='symx')
    try:
        src = os.path.join(d, 'in.txt')
        with open(src, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        got = m.parse_LCFA_ASCII(src)
    finally:
        shutil.rmtree(d)
    for lv, t in zip(('flash', 'group', 'event'), got):
        c.check('rows of the %s table' % lv, len(t) == len(rows[lv]))
        for name in FIELDS[lv]:
            for g, w in zip(t['%s_%s' % (lv, name)].tolist(), rows[lv]):
                scale = 1e16 if name == 'energy' else 1
                c.close('%s_%s in the table' % (lv, name), g * scale, w[name] * scale, 1e-12)
    c.cover('any')


class Numeral(float):
    def __new__(cls, s):
        v = float.__new__(cls, s)
        v.s = s
        return v


class Numerals:
    """Numbers as they are written in listings, one form after the other."""
    INTS = ['0', '10', '7', '100', '64', '205000', '1', '90', '42']
    REALS = ['543398228.069', '-0.684', '0.000', '12.500', '-47.148', '100.0', '1.838e-13', '9.202e-10', '-10', '7']

    def __init__(self, first):
        self.ni = self.nr = first

    def int(self, *a):
        self.ni += 1
        return Numeral(self.INTS[self.ni % len(self.INTS)])

    def real(self, *a):
        self.nr += 1
        return Numeral(self.REALS[self.nr % len(self.REALS)])

    def text(self, v):
        return v.s


@R.scenario('numerals with any number of digits, zeros, signs and exponents, in any column', covers=['any'])
def forms(c):
    lines, rows = listing(Numerals(c.choice('first', list(range(10)))), TREES[c.choice('tree', ['uneven', 'three'])])
    compare(c, converted(c, lines, c.choice('use', ['file', 'tables'])), rows)
    c.cover('any')
