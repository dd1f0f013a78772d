"""C25: loading keeps what is stored, apart from the steps that are switched on."""
import numpy as real_np

from ..harness import Registry
from . import e2e, glmds

R = Registry()
ASSUMPTIONS = ['reading the file gives the stored numbers; what the loader does with them is under check',
               'a damaged file loaded without the repair is not asked for child counts']

F, G, E = [9, 4], [12, 30, 21], [5, 1, 8, 3]
DIM = dict(flash=glmds.FL, group=glmds.GR, event=glmds.EV)
ADDED = {'event_parent_flash_id': 'event', 'flash_child_group_count': 'flash', 'flash_child_event_count': 'flash',
         'group_child_event_count': 'group', 'event_x': 'event', 'event_y': 'event', 'group_x': 'group',
         'group_y': 'group', 'flash_x': 'flash', 'flash_y': 'flash'}
# name -> (references of the groups, of the events, rows kept by a repair)
TREES = {'whole': ([9, 4, 9], [12, 30, 21, 12], ([0, 1], [0, 1, 2], [0, 1, 2, 3])),
         'lost group': ([9, 4, 9], [12, 30, 21, 77], ([0, 1], [0, 1, 2], [0, 1, 2])),
         'lost flash': ([9, 88, 9], [12, 30, 21, 12], ([0], [0, 2], [0, 2, 3])),
         'no events': ([9, 4, 9], [12, 21, 21, 12], ([0], [0, 2], [0, 1, 2, 3]))}


def plain(v):
    return real_np.asarray(v).reshape(-1).tolist()


def equal(c, label, got, want):
    """Values exactly as before (missing values included)."""
    a, b = got.values.reshape(-1), want.reshape(-1)
    c.check(label + ' size', len(a) == len(b), '%d, expected %d' % (len(a), len(b)))
    if len(a) != len(b):
        return
    if a.dtype.kind in 'mMSU' or b.dtype.kind in 'mMSU':
        c.check(label, a.tolist() == b.tolist(), '%s, expected %s' % (a, b))
        return
    for x, y in zip(a.tolist(), b.tolist()):
        if c.isnan(y):
            c.check(label + ' missing', c.isnan(x))
        else:
            c.close(label, x * 1.0, y * 1.0)


def stored(c, gp, ep):
    """A file with symbolic numbers, and its energies and areas in storage steps."""
    sc, off, asc = glmds.E_SCALE, glmds.E_OFF, glmds.A_SCALE
    en = {'flash': c.reals('fe', 2, 0, 65535), 'group': c.reals('ge', 3, 0, 65535), 'event': [0.0, 7.0, c.real(
        'ee', 0, 65535), 900.5]}
    ar = {'flash': [c.real('fa', 0, 65535, nan=True), 800.0], 'group': [700.0, c.real('ga', 0, 65535), float('nan')]}
    flags = {'flash': c.ints('fq', 2, 0, 5), 'group': c.ints('gq', 3, 0, 5), 'event': c.ints('eq', 4, 0, 5)}
    ds = glmds.dataset(c, F, G, E, gp, ep, energy={k: [x * sc + off for x in v] for k, v in en.items()},
                       area={k: [x * asc for x in v] for k, v in ar.items()},
                       attrs={'title': 'a title', 'processing': 7})
    for lv, v in flags.items():
        ds[lv + '_quality_flag'] = ((DIM[lv],), c.iarray(v), {'long_name': 'quality of ' + lv})
    bounds = c.reals('b', 2, -180, 180)
    ds['field_of_view_bounds'] = (('number_of_field_of_view_bounds',), c.farray(bounds), {'units': 'degrees'})
    ds['percent_navigated_L1b_events'] = ((), c.farray([c.real('p', 0, 1)], ()))
    return ds, en, ar


@R.scenario('any combination of the four steps, file or dataset, whole or damaged; energies, areas and flags symbolic',
            covers=['all steps', 'no steps', 'damage kept', 'damage repaired', 'filled', 'floored', 'missing kept',
                    'file', 'dataset'])
def options(c):
    on = {k: c.choice(k, [True, False]) for k in ('counts', 'areas', 'energies', 'repair')}
    kind = c.choice('tree', sorted(TREES))
    by = c.choice('source', ['file', 'dataset'])
    if kind != 'whole' and not on['repair']:
        c.assume(not on['counts'])
    gp, ep, kept = TREES[kind]
    rows = dict(zip(DIM, kept if on['repair'] and kind != 'whole' else TREES['whole'][2]))
    ds, en, ar = stored(c, gp, ep)
    sc, off, asc = glmds.E_SCALE, glmds.E_OFF, glmds.A_SCALE
    before = {k: (v.dims, v.values.copy(), dict(v.attrs)) for k, v in ds.variables.items()}
    attrs = dict(ds.attrs)
    kw = dict(calculate_parent_child=on['counts'], check_area_units=on['areas'],
              change_energy_units=on['energies'], check_tree=on['repair'])
    if by == 'file':
        with e2e.captured([ds]) as cap:
            d = glmds.load(c, cap.names()[0], **kw).dataset
    else:
        d = glmds.load(c, ds, **kw).dataset

    c.check('what is there', set(d.variables) == set(before) | (set(ADDED) if on['counts'] else set()),
            'variables %s' % sorted(set(d.variables) ^ set(before)))
    # a repair may reorder the rows
    for lv, ids in (('flash', F), ('group', G), ('event', E)):
        at = [ids.index(x) if x in ids else None for x in plain(d[lv + '_id'].values)]
        ok = at == rows[lv] if not on['repair'] or kind == 'whole' else sorted(at, key=str) == sorted(rows[lv], key=str)
        c.check('kept rows', ok, '%s of %s, expected %s' % (at, lv, rows[lv]))
        if not ok:
            return
        rows[lv] = at
    c.check('global attributes', dict(d.attrs) == attrs, '%s' % dict(d.attrs))
    for name, (dims, vals, at) in before.items():
        lv = name.split('_')[0]
        got = d[name].variable
        c.check(name + ' dimensions', got.dims == dims, '%s' % (got.dims,))
        if lv in DIM and dims == (DIM[lv],):
            vals = vals[real_np.array(rows[lv])]
        if name.endswith('_area') and on['areas']:
            c.check('area unit', got.attrs['units'] == 'km2')
            want = [asc * (glmds.A_FILL if c.isnan(ar[lv][i]) else ar[lv][i]) / 1e6 for i in rows[lv]]
            if c.isnan(ar['flash'][0]):
                c.cover('filled')
            equal(c, name, got, c.farray(want))
            continue
        if name.endswith('_energy') and on['energies']:
            c.check('energy unit', got.attrs['units'] == 'nJ')
            c.check(name + ' size', got.shape == (len(rows[lv]),))
            if got.shape != (len(rows[lv]),):
                continue
            for x, i in zip(got.values.tolist(), rows[lv]):
                y = en[lv][i]
                if lv == 'event' and c.decide(y < 1):
                    c.cover('floored')
                    c.close(name, x / (sc * 1e9), 0.5 * (sc + off) / sc)
                else:
                    c.close(name, x / (sc * 1e9), y + off / sc)
            continue
        if name == 'flash_area' and c.isnan(ar['flash'][0]):
            c.cover('missing kept')
        c.check(name + ' attributes', dict(got.attrs) == at, '%s, expected %s' % (dict(got.attrs), at))
        if name.endswith('_energy'):
            got, vals = got / sc, vals / sc
        equal(c, name, got, vals)
    if on['counts']:
        for name, lv in ADDED.items():
            c.check(name, d[name].dims == (DIM[lv],) and d[name].shape == (len(rows[lv]),))
        flash_of = {g: p for g, p in zip(G, gp)}
        c.check('parent flash', plain(d['event_parent_flash_id'].values) == [flash_of[ep[i]] for i in rows['event']])
        held = [ep[i] for i in rows['event']]
        c.check('events per group', plain(d['group_child_event_count'].values) == [held.count(G[i]) for i in rows['group']])
        held = [gp[i] for i in rows['group']]
        c.check('groups per flash', plain(d['flash_child_group_count'].values) == [held.count(F[i]) for i in rows['flash']])
    c.cover(by)
    if all(on.values()):
        c.cover('all steps')
    if not any(on.values()):
        c.cover('no steps')
    if kind != 'whole':
        c.cover('damage repaired' if on['repair'] else 'damage kept')


WAYS = ['look up', 'box', 'many events', 'many groups', 'by group', 'by event', 'again']


@R.scenario('seven ways to select part of a loaded file; all stored numbers symbolic', covers=WAYS + ['some', 'all'])
def selected(c):
    way = c.choice('way', WAYS)
    gp, ep, _ = TREES['whole']
    ds, en, ar = stored(c, gp, ep)
    glm = glmds.load(c, ds)
    full = {k: (v.dims, v.values.copy(), dict(v.attrs)) for k, v in glm.dataset.variables.items()}
    attrs = dict(glm.dataset.attrs)
    want = None
    if way == 'look up':
        want = c.choice('which', [[9], [4], [4, 9]])
        d = glm.get_flashes(want)
    elif way == 'box':
        lim = c.real('lim', -90, -60)
        d = glm.subset_flashes(lon_range=(-100.0, lim))
        want = [f for f, lon in zip(F, (-75.0, -74.5)) if c.decide(lim > lon)]
    elif way in ('many events', 'many groups'):
        n = c.int('n', 0, 4)
        d = glm.subset_flashes(**{'min_' + way.split()[1]: n})
        want = [f for f, k in zip(F, (3, 1) if way == 'many events' else (2, 1)) if c.decide(n <= k)]
    elif way == 'by group':
        d = glm.reduce_to_entities('group_id', [21])
        rows = dict(flash=[0], group=[2], event=[2])
    elif way == 'by event':
        d = glm.reduce_to_entities('event_id', [1])
        rows = dict(flash=[1], group=[1], event=[1])
    else:
        again = c.mod('glmtools.io.traversal').OneToManyTraversal(glm.get_flashes([4, 9]), glm.entity_ids, glm.parent_ids)
        d = again.reduce_to_entities('flash_id', [9])
        want = [9]
    if want is not None:
        rows = dict(flash=[i for i, f in enumerate(F) if f in want], group=[i for i, f in enumerate(gp) if f in want])
        rows['event'] = [i for i, g in enumerate(ep) if G.index(g) in rows['group']]
        c.cover('all' if len(want) == 2 else 'some')
    c.cover(way)
    c.check('what is there', set(d.variables) == set(full), 'variables %s' % sorted(set(d.variables) ^ set(full)))
    c.check('global attributes', dict(d.attrs) == attrs, '%s' % dict(d.attrs))
    for lv, ids in (('flash', F), ('group', G), ('event', E)):
        at = [ids.index(x) for x in plain(d[lv + '_id'].values)]
        c.check('rows', sorted(at) == rows[lv], '%s of %s, expected %s' % (at, lv, rows[lv]))
        rows[lv] = at
    for name, (dims, vals, at) in full.items():
        lv = name.split('_')[0]
        got = d[name].variable
        c.check(name + ' dimensions', got.dims == dims, '%s' % (got.dims,))
        c.check(name + ' attributes', dict(got.attrs) == at, '%s, expected %s' % (dict(got.attrs), at))
        if lv in DIM and dims == (DIM[lv],):
            vals = vals[real_np.array(rows[lv], dtype=int)]
        if name.endswith('_energy'):
            got, vals = got / (glmds.E_SCALE * 1e9), vals / (glmds.E_SCALE * 1e9)
        equal(c, name, got, vals)
