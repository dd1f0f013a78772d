"""C01: reducing a tree to chosen entities keeps exactly their closure."""
import xarray as xr

from ..harness import Registry
from .tree import distinct_ids, parents, ordered, member, spread, attach, TOP

R = Registry()
ASSUMPTIONS = ['ids within a level are unique', 'every parent reference names an existing entity']

LEVELS = ('a', 'b', 'c')


def build(c, sizes, order):
    """A tree with the given number of entities per level.  `order` lists the
    levels whose ids are stored in ascending order; the others are unordered."""
    names = LEVELS[:len(sizes)]
    ids, par, data = {}, {}, {}
    v = {}
    for k, (nm, n) in enumerate(zip(names, sizes)):
        ids[nm] = distinct_ids(c, nm, n)
        if nm in order:
            ordered(c, ids[nm])
        v[nm + '_id'] = (('n_' + nm,), c.iarray(ids[nm]))
        data[nm] = c.reals(nm + 'v', n, -10, 10)
        v[nm + '_val'] = (('n_' + nm,), c.farray(data[nm]))
        if k:
            up = names[k - 1]
            par[nm] = parents(c, nm + 'p', n, ids[up])
            v[nm + '_parent'] = (('n_' + nm,), c.iarray(par[nm]))
    ds = xr.Dataset(v)
    ds = ds.set_coords([x for x in ds.data_vars if x.endswith('_id') or x.endswith('_parent')])
    return names, ids, par, data, ds


def travers(c, names, ds):
    T = c.mod('glmtools.io.traversal').OneToManyTraversal
    return T(ds, [n + '_id' for n in names], [n + '_parent' for n in names[1:]])


def run(c, sizes, order, level, nreq, dup=False, missing=False):
    names, ids, par, data, ds = build(c, sizes, order)
    L = names.index(level)
    req = c.ints('r', nreq, 0, TOP)
    for r in req:
        if not missing:
            c.assume(member(c, r, ids[level]))
    if not dup:
        for i in range(nreq):
            for j in range(i):
                c.assume(c.not_(req[i] == req[j]))
    t = travers(c, names, ds)
    out = t.reduce_to_entities(level + '_id', c.iarray(req))
    # -- oracle: decide membership with the solver, not with the code's order
    idx = {n: {} for n in names}
    # requested level: one copy per request, in request order
    keep = {}
    want = []
    for r in req:
        for i, e in enumerate(ids[level]):
            if c.decide(r == e):
                want.append(i)
                break
    keep[level] = want
    # below: the children of each kept entity, once per kept copy
    for k in range(L + 1, len(names)):
        nm, up = names[k], names[k - 1]
        rows = []
        for p in keep[up]:
            for i in range(sizes[k]):
                if c.decide(par[nm][i] == ids[up][p]):
                    rows.append(i)
        keep[nm] = rows
    # above: each ancestor of a kept entity once
    for k in range(L - 1, -1, -1):
        nm, down = names[k], names[k + 1]
        rows = []
        for i in range(sizes[k]):
            if any(c.decide(par[down][ch] == ids[nm][i]) for ch in keep[down]):
                rows.append(i)
        keep[nm] = rows
    for k, nm in enumerate(names):
        got_id = list(out[nm + '_id'].values)
        got_v = list(out[nm + '_val'].values)
        c.observe(nm, got_id)
        c.check('level %s keeps the right number' % nm, len(got_id) == len(keep[nm]),
                '%d kept, expected %d' % (len(got_id), len(keep[nm])))
        if len(got_id) != len(keep[nm]):
            return
        rows = keep[nm]
        if k == L:
            for g, gv, i in zip(got_id, got_v, rows):
                c.check('requested order kept', g == ids[nm][i])
                c.close('requested values follow their id', gv, data[nm][i])
        else:
            # any order: compare as a multiset of rows, each row intact
            left = list(rows)
            for j, g in enumerate(got_id):
                for i in left:
                    if c.decide(g == ids[nm][i]):
                        left.remove(i)
                        c.close('values follow their id', got_v[j], data[nm][i])
                        if k:
                            c.check('parent follows its id',
                                    out[nm + '_parent'].values[j] == par[nm][i])
                        break
                else:
                    c.check('level %s keeps only the closure' % nm, False, 'row %d' % j)
                    return
        if k:
            c.cover('nonempty' if rows else 'emptied')
    if nreq and not want:
        c.cover('nothing matched')


B = 'sizes per level %s; ids any distinct 32 bit ids, parents any; values any reals'


@R.scenario(B % '2/3/2', covers=['nonempty', 'emptied'], sizes=(2, 3, 2), order='bc', level='a', nreq=1)
@R.scenario(B % '2/2/3', covers=['nonempty'], sizes=(2, 2, 3), order='ac', level='a', nreq=2)
@R.scenario(B % '2/3/2', covers=['nonempty', 'emptied'], sizes=(2, 3, 2), order='ac', level='b', nreq=2)
@R.scenario(B % '2/2/3', covers=['nonempty'], sizes=(2, 2, 3), order='ab', level='c', nreq=2)
@R.scenario(B % '3/2/1, unordered parents', covers=['nonempty'], sizes=(3, 2, 1), order='b', level='b',
            nreq=2)
@R.scenario(B % '3/2, unordered parents', covers=['nonempty'], sizes=(3, 2), order='', level='b', nreq=2)
@R.scenario(B % '2/3/2, unordered middle', covers=['nonempty'], sizes=(2, 3, 2), order='c', level='c', nreq=1)
@R.scenario(B % '1/3/2, unordered middle', covers=['nonempty'], sizes=(1, 3, 2), order='c', level='a',
            nreq=1)
@R.scenario(B % '2/2/2, repeated requests', covers=['nonempty'], sizes=(2, 2, 2), order='abc', level='b',
            nreq=3, dup=True)
@R.scenario(B % '2/2, ids that may be absent', covers=['nonempty', 'nothing matched'], sizes=(2, 2), order='ab',
            level='a', nreq=1, missing=True)
@R.scenario(B % '2/2/2, ids that may be absent', covers=['nonempty', 'nothing matched'], sizes=(2, 2, 2),
            order='abc', level='c', nreq=1, missing=True)
def reduce_closure(c, sizes, order, level, nreq, dup=False, missing=False):
    run(c, sizes, order, level, nreq, dup, missing)


@R.scenario('12/40/300 entities; one requested id symbolic, the others fixed, at each level', covers=['found', 'absent'])
@R.scenario('12/40/6000 entities, 5000 children of one parent; one requested id symbolic', covers=['found', 'absent'], n=6000,
            most=5000)
def large(c, n=300, most=None):
    """As above on a larger tree, some parents with many children."""
    import numpy as np
    sizes = (12, 40, n)
    ids = {nm: spread(n, k) for k, (nm, n) in enumerate(zip(LEVELS, sizes))}
    ids['c'] = sorted(ids['c'])
    pos = {'b': attach(40, 12), 'c': attach(n, 40, most)}
    v = {}
    for nm, k in zip(LEVELS, sizes):
        v[nm + '_id'] = (('n_' + nm,), np.array(ids[nm]))
        v[nm + '_val'] = (('n_' + nm,), np.arange(k) * 0.5)
    for nm, up in (('b', 'a'), ('c', 'b')):
        v[nm + '_parent'] = (('n_' + nm,), np.array([ids[up][p] for p in pos[nm]]))
    ds = xr.Dataset(v)
    ds = ds.set_coords([x for x in ds.data_vars if x.endswith('_id') or x.endswith('_parent')])
    level, near = c.choice('level', [('a', (0, 11)), ('b', (20, 39)), ('c', (0, n // 2, n - 1))])
    r = c.int('r', 0, TOP)
    c.assume(c.or_(*[r == ids[level][i] for i in near] + [r == 123]))
    fixed = {'a': [6, 3], 'b': [7, 31, 8], 'c': list(range(40, 170, 3))}[level]
    out = travers(c, LEVELS, ds).reduce_to_entities(level + '_id', c.iarray([ids[level][i] for i in fixed] + [r]))
    got = {nm: [int(x) for x in out[nm + '_id'].values] for nm in LEVELS}
    more = [i for i in near if c.decide(r == ids[level][i])]
    c.cover('found' if more else 'absent')
    keep = {level: fixed + more}
    L = LEVELS.index(level)
    for nm, up in (('b', 'a'), ('c', 'b')):
        if LEVELS.index(nm) > L:
            keep[nm] = [i for p in keep[up] for i in range(len(pos[nm])) if pos[nm][i] == p]
    for nm, down in (('b', 'c'), ('a', 'b')):
        if LEVELS.index(nm) < L:
            keep[nm] = sorted(set(pos[down][i] for i in keep[down]))
    for nm in LEVELS:
        want = [ids[nm][i] for i in keep[nm]]
        c.check('ids of level %s' % nm, (got[nm] == want) if nm == level else sorted(got[nm]) == sorted(want),
                '%d, expected %d' % (len(got[nm]), len(want)))
        at = {i: k for k, i in enumerate(ids[nm])}
        c.check('values follow their id', all(float(val) == at[i] * 0.5 for i, val in zip(got[nm], out[nm + '_val'].values)))
