"""C02: child counts and replicated ancestor ids describe the actual tree."""
from ..harness import Registry
from .tree import distinct_ids, parents, ordered, member, spread, attach
from .c01 import build, travers
from . import glmds

R = Registry()
ASSUMPTIONS = ['ids within a level are unique', 'every parent reference names an existing entity']


def true_parent(c, par, ids, child, i, up):
    for k, u in enumerate(ids[up]):
        if c.decide(par[child][i] == u):
            return k
    return None


B = 'level sizes %s; ids any distinct 32 bit ids in any stored order, parents any'


@R.scenario(B % '2/3', sizes=(2, 3), order='', covers=['childless', 'several'])
@R.scenario(B % '3/2/2', sizes=(3, 2, 2), order='a', covers=['childless'])
@R.scenario(B % '2/2/2/2 (four levels)', sizes=(2, 2, 2, 2), order='abd', covers=['childless', 'several'])
@R.scenario(B % '1/3/3', sizes=(1, 3, 3), order='ab', covers=['childless', 'several'])
def counts(c, sizes, order):
    names, ids, par, data, ds = build(c, sizes, order)
    t = travers(c, names, ds)
    anc = {}                      # (child level, ancestor level) -> row numbers
    for k in range(1, len(names)):
        ch, up = names[k], names[k - 1]
        anc[ch, up] = [true_parent(c, par, ids, ch, i, up) for i in range(sizes[k])]
        for j in range(k - 1):
            anc[ch, names[j]] = [anc[up, names[j]][p] for p in anc[ch, up]]

    def cnt(k):
        return [sum(1 for p in anc[names[k], names[k - 1]] if p == i) for i in range(sizes[k - 1])]
    for k in range(len(names) - 1):
        got = t.count_children(names[k] + '_id')
        c.check('one list for the next level', len(got) == 1)
        c.check_seq('children of %s' % names[k], got[0], cnt(k + 1))
        for m in range(k + 1, len(names)):
            got = t.count_children(names[k] + '_id', names[m] + '_id')
            c.check('one list per level', len(got) == m - k, '%d lists' % len(got))
            for j, gl in enumerate(got):
                c.check_seq('%s to %s step %d' % (names[k], names[m], j), gl, cnt(k + 1 + j))
        for x in cnt(k + 1):
            c.cover('childless' if x == 0 else ('several' if x > 1 else 'one'))
    for k in range(1, len(names)):
        for j in range(k):
            got = list(t.replicate_parent_ids(names[j] + '_id', names[k] + '_parent'))
            c.check('one ancestor per row', len(got) == sizes[k])
            for i, gid in enumerate(got):
                c.check('ancestor of %s in %s' % (names[k], names[j]),
                        gid == ids[names[j]][anc[names[k], names[j]][i]])
            c.observe('anc', got)


@R.scenario('a Level-2 dataset of 2 flashes, 3 groups, 3 events; ids and parents symbolic', n=(2, 3, 3),
            covers=['uneven'])
@R.scenario('a Level-2 dataset of 2 flashes, 2 groups, 4 events; ids and parents symbolic', n=(2, 2, 4),
            covers=['uneven'])
@R.scenario('a Level-2 dataset of 1 flash, 2 groups, 2 events; ids and parents symbolic', n=(1, 2, 2))
def loaded(c, n):
    nf, ng, ne = n
    f = distinct_ids(c, 'f', nf)
    g = ordered(c, distinct_ids(c, 'g', ng))
    e = ordered(c, distinct_ids(c, 'e', ne))
    gp = parents(c, 'gp', ng, f)
    ep = parents(c, 'ep', ne, g)
    # consistent file: nobody childless, so nothing is repaired away
    for x in f:
        c.assume(member(c, x, gp))
    for x in g:
        c.assume(member(c, x, ep))
    d = glmds.load(c, glmds.dataset(c, f, g, e, gp, ep)).dataset
    gpar = [next(k for k in range(nf) if k == nf - 1 or c.decide(gp[i] == f[k])) for i in range(ng)]
    epar = [next(k for k in range(ng) if k == ng - 1 or c.decide(ep[i] == g[k])) for i in range(ne)]
    for nm, ids in (('flash', f), ('group', g), ('event', e)):
        got = list(d[nm + '_id'].values)
        c.check('all %s kept' % nm, len(got) == len(ids))
        for a, b in zip(got, ids):
            c.check('order of %s kept' % nm, a == b)
    for i, x in enumerate(d['event_parent_flash_id'].values):
        c.check('flash of each event', x == f[gpar[epar[i]]])
    c.check_seq('groups per flash', d['flash_child_group_count'].values,
                [gpar.count(k) for k in range(nf)])
    c.check_seq('events per group', d['group_child_event_count'].values,
                [epar.count(k) for k in range(ng)])
    per = [sum(1 for p in epar if gpar[p] == k) for k in range(nf)]
    c.check_seq('events per flash', d['flash_child_event_count'].values, per)
    c.observe('per', per)
    if len(set(per)) > 1:
        c.cover('uneven')


@R.scenario('a Level-2 dataset with up to 900 groups per flash and events per group; the flash of one group and the '
            'group of one event symbolic', covers=['moved'])
def large(c):
    nf, ng, ne = 5, 1300, 2600
    f, g, e = spread(nf), sorted(spread(ng, 1)), sorted(spread(ne, 2))
    gpar, epar = attach(ng, nf, 900), attach(ne, ng, 900)
    i, j = 100, 1000
    x, y = c.choice('flash', [0, 4]), c.choice('group', [650, 3])
    gpar[i], epar[j] = x, y
    d = glmds.load(c, glmds.dataset(c, f, g, e, [f[k] for k in gpar], [g[k] for k in epar])).dataset
    per_g, per_f, deep = [0] * ng, [0] * nf, [0] * nf
    for p in epar:
        per_g[p] += 1
        deep[gpar[p]] += 1
    for p in gpar:
        per_f[p] += 1
    c.check('flash of each event', [int(v) for v in d['event_parent_flash_id'].values] == [f[gpar[p]] for p in epar])
    c.check('groups per flash', [int(v) for v in d['flash_child_group_count'].values] == per_f)
    c.check('events per group', [int(v) for v in d['group_child_event_count'].values] == per_g)
    c.check('events per flash', [int(v) for v in d['flash_child_event_count'].values] == deep)
    c.cover('moved')


@R.scenario('40000 children of one parent', n=40000, covers=['any'])
@R.scenario('70000 children of one parent', n=70000, covers=['any'])
def crowd(c, n):
    import numpy as np
    import xarray as xr
    up = c.choice('parent', [0, 1])
    a = np.array([7, 3])
    ds = xr.Dataset({'a_id': (('n_a',), a), 'b_id': (('n_b',), np.arange(n + 1)),
                     'b_parent': (('n_b',), np.array([a[1 - up]] + [a[up]] * n))})
    ds = ds.set_coords(['a_id', 'b_id', 'b_parent'])
    got, = travers(c, ('a', 'b'), ds).count_children('a_id')
    c.check('children', [int(v) for v in got] == ([n, 1] if up == 0 else [1, n]), '%s' % (got,))
    c.cover('any')
