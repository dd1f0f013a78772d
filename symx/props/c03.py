"""C03: inconsistent parent references are found, and repaired on load."""
from ..harness import Registry
from .tree import distinct_ids, parents, ordered, spread, attach
from .c01 import build, travers, LEVELS
from . import glmds

R = Registry()
ASSUMPTIONS = ['ids within a level are unique']


def as_set(c, label, got, want):
    """`got` holds exactly the (pairwise different) ids in `want`."""
    left = list(want)
    got = list(got)
    c.check(label + ' size', len(got) == len(left), '%d, expected %d' % (len(got), len(left)))
    if len(got) != len(left):
        return
    for x in got:
        for w in left:
            if c.decide(x == w):
                left.remove(w)
                break
        else:
            c.check(label, False, 'unexpected id')
            return


def uniq(c, vals):
    out = []
    for v in vals:
        if not any(c.decide(v == o) for o in out):
            out.append(v)
    return out


@R.scenario('2 parents, 3 children, references may name nobody', sizes=(2, 3),
            covers=['orphan', 'childless', 'clean'])
@R.scenario('3 parents, 2 children', sizes=(3, 2), covers=['orphan', 'childless'])
@R.scenario('2/2/2, references may name nobody', sizes=(2, 2, 2), covers=['orphan', 'childless', 'clean'])
def diagnosis(c, sizes):
    import xarray as xr
    names = LEVELS[:len(sizes)]
    ids, par, v = {}, {}, {}
    for k, (nm, n) in enumerate(zip(names, sizes)):
        ids[nm] = distinct_ids(c, nm, n)
        v[nm + '_id'] = (('n_' + nm,), c.iarray(ids[nm]))
        if k:
            par[nm] = parents(c, nm + 'p', n, ids[names[k - 1]], orphans=True)
            v[nm + '_parent'] = (('n_' + nm,), c.iarray(par[nm]))
    ds = xr.Dataset(v)
    ds = ds.set_coords(list(ds.data_vars))
    es, ps = travers(c, names, ds).check_parent_child()
    c.check('a verdict per parent level', sorted(es) == sorted(n + '_id' for n in names[:-1]))
    c.check('a verdict per reference', sorted(ps) == sorted(n + '_parent' for n in names[1:]))
    for k in range(1, len(names)):
        up, nm = names[k - 1], names[k]
        refs = uniq(c, par[nm])
        childless = [u for u in ids[up] if not any(c.decide(u == r) for r in refs)]
        orphan = [r for r in refs if not any(c.decide(u == r) for u in ids[up])]
        n_ent, n_bad, bad = es[up + '_id']
        c.check('entity count', n_ent == sizes[k - 1])
        c.check('childless count', n_bad == len(childless), '%s, expected %s' % (n_bad, len(childless)))
        as_set(c, 'childless ids', bad, childless)
        n_ref, n_orph, orph = ps[nm + '_parent']
        c.check('reference count', n_ref == len(refs))
        c.check('orphan count', n_orph == len(orphan), '%s, expected %s' % (n_orph, len(orphan)))
        as_set(c, 'orphan references', orph, orphan)
        if orphan:
            c.cover('orphan')
        if childless:
            c.cover('childless')
        if not orphan and not childless:
            c.cover('clean')


def lineage(c, f, g, e, gp, ep):
    """Rows of the largest tree in which every reference resolves and nobody
    above the bottom is childless."""
    gpar = [next((k for k in range(len(f)) if c.decide(gp[i] == f[k])), None) for i in range(len(g))]
    epar = [next((k for k in range(len(g)) if c.decide(ep[i] == g[k])), None) for i in range(len(e))]
    ev = [i for i, p in enumerate(epar) if p is not None and gpar[p] is not None]
    gr = [i for i in range(len(g)) if gpar[i] is not None and any(epar[j] == i for j in ev)]
    fl = [i for i in range(len(f)) if any(gpar[j] == i for j in gr)]
    return gpar, epar, fl, gr, ev


@R.scenario('2 flashes, 2 groups, 2 events; references may name nobody', n=(2, 2, 2),
            covers=['repaired', 'untouched', 'lost flash', 'lost event'])
@R.scenario('2 flashes, 3 groups, 3 events, ids ascending; references may name nobody', n=(2, 3, 3), tier='thorough',
            covers=['repaired', 'untouched', 'lost flash', 'lost event'])
@R.scenario('1 flash, 2 groups, 3 events; references may name nobody', n=(1, 2, 3),
            covers=['repaired', 'untouched', 'lost flash', 'lost event'])
@R.scenario('3 flashes, 2 groups, 2 events; references may name nobody', n=(3, 2, 2),
            covers=['repaired', 'lost flash'])
def repaired(c, n):
    nf, ng, ne = n
    f = ordered(c, distinct_ids(c, 'f', nf))
    g = ordered(c, distinct_ids(c, 'g', ng))
    e = ordered(c, distinct_ids(c, 'e', ne))
    gp = parents(c, 'gp', ng, f, orphans=True)
    ep = parents(c, 'ep', ne, g, orphans=True)
    glm = c.mod('glmtools.io.glm').GLMDataset(
        glmds.dataset(c, f, g, e, gp, ep, energy={'event': [1e-14 * (i + 1) for i in range(ne)]}),
        ellipse_rev=0)
    d = glm.dataset
    gpar, epar, fl, gr, ev = lineage(c, f, g, e, gp, ep)
    for nm, ids, rows in (('flash', f, fl), ('group', g, gr), ('event', e, ev)):
        as_set(c, 'kept ' + nm, d[nm + '_id'].values, [ids[i] for i in rows])
        c.observe(nm, list(d[nm + '_id'].values))
    if len(d['event_id']) != len(ev) or len(d['group_id']) != len(gr):
        return
    en = list(d['event_energy'].values)
    efl = list(d['event_parent_flash_id'].values)
    egr = list(d['event_parent_group_id'].values)
    for j, x in enumerate(d['event_id'].values):
        i = next(i for i in ev if i == ev[-1] or c.decide(x == e[i]))
        c.close('event keeps its energy', en[j], 1e-5 * (i + 1))
        c.check('event keeps its group', egr[j] == g[epar[i]])
        c.check('event gets its flash', efl[j] == f[gpar[epar[i]]])
    for j, x in enumerate(d['flash_id'].values):
        i = next(i for i in fl if i == fl[-1] or c.decide(x == f[i]))
        c.check('groups per flash', d['flash_child_group_count'].values[j]
                == sum(1 for q in gr if gpar[q] == i))
        c.check('events per flash', d['flash_child_event_count'].values[j]
                == sum(1 for q in ev if gpar[epar[q]] == i))
    if len(fl) == nf and len(gr) == ng and len(ev) == ne:
        c.cover('untouched')
        for nm, ids in (('flash', f), ('group', g), ('event', e)):
            for a, b in zip(d[nm + '_id'].values, ids):
                c.check('a consistent file keeps its order', a == b)
    else:
        c.cover('repaired')
        if len(fl) < nf:
            c.cover('lost flash')
        if len(ev) < ne:
            c.cover('lost event')


@R.scenario('a file in which the event, group or flash level is empty (up to 2 each)',
            covers=['all empty', 'some empty'])
def empty_levels(c):
    nf, ng, ne = (c.choice(x, [0, 1, 2]) for x in ('nf', 'ng', 'ne'))
    c.assume(nf * ng * ne == 0)
    f = ordered(c, distinct_ids(c, 'f', nf))
    g = ordered(c, distinct_ids(c, 'g', ng))
    e = ordered(c, distinct_ids(c, 'e', ne))
    gp = parents(c, 'gp', ng, f, orphans=True)
    ep = parents(c, 'ep', ne, g, orphans=True)
    d = glmds.load(c, glmds.dataset(c, f, g, e, gp, ep)).dataset
    for nm in ('flash', 'group', 'event'):
        c.check('nothing survives at %s' % nm, len(d[nm + '_id']) == 0)
    c.check('derived variables are empty', len(d['event_parent_flash_id']) == 0)
    c.cover('all empty' if nf + ng + ne == 0 else 'some empty')


@R.scenario('20 flashes, 200 groups, 600 events, with none or many broken references; one reference any of four',
            covers=['clean', 'broken', 'found', 'nobody'])
def large(c):
    nf, ng, ne = 20, 200, 600
    f, g, e = spread(nf), sorted(spread(ng, 1)), sorted(spread(ne, 2))
    gpar, epar = attach(ng, nf), attach(ne, ng)
    gp, ep = [f[k] for k in gpar], [g[k] for k in epar]
    broken = c.choice('broken', [False, True])
    if broken:
        for k in (0, 7, 130, 131, 199):
            gp[k], gpar[k] = 17 + k, None
        for k in list(range(30)) + [450, 599]:
            ep[k], epar[k] = 5000 + k, None
        for k in range(ne):
            # groups left without events
            if epar[k] in (3, 50, 51, 52, 198):
                ep[k], epar[k] = g[60], 60
    to = c.choice('to', [0, 99, 199, None])
    ep[300], epar[300] = 1 if to is None else g[to], to
    d = glmds.load(c, glmds.dataset(c, f, g, e, gp, ep)).dataset
    ev = [i for i, p in enumerate(epar) if p is not None and gpar[p] is not None]
    used = set(epar[i] for i in ev)
    gr = [i for i in range(ng) if gpar[i] is not None and i in used]
    fl = sorted(set(gpar[i] for i in gr))
    for nm, ids, rows in (('flash', f, fl), ('group', g, gr), ('event', e, ev)):
        got = sorted(int(v) for v in d[nm + '_id'].values)
        c.check('kept ' + nm, got == sorted(ids[i] for i in rows), '%d, expected %d' % (len(got), len(rows)))
    c.check('flash of each event', {int(a): int(b) for a, b in zip(d['event_id'].values, d['event_parent_flash_id'].values)}
            == {e[i]: f[gpar[epar[i]]] for i in ev})
    c.check('events per flash', {int(a): int(b) for a, b in zip(d['flash_id'].values, d['flash_child_event_count'].values)}
            == {f[k]: sum(gpar[epar[i]] == k for i in ev) for k in fl})
    c.cover('broken' if broken else 'clean')
    c.cover('nobody' if to is None else 'found')
