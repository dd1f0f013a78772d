"""Shared construction of flash/group/event trees with symbolic ids."""
import itertools

FGE = ('flash_id', 'group_id', 'event_id')
PAR = ('group_parent_flash_id', 'event_parent_group_id')
TOP = 2 ** 32 - 1         # ids are stored as unsigned 32 bit integers


def distinct_ids(c, name, n, lo=0, hi=TOP):
    """n pairwise different ids, in any order."""
    ids = c.ints(name, n, lo, hi)
    for a, b in itertools.combinations(ids, 2):
        c.assume(c.not_(a == b))
    return ids


def member(c, x, ids):
    return c.or_(*[x == i for i in ids])


def parents(c, name, n, ids, orphans=False, lo=0, hi=TOP):
    """n parent references; each equals one of ids unless orphans are allowed."""
    ps = c.ints(name, n, lo, hi)
    if not orphans:
        for p in ps:
            c.assume(member(c, p, ids))
    return ps


def ordered(c, ids):
    for a, b in zip(ids[:-1], ids[1:]):
        c.assume(a < b)
    return ids


def spread(n, salt=0):
    """n different ids all over the range, in no particular order."""
    return [(2654435761 * (k + 1) + 977 * salt) % (TOP + 1) for k in range(n)]


def attach(n, m, first=None):
    """Positions of the parents of n children among m parents: each parent
    gets a child and `first` of the children go to the parent in the middle."""
    first = n // 2 if first is None else first
    return [m // 2 if k < first else (7 * k) % m for k in range(n - m)] + list(range(m))
