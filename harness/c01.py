"""C01: every selected quasar is worked on by exactly one rank, whole pixels
(or tiles) stay together, and the load is balanced."""
import itertools

from .common import (T0, Sized, ssum, s_and, s_or, smax, smin, count,
                     catalog_table, distinct)

BOUNDS = {
    'quick': 'balance: up to 5 groups of any size 1..2^31, 1..4 ranks; '
             'queue: up to 4 quasars with any pixel/tile number, '
             '1..3 ranks, mock/data/tile catalogs',
    'thorough': 'balance: up to 6 groups of any size, 1..5 ranks; queue: up '
                'to 5 quasars, 1..4 ranks'}
OUTSIDE = 'more groups/quasars/ranks than the bounds'
ASSUMPTIONS = ['numpy argmin returns the first minimum; list.sort is stable '
               '(Python language guarantee)']


def balance(E, n, m):
    bl = E.get('qsonic.mpi_utils', 'balance_load')
    sizes = E.ints('size', n, 1, 2**31)
    cats = [Sized(i, sizes[i]) for i in range(n)]
    q = bl(list(cats), m)
    E.check(len(q) == m, 'one queue per rank')
    flat = [c for part in q for c in part]
    E.check(len(flat) == n and sorted(c.i for c in flat) == list(range(n)),
            'every group is in exactly one queue')
    if len(q) != m or len(flat) != n:
        return
    loads = [ssum(c.size for c in part) for part in q]
    hi, lo = loads[0], loads[0]
    for x in loads[1:]:
        hi, lo = smax(hi, x), smin(lo, x)
    big = sizes[0]
    for x in sizes[1:]:
        big = smax(big, x)
    E.check(hi - lo <= big, 'no rank exceeds another by more than a group')
    # longest-processing-time bound: hi <= (4/3 - 1/3m) * optimum
    bounds = []
    for asg in itertools.product(range(m), repeat=n - 1):
        asg = (0,) + asg
        if any(asg[i] > max(asg[:i]) + 1 for i in range(1, n)):
            continue        # ranks are interchangeable
        ls = [ssum(sizes[i] for i in range(n) if asg[i] == r)
              for r in range(m)]
        bounds.append(s_or(*[hi * (3 * m) <= x * (4 * m - 1) for x in ls]))
    E.check(s_and(*bounds), 'within 4/3 of the best split')


def queue(E, n, m, kind, symtid):
    """The whole catalog -> per-rank queues."""
    pix = E.ints('pix', n, 0, 100)
    if symtid:
        tid = E.ints('tid', n, T0, T0 + 1000)
        distinct(E, tid)
    else:
        tid = [T0 + i for i in (107, 103, 111, 101, 105)][:n]
    path = E.path('cat.fits')
    kw = {}
    if kind == 'tile':
        t = catalog_table(E, n, tid=tid, survey=['main'] * n, tile=pix,
                          petal=[(3 * i) % 10 for i in range(n)])
        E.stub('healpy.ang2pix', lambda ns, ra, dec, **k: E.arr(
            [7] * len(ra), 'i'))
        kw = dict(is_tile=True)
    elif kind == 'data':
        t = catalog_table(E, n, tid=tid, survey=['main'] * n, pix=pix)
        kw = dict(keep_surveys=['main'])
    else:
        t = catalog_table(E, n, tid=tid, pix=pix)
        kw = dict(is_mock=True)
    E.fits(path, [('ZCATALOG', t, None)])
    key = 'TILEID' if kind == 'tile' else 'HPXPIXEL'

    def body(comm, rank, mod):
        return mod('qsonic.catalog').mpi_get_local_queue(
            path, comm, rank, m, **kw)
    outs = E.spmd(m, body)
    for o in outs:
        if o.exc is not None:
            raise o.exc
    got = []
    for r, o in enumerate(outs):
        for g, cat in enumerate(o.value):
            for i in range(cat.size):
                got.append((r, g, cat['TARGETID'][i], cat[key][i]))
    E.check(len(got) == n, 'as many rows handed out as selected')
    for i in range(n):
        E.check(count([s_and(t == tid[i], k == pix[i])
                       for _, _, t, k in got]) == 1,
                'each quasar handed out exactly once')
    for a in range(len(got)):
        for b in range(a):
            ga, gb = got[a], got[b]
            if ga[:2] == gb[:2]:
                E.check(ga[3] == gb[3], 'a group holds a single pixel/tile')
            else:
                E.check(ga[3] != gb[3], 'a pixel/tile is never split up')


def cases(tier):
    out = []
    nm = [(1, 1), (2, 1), (3, 2), (4, 2), (4, 3), (5, 2), (2, 3), (3, 4)]
    if tier == 'thorough':
        nm += [(5, 3), (5, 4), (6, 2), (6, 3), (4, 5)]
    for n, m in nm:
        out.append((f'balance n={n} m={m}', 'balance', dict(n=n, m=m)))
    for kind in ('mock', 'data', 'tile'):
        for n, m in [(1, 2), (3, 2), (4, 3)]:
            out.append((f'queue {kind} n={n} m={m}', 'queue',
                        dict(n=n, m=m, kind=kind, symtid=n <= 3)))
        if tier == 'thorough':
            out.append((f'queue {kind} n=5 m=4', 'queue',
                        dict(n=5, m=4, kind=kind, symtid=False)))
    return out
