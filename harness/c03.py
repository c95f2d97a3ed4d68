"""C03: a catalog is accepted exactly when it has the required columns and no
duplicate entries; alternative column names end up under the standard one."""
from .common import T0, s_and, s_or, s_not, distinct

BOUNDS = {
    'quick': 'every combination of present/absent alternative columns; '
             '2-3 quasars with any target ids and tile ids',
    'thorough': '2-4 quasars'}
OUTSIDE = 'larger catalogs'

BASE = ['TARGETID', 'Z', 'RA', 'DEC']


def run(E, n, kind, vary, fixed, ext):
    cols = list(fixed)
    for c in vary:
        if E.bool('has_' + c):
            cols.append(c)
    tid = E.ints('tid', n, T0 + 1, T0 + 1000)
    tile = E.ints('tile', n, 1, 1000)
    petal = E.ints('petal', n, 0, 9) if kind == 'tile' else [3] * n
    val = {
        'TARGETID': E.arr(tid, 'i'), 'Z': E.arr([2.5] * n),
        'TILEID': E.arr(tile, 'i'), 'PETAL_LOC': E.arr(petal, 'i'),
        'SURVEY': E.arr(['main'] * n),
        'HPXPIXEL': E.arr([5] * n, 'i'),
    }
    for k, c in enumerate(['RA', 'TARGET_RA', 'DEC', 'TARGET_DEC']):
        val[c] = E.arr([16. * (k + 1) + i for i in range(n)], 'f')
    for k, c in enumerate(['LASTNIGHT', 'COADD_LASTNIGHT', 'LAST_NIGHT']):
        val[c] = E.arr([100 * (k + 1) + i for i in range(n)], 'i')
    t = E.table({c: val[c] for c in cols})
    hd = []
    if ext == 'second':
        hd.append(('OTHER', E.table({'X': E.arr([1., 2.], 'f')}), None))
        hd.append(('METADATA', t, None))
    else:
        hd.append((ext, t, None))
    path = E.fits(E.path('cat.fits'), hd)
    cat, exc = E.attempt(
        E.get('qsonic.catalog', 'read_quasar_catalog'), path,
        is_mock=kind == 'mock', is_tile=kind == 'tile',
        keep_surveys=None if kind == 'mock' else ['main'])
    has = set(cols)
    ok = bool(has & {'TARGETID'} and has & {'Z'} and
              has & {'RA', 'TARGET_RA'} and has & {'DEC', 'TARGET_DEC'})
    if kind != 'mock':
        ok = ok and bool('SURVEY' in has and has & {
            'LASTNIGHT', 'COADD_LASTNIGHT', 'LAST_NIGHT'})
    if kind == 'tile':
        ok = ok and 'TILEID' in has and 'PETAL_LOC' in has
    if not ok:
        E.check(exc is not None, 'a missing required column raises')
        return
    dup = []
    for i in range(n):
        for j in range(i):
            c = tid[i] == tid[j]
            if kind == 'tile':
                c = s_and(c, tile[i] == tile[j])
            dup.append(c)
    dup = s_or(*dup)
    if exc is not None:
        E.check(dup, 'a valid catalog is accepted')
        return
    E.check(s_not(dup), 'a duplicate entry raises')
    names = cat.dtype.names
    E.check(cat.size == n, 'all rows kept')
    for c, alt in (('RA', 'TARGET_RA'), ('DEC', 'TARGET_DEC')):
        if c not in names:
            E.fail('standard column present: ' + c)
            continue
        want = val[c] if c in has else val[alt]
        for j in range(cat.size):
            E.check(s_or(*[s_and(cat['TARGETID'][j] == tid[i],
                                 cat[c][j] == want[i]) for i in range(n)]),
                    'coordinates come from the right column')
    if kind != 'mock':
        if 'LASTNIGHT' not in names:
            E.fail('standard column present: LASTNIGHT')
            return
        src = next(c for c in ('LASTNIGHT', 'COADD_LASTNIGHT', 'LAST_NIGHT')
                   if c in has)
        for j in range(cat.size):
            E.check(s_or(*[s_and(cat['TARGETID'][j] == tid[i],
                                 cat['LASTNIGHT'][j] == val[src][i])
                           for i in range(n)]),
                    'last night comes from the right column')


def cases(tier):
    out = []
    ns = [2, 3] if tier == 'quick' else [2, 3, 4]
    pos = ['TARGETID', 'Z', 'RA', 'TARGET_RA', 'DEC', 'TARGET_DEC']
    out.append(('mock columns', 'run', dict(
        n=2, kind='mock', vary=pos, fixed=['HPXPIXEL'], ext='ZCATALOG')))
    out.append(('data columns', 'run', dict(
        n=2, kind='data', vary=['SURVEY', 'LASTNIGHT', 'COADD_LASTNIGHT',
                                'LAST_NIGHT', 'RA'],
        fixed=['TARGETID', 'Z', 'TARGET_RA', 'DEC', 'HPXPIXEL'],
        ext='QSO_CAT')))
    out.append(('tile columns', 'run', dict(
        n=2, kind='tile', vary=['SURVEY', 'LASTNIGHT', 'TILEID', 'PETAL_LOC'],
        fixed=BASE + ['HPXPIXEL'], ext='METADATA')))
    for ext in ('UNKNOWN', 'second'):
        out.append((f'extension {ext}', 'run', dict(
            n=2, kind='mock', vary=[], fixed=BASE + ['HPXPIXEL'], ext=ext)))
    full = BASE + ['HPXPIXEL', 'SURVEY', 'LASTNIGHT', 'TILEID', 'PETAL_LOC']
    for n in ns:
        for kind in ('mock', 'data', 'tile'):
            out.append((f'duplicates {kind} n={n}', 'run', dict(
                n=n, kind=kind, vary=[], fixed=full, ext='ZCATALOG')))
    return out
