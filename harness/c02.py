"""C02: the quasar catalog that is analysed is exactly the selected subset of
the input file, unaltered and in the documented order."""
from .common import (T0, s_and, s_or, s_not, ite, count, catalog_table, distinct)

BOUNDS = {
    'quick': 'catalogs of up to 3 quasars; any redshifts, redshift limits, '
             'target ids, pixels, tiles, petals; surveys out of three; '
             'requested surveys: none/1/2',
    'thorough': 'catalogs of up to 4 quasars'}
OUTSIDE = 'larger catalogs; the value of the healpix pixel itself (healpy)'
ASSUMPTIONS = ['healpy.ang2pix is replaced by an arbitrary function of the '
               'coordinates']

SURV = ['main', 'sv1', 'special']


def run(E, n, kind, keep, haspix, symtid=True, symz=True):
    z = E.reals('z', n, 0, 10) if symz else [2.5] * n
    if symz:
        zmin = E.real('zmin', 0, 10)
        zmax = E.real('zmax', 0, 10)
    else:
        zmin, zmax = 2.5, 2.5
    if symtid:
        tid = E.ints('tid', n, T0 + 1, T0 + 1000)
        distinct(E, tid)
    else:
        tid = [T0 + i for i in (11, 5, 7, 3)][:n]
    pix = E.ints('pix', n, 0, 200)
    ra = [10.0 + 5 * i for i in range(n)]
    dec = [-3.0 + 4 * i for i in range(n)]
    calls = []

    def ang2pix(nside, theta, phi, nest=False, lonlat=False):
        calls.append((nside, nest, lonlat))
        out = []
        for a, d in zip(theta, phi):
            i = ra.index(float(a))
            E.check(float(d) == dec[i], 'pixel looked up at (RA, DEC)')
            out.append(pix[i])
        return E.arr(out, 'i')
    E.stub('healpy.ang2pix', ang2pix)
    kw = {}
    surv = None
    tile = petal = None
    if kind != 'mock':
        surv = [E.string(f's{i}', SURV) for i in range(n)] if keep != 'one' \
            or kind == 'tile' else [E.string(f's{i}', SURV[:2])
                                    for i in range(n)]
    if kind == 'tile':
        tile = E.ints('tile', n, 1, 200)
        petal = E.ints('petal', n, 0, 9)
        kw['is_tile'] = True
    if kind == 'mock':
        kw['is_mock'] = True
    ks = {'none': None, 'one': ['main'], 'two': ['special', 'main']}[keep]
    t = catalog_table(E, n, tid=tid, z=z, ra=ra, dec=dec, survey=surv,
                      pix=pix if haspix else None, tile=tile, petal=petal)
    path = E.fits(E.path('cat.fits'), [('QSO_CAT', t, None)])
    cat, exc = E.attempt(E.get('qsonic.catalog', 'read_quasar_catalog'),
                         path, keep_surveys=ks, zmin=zmin, zmax=zmax, **kw)
    sel = []
    for i in range(n):
        c = s_and(z[i] >= zmin, z[i] <= zmax)
        if surv is not None and ks is not None:
            c = s_and(c, s_or(*[surv[i] == k for k in ks]))
        sel.append(c)
    if exc is not None:
        E.check(s_not(s_or(*sel)), 'raises only if nothing is selected')
        return
    E.check(s_or(*sel), 'an empty selection raises')
    m = cat.size
    E.check(count(sel) == m, 'number of rows selected')
    names = cat.dtype.names
    for c in ('TARGETID', 'Z', 'RA', 'DEC', 'HPXPIXEL'):
        if c not in names:
            E.fail('column present: ' + c)
            return
    if not haspix:
        ns = 16 if kind == 'mock' else 64
        E.check(all(c == (ns, True, True) for c in calls) and calls,
                'nested pixel, nside 16 for mocks, 64 for data')
    for j in range(m):
        opts = []
        for i in range(n):
            c = [cat['TARGETID'][j] == tid[i], sel[i],
                 cat['Z'][j] == z[i], cat['RA'][j] == ra[i],
                 cat['DEC'][j] == dec[i], cat['HPXPIXEL'][j] == pix[i]]
            if surv is not None:
                c.append(cat['SURVEY'][j] == surv[i])
            if tile is not None:
                c += [cat['TILEID'][j] == tile[i],
                      cat['PETAL_LOC'][j] == petal[i]]
            opts.append(s_and(*c))
        E.check(s_or(*opts), 'a row is a selected input row, unaltered')
    if kind == 'tile':
        keys = ['TILEID', 'PETAL_LOC', 'TARGETID']
    elif kind == 'data':
        keys = ['HPXPIXEL', 'SURVEY', 'TARGETID']
    else:
        keys = ['HPXPIXEL', 'TARGETID']
    for j in range(m - 1):
        c = True
        for k in reversed(keys):
            a, b = cat[k][j], cat[k][j + 1]
            c = s_or(a < b, s_and(a == b, c))
        if kind != 'tile':
            E.check(c, 'sorted by pixel, survey, target id')
            E.check(cat['TARGETID'][j] != cat['TARGETID'][j + 1],
                    'no quasar twice')
        else:
            E.check(c, 'sorted by tile, petal, target id')


def cases(tier):
    out = []
    n = 3
    for kind, keep, hp in [('mock', 'none', True), ('mock', 'none', False),
                           ('data', 'one', True), ('data', 'two', True),
                           ('data', 'none', True), ('data', 'two', False),
                           ('data', 'one', False),
                           ('tile', 'one', False), ('tile', 'none', True)]:
        name = f'{kind} keep={keep} hpx={hp}'
        # selection with a fixed order of ids, order with a fixed selection
        out.append((name + ' n=2', 'run',
                    dict(n=2, kind=kind, keep=keep, haspix=hp)))
        out.append((name + ' n=3 order', 'run',
                    dict(n=3, kind=kind, keep=keep, haspix=hp,
                         symz=False)))
        out.append((name + ' n=3 selection', 'run',
                    dict(n=3, kind=kind, keep=keep, haspix=hp,
                         symtid=False)))
        if tier == 'thorough':
            out.append((name + ' n=3 full', 'run',
                        dict(n=3, kind=kind, keep=keep, haspix=hp)))
            out.append((name + ' n=4', 'run',
                        dict(n=4, kind=kind, keep=keep, haspix=hp,
                             symtid=False, symz=False)))
    return out
