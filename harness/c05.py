"""C05: every spectrum holds the data of its own quasar (rows are matched by
TARGETID), whatever the order of the file."""
from .common import (T0, s_and, s_or, s_not, ite, count, catalog_table, distinct,
                     GRID)

BOUNDS = {'quick': 'files of 1-3 rows with any TARGETIDs (any order, missing '
                   'quasars, foreign rows, several exposures), 1-3 catalog '
                   'quasars, 1-2 surveys or petals, 1-2 arms; coadds, '
                   'exposures, tiles, mocks, true continua, resolution',
          'thorough': 'one more row / quasar'}
OUTSIDE = 'larger files'

NP = {'B': 3, 'R': 2}


def rowval(a, r, i, tag=0.):
    """Identifies (file tag, arm, row, pixel)."""
    return 64. * r + i + (32. if a == 'R' else 0.) + 1024. * tag + 1.


def hdus(E, tids, arms, tag=0., reso=True, exp=None):
    m = len(tids)
    fib = {'OTHER': E.arr([7] * m, 'i'), 'TARGETID': E.arr(tids, 'i')}
    if exp is not None:
        for k, c in enumerate(['PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID',
                               'TILEID']):
            fib[c] = E.arr([100 * (k + 1) + r for r in range(m)], 'i')
    out = [('FIBERMAP', E.table(fib), {})]
    for a in arms:
        n = NP[a]
        im = [[rowval(a, r, i, tag) for i in range(n)] for r in range(m)]
        out += [(a + '_WAVELENGTH', E.arr(GRID[a][:n], 'f'), {}),
                (a + '_FLUX', E.arr(im, 'f'), {}),
                (a + '_IVAR', E.arr([[x + .5 for x in q] for q in im], 'f'),
                 {}),
                (a + '_MASK', E.arr([[4 if i == r % n else 0
                                      for i in range(n)]
                                     for r in range(m)], 'i'), {})]
        if reso:
            out.append((a + '_RESOLUTION', E.arr(
                [[[rowval(a, r, i, tag) + 8 * d for i in range(n)]
                  for d in range(3)] for r in range(m)], 'f'), {}))
    return out


def match(E, spec, a, r, tag, reso):
    """Is the data of this spectrum that of row r?"""
    n = NP[a]
    c = []
    for i in range(n):
        v = 0. if i == r % n else rowval(a, r, i, tag)
        u = 0. if i == r % n else rowval(a, r, i, tag) + .5
        c += [spec.flux[a][i] == v, spec.ivar[a][i] == u]
    if reso:
        if a not in spec.reso or spec.reso[a].shape != (3, n):
            return False
        for d in range(3):
            for i in range(n):
                c.append(spec.reso[a][d][i] == rowval(a, r, i, tag) + 8 * d)
    return s_and(*c)


def check_all(E, specs, cat, files, arms, reso, group=None, exposures=False):
    """files: {group: (tids, tag)}; cat: [(tid, z, group)]"""
    nexp = 0
    for t, z, g in cat:
        tids, tag = files[g]
        have = count([x == t for x in tids])
        # each file row of this quasar gives one spectrum
        for r, x in enumerate(tids):
            if not bool(x == t):
                continue
            nexp += 1
            hits = []
            for s in specs:
                c = [s.targetid == t, s.catrow['Z'] == z]
                if group:
                    c.append(s.catrow[group] == g)
                c += [match(E, s, a, r, tag, reso) for a in arms]
                if exposures:
                    c += [s.catrow['EXPID'] == 400 + r,
                          s.catrow['NIGHT'] == 300 + r,
                          s.catrow['FIBER'] == 200 + r]
                hits.append(s_and(*c))
            E.check(count(hits) == 1,
                    'each spectrum has the data of its own quasar')
    E.check(len(specs) == nexp, 'one spectrum per catalog quasar in the file')


def read(E, kind, cats, nrows, arms, skip=False, two=False, dup=False,
         prog='dark'):
    """cats: number of catalog quasars per group."""
    groups = {'coadd': ['main', 'sv1'], 'exp': ['main', 'sv1'],
              'tile': [3, 8], 'mock': [5]}[kind][:len(cats)]
    files, cat, tids_all = {}, [], []
    inp = E.path('in')
    for k, (g, n) in enumerate(zip(groups, cats)):
        ft = [E.int(f'f{k}_{r}', T0 + 1, T0 + 6) for r in range(nrows[k])]
        if not dup:
            distinct(E, ft)
        files[g] = (ft, k)
        ct = [2 * i + 1 + (1 if two and i else 0) for i in range(n)]
        ct = [E.int(f'c{k}_{i}', T0 + 1, T0 + 6) for i in range(n)]
        for i in range(n - 1):
            E.assume(ct[i] < ct[i + 1])
        cat += [(t, 2. + .125 * i + k, g) for i, t in enumerate(ct)]
        hs = hdus(E, ft, arms, k, reso=kind != 'mock',
                  exp=True if kind == 'exp' else None)
        if kind in ('coadd', 'exp'):
            pre = 'coadd' if kind == 'coadd' else 'spectra'
            p = f'{inp}/{g}/{prog}/12/1234/{pre}-{g}-{prog}-1234.fits'
        elif kind == 'tile':
            p = f'{inp}/80605/20210205/coadd-{g}-80605-thru20210205.fits'
        else:
            p = f'{inp}/12/1234/spectra-16-1234.fits'
        E.fits(p, hs)
    N = len(cat)
    kw = dict(tid=[c[0] for c in cat], z=[c[1] for c in cat], pix=[1234] * N)
    if kind in ('coadd', 'exp'):
        kw['survey'] = [c[2] for c in cat]
    if kind == 'tile':
        kw.update(tile=[80605] * N, petal=[c[2] for c in cat],
                  extra={'LASTNIGHT': E.arr([20210205] * N, 'i')})
    t = catalog_table(E, N, **kw)
    f = E.get('qsonic.io', 'get_spectra_reader_function')
    rd = f(inp, arms, kind == 'mock', skip or kind == 'mock', False,
           kind == 'tile', kind == 'exp',
           **({} if prog == 'dark' else {'program': prog}))
    specs, e = E.attempt(rd, t)
    E.check(e is None, 'a readable file is read')
    if e is not None:
        return
    check_all(E, specs, cat, files, arms, not skip and kind != 'mock',
              {'coadd': 'SURVEY', 'exp': 'SURVEY', 'tile': 'PETAL_LOC'}.get(
                  kind), exposures=kind == 'exp')
    miss = s_or(*[s_not(s_or(*[x == t for x in files[g][0]]))
                  for t, z, g in cat])
    if bool(miss):
        E.check(len(E.warnings) > 0, 'missing quasars are warned about')
    if skip:
        for s in specs:
            E.check(not s.reso, 'no resolution when skipped')


def mock(E, n, m, mt, true_cont, reso):
    """Mock with truth file: true continuum rows matched, shared resolution."""
    inp = E.path('in')
    ft = [E.int(f'f{r}', T0 + 1, T0 + 5) for r in range(m)]
    tt = [E.int(f't{r}', T0 + 1, T0 + 5) for r in range(mt)]
    distinct(E, ft)
    distinct(E, tt)
    ct = [E.int(f'c{i}', T0 + 1, T0 + 5) for i in range(n)]
    for i in range(n - 1):
        E.assume(ct[i] < ct[i + 1])
    arms = ['B']
    E.fits(f'{inp}/12/1234/spectra-16-1234.fits',
           hdus(E, ft, arms, reso=False))
    tr = [('TRUE_CONT', E.table({
        'TARGETID': E.arr(tt, 'i'),
        'TRUE_CONT': E.arr([[8. * r + k for k in range(4)]
                            for r in range(mt)], 'f')}),
        {'WMIN': 3500., 'WMAX': 3506., 'DWAVE': 2.})]
    tr += [('B_RESOLUTION', E.arr([[4. * d + i for i in range(NP['B'])]
                                   for d in range(3)], 'f'), {})]
    E.fits(f'{inp}/12/1234/truth-16-1234.fits', tr)
    t = catalog_table(E, n, tid=ct, z=[2. + .5 * i for i in range(n)],
                      pix=[1234] * n)
    rd = E.get('qsonic.io', 'get_spectra_reader_function')(
        inp, arms, True, not reso, true_cont, False, False)
    specs, e = E.attempt(rd, t)
    infile = [s_or(*[x == c for x in ft]) for c in ct]
    intruth = [s_or(*[x == c for x in tt]) for c in ct]
    if true_cont:
        bad = s_or(*[s_and(a, s_not(b)) for a, b in zip(infile, intruth)])
        if e is not None:
            E.check(bad, 'complete truth is accepted')
            return
        E.check(s_not(bad), 'a missing true continuum is an error')
    else:
        E.check(e is None, 'a readable file is read')
        if e is not None:
            return
    E.check(count(infile) == len(specs),
            'one spectrum per catalog quasar in the file')
    for s in specs:
        rows = [r for r, x in enumerate(ft) if bool(x == s.targetid)]
        E.check(len(rows) == 1, 'spectrum of a catalog quasar')
        E.check(match(E, s, 'B', rows[0], 0., False),
                'each spectrum has the data of its own quasar')
        if true_cont:
            k = [r for r, x in enumerate(tt) if bool(x == s.targetid)][0]
            E.close(s.cont_params['true_data'],
                    E.arr([8. * k + q for q in range(4)], 'f'),
                    'true continuum of its own quasar')
            E.close(s.cont_params['true_data_w1'], 3500., 'continuum grid')
            E.close(s.cont_params['true_data_dwave'], 2., 'continuum grid')
        if reso:
            E.close(s.reso['B'], E.arr([[4. * d + i for i in range(NP['B'])]
                                        for d in range(3)], 'f'),
                    'mock resolution')


def onlyreso(E, n, m, two=False, arms=('B',), removed=False):
    """Resolution read after the fact lands on the right spectra."""
    inp = E.path('in')
    surveys = ['main', 'sv1'] if two else ['main']
    cat, files = [], {}
    for k, g in enumerate(surveys):
        ft = [E.int(f'f{k}_{r}', T0 + 1, T0 + 5) for r in range(m)]
        distinct(E, ft)
        files[g] = (ft, k)
        ct = [E.int(f'c{k}_{i}', T0 + 1, T0 + 5) for i in range(n)]
        for i in range(n - 1):
            E.assume(ct[i] < ct[i + 1])
        cat += [(t, 2.25 + .125 * i, g) for i, t in enumerate(ct)]
        E.fits(f'{inp}/{g}/dark/12/1234/coadd-{g}-dark-1234.fits',
               hdus(E, ft, list(arms), k))
    N = len(cat)
    S = E.mod('qsonic.spectrum')
    t = catalog_table(E, N, tid=[c[0] for c in cat], z=[c[1] for c in cat],
                      pix=[1234] * N, survey=[c[2] for c in cat])
    w = {a: E.arr(GRID[a][:NP[a]], 'f') for a in arms}
    specs, kept = [], []
    for i in range(N):
        s = S.Spectrum(t[i], w, {a: E.arr([[1.] * NP[a]], 'f') for a in arms},
                       {a: E.arr([[1.] * NP[a]], 'f') for a in arms},
                       {a: E.arr([[0] * NP[a]], 'i') for a in arms}, {}, 0)
        s.set_forest_region(4000.25, 4010., 1., 1e5)
        gone = E.choice(f'gone{i}', ['', 'B', 'R']) if len(arms) > 1 else ''
        if removed:
            s.remove_nonforest_pixels()
        if gone:
            s.drop_arm(gone)
        kept.append([a for a in arms if a != gone])
        specs.append(s)
    f = E.get('qsonic.io', 'read_resolution_matrices_onehealpix_data')
    out, e = E.attempt(f, t, inp, specs)
    E.check(e is None, 'a readable file is read')
    if e is not None:
        return
    E.check(len(out) == N, 'all spectra are returned')
    for s, (c, z, g), ka in zip(out, cat, kept):
        E.check(s_and(s.targetid == c, s.catrow['SURVEY'] == g),
                'order is kept')
        ft, tag = files[g]
        rows = [r for r, x in enumerate(ft) if bool(x == c)]
        for a in arms:
            if not rows or a not in ka:
                E.check(a not in s.forestreso,
                        'no resolution without data')
                continue
            E.check(a in s.forestreso, 'resolution of its own quasar')
            if a in s.forestreso:
                pix = [i for i, x in enumerate(GRID[a][:NP[a]]) if x > 4000.25]
                E.close(s.forestreso[a], E.arr(
                    [[rowval(a, rows[0], i, tag) + 8 * d for i in pix]
                     for d in range(3)], 'f'), 'resolution of its own quasar')


def cases(tier):
    big = tier == 'thorough'
    out = [('coadd 2 in 3', 'read', dict(kind='coadd', cats=[2], nrows=[3],
                                         arms=['B'])),
           ('coadd 3 in 2', 'read', dict(kind='coadd', cats=[3], nrows=[2],
                                         arms=['B'], skip=True)),
           ('coadd arms', 'read', dict(kind='coadd', cats=[2], nrows=[2],
                                       arms=['B', 'R'])),
           ('coadd surveys', 'read', dict(kind='coadd', cats=[1, 2],
                                          nrows=[1, 2], arms=['B'])),
           ('tile petals', 'read', dict(kind='tile', cats=[2, 1],
                                        nrows=[2, 1], arms=['B'])),
           ('tile', 'read', dict(kind='tile', cats=[2], nrows=[3],
                                 arms=['B'], skip=True)),
           ('tile one', 'read', dict(kind='tile', cats=[1], nrows=[2],
                                     arms=['B'], skip=True)),
           ('mock one', 'read', dict(kind='mock', cats=[1], nrows=[1],
                                     arms=['B'])),
           ('coadd one', 'read', dict(kind='coadd', cats=[1], nrows=[1],
                                      arms=['B'], skip=True)),
           ('mock', 'read', dict(kind='mock', cats=[2], nrows=[3],
                                 arms=['B'])),
           ('coadd program', 'read', dict(kind='coadd', cats=[1], nrows=[1],
                                          arms=['B'], prog='bright')),
           ('exposures program', 'read', dict(
               kind='exp', cats=[1], nrows=[1], arms=['B'], prog='bright')),
           ('exposures', 'read', dict(kind='exp', cats=[2], nrows=[3],
                                      arms=['B'], dup=True)),
           ('exposures surveys', 'read', dict(kind='exp', cats=[1, 1],
                                              nrows=[2, 1], arms=['B'],
                                              dup=True)),
           ('true continuum', 'mock', dict(n=2, m=2, mt=2, true_cont=True,
                                           reso=False)),
           ('true continuum 3', 'mock', dict(n=1, m=2, mt=3, true_cont=True,
                                             reso=True)),
           ('mock resolution', 'mock', dict(n=2, m=2, mt=1, true_cont=False,
                                            reso=True)),
           ('reso later', 'onlyreso', dict(n=2, m=2)),
           ('reso later one', 'onlyreso', dict(n=1, m=2)),
           ('reso later removed', 'onlyreso', dict(n=2, m=2, removed=True)),
           ('reso later 3', 'onlyreso', dict(n=2, m=3)),
           ('reso later arms', 'onlyreso', dict(n=2, m=2, arms=('B', 'R'))),
           ('reso later surveys', 'onlyreso', dict(n=1, m=2, two=True))]
    if big:
        out += [('coadd 3 in 3', 'read', dict(kind='coadd', cats=[3],
                                              nrows=[3], arms=['B'])),
                ('exposures 4', 'read', dict(kind='exp', cats=[2], nrows=[4],
                                             arms=['B'], dup=True)),
                ('true continuum 2/3', 'mock',
                 dict(n=2, m=3, mt=3, true_cont=True, reso=False))]
    return out
