"""C08: sky and BAL masks zero exactly the pixels in the masked ranges."""
from .common import (s_and, s_or, s_not, ite, GRID, whole_forest, smin, smax)

BOUNDS = {'quick': 'sky: 1-2 mask rows, any limits, frames OBS/RF/other, any '
                   'redshift, 1-2 arms of 2-4 pixels; BAL: 1-2 troughs per '
                   'quasar, any velocities, 18 transitions, 3 pixels',
          'thorough': 'sky: 3 rows; BAL: 2 symbolic troughs'}
OUTSIDE = 'longer mask files; rest-frame limits within 1e-6 A of a pixel'
C = 299792.458
LINES = [1549, 1403, 1394, 1240.81, 1216.1, 1175, 1128, 1117, 1074, 1062,
         1031, 1037, 1039, 1025.7, 972.5, 977.0, 989.9, 949.7]


def sky_reader(E, rows):
    """ascii.read of a four column text file."""
    def read(fname, names=None, **k):
        names = list(names) if names is not None else \
            ['col1', 'col2', 'col3', 'col4']
        kind = [None, 'f', 'f', None]
        return E.table({n: E.arr([r[i] for r in rows], kind[i])
                        for i, n in enumerate(names)})
    return read


def forest(E, npix, z, **extra):
    arms = ['B', 'R'][:len(npix)]
    waves = {a: GRID[a][:n] for a, n in zip(arms, npix)}
    flux = {a: [3. + i for i in range(len(w))] for a, w in waves.items()}
    ivar = {a: [2. + i for i in range(len(w))] for a, w in waves.items()}
    return waves, flux, ivar, whole_forest(E, waves, flux, ivar, z=z, **extra)


def judge(E, spec, waves, flux, ivar, bad):
    for a, w in waves.items():
        E.check(a in spec.forestwave, 'masks keep the arms')
        E.close(spec.forestwave[a], E.arr(w, 'f'), 'wavelengths untouched')
        for i, x in enumerate(w):
            b = bad(x)
            E.close(spec.forestivar[a][i], ite(b, 0., ivar[a][i]),
                    'weight is zero exactly in masked ranges')
            E.close(spec.forestflux[a][i], ite(b, 0., flux[a][i]),
                    'flux is zero exactly in masked ranges')


def sky(E, npix, frames):
    z = E.real('z', 1, 3)
    rows = []
    for k, fr in enumerate(frames):
        if fr == 'RF':
            lo, hi = E.real(f'lo{k}', 900, 2100), E.real(f'hi{k}', 900, 2100)
        else:
            lo, hi = E.real(f'lo{k}', 3990, 4010), E.real(f'hi{k}', 3990, 4010)
        E.assume(lo <= hi)
        rows.append(('SKY', lo, hi, fr))
    waves, flux, ivar, spec = forest(E, npix, z)
    for a in waves:
        for x in waves[a]:
            for _, lo, hi, fr in rows:
                if fr == 'RF':
                    for q in (lo, hi):
                        d = x - q * (1 + z)
                        E.assume(s_or(d > 1e-6, d < -1e-6))
    if E.symbolic:
        E.stub('astropy.io.ascii.read', sky_reader(E, rows))
    p = E.textfile('sky.txt', ['%s %r %r %s' % r for r in rows]) \
        if not E.symbolic else E.path('sky.txt')
    mask = E.get('qsonic.masks', 'SkyMask')(p)
    mask.apply(spec)

    def bad(x):
        return s_or(*[s_and(lo <= x, x < hi) if fr == 'OBS' else
                      s_and(lo * (1 + z) <= x, x < hi * (1 + z))
                      for _, lo, hi, fr in rows if fr in ('OBS', 'RF')])
    judge(E, spec, waves, flux, ivar, bad)


def bal(E, pix, ntr, z0, vhi=25000):
    M = E.get('qsonic.masks', 'BALMask')
    z = z0 if z0 else E.real('z', 2, 3)
    v = {}
    for c in ('450', '2000'):
        n = ntr.get(c, 0)
        v[c] = ([E.real(f'vmin{c}_{k}', -1, vhi) for k in range(n)] or [-1.],
                [E.real(f'vmax{c}_{k}', -1, vhi) for k in range(n)] or [-1.])
        if not n:
            E_ = -1.
    waves = {'B': pix}
    flux = {'B': [3. + i for i in range(len(pix))]}
    ivar = {'B': [2. + i for i in range(len(pix))]}
    S = E.get('qsonic.spectrum', 'Spectrum')
    cols = {'TARGETID': E.arr([101], 'i'), 'Z': E.arr([z], 'f'),
            'RA': E.arr([1.], 'f'), 'DEC': E.arr([1.], 'f'),
            'HPXPIXEL': E.arr([5], 'i')}
    for c in v:
        cols['VMIN_CIV_' + c] = E.arr([v[c][0]], 'f')
        cols['VMAX_CIV_' + c] = E.arr([v[c][1]], 'f')
    tab = E.table(cols)
    M.check_catalog(tab)
    spec = S(tab[0], {'B': E.arr(pix, 'f')}, {'B': E.arr([flux['B']], 'f')},
             {'B': E.arr([ivar['B']], 'f')}, {'B': E.arr([[0] * len(pix)], 'i')},
             {}, 0)
    spec.set_forest_region(pix[0] - 1, pix[-1] + 1, 1., 1e5)
    rng = []
    for c in v:
        for a, b in zip(*v[c]):
            ok = s_and(a > 0, b > 0)
            if not bool(ok):
                continue
            for ln in LINES:
                e1 = ln * (1 + z) * (1 - a / C)
                e2 = ln * (1 + z) * (1 - b / C)
                rng.append((smin(e1, e2), smax(e1, e2)))
    for x in pix:
        for lo, hi in rng:
            for q in (lo, hi):
                E.assume(s_or(x - q > 1e-6, x - q < -1e-6))
    M.apply(spec)
    judge(E, spec, waves, flux, ivar,
          lambda x: s_or(*[s_and(lo <= x, x < hi) for lo, hi in rng]))


def bal_lines(E, part):
    """Every transition: pixels on its blue side."""
    bal(E, sorted(4 * x * (1 - 600 / C) for x in LINES[part::3]),
        {'450': 1}, 3., vhi=1200)


def balcols(E):
    M = E.get('qsonic.masks', 'BALMask')
    names = ['VMIN_CIV_450', 'VMAX_CIV_450', 'VMIN_CIV_2000', 'VMAX_CIV_2000']
    have = [bool(E.bool('has%d' % i)) for i in range(4)]
    cols = {'TARGETID': E.arr([1], 'i')}
    for n, h in zip(names, have):
        if h:
            cols[n] = E.arr([[1.]], 'f')
    _, e = E.attempt(M.check_catalog, E.table(cols))
    E.check((e is None) == all(have),
            'BAL masking is refused exactly when a column is missing')


def cases(tier):
    big = tier == 'thorough'
    out = [(f'BAL lines {k}', 'bal_lines', dict(part=k)) for k in range(3)]
    out += [('sky OBS', 'sky', dict(npix=[4], frames=['OBS'])),
           ('sky RF', 'sky', dict(npix=[3], frames=['RF'])),
           ('sky OBS+RF', 'sky', dict(npix=[2], frames=['OBS', 'RF'])),
           ('sky two arms', 'sky', dict(npix=[2, 2], frames=['OBS'])),
           ('sky two arms RF', 'sky', dict(npix=[2, 2], frames=['RF'])),
           ('sky OBS+OBS', 'sky', dict(npix=[3], frames=['OBS', 'OBS'])),
           ('sky other frame', 'sky', dict(npix=[2], frames=['XX', 'OBS']))]
    if big:
        out += [('sky 3 rows', 'sky',
                 dict(npix=[3], frames=['RF', 'OBS', 'RF'])),
                ('sky RF+RF', 'sky', dict(npix=[3], frames=['RF', 'RF']))]
    px = [4000., 4000.5, 4001.]
    out += [('bal columns', 'balcols', {}),
            ('bal 450', 'bal', dict(pix=px[:2], ntr={'450': 1}, z0=2.5)),
            ('bal 2000', 'bal', dict(pix=px[:2], ntr={'2000': 1}, z0=2.75)),
            ('bal wide', 'bal',
             dict(pix=[4100., 4200., 4300.], ntr={'450': 1}, z0=2.5))]
    if big:
        out += [('bal any z', 'bal', dict(pix=px[:2], ntr={'450': 1}, z0=0)),
                ('bal both', 'bal',
                 dict(pix=px[:2], ntr={'450': 1, '2000': 1}, z0=2.5))]
    return out
