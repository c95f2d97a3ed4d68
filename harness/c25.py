"""C25: qsonic-fit as a whole, on any number of ranks."""
import math
import sys

from .c08 import sky_reader
from .c09 import profile
from .common import T0, ssum, ite, s_and, s_or, s_not, catalog_table

BOUNDS = {'quick': '1-3 quasars in 1-3 pixels (or tiles) with any placement, '
                   'one or two arms of 3-4 pixels with any flux on one pixel '
                   'each, true (mocks) or input (data) continua with fiducial '
                   'mean flux and var_lss, DLA and BAL masks on or off, any '
                   'sky mask limits, noise and flux calibration, additive '
                   'noise, with and without resolution matrix, any last night of each quasar, any redshift of '
                   'one quasar around the limits, deltas by rank or by '
                   'pixel, coadd and single exposures, 1-3 ranks',
          'thorough': 'same'}
OUTSIDE = ('fitted continua (see C19) and fitted variances (see C17): '
           'curve_fit and UnivariateSpline are replaced by fixed results; '
           'fewer variance bins than in production')

Z = 2.4
GRIDS = {'B': [4000., 4000.8, 4001.6, 4002.4],
         'R': [4001.6, 4002.4, 4003.2]}
C0, DC = 3960., 20.
NC = 8
MF, VL = .75, .125
NIGHTS = [20210101, 20210601, 20220101, 20230101]


class Fit:
    def __init__(self, E):
        self.E = E

    def __call__(self, f, xdata, ydata, p0=None, sigma=None, **kw):
        n = len(self.E.np.atleast_1d(p0))
        return (self.E.arr([.25, 1.5][:n], 'f'),
                self.E.arr([[.25, 0.][:n], [0., 4.]][:n], 'f'))


class Spline:
    def __init__(self, E):
        self.E = E

    def __call__(self, x, y, w=None, **k):
        return lambda z: self.E.arr(list(y), 'f') if len(z) == len(y) \
            else y[0] + 0 * z


def shrink(mod, nv=5):
    """Fewer bins of noise, and no minimum of pixels."""
    m = mod('qsonic.picca_continuum')
    V = m.VarLSSFitter
    if getattr(V, 'small', False):
        return

    class Small(V):
        min_num_pix = min_num_qso = 0
        small = True

        def __init__(self, w1, w2, nwbins=None, var1=1e-4, var2=20.,
                     nvarbins=100, nsubsamples=None, use_cov=False,
                     comm=None):
            V.__init__(self, w1, w2, nwbins, var1, var2, nv, 2, use_cov,
                       comm)
    m.VarLSSFitter = Small


def rcol(k):
    """Resolution kernel of a quasar: the same in every pixel."""
    s = 1. + .25 * k
    return [math.exp(-.5 * (x / s)**2) for x in range(-3, 4)]


def hdus(E, tids, flux, ivar, arms, WAVES, reso=None):
    h = [('FIBERMAP', E.table({'TARGETID': E.arr(tids, 'i')}), {})]
    for a in arms:
        n = len(WAVES[a])
        h += [(a + '_WAVELENGTH', E.arr(WAVES[a], 'f'), {}),
              (a + '_FLUX', E.arr([f[a] for f in flux], 'f'), {}),
              (a + '_IVAR', E.arr([i[a] for i in ivar], 'f'), {}),
              (a + '_MASK', E.arr([[0] * n] * len(tids), 'i'), {})]
        if reso:
            h.append((a + '_RESOLUTION', E.arr(
                [[[v] * n for v in r] for r in reso], 'f'), {}))
    return h


def level(t):
    """Continuum of a quasar: a constant of its own, exact for splines."""
    return 1. + .25 * (t - T0 - 100)


def run(E, n, npix, size, data=False, dla=False, bal=False, hpx=False,
        arms=('B',), coadd='disable', extra=(), free=True, sky=False,
        ncal='', fcal=False, nodir=False, limits=None, reso=None,
        invalid=False, fitvar=False, smooth=0):
    arms = list(arms)
    tid = [T0 + 100 + k for k in range(n)]
    place = [E.choice(f'p{k}', [21 + 1300 * j for j in range(npix)])
             if k else 21 for k in range(n)]
    night = [E.int(f'n{k}', 20200101, 20260101) if data else 0
             for k in range(n)]
    zs = [Z] * n
    WAVES = GRIDS
    fw, skip, rfd = (1150., 1210.), 0., 15.
    if limits:
        fw, skip, rfd = (1176., 1208.), limits, 8.
        WAVES = {'B': [4000., 4032., 4064., 4096.], 'R': [4064., 4096.]}
        zs = [2.392] * n
        zs[0] = E.real('z', 2.28, 2.5)
        for w in WAVES['B']:    # which pixels are within is unambiguous
            for q in fw:
                d = w - q * (1 + zs[0])
                E.assume(s_or(d > 1e-3, d < -1e-3))
    inp, out, cd = E.path('in'), E.path('out'), E.path('cont')
    F = [{a: [(E.real(f'f{k}{a}', .25, 4) if free and i == 1 and k < 2 else
               1. + .25 * i + k + (.5 if a == 'R' else 0.))
              for i in range(len(WAVES[a]))] for a in arms}
         for k in range(n)]
    I = [{a: [1., 2., .5 + k, 1.][:len(WAVES[a])] if not smooth else
          [1.5 + k + (a == 'R')] * len(WAVES[a]) for a in arms}
         for k in range(n)]
    # functions that go into weights
    VL, ET = (.25, 1.5) if fitvar else (globals()['VL'], 1.)
    bad = E.choice('bad', list(range(n))) if invalid else None
    how = E.choice('how', ['missing', 'negative', 'nan']) if invalid else ''
    E.stub('healpy.ang2pix', lambda nside, *a, **k: E.arr(
        [9] * E.np.atleast_1d(a[0]).size, 'i')
        if hasattr(a[0], '__len__') else 9)
    for p in sorted(set(place)):
        ks = [k for k in range(n) if place[k] == p]
        d = f'{inp}/main/dark/{p // 100}/{p}/coadd-main-dark-{p}.fits' \
            if data else f'{inp}/{p // 100}/{p}/spectra-16-{p}.fits'
        E.fits(d, hdus(E, [tid[k] for k in ks], [F[k] for k in ks],
                       [I[k] for k in ks], arms, WAVES,
                       [rcol(k) for k in ks] if reso == 'yes' and data
                       else None))
        if not data:
            E.fits(f'{inp}/{p // 100}/{p}/truth-16-{p}.fits', [
                ('TRUE_CONT', E.table({
                    'TARGETID': E.arr([tid[k] for k in ks], 'i'),
                    'TRUE_CONT': E.arr([[level(tid[k])] * NC for k in ks],
                                       'f')}),
                 {'WMIN': C0, 'WMAX': C0 + DC * (NC - 1), 'DWAVE': DC})] + [
                (a + '_RESOLUTION', E.arr([[v] * len(WAVES[a])
                                           for v in rcol(0)], 'f'), {})
                for a in (arms if reso else ())])
    ex = {}
    if bal:
        for q in ('450', '2000'):
            for m in ('MIN', 'MAX'):
                ex[f'V{m}_CIV_{q}'] = E.arr(
                    [[-1.] * (3 if q == '450' else 2)] * n, 'f')
    cat = E.path('cat.fits')
    E.fits(cat, [('CAT', catalog_table(
        E, n, tid=tid, z=zs, pix=place,
        survey=['main'] * n if data else None, night=night, extra=ex), {})])
    fid = E.path('fid.fits')
    E.fits(fid, [('STATS', E.table({
        'LAMBDA': E.arr([3900. + 150 * i for i in range(5)], 'f'),
        'MEANFLUX': E.arr([MF] * 5, 'f'),
        'VAR_LSS': E.arr([VL] * 5, 'f')}), {})])
    argv = ['qsonic-fit', '-i', inp, '--catalog', cat,
            '--arms'] + arms + ([] if reso else ['--skip-resomat']) + [
        '--coadd-arms', coadd, '--fiducial-meanflux', fid] + (
            ['--var-fit-eta'] if fitvar else ['--fiducial-varlss', fid]) + [
        '--wave1', '3984' if limits else '3960',
        '--wave2', '4112' if limits else '4440',
        '--forest-w1', str(fw[0]), '--forest-w2', str(fw[1]),
        '--rfdwave', str(rfd),
        '--skip', str(skip), '--smoothing-scale', str(smooth)] + list(extra)
    if not nodir:
        argv += ['-o', out]
    slo = shi = None
    if sky:
        slo, shi = E.real('slo', 3990, 4001), E.real('shi', 3990, 4002)
        E.assume(slo <= shi)
        rows = [('SKY', slo, shi, 'OBS')]
        if E.symbolic:
            E.stub('astropy.io.ascii.read', sky_reader(E, rows))
        argv += ['--sky-mask', E.textfile(
            'sky.txt', ['%s %r %r %s' % r for r in rows])
            if not E.symbolic else E.path('sky.txt')]
    eta, addl, q = 1., 0., 1.
    if ncal:
        eta, addl = 1.5, (.0625 if ncal == 'add' else 0.)
        p = E.path('ncal.fits')
        E.fits(p, [('VAR_FUNC', E.table({
            'lambda': E.arr([3900. + 150 * i for i in range(5)], 'f'),
            'var_lss': E.arr([.0625] * 5, 'f'),
            'eta': E.arr([eta] * 5, 'f')}), {})])
        argv += ['--noise-calibration', p]
        if ncal == 'add':
            argv += ['--varlss-as-additive-noise']
    if fcal:
        q = 1.25
        p = E.path('fcal.fits')
        E.fits(p, [('STACKED_FLUX', E.table({
            'lambda': E.arr([3900. + 150 * i for i in range(5)], 'f'),
            'stacked_flux': E.arr([q] * 5, 'f')}), {})])
        argv += ['--flux-calibration', p]
    if data:
        cids = [t for t in tid[::-1]
                if how != 'missing' or t != tid[bad]]
        worse = {'negative': -.5, 'nan': float('nan')}
        E.fits(cd + '/input-continuum-8-9.fits', [
            ('FIBERMAP', E.table({'TARGETID': E.arr(cids, 'i')}), {}),
            ('CONTINUA', E.arr([[worse[how] if bad == t - T0 - 100
                                 and how in worse else level(t)] * NC
                                for t in cids], 'f'),
             {'WAVE1': 1140., 'DWAVE': 10.})])
        argv += ['--input-continuum-dir', cd]
    else:
        argv += ['--mock-analysis', '--true-continuum']
    gone = None
    if dla:
        gone = E.int('dla', T0 + 99, T0 + 100 + n)
        p = E.path('dla.fits')
        E.fits(p, [('DLACAT', E.table({
            'TARGETID': E.arr([gone], 'i'),
            'Z_DLA': E.arr([2.28 if dla == 'wing' else 2.2915], 'f'),
            'NHI': E.arr([20. if dla == 'wing' else 21.5], 'f'), 'DLAID': E.arr([1], 'i')}), {})])
        argv += ['--dla-mask', p]
    if bal:
        argv += ['--bal-mask']
    if hpx:
        argv += ['--save-by-hpx']
    r = launch(E, argv, size)
    left = [k for k in range(n) if gone is None or dla == 'wing'
            or bool(gone != tid[k])]
    maybe = []
    inside = {(k, a): WAVES[a] for k in range(n) for a in arms}
    free_arms = set()
    if limits:
        for k in list(left):
            tot = 0
            need = skip * (fw[1] - fw[0]) * (1 + zs[k]) / 32.
            for a in arms:
                inside[k, a] = [w for w in WAVES[a] if bool(s_and(
                    w > fw[0] * (1 + zs[k]), w < fw[1] * (1 + zs[k])))]
                m = len(inside[k, a])
                tot += m
                if m == 0 or bool(m < need - 1e-6):
                    del inside[k, a]
                elif bool(m < need + 1e-6):
                    free_arms.add((k, a))
            if bool(tot < need - 1e-6):
                left.remove(k)
            # the redshift cut of the catalog does not know the pixels
            elif bool(s_or(
                    tot < need + 1e-6,
                    4112. - fw[0] * (1 + zs[k]) < 32. * need + 1e-3,
                    fw[1] * (1 + zs[k]) - 3984. < 32. * need + 1e-3)):
                maybe.append(k)
    fitted = list(left)
    if invalid:
        left.remove(bad)
    if not left:
        return
    for o in r:
        E.check(o.exc is None, 'the run succeeds on every rank')
        if o.exc is not None:
            return
    E.check(not E.shared_files(), 'no file is overwritten by two ranks')
    if nodir:
        E.check(not [f for f in E.files() if 'delta' in f.split('/')[-1]
                     or 'chi2' in f or 'attributes' in f],
                'no output folder, no output')
        return
    blind = 'none'
    if data:
        m = night[0]
        for x in night[1:]:
            m = ite(x > m, x, m)
        blind = ('none' if bool(m < 20210514) else
                 'desi_m2' if bool(m < 20210801) else
                 'desi_y1' if bool(m < 20220801) else 'desi_y3')
    got = {}
    for fn in E.files():
        if not fn.startswith(out + '/delta-'):
            continue
        for h in E.read_fits(fn):
            if not h.ext or h.data is None:
                continue
            t = int(E.value(h.hdr['TARGETID']))
            a = str(h.ext).split('-')[-1]
            E.check((t, a) not in got, 'each quasar is saved once')
            got[t, a] = h
            if hpx:
                E.check(fn.endswith('delta-%d.fits' % place[t - T0 - 100]),
                        'the file is that of the pixel')
            E.check(str(h.hdr['BLINDING']).strip() == blind,
                    'blinding strategy of the newest night of all ranks')
    left = [k for k in left if k not in maybe
            or tid[k] in {t for t, _ in got}]
    if limits:
        want = sorted((tid[k], a) for k, a in inside
                      if k in left and (k, a) not in free_arms)
        E.check(sorted(x for x in got if (x[0] - T0 - 100, x[1])
                       not in free_arms) == want,
                'every arm that is long enough is saved')
        if any((t - T0 - 100, a) not in inside for t, a in got):
            return
    else:
        names = ['brz'] if coadd != 'disable' else arms
        E.check(sorted({t for t, _ in got}) == [tid[k] for k in left],
                'every quasar that is not masked is saved')
        E.check(len(got) == len(left) * len(names), 'every arm is saved')
        if len(got) != len(left) * len(names):
            return
    for (t, arm), h in got.items():
        k = t - T0 - 100
        c = level(t) * MF
        x = h.data['LAMBDA']
        if limits:
            E.close(x, E.arr(inside[k, arm], 'f'), 'wavelengths in the forest')
        names = list(h.data.dtype.names)
        E.check(('RESOMAT' in names) == (reso == 'yes'),
                'resolution matrix iff there is one')
        if reso == 'yes' and 'RESOMAT' in names:
            E.check(h.data['RESOMAT'].shape == (len(x), 7),
                    'shape of the resolution matrix')
            for i in range(len(x)):
                for q_, v in enumerate(rcol(k if data else 0)):
                    E.close(h.data['RESOMAT'][i][q_], v,
                            'resolution of the quasar')
            E.close(h.hdr['MEANRESO'], (1. + (.25 * k if data else 0.)) * .8 * 3e5 / 4001.2,
                    'mean resolution of the quasar', rtol=1e-3)
        for i in range(len(x)):
            v = round(float(x[i]), 4)
            pix = []
            for a in arms:
                if v in WAVES[a] and (coadd != 'disable' or
                                      str(h.ext).upper().count(a)):
                    j = WAVES[a].index(v)
                    pix.append((F[k][a][j], I[k][a][j]))
            E.check(bool(pix), 'wavelengths of the spectrum')
            if not pix:
                return
            pix = [(f_ / q, i_ / eta * q * q) for f_, i_ in pix]
            if sky and bool(s_and(slo <= v, v < shi)):
                pix = [(0., 0.)]
                for col in ('DELTA', 'IVAR', 'WEIGHT'):
                    E.close(h.data[col][i], 0., 'masked pixel')
                continue
            if dla == 'wing' and bool(gone == t):
                T = profile(v, 2.28, 20.)
                if T < .8:
                    for col in ('DELTA', 'IVAR', 'WEIGHT'):
                        E.close(h.data[col][i], 0., 'masked pixel')
                    continue
                pix = [(f_ / T, i_ * T * T) for f_, i_ in pix]
            if addl:
                pix = [(f_, i_ / (1 + i_ * addl * c * c)) for f_, i_ in pix]
            if coadd == 'after':
                W = [i_ / (ET + i_ * VL * c * c) for _, i_ in pix]
                fl = ssum(f_ * w for (f_, _), w in zip(pix, W)) / sum(W)
                iv = sum(W)**2 / sum(w * w / q
                                     for w, (_, q) in zip(W, pix))
            else:
                iv = sum(q for _, q in pix)
                fl = ssum(f_ * q for f_, q in pix) / iv
            d = h.data['DELTA' if blind == 'none' else 'DELTA_BLIND'][i]
            E.close(d, fl / c - 1, 'delta of the quasar')
            E.close(h.data['CONT'][i], c, 'continuum of the quasar')
            E.close(h.data['IVAR'][i], iv * c * c, 'noise of the delta')
            if smooth and coadd == 'after':
                continue        # smoothed over unlike pixels, see C16
            E.close(h.data['WEIGHT'][i],
                    iv * c * c / (ET + iv * c * c * VL),
                    'weight of the delta')
    fn = out + '/continuum_chi2_catalog.fits'
    E.check(E.exists(fn), 'chi2 catalog')
    if E.exists(fn):
        t = [h for h in E.read_fits(fn) if h.ext == 'CHI2_CAT'][0].data
        ids = sorted(int(E.value(x)) for x in t['TARGETID'])
        E.check(len(set(ids)) == len(ids) and {tid[k] for k in left}
                <= set(ids) <= set(tid),
                'every quasar is in the chi2 catalog once')
        if invalid:
            E.check(ids == [tid[k] for k in fitted],
                    'quasars without a valid continuum are in the catalog')
        for x in t:
            k = int(E.value(x['TARGETID'])) - T0 - 100
            if k != bad and k not in left:
                continue
            E.check(bool(x['CONT_valid']) == (k != bad),
                    'validity of the continuum')
            if k == bad:
                E.close(x['CONT_chi2'], -1., 'no chi2 without continuum')
                continue
            if limits or (addl and coadd != 'after') or (
                    fitvar and coadd != 'after'):
                continue
            chi2 = ssum(w * d * d for (q_, _), h in got.items() if q_ == T0 + k + 100
                        for w, d in zip(h.data['WEIGHT'], h.data[
                            'DELTA' if blind == 'none' else 'DELTA_BLIND']))
            E.close(x['CONT_chi2'], chi2, 'chi2 of the deltas saved',
                    rtol=1e-4, atol=1e-4)
    fn = out + '/attributes.fits'
    E.check(E.exists(fn), 'attributes')


def launch(E, argv, size):
    E.stub('scipy.optimize.curve_fit', Fit(E))
    E.stub('scipy.interpolate.UnivariateSpline', Spline(E))

    def f(comm, rank, mod):
        shrink(mod)
        mod('qsonic.scripts.qsonic_fit').mpi_run_all(comm, rank, size)
    old = sys.argv
    sys.argv = argv
    try:
        return E.spmd(size, f)
    finally:
        sys.argv = old


def variant(E, kind, n, size):
    """Tiles instead of pixels; single exposures before or after the fit."""
    W = GRIDS['B']
    tid = [T0 + 100 + k for k in range(n)]
    place = [E.choice(f'p{k}', [0, 1]) if k else 0 for k in range(n)]
    inp, out, cd = E.path('in'), E.path('out'), E.path('cont')
    nexp = [1 if kind == 'tile' else 1 + E.choice(f'e{k}', [0, 1])
            for k in range(n)]

    def flux(k, e):
        return [1. + .25 * i + k + .125 * e if i != 1 or k or e else f0
                for i in range(4)]

    def ivar(k, e):
        return [1., 2., .5 + k, 1. + e]
    f0 = E.real('f', .25, 4)
    E.stub('healpy.ang2pix', lambda nside, *a, **k: E.arr(
        [9] * E.np.atleast_1d(a[0]).size, 'i')
        if hasattr(a[0], '__len__') else 9)

    def h(rows, exps):
        hs = hdus(E, [tid[k] for k, _ in rows],
                  [{'B': flux(k, e)} for k, e in rows],
                  [{'B': ivar(k, e)} for k, e in rows], ['B'], GRIDS)
        if exps:
            hs[0] = ('FIBERMAP', E.table({
                'TARGETID': E.arr([tid[k] for k, _ in rows], 'i'),
                'PETAL_LOC': E.arr([1] * len(rows), 'i'),
                'FIBER': E.arr([7 + k for k, _ in rows], 'i'),
                'NIGHT': E.arr([20210101 + e for _, e in rows], 'i'),
                'EXPID': E.arr([50 + e for _, e in rows], 'i'),
                'TILEID': E.arr([77] * len(rows), 'i')}), {})
        return hs
    for p in sorted(set(place)):
        ks = [k for k in range(n) if place[k] == p]
        if kind == 'tile':
            E.fits(f'{inp}/{80 + p}/20200101/coadd-{p}-{80 + p}-thru'
                   '20200101.fits', h([(k, 0) for k in ks], False))
            continue
        for pre in ('coadd', 'spectra'):
            rows = [(k, e) for k in ks for e in
                    range(nexp[k] if pre == 'spectra' else 1)][::-1]
            E.fits(f'{inp}/main/dark/0/{21 + p}/{pre}-main-dark-{21 + p}'
                   '.fits', h(rows, pre == 'spectra'))
    cat, fid = E.path('cat.fits'), E.path('fid.fits')
    E.fits(cat, [('CAT', catalog_table(
        E, n, tid=tid, z=[Z] * n, pix=[21 + p for p in place],
        survey=['main'] * n, night=[20200101] * n,
        **(dict(tile=[80 + p for p in place], petal=place)
           if kind == 'tile' else {})), {})])
    E.fits(fid, [('STATS', E.table({
        'LAMBDA': E.arr([3900. + 150 * i for i in range(5)], 'f'),
        'MEANFLUX': E.arr([MF] * 5, 'f'),
        'VAR_LSS': E.arr([VL] * 5, 'f')}), {})])
    E.fits(cd + '/input-continuum-8-9.fits', [
        ('FIBERMAP', E.table({'TARGETID': E.arr(tid[::-1], 'i')}), {}),
        ('CONTINUA', E.arr([[level(t)] * NC for t in tid[::-1]], 'f'),
         {'WAVE1': 1140., 'DWAVE': 10.})])
    argv = ['qsonic-fit', '-i', inp, '-o', out, '--catalog', cat,
            '--skip-resomat', '--arms', 'B', '--fiducial-meanflux', fid,
            '--fiducial-varlss', fid, '--wave1', '3960', '--wave2', '4440',
            '--forest-w1', '1150', '--forest-w2', '1210', '--rfdwave', '15',
            '--skip', '0', '--smoothing-scale', '0', '--coadd-arms',
            'disable', '--input-continuum-dir', cd]
    argv += ['--tile-format'] if kind == 'tile' else ['--exposures', kind]
    for o in launch(E, argv, size):
        E.check(o.exc is None, 'the run succeeds on every rank')
        if o.exc is not None:
            return
    got = {}
    for fn in E.files():
        if fn.startswith(out + '/delta-'):
            for x in E.read_fits(fn):
                if x.ext and x.data is not None:
                    E.check(x.ext not in got, 'each spectrum is saved once')
                    got[x.ext] = x
    want = {f'{tid[k]}-B' + ('' if kind == 'tile' else f'-{50 + e}'): (k, e)
            for k in range(n) for e in range(nexp[k])}
    E.check(sorted(got) == sorted(want), 'every spectrum is saved')
    if sorted(got) != sorted(want):
        return
    for x, (k, e) in want.items():
        x = got[x]
        c = level(tid[k]) * MF
        E.check(x.hdr['TARGETID'] == tid[k],
                'quasar of the extension')
        if kind != 'tile':
            E.close(x.hdr['EXPID'], 50 + e, 'exposure of the extension')
            E.close(x.hdr['NIGHT'], 20210101 + e, 'night of the exposure')
        E.close(x.data['LAMBDA'], E.arr(W, 'f'), 'wavelengths')
        for i in range(4):
            E.close(x.data['CONT'][i], c, 'continuum of the quasar')
            E.close(x.data['DELTA'][i], flux(k, e)[i] / c - 1,
                    'delta of the exposure')
            E.close(x.data['IVAR'][i], ivar(k, e)[i] * c * c,
                    'noise of the delta')


def cases(tier):
    out = [('mock 1 rank', 'run', dict(n=2, npix=2, size=1)),
           ('mock 2 ranks', 'run', dict(n=2, npix=2, size=2)),
           ('mock 3 ranks', 'run', dict(n=3, npix=2, size=3, free=False)),
           ('mock hpx', 'run', dict(n=3, npix=3, size=2, hpx=True,
                                    free=False)),
           ('dla', 'run', dict(n=2, npix=2, size=2, dla=True, free=False)),
           ('bal', 'run', dict(n=2, npix=1, size=2, bal=True, free=False)),
           ('data 1 rank', 'run', dict(n=1, npix=1, size=1, data=True)),
           ('data 2 ranks', 'run', dict(n=2, npix=2, size=2, data=True,
                                        free=False)),
           ('data nights', 'run', dict(n=3, npix=2, size=1, data=True,
                                       free=False)),
           ('data 3 ranks', 'run', dict(n=2, npix=1, size=3, data=True,
                                        free=False, dla=True, bal=True)),
           ('coadd before', 'run', dict(n=2, npix=1, size=1,
                                        arms=('B', 'R'), coadd='before')),
           ('coadd after', 'run', dict(n=2, npix=1, size=1,
                                       arms=('B', 'R'), coadd='after',
                                       free=False)),
           ('sky', 'run', dict(n=1, npix=1, size=1, sky=True)),
           ('noise calibration', 'run', dict(n=2, npix=2, size=2,
                                             ncal='eta', free=False)),
           ('additive noise', 'run', dict(n=2, npix=2, size=2, ncal='add')),
           ('flux calibration', 'run', dict(n=2, npix=2, size=2, fcal=True,
                                            ncal='eta')),
           ('additive noise after', 'run', dict(
               n=1, npix=1, size=1, ncal='add', fcal=True, coadd='after',
               arms=('B', 'R'), free=False)),
           ('no folder', 'run', dict(n=2, npix=2, size=2, nodir=True,
                                     free=False)),
           ('limits', 'run', dict(n=2, npix=1, size=1, limits=.3,
                                  free=False)),
           ('limits long', 'run', dict(n=2, npix=1, size=2, limits=.8,
                                       free=False)),
           ('limits arms', 'run', dict(n=2, npix=1, size=1, limits=.8,
                                       arms=('B', 'R'), free=False)),
           ('limits some', 'run', dict(n=2, npix=1, size=1, limits=.5,
                                       arms=('B', 'R'), free=False)),
           ('tiles', 'variant', dict(kind='tile', n=2, size=2)),
           ('exposures before', 'variant', dict(kind='before', n=2,
                                                size=2)),
           ('exposures after', 'variant', dict(kind='after', n=2, size=2)),
           ('dla wing', 'run', dict(n=2, npix=2, size=2, dla='wing',
                                    free=False)),
           ('resolution', 'run', dict(n=2, npix=2, size=2, reso='yes',
                                      free=False)),
           ('resolution data', 'run', dict(n=2, npix=2, size=2, reso='yes',
                                           free=False, data=True)),
           ('resolution after', 'run', dict(
               n=2, npix=1, size=1, reso='yes', free=False, data=True,
               arms=('B', 'R'), coadd='after')),
           ('resolution before', 'run', dict(
               n=2, npix=2, size=2, reso='yes', free=False,
               arms=('B', 'R'), coadd='before')),
           ('no resolution', 'run', dict(n=1, npix=1, size=2, reso='no',
                                         data=True,
                                         free=False)),
           ('invalid', 'run', dict(n=2, npix=2, size=2, data=True,
                                   free=False, invalid=True)),
           ('fitted variance', 'run', dict(
               n=1, npix=1, size=1, data=True, free=False, coadd='after',
               fitvar=True)),
           ('fitted variance additive', 'run', dict(
               n=1, npix=1, size=2, data=True, free=False, ncal='add',
               fitvar=True)),
           ('additive smooth', 'run', dict(n=1, npix=1, size=1, ncal='add',
                                           smooth=16)),
           ('additive smooth after', 'run', dict(
               n=1, npix=1, size=1, ncal='add', smooth=16, coadd='after',
               arms=('B', 'R'), free=False)),
           ('two arms', 'run', dict(n=2, npix=2, size=2, free=False,
                                    arms=('B', 'R')))]
    return out
