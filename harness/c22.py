"""C22: which spectra are analysed: SNR cuts, length cut, arms."""
from .common import (T0, AllArgs, ssum, ite, s_and, s_or, s_not, catalog_table, whole_forest,
                     make_spec, GRID)

BOUNDS = {'quick': '1-3 quasars in 1-2 mock files, 1-2 arms of 4-6 pixels, '
                   'fluxes of any value on two pixels per arm, any pixels '
                   'masked, any SNR limits, any length ratio in [0, 1], any '
                   'wavelength limits between pixels, coadded before or not, '
                   '1-2 ranks',
          'thorough': 'two arms with all pixels of any value'}
OUTSIDE = 'SNR limits within rounding of the SNR'

Z = 4001.6 / 1215.67 - 1
B = [4000., 4000.5, 4001., 4001.5, 4002., 4002.5]
R = [4001., 4001.5, 4002., 4002.5, 4003.]
IV = {'B': [4., 1., 1., 2.25, 1., 4.], 'R': [1., 4., .25, 1., 1.]}
FL = {'B': [1., .5, 1.5, 1., 2., 1.], 'R': [.5, 1., 2., 1.5, 1.]}


def sq(v):
    return {4.: 2., 1.: 1., 2.25: 1.5, .25: .5, 0.: 0.}[v]


class Args(AllArgs):
    def __init__(self, **k):
        self.input_dir = ''
        self.arms = ['B', 'R']
        self.mock_analysis, self.skip_resomat = True, True
        self.true_continuum, self.tile_format = False, False
        self.exposures, self.coadd_arms = 'disable', 'disable'
        self.wave1, self.wave2 = 3600., 6000.
        self.forest_w1, self.forest_w2 = 1000., 1215.9
        self.min_rsnr, self.min_forestsnr, self.skip = 0., 0., 0.
        self.noise_calibration = self.flux_calibration = None
        self.__dict__.update(k)


class Masker:
    """Masks given pixels of given quasars."""

    def __init__(self, what):
        self.what = what

    def apply(self, spec):
        for a, x in self.what.get(int(spec.targetid), []):
            if a in spec.forestwave:
                w = spec.forestwave[a]
                for i in range(len(w)):
                    if w[i] == x:
                        spec.forestflux[a][i] = 0
                        spec.forestivar[a][i] = 0


def world(E, quasars, arms):
    """quasars: [(tid, pix, flux, ivar)] -> files and catalogs."""
    inp = E.path('in')
    waves = {'B': B, 'R': R}
    pixs = sorted({q[1] for q in quasars})
    queue = []
    for p in pixs:
        qs = [q for q in quasars if q[1] == p]
        h = [('FIBERMAP', E.table({'TARGETID': E.arr([q[0] for q in qs],
                                                     'i')}), {})]
        for a in arms:
            h += [(a + '_WAVELENGTH', E.arr(waves[a], 'f'), {}),
                  (a + '_FLUX', E.arr([q[2][a] for q in qs], 'f'), {}),
                  (a + '_IVAR', E.arr([q[3][a] for q in qs], 'f'), {}),
                  (a + '_MASK', E.arr([[0] * len(waves[a])] * len(qs), 'i'),
                   {})]
        E.fits(f'{inp}/{p // 100}/{p}/spectra-16-{p}.fits', h)
        queue.append(catalog_table(E, len(qs), tid=[q[0] for q in qs],
                                   z=[Z] * len(qs), pix=[p] * len(qs)))
    return inp, queue


def run(E, n, arms, what, size=1, mask=False, coadd=False):
    """what: which limit is of any value."""
    waves = {'B': B, 'R': R}
    quasars = []
    for k in range(n):
        f = {a: list(FL[a]) for a in arms}
        iv = {a: list(IV[a]) for a in arms}
        if what == 'rsnr':
            for a in arms:
                f[a][-1] = E.real(f'f{k}{a}', -4, 8)
        elif what == 'fsnr':
            f['B'][1] = E.real(f'f{k}B', -8, 8)
        elif what == 'dark':
            # exactly at the limits, which are zero
            for a in arms:
                f[a] = [0.] * len(f[a])
        elif what == 'none':
            for a in arms:
                for i in range(2 if a == 'R' else 4):
                    z = E.bool(f'z{k}{a}{i}')
                    if bool(z):
                        iv[a][i] = 0.
        if k % 2 and what != 'none':
            iv[arms[-1]][0] = 0.
        quasars.append((T0 + 100 + k, 21 + 1200 * (k // 2), f, iv))
    inp, queue = world(E, quasars, arms)
    kw = {}
    if what == 'rsnr':
        kw['min_rsnr'] = E.real('min', -1, 4)
    if what == 'fsnr':
        kw['min_forestsnr'] = E.real('min', -2, 6)
    if what == 'skip':
        kw['skip'] = E.real('skip', 0, 1)
        kw['forest_w1'] = 1215.9 - 1.6
    if what == 'wave':
        kw['wave1'] = E.real('w1', 3999.9, 4001.4)
        kw['wave2'] = E.real('w2', 4000.1, 4003)
        for w in B + R:
            for q in ('wave1', 'wave2'):
                E.assume(s_or(kw[q] > w + 1e-6, kw[q] < w - 1e-6))
    args = Args(input_dir=inp, arms=arms,
                coadd_arms='before' if coadd else 'disable', **kw)
    hide = {}
    maskers = []
    if mask:
        for k in range(n):
            hide[T0 + 100 + k] = [(a, x) for a in arms
                             for i, x in enumerate(waves[a][:3])
                             if bool(E.bool(f'm{k}{a}{i}'))]
        if coadd:
            hide = {t: [('brz', x) for _, x in v] for t, v in hide.items()}
        maskers = [Masker(hide)]

    def f(comm, rank, mod):
        m = mod('qsonic.scripts.qsonic_fit')
        q = [c for i, c in enumerate(queue) if i % size == rank]
        return m.mpi_read_calibrate_mask_select_spectra(
            q, maskers, args, comm, rank)
    got = []
    for o in E.spmd(size, f):
        E.check(o.exc is None, 'spectra are read and selected')
        if o.exc is not None:
            return
        got += list(o.value)
    l1 = args.wave1
    l2 = (1 + Z) * args.forest_w2
    hi = args.wave2
    want = []
    for tid, pix, fl, iv in quasars:
        arm = {}
        rs, rn = 0., 1e-6
        for a in arms:
            sel = [i for i, x in enumerate(waves[a])
                   if x < l2 and bool(s_and(x > l1, x < hi))]
            if any(iv[a][i] > 0 for i in sel):
                arm[a] = sel
            for i, x in enumerate(waves[a]):
                if x >= 4001.6 and iv[a][i] > 0:
                    rs, rn = rs + fl[a][i] * sq(iv[a][i]), rn + 1
        if not arm:
            continue
        if what == 'rsnr':
            s = rs / rn
            E.assume(s_or(s > args.min_rsnr + 1e-6, s < args.min_rsnr - 1e-6))
            if bool(s < args.min_rsnr):
                continue
        snr = {}
        for a, sel in arm.items():
            m = sum(iv[a][i] > 0 for i in sel)
            snr[a] = ssum(fl[a][i] * sq(iv[a][i]) for i in sel) / m
        # after masking
        pixs = {}
        for a, sel in arm.items():
            for i in sel:
                x = waves[a][i]
                out = (('brz' if coadd else a), x) in hide.get(tid, [])
                key = ('brz' if coadd else a, x)
                pixs[key] = pixs.get(key, False) or (iv[a][i] > 0
                                                     and not out)
        n1 = sum(pixs.values())
        if what == 'skip' and bool(args.skip > 0):
            lim = args.skip * (1 + Z) * 1.6 / .5
            E.assume(s_or(n1 > lim + 1e-6, n1 < lim - 1e-6))
            if not bool(n1 > lim):
                continue
        if what == 'fsnr' and not coadd:
            e = ssum(v * v * v for v in snr.values()) \
                / (1e-8 + ssum(v * v for v in snr.values()))
            E.assume(s_or(e > args.min_forestsnr + 1e-6,
                          e < args.min_forestsnr - 1e-6))
            if bool(e < args.min_forestsnr):
                continue
        want.append((tid, pixs, arm, snr))
    E.check(sorted(int(s.targetid) for s in got)
            == sorted(w[0] for w in want),
            'exactly the spectra that pass all cuts')
    if sorted(int(s.targetid) for s in got) != sorted(w[0] for w in want):
        return
    for tid, pixs, arm, snr in want:
        s = next(x for x in got if int(x.targetid) == tid)
        live = sorted({a for (a, x), v in pixs.items() if v}) if mask \
            else sorted({a for a, x in pixs})
        E.check(sorted(s.forestwave) == live, 'arms with good pixels')
        if sorted(s.forestwave) != live:
            continue
        for a in live:
            xs = sorted(x for (b, x) in pixs if b == a)
            E.check(len(s.forestwave[a]) == len(xs),
                    'pixels within the limits')
            if len(s.forestwave[a]) != len(xs):
                continue
            for i, x in enumerate(xs):
                E.close(s.forestwave[a][i], x, 'wavelength')
                E.check(bool(s.forestivar[a][i] > 0) == bool(pixs[a, x]),
                        'good pixels')
            if a in snr:
                E.close(s.mean_snr[a], snr[a], 'mean SNR of the arm')
        E.close(s.get_real_size(), sum(pixs.values()),
                'number of good pixels')


def arms_cut(E, npix, edge=0):
    """drop_short_arms, slice and size of one spectrum."""
    arms = ['B', 'R'][:len(npix)]
    waves = {a: GRID[a][:n] for a, n in zip(arms, npix)}
    iv = {a: [0. if bool(E.bool(f'z{a}{i}')) else 1. + i for i in range(n)]
          for a, n in zip(arms, npix)}
    E.assume(s_or(*[v > 0 for a in arms for v in iv[a]]))
    s = whole_forest(E, waves, {a: [1. + .5 * i for i in range(n)]
                                for a, n in zip(arms, npix)}, iv, z=3.,
                     reso={a: [[1.] * n] * 3 for a, n in zip(arms, npix)})
    s.cont_params['valid'] = True
    s.cont_params['cont'] = {a: E.arr([2.] * n, 'f')
                             for a, n in zip(arms, npix)
                             if a in s.forestwave}
    l1, l2 = 1000., 1000.75
    if edge:
        # exactly representable limits: one, two and three pixels
        r = edge / 6 if edge == 3 else .125 * edge
        l2 = 1000.75 if edge == 3 else 1001.
        t = float(edge)
    else:
        r = E.real('r', 0, 1)
        t = r * 6
        for k in range(7):
            E.assume(s_or(t > k + 1e-6, t < k - 1e-6))
    m = sum(v > 0 for a in arms for v in iv[a])
    E.check(bool(s.is_long(l2 - l1, r)) == bool(m > t),
            'long if more pixels are there than the limit')
    s.drop_short_arms(l1, l2, r)
    for a in arms:
        m = sum(v > 0 for v in iv[a])
        keep = bool(s_and(m > 0, m > t))
        E.check((a in s.forestwave) == keep, 'short arms are dropped')
        for d in (s.forestflux, s.forestivar, s.forestivar_sm,
                  s.forestweight, s.forestreso, s.cont_params['cont']):
            E.check((a in d) == (a in s.forestwave),
                    'an arm is dropped everywhere')


def cut(E, n, smooth, i12):
    """Slicing cuts every quantity of the arm in the same way."""
    waves = {'B': GRID['B'][:n]}
    fl, iv = E.reals('f', n, .5, 2), [1. + i for i in range(n)]
    reso = [[1. + i + 8 * d for i in range(n)] for d in range(3)]
    s = whole_forest(E, waves, {'B': fl}, {'B': iv}, reso={'B': reso})
    ct = [1. + .125 * i for i in range(n)]
    s.cont_params['cont'] = {'B': E.arr(ct, 'f')}
    s.cont_params['valid'] = True
    if smooth == 'smooth':
        s.set_smooth_forestivar(1.)
    if smooth == 'weight':
        from .c20 import Const
        s.set_forest_weight(Const(E, .25), Const(E, 1.))
    before = {k: [getattr(s, k)['B'][i] for i in range(n)] for k in (
        'forestwave', 'forestflux', 'forestivar', 'forestivar_sm',
        'forestweight')}
    i1, i2 = i12
    s.slice('B', i1, i2)
    for k, v in before.items():
        g = getattr(s, k)['B']
        E.check(len(g) == i2 - i1, 'every quantity has the cut size')
        if len(g) == i2 - i1:
            E.close(g, E.arr(v[i1:i2], 'f'), 'cut values of ' + k)
    E.check(s.forestreso['B'].shape == (3, i2 - i1),
            'every quantity has the cut size')
    if s.forestreso['B'].shape == (3, i2 - i1):
        for d in range(3):
            E.close(s.forestreso['B'][d], E.arr(reso[d][i1:i2], 'f'),
                    'cut resolution')
    c = s.cont_params['cont']['B']
    E.check(len(c) == i2 - i1, 'every quantity has the cut size')
    if len(c) == i2 - i1:
        E.close(c, E.arr(ct[i1:i2], 'f'), 'cut continuum')


def cases(tier):
    big = tier == 'thorough'
    out = [('rsnr', 'run', dict(n=2, arms=['B', 'R'], what='rsnr')),
           ('fsnr', 'run', dict(n=1, arms=['B'], what='fsnr')),
           ('fsnr arms', 'run', dict(n=2, arms=['B', 'R'], what='fsnr')),
           ('skip', 'run', dict(n=1, arms=['B', 'R'], what='skip',
                                mask=True)),
           ('skip coadd', 'run', dict(n=1, arms=['B', 'R'], what='skip',
                                      mask=True, coadd=True)),
           ('wave', 'run', dict(n=1, arms=['B', 'R'], what='wave')),
           ('short arms at 1', 'arms_cut', dict(npix=[3, 3], edge=1)),
           ('short arms at 2', 'arms_cut', dict(npix=[3, 3], edge=2)),
           ('short arms at 3', 'arms_cut', dict(npix=[4, 3], edge=3)),
           ('dark', 'run', dict(n=2, arms=['B', 'R'], what='dark')),
           ('masked', 'run', dict(n=1, arms=['B', 'R'], what='none',
                                  mask=False)),
           ('ranks', 'run', dict(n=3, arms=['B'], what='rsnr', size=2)),
           ('empty rank', 'run', dict(n=2, arms=['B'], what='skip', size=2)),
           ('short arms', 'arms_cut', dict(npix=[3, 3]))]
    for sm in ('plain', 'smooth', 'weight'):
        for i12 in ((0, 4), (1, 4), (0, 2), (1, 3)):
            out.append((f'slice {sm} {i12}', 'cut', dict(
                n=4, smooth=sm, i12=list(i12))))
    if big:
        out += [('masked 2', 'run', dict(n=2, arms=['B', 'R'], what='none')),
                ('short arms 5', 'arms_cut', dict(npix=[5, 5]))]
    return out
