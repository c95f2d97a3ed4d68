"""C20: what delta files hold, and what is read back from them."""
import math

from .common import T0, AllArgs, ssum, ite, s_or, whole_forest

BOUNDS = {'quick': '1-3 spectra of 1-2 arms of 2-3 pixels, any flux, '
                   'continuum in [1/2, 2], inverse variance and weight >= 0, '
                   'validity, healpix pixel and TARGETID; with and without '
                   'resolution matrix, exposure ids, smoothing and blinding; '
                   'all combinations of alternative columns and keys when '
                   'reading',
          'thorough': '3 spectra of 2 arms'}
OUTSIDE = 'rounding of header values by FITS'

WAVES = {'B': [4000., 4000.5, 4001.], 'R': [4000.5, 4001., 4001.5]}
NIGHTS = {'none': 0, 'desi_m2': 20210601, 'desi_y1': 20220101,
          'desi_y3': 20230101}


class Args(AllArgs):
    mock_analysis = False
    forest_w1 = 1040.
    skip_resomat = True


def blind(S, how, reso=False):
    a = Args()
    a.skip_resomat = not reso
    a.mock_analysis = how == 'none'
    S.set_blinding(NIGHTS[how], a)


class Const:
    def __init__(self, E, v):
        self.E, self.v = E, v

    def __call__(self, x):
        return self.E.arr([self.v] * len(x), 'f')


def make(E, k, npix, tid, pix, valid, reso=None, conc=False, snr0=None,
         smooth=0, flo=.25, undo=False, **extra):
    arms = ['B', 'R'][:len(npix)]
    waves = {a: WAVES[a][:n] for a, n in zip(arms, npix)}
    t = dict(waves=waves, tid=tid, pix=pix, valid=valid)
    if conc:
        t['f'] = {a: [1.5 - .25 * i for i in range(len(w))]
                  for a, w in waves.items()}
        t['i'] = {a: [1. + i for i in range(len(w))]
                  for a, w in waves.items()}
    else:
        t['f'] = {a: E.reals(f'f{k}{a}', len(w), flo, 2)
                  for a, w in waves.items()}
        t['i'] = {a: (E.reals(f'i{k}{a}', 1, 0, 2) if k == 0 else [.5])
                  + [1. + i for i in range(len(w) - 1)]
                  for a, w in waves.items()}
    if snr0 is not None:        # one arm of zero signal
        a = arms[snr0]
        t['f'][a] = [1., -1.] + [0.] * (npix[snr0] - 2)
        t['i'][a] = [1., 1.] + [1.] * (npix[snr0] - 2)
    s = whole_forest(E, waves, t['f'], t['i'], tid=tid, pix=pix,
                     ra=10. + k, dec=-20. + k, z=2.5 + k / 8,
                     reso={a: reso(w) for a, w in waves.items()}
                     if reso else None, **extra)
    if conc:
        t['c'] = {a: [1. + .25 * i for i in range(len(w))]
                  for a, w in waves.items()}
    else:
        t['c'] = {a: E.reals(f'c{k}{a}', len(w), .5, 2)
                  for a, w in waves.items()}
    if flo < 0:
        for a in waves:
            E.assume(s_or(s.mean_snr[a] > 1e-3, s.mean_snr[a] < -1e-3))
    s.cont_params['valid'] = valid
    if valid:
        s.cont_params['cont'] = {a: E.arr(v, 'f') for a, v in t['c'].items()}
        if smooth:
            s.set_smooth_forestivar(smooth)
        elif undo:
            s.set_smooth_forestivar(16.)
            s.set_smooth_forestivar(0)
        s.set_forest_weight(Const(E, .25), Const(E, 1.))
    elif k % 2 == 0:        # invalid although it has a continuum
        s.cont_params['cont'] = {a: E.arr(v, 'f') for a, v in t['c'].items()}
    t['w'] = {a: [v / (1 + .25 * v * c * c)
                  for v, c in zip(t['i'][a], t['c'][a])] for a in waves}
    if smooth:
        t['w'] = {a: [s.forestweight[a][i] for i in range(len(waves[a]))]
                  for a in waves}
    t['spec'] = s
    return t


def pixels(E, t, a, h, col):
    E.close(h.data['LAMBDA'], E.arr(t['waves'][a], 'f'), 'wavelengths')
    for i in range(len(t['waves'][a])):
        c, iv = t['c'][a][i], t['i'][a][i]
        E.close(h.data['CONT'][i], c, 'continuum')
        E.close(h.data['IVAR'][i], iv * c * c, 'inverse variance of delta')
        E.close(h.data['WEIGHT'][i], t['w'][a][i] * c * c, 'weight of delta')
        E.close(h.data[col][i], ite(iv == 0, 0., t['f'][a][i] / c - 1),
                'delta is flux over continuum minus one')


def save(E, spec, by, how='none', reso=False, exp=False, snr0=None,
         smooth=0, flo=.25, stale=False, plain=False, sg=1.25,
         undo=False):
    S = E.get('qsonic.spectrum', 'Spectrum')
    io = E.mod('qsonic.io')
    blind(S, how, reso or plain)
    col = 'DELTA' if how == 'none' else 'DELTA_BLIND'
    kern = {}

    def rs(w):
        k = [[math.exp(-.5 * (q / sg)**2) for _ in w]
             for q in range(-4, 5)]
        kern['k'] = k
        return k
    ts = []
    for k, npix in enumerate(spec):
        extra = {}
        if exp:
            extra = dict(EXPID=70 + k % 2, NIGHT=20210101 + k, FIBER=3 + k,
                         TILEID=77)
        valid = bool(E.bool(f'v{k}'))
        pix = E.int(f'p{k}', 4, 6) if by == 'hpx' else 5
        ts.append(make(E, k, npix, T0 + 100 + (k // 2 if exp else k), pix, valid,
                       reso=rs if reso else None, conc=reso or smooth or undo,
                       snr0=snr0, smooth=smooth, flo=flo, undo=undo, **extra))
    d = E.path('out')
    E.mkdir(d)
    for q in ((4, 5, 6) if by == 'hpx' else (3,)) if stale else ():
        E.fits(f'{d}/delta-{q}.fits', [('OLD', E.table({
            c: E.arr([1., 2.], 'f') for c in (
                'LAMBDA', col, 'IVAR', 'WEIGHT', 'CONT')}),
            {'TARGETID': 1, 'MEANSNR': 1.})])
    r, e = E.attempt(io.save_deltas, [t['spec'] for t in ts], d,
                     save_by_hpx=by == 'hpx', mpi_rank=3)
    E.check(e is None, 'deltas are saved')
    if e is not None:
        return
    want = {}
    for k, t in enumerate(ts):
        if not t['valid']:
            continue
        f = int(E.value(t['pix'])) if by == 'hpx' else 3
        for a in t['waves']:
            if snr0 is not None and a == list(t['waves'])[snr0]:
                continue
            ext = f"{t['tid']}-{a}" + (f'-{70 + k % 2}' if exp else '')
            want.setdefault(f'{d}/delta-{f}.fits', {})[ext] = (t, a, k)
    got = {}
    for f in E.files():
        if f.startswith(d + '/'):
            r, e = E.attempt(E.read_fits, f)
            E.check(e is None, 'delta files can be read')
            if e is not None:
                return
            r2, e = E.attempt(io.read_deltas, f)
            E.check(e is None, 'delta files can be read')
            if e is not None:
                return
            if [x.ext for x in r] == ['OLD'] and f not in want:
                continue    # no spectra of this pixel in this run
            if r:
                got[f] = (r, r2)
    E.check(sorted(got) == sorted(want), 'one file per pixel or rank')
    for f in want:
        if f not in got:
            return
        hs, deltas = got[f]
        E.check(sorted(h.ext for h in hs) == sorted(want[f]),
                'every arm of every valid spectrum once, and nothing else')
        if sorted(h.ext for h in hs) != sorted(want[f]):
            return
        E.check(len(deltas) == len(hs), 'as many deltas read as written')
        for h, dl in zip(hs, deltas):
            t, a, k = want[f][h.ext]
            pixels(E, t, a, h, col)
            head(E, t, a, k, h, how, exp, smooth)
            n = len(t['waves'][a])
            E.check(('RESOMAT' in list(h.data.dtype.names)) == bool(reso),
                    'resolution matrix iff there is one')
            E.check(dl.targetid == t['tid'], 'read back')
            for x, c in (('wave', 'LAMBDA'), ('delta', col),
                         ('ivar', 'IVAR'), ('weight', 'WEIGHT'),
                         ('cont', 'CONT')):
                E.close(getattr(dl, x), h.data[c], 'read back')
            if reso:
                E.check(h.data['RESOMAT'].shape == (n, 9), 'shape of resolution')
                for q in range(9):
                    for i in range(n):
                        E.close(h.data['RESOMAT'][i][q], kern['k'][q][i],
                                'resolution')
                        E.close(dl.reso[q][i], kern['k'][q][i],
                                'resolution read back')
                wt = t['w'][a]
                leff = ssum(x * y for x, y in zip(wt, t['waves'][a])) \
                    / ssum(wt)
                E.close(h.hdr['MEANRESO'], sg * .5 * 3e5 / leff,
                        'mean resolution in km/s', rtol=1e-5, atol=1e-5)


def head(E, t, a, k, h, how, exp, smooth):
    n = len(t['waves'][a])
    for key in ('TARGETID', 'LOS_ID'):
        E.check(h.hdr[key] == t['tid'], 'header ' + key)
    for key, v in (('RA', math.radians(10. + k)),
                   ('DEC', math.radians(-20. + k)), ('Z', 2.5 + k / 8),
                   ('DELTA_LAMBDA', .5), ('SMSCALE', smooth)):
        E.close(h.hdr[key], v, 'header ' + key)
    E.check(str(h.hdr['BLINDING']).strip() == how, 'header BLINDING')
    E.check(str(h.hdr['WAVE_SOLUTION']).strip() == 'lin',
            'header WAVE_SOLUTION')
    s = t['spec']
    E.close(h.hdr['MEANSNR'], s.mean_snr[a], 'header MEANSNR of the arm')
    E.close(h.hdr['RSNR'], s.rsnr, 'header RSNR')
    if exp:
        for key, v in (('EXPID', 70 + k % 2), ('NIGHT', 20210101 + k),
                       ('FIBER', 3 + k), ('TILEID', 77)):
            E.close(h.hdr[key], v, 'header ' + key)


def refuse(E):
    """Nothing is saved without an output folder; blinding must be set."""
    S = E.get('qsonic.spectrum', 'Spectrum')
    io = E.mod('qsonic.io')
    what = E.choice('what', ['blind', 'mode', 'none', 'empty'])
    if what != 'blind':
        blind(S, 'none')
    by = bool(E.bool('by'))
    t = make(E, 0, [2], T0 + 100, 5, True)
    d = E.path('out')
    E.mkdir(d)
    if what == 'mode':
        r, e = E.attempt(io.save_deltas, [t['spec']], d)
    elif what == 'none':
        r, e = E.attempt(io.save_deltas, [t['spec']],
                         E.choice('o', ['', None]), by, 3)
    elif what == 'empty':
        r, e = E.attempt(io.save_deltas, [], d, by, 3)
        E.check(e is None, 'a rank without spectra is no error')
        if e is None:
            for f in E.files():
                r, e = E.attempt(io.read_deltas, f)
                E.check(e is None and len(r) == 0,
                        'delta files can be read')
        return
    else:
        r, e = E.attempt(io.save_deltas, [t['spec']], d, by, 3)
    if what == 'none':
        E.check(e is None, 'no output folder, no output')
    else:
        E.check(e is not None and type(e).__name__ == 'QsonicException',
                'saving is refused')
    E.check(not [f for f in E.files() if f.endswith('.fits')],
            'nothing is written')


def read(E):
    """All alternative names of columns and keys."""
    io = E.mod('qsonic.io')
    n = 2
    wv = E.choice('wave', ['LAMBDA', 'LOGLAM', ''])
    dc = E.choice('delta', ['DELTA', 'DELTA_BLIND', ''])
    kc = E.choice('key', ['TARGETID', 'THING_ID', 'MOCKID', ''])
    rs = bool(E.bool('reso'))
    cols = {}
    if wv == 'LAMBDA':
        cols['LAMBDA'] = E.arr([4000., 4000.5], 'f')
    elif wv:
        cols['LOGLAM'] = E.arr([3.5, 3.75], 'f')
    d = E.reals('d', n, -2, 2)
    iv = [E.real('i', 0, 2), 1.25]
    w, c = E.reals('w', n, 0, 2), E.reals('c', n, -2, 2)
    if dc:
        cols[dc] = E.arr(d, 'f')
    cols['IVAR'] = E.arr(iv, 'f')
    cols['WEIGHT'] = E.arr(w, 'f')
    cols['CONT'] = E.arr(c, 'f')
    r = [[.25, .5, .125], [.5, 1., .25]]
    if rs:
        cols['RESOMAT'] = E.arr(r, 'f')
    hdr = {'MEANSNR': E.real('s', 0, 4)}
    tid = E.int('t', T0 + 7, T0 + 8)
    if kc:
        hdr[kc] = tid
    p = E.path('in/delta-1.fits')
    E.fits(p, [('x', E.table(cols), hdr)])
    got, e = E.attempt(io.read_deltas, p)
    if not (wv and dc and kc):
        E.check(e is not None, 'incomplete delta files are refused')
        return
    E.check(e is None, 'delta files can be read')
    if e is not None:
        return
    E.check(len(got) == 1, 'one delta per extension')
    g = got[0]
    E.check(g.targetid == tid, 'quasar id')
    E.close(g.mean_snr, hdr['MEANSNR'], 'mean SNR')
    E.close(g.wave, E.arr([4000., 4000.5] if wv == 'LAMBDA'
                          else [10**3.5, 10**3.75], 'f'), 'wavelengths')
    for i in range(n):
        E.close(g.delta[i], ite(iv[i] == 0, 0., d[i]), 'delta')
        E.close(g.ivar[i], iv[i], 'inverse variance')
        E.close(g.weight[i], w[i], 'weight')
        E.close(g.cont[i], c[i], 'continuum')
        if rs:
            for q in range(3):
                E.close(g.reso[q][i], r[i][q], 'resolution')
    if not rs:
        E.check(g.reso is None, 'no resolution')
    # and writing it again
    o = E.path('in/again.fits')
    f = E.openfits(o)
    g.write(f)
    f.close()
    g2 = io.read_deltas(o)
    h = E.read_fits(o)
    E.check(len(g2) == 1, 'written once')
    E.check(h[0].ext == str(E.value(tid)), 'extension name')
    E.check((dc in h[0].data.dtype.names), 'blinded deltas stay blinded')
    for x in ('targetid', 'mean_snr', 'wave', 'delta', 'ivar', 'weight',
              'cont'):
        E.close(getattr(g2[0], x), getattr(g, x), 'written again')
    if rs:
        E.close(g2[0].reso, g.reso, 'written again')


def cases(tier):
    big = tier == 'thorough'
    out = [('hpx 2', 'save', dict(spec=[[2], [2]], by='hpx')),
           ('hpx 3', 'save', dict(spec=[[2], [2], [2]], by='hpx')),
           ('hpx arms', 'save', dict(spec=[[2, 2], [2, 2]], by='hpx',
                                     how='desi_y1')),
           ('rank', 'save', dict(spec=[[3], [3]], by='rank')),
           ('rank again', 'save', dict(spec=[[2]], by='rank', stale=True)),
           ('hpx again', 'save', dict(spec=[[2], [2]], by='hpx',
                                      stale=True)),
           ('rank arms', 'save', dict(spec=[[2, 2]], by='rank',
                                      how='desi_m2', smooth=16.)),
           ('reso', 'save', dict(spec=[[3, 3], [3, 3]], by='rank', reso=True)),
           ('reso wide', 'save', dict(spec=[[3]], by='rank', reso=True,
                                      sg=20.)),
           ('no reso', 'save', dict(spec=[[2], [2]], by='rank', plain=True)),
           ('exposures', 'save', dict(spec=[[2], [2], [2]], by='hpx',
                                      exp=True)),
           ('no signal', 'save', dict(spec=[[2, 2]], by='rank', snr0=-1)),
           ('no signal first', 'save', dict(spec=[[2, 2], [2, 2]], by='rank',
                                            snr0=0)),
           ('negative signal', 'save', dict(spec=[[2, 2]], by='rank',
                                            flo=-2)),
           ('smoothing undone', 'save', dict(spec=[[2]], by='rank',
                                             undo=True)),
           ('nothing', 'save', dict(spec=[[2]], by='rank', snr0=0)),
           ('refuse', 'refuse', {}),
           ('read', 'read', {})]
    if big:
        out += [('hpx 3 arms', 'save', dict(spec=[[2, 2], [2, 2], [2, 2]],
                                            by='hpx'))]
    return out
