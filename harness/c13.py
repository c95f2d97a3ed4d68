"""C13: coadding deltas of the same quasar is the weighted mean per
wavelength; the coadd script writes every quasar once."""
import os
import sys

from .common import T0, s_and, s_or, ite, ssum

BOUNDS = {'quick': 'two deltas of 2-3 pixels (overlapping, touching, with a '
                   'gap), any delta, continuum, inverse variance >= 0 and '
                   'weight; 2-3 input files of 1-2 quasars with any TARGETIDs '
                   'through the whole script',
          'thorough': 'three deltas coadded in sequence'}
OUTSIDE = ('deltas on grids shifted against each other; process pools '
           '(replaced by an in-order map)')

PAIRS = {'over': ([4000., 4000.5, 4001.], [4000.5, 4001.]),
         'same': ([4000., 4000.5], [4000., 4000.5]),
         'gap': ([4000., 4000.5], [4001.5, 4002.]),
         'decimal': ([4000., 4000.8, 4001.6], [4001.6, 4002.4]),
         'rev': ([4001., 4001.5], [4000., 4000.5, 4001.]),
         'touch': ([4000., 4000.5], [4001., 4001.5])}


def hdu(E, name, wave, d, iv, w, c, tid=101, reso=None, snr=1., ra=.5,
        dec=.25, blind=False, dw=.5):
    cols = {'LAMBDA': E.arr(wave, 'f'),
            ('DELTA_BLIND' if blind else 'DELTA'): E.arr(d, 'f'),
            'IVAR': E.arr(iv, 'f'), 'WEIGHT': E.arr(w, 'f'),
            'CONT': E.arr(c, 'f')}
    if reso:
        cols['RESOMAT'] = E.arr(reso, 'f')
    return (name, E.table(cols), {
        'TARGETID': tid, 'LOS_ID': tid, 'MEANSNR': snr, 'RA': ra, 'DEC': dec,
        'Z': 2.5, 'DELTA_LAMBDA': dw})


def sym(E, tag, n, common):
    """delta, ivar, weight, cont; weight = ivar / (1 + ivar * var_lss)."""
    d = E.reals('d' + tag, n, -2, 2)
    iv = E.reals('i' + tag, n, 0, 4)
    for v in iv:
        E.assume(s_or(v == 0, v >= .25))
    E.assume(s_or(*[v > 0 for v in iv]))
    return d, iv


def pair(E, which, reso=None):
    waves = PAIRS[which]
    D = E.get('qsonic.spectrum', 'Delta')
    io = E.mod('qsonic.io')
    objs, spec = [], []
    xs0 = sorted({x for w in waves for x in w})
    dw = .8 if which == 'decimal' else .5
    nx = round((xs0[-1] - xs0[0]) / dw) + 1
    xs = [round(xs0[0] + dw * i, 6) for i in range(nx)]
    vl = dict(zip(xs, [.125 * (1 + k % 3) for k in range(nx)]))
    for k, w in enumerate(waves):
        n = len(w)
        d, iv = sym(E, str(k), n, False)
        c = E.reals('c%d' % k, n, .5, 2)
        wt = [v / (1 + v * vl[x]) for v, x in zip(iv, w)]
        r = None
        if reso:
            r = [[.25 * (q + 1) + i + 2 * k for q in range(reso[k])]
                 for i in range(n)]
        p = E.path('delta-%d.fits' % k)
        E.fits(p, [hdu(E, '101', w, d, iv, wt, c, reso=r,
                       dw=dw)])
        objs += io.read_deltas(p)
        # a masked pixel carries no signal after reading
        d = [ite(v == 0, 0., q) for v, q in zip(iv, d)]
        spec.append((w, d, iv, wt, c, r))
    a, b = objs
    a.coadd(b, dw)
    E.close(a.wave, E.arr(xs, 'f'), 'coadded wavelength grid')
    E.check(s_and(*[v == v for k in ('delta', 'cont', 'ivar', 'weight')
                    for v in getattr(a, k)]),
            'the coadd is a number everywhere')
    snr, npix = 0., 0.
    for j, x in enumerate(xs):
        pix = [(s, s[0].index(x)) for s in spec if x in s[0]]
        ws = [s[3][i] for s, i in pix]
        norm = ssum(ws)
        if not pix or bool(norm == 0):
            E.close(a.ivar[j], 0., 'no weight where there is no data')
            E.close(a.weight[j], 0., 'no weight where there is no data')
            E.close(a.delta[j], 0., 'no signal where there is no data')
            continue
        E.close(a.delta[j] * norm,
                ssum(w * s[1][i] for w, (s, i) in zip(ws, pix)),
                'coadded delta is the weighted mean')
        E.close(a.cont[j] * norm,
                ssum(w * s[4][i] for w, (s, i) in zip(ws, pix)),
                'coadded continuum is the weighted mean')
        # w^2 / ivar = w / (1 + ivar var_lss)
        var = ssum(w / (1 + s[2][i] * vl[x])
                   for w, (s, i) in zip(ws, pix))
        E.close(a.ivar[j] * var, norm**2,
                'coadded inverse variance propagates noise')
        E.close(a.weight[j] * (1 + a.ivar[j] * vl[x]), a.ivar[j],
                'coadded weight keeps the intrinsic variance')
        snr = snr + E.np.sqrt(a.ivar[j]) * (1 + a.delta[j])
        npix += 1
    E.close(a.mean_snr * npix, snr, 'mean SNR of the coadd')
    E.close(a.header['MEANSNR'], a.mean_snr, 'mean SNR in the header')
    if reso:
        n = max(reso)
        E.check(a.reso.shape == (n, nx), 'shape of the resolution matrix')
        if a.reso.shape != (n, nx):
            return
        E.check(s_and(*[v == v for row in a.reso for v in row]),
                'the coadded resolution is a number everywhere')
        for j, x in enumerate(xs):
            t = []
            for s in spec:
                if x in s[0]:
                    i = s[0].index(x)
                    k = (n - len(s[5][i])) // 2
                    t.append((ite(s[3][i] == 0, 1e-8, s[3][i]),
                              [0.] * k + s[5][i] + [0.] * k))
            if not t:
                continue
            den = ssum(w for w, _ in t)
            for q in range(n):
                E.close(a.reso[q][j] * den, ssum(w * c[q] for w, c in t),
                        'coadded resolution matrix')


def masked(E, which):
    """A fully masked partner on the same pixels changes nothing."""
    io = E.mod('qsonic.io')
    w = [4000., 4000.5]
    d, iv = sym(E, 'a', 2, False)
    vl = E.reals('v', 2, 0, 1)
    wt = [v / (1 + v * q) for v, q in zip(iv, vl)]
    P = E.path('delta-1.fits')
    E.fits(P, [hdu(E, 'x', w, d, iv, wt, [1., 2.]),
               hdu(E, 'y', w, [.5, .5], [0., 0.], [0., 0.], [1., 2.])])
    a, b = io.read_deltas(P)
    if which:
        a, b = b, a
    a.coadd(b, .5)
    for i in range(2):
        E.close(a.delta[i], ite(iv[i] == 0, 0., d[i]),
                'a masked spectrum does not change the delta')
        E.close(a.ivar[i], iv[i],
                'a masked spectrum does not change the noise')
        E.close(a.weight[i], wt[i],
                'a masked spectrum does not change the weight')


class Pool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, it, *a):
        return [f(x) for x in it]

    imap = imap_unordered = map

    def starmap(self, f, it, *a):
        return [f(*x) for x in it]

    def close(self):
        pass

    join = terminate = close


def script(E, layout, hp=4, nside=None, nest=False):
    """layout: quasars per (directory, file)."""
    E.stub('multiprocessing.Pool', Pool)

    def pixel(ns, ra, nst=False):
        return int(E.value(ra)) % hp + 10 * (ns != (nside or 8)) \
            + 20 * bool(nst)

    def ang2pix(ns, a, b, nest=False, lonlat=False):
        # a, b: angles in degrees or colatitude and longitude
        return pixel(ns, a if lonlat else b / deg, nest)
    E.stub('healpy.ang2pix', ang2pix)
    off = 20 * nest
    n = sum(layout)
    ids = [E.int('id%d' % k, T0 + 100, T0 + 101 + n) for k in range(n)]
    wave = [4000. + .8 * i for i in range(3)]
    inp, k = [], 0
    dirs = []
    deg = 0.017453292519943295
    for f, m in enumerate(layout):
        hs = []
        for _ in range(m):
            d = [.25 * k + .5, .125 * k, -.25 + k]
            iv = [1. + k, 2., 1.5]
            wt = [v / (1 + v * .5) for v in iv]
            inp.append((ids[k], d, iv, wt))
            # one sky position per quasar
            ra = (ids[k] - T0 - 99.5) * deg
            hs.append(hdu(E, 'q%d' % k, wave, d, iv, wt, [1., 1.5, 2.],
                          tid=ids[k], ra=ra, dec=.1, dw=.8))
            k += 1
        dr = E.path('in%d' % (f % 2))
        if dr not in dirs:
            dirs.append(dr)
        E.fits(dr + '/delta-%d.fits' % (7 + 1200 * f), hs)
    out = E.path('out')
    if not E.symbolic:
        os.makedirs(out, exist_ok=True)
    # of an earlier run
    E.fits(out + '/delta-0.fits', [hdu(E, 'old', wave, [0.] * 3, [1.] * 3,
                                       [1.] * 3, [1.] * 3, tid=55, ra=.1,
                                       dec=.1, dw=.8)])
    main = E.get('qsonic.scripts.qsonic_coadd_deltas', 'main')
    old = sys.argv
    sys.argv = ['qsonic-coadd', '-i'] + dirs + ['-o', out, '--nproc', '1'] \
        + (['--nside', str(nside)] if nside else []) \
        + (['--nest'] if nest else [])
    try:
        _, e = E.attempt(main)
    finally:
        sys.argv = old
    E.check(e is None, 'the coadd script succeeds')
    if e is not None:
        return
    got = {}
    for fn in E.files():
        if not fn.startswith(out + '/'):
            continue
        for h in E.read_fits(fn):
            if not h.ext:
                continue
            t = int(E.value(h.hdr['TARGETID']))
            if t == 55 and (nest or all((int(E.value(i)) - T0 - 100) % hp for i in ids)):
                continue    # nothing to write to this pixel
            E.check(t not in got, 'each quasar is written once')
            got[t] = h
            E.check(fn.endswith('/delta-%d.fits' % ((t - T0 * (t > T0) - 100) % hp + off)),
                    'a quasar is written to the file of its pixel')
    want = sorted({int(E.value(i)) for i in ids})
    E.check(sorted(got) == want, 'every quasar is written')
    for t, h in got.items():
        mine = [q for q in inp if int(E.value(q[0])) == t]
        for j in range(3):
            if len(mine) > 2:
                break
            norm = ssum(q[3][j] for q in mine)
            E.close(h.data['DELTA'][j] * norm,
                    ssum(q[3][j] * q[1][j] for q in mine),
                    'written delta')
            if len(mine) == 1:
                E.close(h.data['IVAR'][j], mine[0][2][j],
                        'an only observation is kept')
                E.close(h.data['WEIGHT'][j], mine[0][3][j],
                        'an only observation is kept')


def nofiles(E):
    E.stub('multiprocessing.Pool', Pool)
    f = E.get('qsonic.scripts.qsonic_coadd_deltas', 'read_dirs_to_dict')
    E.textfile('in/other.txt', ['x'])
    _, e = E.attempt(f, [E.path('in')], 1)
    E.check(e is not None, 'missing delta files are reported')


def cases(tier):
    out = [(w, 'pair', dict(which=w)) for w in PAIRS]
    out += [('reso', 'pair', dict(which='same', reso=[3, 3])),
            ('reso pad', 'pair', dict(which='rev', reso=[3, 5])),
            ('reso gap', 'pair', dict(which='gap', reso=[3, 3])),
            ('masked', 'masked', dict(which=0)),
            ('masked first', 'masked', dict(which=1)),
            ('script 1+1', 'script', dict(layout=[1, 1])),
            ('script 2+1', 'script', dict(layout=[2, 1])),
            ('script nest', 'script', dict(layout=[1, 1], nest=True,
                                           nside=16)),
            ('no files', 'nofiles', {})]
    if tier == 'thorough':
        out.append(('script 1+1+2', 'script', dict(layout=[1, 1, 2])))
    return out
