"""C09: DLAs are masked / corrected in their own quasar only, by their
damping profile."""
import math

from .common import T0, s_and, s_or, ite, whole_forest, distinct

BOUNDS = {'quick': '1-3 DLAs on 2 quasars, any TARGETIDs, any mask limit in '
                   '(0, 1), any quasar redshift, 1-2 arms of 2-4 pixels, any '
                   'flux and inverse variance; 4 absorber (z, NHI) settings',
          'thorough': '3 DLAs, more absorber settings'}
OUTSIDE = ('the Tepper-Garcia profile is compared with an independent '
           'evaluation at the listed absorbers and pixels, not for every z, '
           'NHI; pixels whose transmission is within 1e-6 of the limit')

WAVES = {'B': [4100., 4150., 4225., 4250.], 'R': [4240., 4290., 4400.]}


def profile(x, z, nhi, b=10.):
    """Lya + Lyb transmission of one absorber (Tepper-Garcia 2006)."""
    c = 299792.458
    tau = 0.
    for lam, f, A in ((1215.67, 4.1641e-01, 6.2648e+08),
                      (1025.7220, 7.9142e-02, 1.6725e+08)):
        s = b / c
        a = A * lam * 1e-8 / (4 * math.pi * c * 1e5) / s
        u = (x / (1 + z) / lam - 1) / s
        P = u * u + 1e-12
        Q = 1.5 / P
        R = math.exp(-P)
        H = R - a / P / 1.77245385091 * (
            R * R * (4 * P * P + 7 * P + 4 + Q) - Q - 1)
        K = math.pi * 4.803204e-10**2 / 9.109384e-28 / (c * 1e5)
        tau += K * f * 10**(nhi - 13) * (lam / b) / 1.77245385091 * H
    return math.exp(-tau)


def run(E, dlas, npix, zname='Z_DLA', local=False, both=False, world=0,
        limsym=True):
    n = len(dlas)
    ids = [E.int(f'id{k}', T0 + 100, T0 + 103) for k in range(n)]
    lim = E.real('lim', .01, .99) if limsym else .8
    zq = E.real('zq', 2.3, 3.)
    arms = ['B', 'R'][:len(npix)]
    waves = {a: WAVES[a][:k] for a, k in zip(arms, npix)}
    flux = {a: E.reals('f' + a, len(w), -4, 4) for a, w in waves.items()}
    ivar = {a: E.reals('i' + a, len(w), .5, 4) for a, w in waves.items()}
    cols = {'TARGETID': E.arr(ids, 'i'), 'DLAID': E.arr(list(range(n)), 'i')}
    if both:
        cols['Z'] = E.arr([9.] * n, 'f')
    cols[zname] = E.arr([d[0] for d in dlas], 'f')
    cols['NHI'] = E.arr([d[1] for d in dlas], 'f')
    if n > 1:           # any order of columns
        cols = dict(list(cols.items())[::-1])
    p = E.path('dla.fits')
    E.fits(p, [('DLACAT', E.table(cols), {})])
    D = E.get('qsonic.masks', 'DLAMask')
    loc = None
    if local:
        loc = E.arr([T0 + 100, T0 + 102], 'i')
    for tid in ((T0 + 100,) if local else (T0 + 100, T0 + 101)):
        spec = whole_forest(E, waves, flux, ivar, z=zq, tid=tid)
        mask, e = E.attempt(D, p, loc, None, 0, lim)
        E.check(e is None, 'a valid DLA catalog is accepted')
        if e is not None:
            return
        own = [bool(i == tid) for i in ids]
        mask.apply(spec)
        edge = (1 + zq) * 1215.67
        for a, w in waves.items():
            for i, x in enumerate(w):
                T = 1.
                for d, o in zip(dlas, own):
                    if o:
                        T *= profile(x, *d)
                E.assume(s_or(x - edge > 1e-6, x - edge < -1e-6))
                red = bool(x >= edge)
                if red:
                    T = 1.
                E.assume(s_or(lim - T > 1e-6, lim - T < -1e-6))
                bad = bool(T < lim)
                E.close(spec.forestivar[a][i],
                        0. if bad else ivar[a][i] * T**2,
                        'inverse variance after DLA masking')
                E.close(spec.forestflux[a][i],
                        0. if bad else flux[a][i] / T,
                        'flux after DLA masking')
            E.close(spec.forestwave[a], E.arr(w, 'f'),
                    'wavelengths untouched')


def badcat(E):
    """No usable redshift column: refused."""
    p = E.path('dla.fits')
    E.fits(p, [('DLACAT', E.table({'TARGETID': E.arr([1], 'i'),
                                   'ZZ': E.arr([2.], 'f'),
                                   'NHI': E.arr([20.], 'f')}), {})])
    _, e = E.attempt(E.get('qsonic.masks', 'DLAMask'), p)
    E.check(e is not None, 'a catalog without a redshift column is refused')


def cases(tier):
    A, B, C, F = (2.45, 20.3), (2.5, 21.2), (2.6, 20.1), (3.05, 20.8)
    W = (4150. / 1215.67 / (1 + 1.3 * 10. / 299792.458) - 1, 13.2)
    Z0 = (4150. / 1215.67 - 1, 21.)
    out = [('core', 'run', dict(dlas=[Z0], npix=[3])),
           ('one', 'run', dict(dlas=[A], npix=[3])),
           ('weak core', 'run', dict(dlas=[W], npix=[2])),
           ('one strong', 'run', dict(dlas=[B], npix=[3])),
           ('lyb', 'run', dict(dlas=[F], npix=[3])),
           ('two arms', 'run', dict(dlas=[B], npix=[2, 2], limsym=False)),
           ('two', 'run', dict(dlas=[A, B], npix=[2])),
           ('Z column', 'run', dict(dlas=[A, C], npix=[2], zname='Z')),
           ('both columns', 'run', dict(dlas=[B], npix=[2], both=True)),
           ('local ids', 'run', dict(dlas=[B, A], npix=[2], local=True)),
           ('three', 'run', dict(dlas=[C, A, B], npix=[2], limsym=False)),
           ('no redshift', 'badcat', {})]
    if tier == 'thorough':
        out += [('three far', 'run', dict(dlas=[F, A, C], npix=[4])),
                ('two, two arms', 'run', dict(dlas=[C, F], npix=[4, 3]))]
    return out
