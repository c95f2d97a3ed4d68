"""C06: bad pixels never carry signal or weight; good pixels are unchanged."""
from .common import s_and, s_or, s_not, ite, GRID, catalog_table

BOUNDS = {'quick': '2 quasars x 2 arms x 2-3 pixels; any flux, inverse '
                   'variance and mask bits, NaN at any pixel',
          'thorough': '3 quasars, 3-4 pixels'}
OUTSIDE = 'infinities in the input'


def run(E, nq, npix, idx, reso):
    S = E.get('qsonic.spectrum', 'Spectrum')
    arms = ['B', 'R'][:len(npix)]
    nan = float('nan')
    wave, flux, ivar, mask, res = {}, {}, {}, {}, {}
    badf, badi = {}, {}
    for a, n in zip(arms, npix):
        wave[a] = E.arr(GRID[a][:n], 'f')
        F, I, M = [], [], []
        for q in range(nq):
            if q != idx:
                F.append([100. * q + i for i in range(n)])
                I.append([7.] * n)
                M.append([0] * n)
                continue
            fr = E.reals(f'f{a}', n, -8, 8)
            iv = E.reals(f'i{a}', n, -4, 8)
            mk = E.ints(f'm{a}', n, -2**31, 2**31 - 1)
            bf = [bool(E.bool(f'nanf{a}{i}')) for i in range(n)]
            bi = [bool(E.bool(f'nani{a}{i}')) for i in range(n)]
            F.append([nan if b else x for b, x in zip(bf, fr)])
            I.append([nan if b else x for b, x in zip(bi, iv)])
            M.append(mk)
            badf[a], badi[a] = bf, bi
        flux[a], ivar[a] = E.arr(F, 'f'), E.arr(I, 'f')
        mask[a] = E.arr(M, 'i')
        if reso == 3:
            res[a] = E.arr([[[q + .5 * d + .25 * i for i in range(n)]
                             for d in range(3)] for q in range(nq)], 'f')
        elif reso == 2:
            res[a] = E.arr([[.5 * d + .25 * i for i in range(n)]
                            for d in range(3)], 'f')
    t = catalog_table(E, nq, pix=[1] * nq)
    f0 = {a: flux[a].copy() for a in arms}
    i0 = {a: ivar[a].copy() for a in arms}
    data = dict(wave=wave, flux=flux, ivar=ivar, mask=mask, reso=res)
    spec = S.from_dictionary(t[idx], data, idx)
    for a in arms:
        E.close(flux[a], f0[a], 'the input flux is not modified')
        E.close(ivar[a], i0[a], 'the input inverse variance is not modified')
        for i in range(len(GRID[a][:wave[a].size])):
            of, oi = spec.flux[a][i], spec.ivar[a][i]
            if badf[a][i] or badi[a][i]:
                E.close(of, 0., 'NaN pixel has no flux')
                E.close(oi, 0., 'NaN pixel has no weight')
                continue
            f, v = f0[a][idx][i], i0[a][idx][i]
            bad = s_or(mask[a][idx][i] != 0, v < 0)
            E.close(oi, ite(bad, 0., v), 'weight of a pixel')
            E.close(of, ite(bad, 0., f), 'flux of a pixel')
        if reso:
            E.close(spec.reso[a], res[a] if reso == 2 else res[a][idx],
                    'resolution matrix of this quasar')
    E.check(spec.targetid == 100 + idx, 'row of the catalog')
    for a in arms if reso else ():
        r0 = res[a].copy()
        spec.reso[a][0][0] = 77.
        E.close(res[a], r0, 'spectra do not share storage')
    if reso:
        return
    # independence: masking one spectrum leaves shared data alone
    for a in arms:
        spec.flux[a][0] = 77.
        spec.ivar[a][0] = 77.
        E.close(flux[a], f0[a], 'spectra do not share storage')
        E.close(ivar[a], i0[a], 'spectra do not share storage')


def cases(tier):
    out = [('B2', 'run', dict(nq=2, npix=[2], idx=1, reso=0)),
           ('B2R2', 'run', dict(nq=2, npix=[2, 2], idx=0, reso=0)),
           ('reso per quasar', 'run', dict(nq=2, npix=[2], idx=1, reso=3)),
           ('reso shared', 'run', dict(nq=2, npix=[2], idx=0, reso=2))]
    if tier == 'thorough':
        out += [('B3', 'run', dict(nq=2, npix=[3], idx=0, reso=0)),
                ('B2R2 reso', 'run', dict(nq=3, npix=[2, 2], idx=2, reso=3))]
    return out
