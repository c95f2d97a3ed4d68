"""C07: the forest is exactly the pixels inside both the observed and the
rest-frame limits, with their data untouched; SNR and amplitude statistics."""
from .common import (s_and, s_or, s_not, ite, GRID, make_spec, ssum, smax,
                     smin)

BOUNDS = {'quick': '1-2 arms of 3-4 pixels; any redshift, observed and '
                   'rest-frame limits, flux and inverse variance >= 0',
          'thorough': '2 arms of 3-5 pixels'}
OUTSIDE = 'longer spectra; infinities'


def expected(E, wave, z, w1, w2, a1, a2):
    l1 = smax(w1, (1 + z) * a1)
    l2 = smin(w2, (1 + z) * a2)
    return [s_and(x >= l1, x < l2) for x in wave]


def run(E, npix, reso, symlim, zero=(), eff=False):
    arms = ['B', 'R'][:len(npix)]
    waves = {a: GRID[a][:n] for a, n in zip(arms, npix)}
    flux = {a: E.reals(f'f{a}', len(w), -8, 8) for a, w in waves.items()}
    ivar = {a: E.reals(f'i{a}', len(w), 0, 8) for a, w in waves.items()}
    if eff:
        ivar = {a: [1., 4., .25][:len(w)] for a, w in waves.items()}
    for a in zero:
        ivar[a] = [0.] * len(waves[a])
    z = E.real('z', 1, 3)
    if symlim == 'obs':
        w1, w2 = E.real('w1', 3990, 4010), E.real('w2', 3990, 4010)
        a1, a2 = 1024., 2048.
    elif symlim == 'rest':
        w1, w2 = 3990., 4010.
        a1, a2 = E.real('a1', 900, 1300), E.real('a2', 900, 1300)
    else:
        w1, w2, a1, a2 = 4000.25, 4003.25, 1000.25, 1250.
    res = None
    if reso:
        res = {a: [[.5 * d + .25 * i for i in range(len(w))]
                   for d in range(3)] for a, w in waves.items()}
    spec = make_spec(E, waves, flux, ivar, z=z, reso=res)
    spec.set_forest_region(w1, w2, a1, a2)
    x0num, x0den = 0., 1e-6
    for a in arms:
        sel = expected(E, waves[a], z, w1, w2, a1, a2)
        anyv = s_or(*[s_and(c, v > 0) for c, v in zip(sel, ivar[a])])
        if a not in spec.forestwave:
            E.check(s_not(anyv), 'an arm with valid forest pixels is kept')
            for d in (spec.forestflux, spec.forestivar, spec.forestweight):
                E.check(a not in d, 'a dropped arm has no data left')
            continue
        E.check(anyv, 'an arm without valid forest pixels is dropped')
        idx = [i for i, c in enumerate(sel) if bool(c)]
        E.close(spec.forestwave[a], E.arr([waves[a][i] for i in idx], 'f'),
                'forest wavelengths')
        E.close(spec.forestflux[a], E.arr([flux[a][i] for i in idx], 'f'),
                'forest flux')
        iv = [ivar[a][i] for i in idx]
        for d, nm in ((spec.forestivar, 'ivar'), (spec.forestivar_sm, 'ivar'),
                      (spec.forestweight, 'weight')):
            E.close(d[a], E.arr(iv, 'f'), 'forest ' + nm)
        if reso:
            E.close(spec.forestreso[a],
                    E.arr([[r[i] for i in idx] for r in res[a]], 'f'),
                    'forest resolution')
        num = ssum(E.np.sqrt(ivar[a][i]) * flux[a][i] for i in idx)
        den = ssum(ite(ivar[a][i] > 0, 1., 0.) for i in idx)
        E.close(spec.mean_snr[a] * den, num, 'mean SNR of an arm')
        x0num = x0num + ssum(ite(flux[a][i] > 0, flux[a][i] * ivar[a][i], 0.)
                             for i in idx)
        x0den = x0den + ssum(ite(flux[a][i] > 0, ivar[a][i], 0.)
                             for i in idx)
    E.close(spec.cont_params['x'][0] * x0den, x0num,
            'initial continuum amplitude')
    if eff:
        s = list(spec.mean_snr.values())
        E.close(spec.get_effective_meansnr() * (ssum(x * x for x in s) + 1e-8),
                ssum(x * x * x for x in s), 'mean SNR of the forest')
    # later removal of the rest of the spectrum keeps the forest
    keep = {a: spec.forestflux[a].copy() for a in spec.forestflux}
    spec.remove_nonforest_pixels()
    for a in keep:
        E.close(spec.forestflux[a], keep[a], 'forest survives clean up')
    # the common wavelength grid is not aliased by the forest
    for a in spec.forestwave:
        spec.forestwave[a][0] = 1.
    other = make_spec(E, waves, flux, ivar, z=z)
    for a in waves:
        E.close(other.wave[a], E.arr(waves[a], 'f'),
                'common grid is untouched')


def rsnr(E, npix):
    arms = ['B', 'R'][:len(npix)]
    waves = {a: GRID[a][:n] for a, n in zip(arms, npix)}
    flux = {a: E.reals(f'f{a}', len(w), -8, 8) for a, w in waves.items()}
    ivar = {a: E.reals(f'i{a}', len(w), 0, 8) for a, w in waves.items()}
    z = E.real('z', 2, 3)
    spec = make_spec(E, waves, flux, ivar, z=z)
    num, den = 0., 1e-6
    for a in arms:
        for x, f, v in zip(waves[a], flux[a], ivar[a]):
            red = bool((1 + z) * 1215.67 <= x)
            if red:
                num = num + f * E.np.sqrt(v)
                den = den + ite(v > 0, 1., 0.)
    E.close(spec.rsnr * den, num, 'mean SNR redward of Lya')


def cases(tier):
    out = []
    big = tier == 'thorough'
    for s in ('obs', 'rest', 'fixed'):
        out.append((f'one arm, {s}', 'run',
                    dict(npix=[4 if big else 3], reso=False, symlim=s)))
        out.append((f'two arms, {s}', 'run',
                    dict(npix=[3, 2] if big else [2, 2], reso=False,
                         symlim=s)))
        out.append((f'reso {s}', 'run',
                    dict(npix=[3], reso=True, symlim=s)))
    out.append(('arm B masked', 'run',
                dict(npix=[3, 2], reso=False, symlim='fixed', zero=['B'])))
    out.append(('forest SNR', 'run', dict(npix=[2, 2], reso=False,
                                          symlim='fixed', eff=True)))
    out.append(('rsnr one arm', 'rsnr', dict(npix=[3])))
    out.append(('rsnr two arms', 'rsnr', dict(npix=[2, 2])))
    return out
