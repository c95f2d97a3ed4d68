"""C11: forest weights and the continuum chi2."""
from .common import s_and, s_or, ite, whole_forest, GRID, ssum, smax, smin

BOUNDS = {'quick': '1-2 arms of 2-3 pixels; any flux, inverse variance >= 0 '
                   '(zeros included), continuum, var_lss >= 0 and eta > 0 per '
                   'pixel, valid or invalid continuum',
          'thorough': '2 arms of 3-4 pixels'}
OUTSIDE = 'longer spectra'


class Table:
    """A function of wavelength given by a table."""

    def __init__(self, E, d):
        self.E, self.d = E, d

    def __call__(self, w):
        return self.E.arr([self.d[round(float(self.E.value(x)), 6)] for x in w], 'f')


def run(E, npix, valid, default=False):
    arms = ['B', 'R'][:len(npix)]
    waves = {a: GRID[a][:n] for a, n in zip(arms, npix)}
    flux = {a: E.reals('f' + a, len(w), -4, 4) for a, w in waves.items()}
    ivar = {a: E.reals('i' + a, len(w), 0, 4) for a, w in waves.items()}
    cont = {a: E.reals('c' + a, len(w), -2, 2) for a, w in waves.items()}
    for a in waves:
        E.assume(s_or(*[v > 0 for v in ivar[a]]))
    xs = sorted({x for w in waves.values() for x in w})
    vl = dict(zip(xs, E.reals('v', len(xs), 0, 1)))
    et = dict(zip(xs, E.reals('e', len(xs), .5, 2)))
    spec = whole_forest(E, waves, flux, ivar)
    if valid != 'nocont':
        spec.cont_params['cont'] = {a: E.arr(c, 'f') for a, c in cont.items()}
    spec.cont_params['valid'] = valid != 'invalid'
    if default:
        spec.set_forest_weight()
        vl = {x: 0. for x in xs}
        et = {x: 1. for x in xs}
    else:
        spec.set_forest_weight(Table(E, vl), Table(E, et))
    chi2 = 0.
    for a, w in waves.items():
        for i, x in enumerate(w):
            v, c = ivar[a][i], cont[a][i]
            d = 1. if valid != 'yes' else et[x] + v * vl[x] * c * c
            got = spec.forestweight[a][i]
            E.close(got * d, v, 'forest weight')
            E.check(got >= 0, 'weights are not negative')
            E.close(ite(v == 0, got, 0.), 0., 'masked pixels have no weight')
            chi2 = chi2 + got * (flux[a][i] - c)**2
        E.close(spec.forestivar[a], E.arr(ivar[a], 'f'),
                'inverse variance is kept')
        E.close(spec.forestflux[a], E.arr(flux[a], 'f'), 'flux is kept')
    spec.cont_params['chi2'] = 7.       # of an earlier iteration
    r = spec.calc_continuum_chi2()
    if valid == 'yes':
        E.close(r, chi2, 'chi2 is the weighted sum of squared residuals')
    else:
        E.close(r, -1., 'no chi2 without a valid continuum')
    E.close(spec.cont_params['chi2'], r, 'the reported chi2 is stored')


def aliases(E):
    """Inverse variance changes made before smoothing are seen by weights."""
    waves = {'B': GRID['B'][:3]}
    iv = E.reals('i', 3, .5, 4)
    spec = whole_forest(E, waves, {'B': [1., 2., 3.]}, {'B': iv})
    k = E.choice('k', [0, 1, 2])
    spec.forestivar['B'][k] = 0.
    spec.set_forest_weight()
    for i in range(3):
        E.close(spec.forestweight['B'][i], 0. if i == k else iv[i],
                'masking a pixel removes its weight')
    spec.cont_params['valid'] = True
    spec.cont_params['cont'] = {'B': E.arr([1., 1., 1.], 'f')}
    spec.set_forest_weight()
    for i in range(3):
        E.close(spec.forestweight['B'][i], 0. if i == k else iv[i],
                'masking a pixel removes its weight')


def cases(tier):
    big = tier == 'thorough'
    return [('one arm', 'run', dict(npix=[4 if big else 3], valid='yes')),
            ('two arms', 'run', dict(npix=[3, 3] if big else [2, 2],
                                     valid='yes')),
            ('default', 'run', dict(npix=[2, 2], valid='yes', default=True)),
            ('invalid', 'run', dict(npix=[2], valid='invalid')),
            ('no continuum', 'run', dict(npix=[2], valid='nocont')),
            ('aliases', 'aliases', {})]
