"""C10: noise and flux calibration scale every forest pixel by the calibration
read from file."""
from .common import s_and, s_or, ite, whole_forest, GRID

BOUNDS = {'quick': '4-5 node calibration tables with any values (zeros '
                   'included), 1-2 arms of 2-4 pixels, any flux, inverse '
                   'variance and continuum, 1-2 ranks',
          'thorough': '5-6 nodes'}
OUTSIDE = ('noise calibration between table nodes (interpolation itself is '
           'property C15); denominators within 1e-3 of zero')


def table(E, ext, waves, cols):
    p = E.path('calib.fits')
    c = {'lambda': E.arr(waves, 'f')}
    for k, v in cols.items():
        c[k] = E.arr(v, 'f')
    E.fits(p, [(ext, E.table(c), {})])
    return p


def setup(E, npix, mod=None, cont=None):
    arms = ['B', 'R'][:len(npix)]
    waves = {a: GRID[a][:n] for a, n in zip(arms, npix)}
    flux = {a: E.reals('f' + a, len(w), -4, 4) for a, w in waves.items()}
    ivar = {a: E.reals('i' + a, len(w), .5, 4) for a, w in waves.items()}
    return waves, flux, ivar


def noise(E, npix, n, varlss, no_eta, zero=False, size=1):
    nodes = [4000. + .5 * i for i in range(n)]
    eta = E.reals('eta', n, -2 if zero else .5, 2)
    if zero:
        for e in eta:
            E.assume(s_or(e == 0, e >= .5, e <= -.5))
    vl = E.reals('vlss', n, -.5, 1)
    p = table(E, 'VAR_FUNC', nodes, {'eta': eta, 'var_lss': vl})
    waves, flux, ivar = setup(E, npix)
    cont = {a: E.reals('c' + a, len(w), .5, 2) for a, w in waves.items()}

    def job(comm, rank, mod):
        M = mod('qsonic.calibration')
        spec = whole_forest(E, waves, flux, ivar, mod=mod)
        spec2 = whole_forest(E, waves, flux, ivar, mod=mod, tid=102)
        if varlss:
            for s in (spec, spec2):
                s.cont_params['valid'] = True
                s.cont_params['cont'] = {a: E.arr(c, 'f')
                                         for a, c in cont.items()}
        cal = M.NoiseCalibrator(p, comm, rank, varlss, no_eta)
        cal.apply([spec, spec2])
        return spec, spec2
    for a, w in waves.items():
        for i, x in enumerate(w):
            k = nodes.index(x)
            if varlss:
                e = 1. if no_eta else ite(eta[k] == 0, 1., eta[k])
                d = e + ivar[a][i] * vl[k] * cont[a][i]**2
                E.assume(s_or(d > 1e-3, d < -1e-3))
    for o in E.spmd(size, job):
        E.check(o.exc is None, 'a valid noise calibration is applied')
        if o.exc is not None:
            return
        for spec in o.value:
            for a, w in waves.items():
                for i, x in enumerate(w):
                    k = nodes.index(x)
                    e = 1. if no_eta else ite(eta[k] == 0, 1., eta[k])
                    v = ivar[a][i]
                    if varlss:
                        d = e + v * vl[k] * cont[a][i]**2
                        pos = bool(d > 0)
                        E.close(spec.forestivar[a][i] * d if pos
                                else spec.forestivar[a][i],
                                v if pos else 0., 'calibrated inverse variance'
                                ' (var_lss)')
                    else:
                        E.close(spec.forestivar[a][i] * e, v,
                                'calibrated inverse variance')
                E.close(spec.forestflux[a], E.arr(flux[a], 'f'),
                        'noise calibration leaves the flux alone')


def nocont(E):
    """The additive correction refuses spectra without a continuum."""
    p = table(E, 'VAR_FUNC', [4000. + .5 * i for i in range(5)],
              {'eta': [1.] * 5, 'var_lss': [.1] * 5})
    waves, flux, ivar = setup(E, [2])
    M = E.mod('qsonic.calibration')
    has = [bool(E.bool(f'c{i}')) for i in range(2)]
    specs = []
    for h in has:
        s = whole_forest(E, waves, flux, ivar)
        if h:
            s.cont_params['cont'] = {'B': E.arr([1., 1.], 'f')}
        specs.append(s)
    cal = M.NoiseCalibrator(p, None, 0, True, False)
    _, e = E.attempt(cal.apply, specs)
    E.check((e is None) == all(has),
            'additive noise needs every continuum')


def flux(E, npix, n, zero=False, size=1, off=0.):
    nodes = [4000. - off + .5 * i for i in range(n)]
    s = E.reals('s', n, 0 if zero else .5, 2)
    if zero:
        for q in s:
            E.assume(s_or(q == 0, q >= .5))
    p = table(E, 'STACKED_FLUX', nodes, {'stacked_flux': s})
    waves, fl, ivar = setup(E, npix)

    def job(comm, rank, mod):
        M = mod('qsonic.calibration')
        specs = [whole_forest(E, waves, fl, ivar, mod=mod, tid=101 + k)
                 for k in range(2)]
        M.FluxCalibrator(p, comm, rank).apply(specs)
        return specs
    v = [ite(q == 0, 1., q) for q in s]

    def at(x):
        """Linear interpolation."""
        t = (x - nodes[0]) / .5
        k = min(int(t), n - 2)
        return v[k] * (1 - (t - k)) + v[k + 1] * (t - k)
    for o in E.spmd(size, job):
        E.check(o.exc is None, 'a valid flux calibration is applied')
        if o.exc is not None:
            return
        for spec in o.value:
            for a, w in waves.items():
                for i, x in enumerate(w):
                    q = at(x)
                    E.close(spec.forestflux[a][i] * q, fl[a][i],
                            'calibrated flux')
                    E.close(spec.forestivar[a][i], ivar[a][i] * q * q,
                            'inverse variance follows the flux')


def spacing(E, which):
    """Unequally spaced tables are refused."""
    n = 5
    nodes = [4000. + .5 * i for i in range(n)]
    k = E.choice('k', list(range(1, n)))
    d = E.real('d', -.25, .25)
    nodes[k] = nodes[k] + d
    if which == 'noise':
        p = table(E, 'VAR_FUNC', nodes, {'eta': [1.] * n,
                                         'var_lss': [.1] * n})
        C = E.get('qsonic.calibration', 'NoiseCalibrator')
    else:
        p = table(E, 'STACKED_FLUX', nodes, {'stacked_flux': [1.] * n})
        C = E.get('qsonic.calibration', 'FluxCalibrator')
    E.assume(s_or(d > .01, d < -.01))
    _, e = E.attempt(C, p)
    E.check(e is not None, 'an unequally spaced table is refused')


def cases(tier):
    big = tier == 'thorough'
    n = 5 if big else 4
    return [('noise', 'noise', dict(npix=[3], n=n, varlss=False,
                                    no_eta=False)),
            ('noise zeros', 'noise', dict(npix=[3], n=n, varlss=False,
                                          no_eta=False, zero=True)),
            ('noise two arms', 'noise', dict(npix=[2, 2], n=7, varlss=False,
                                             no_eta=False)),
            ('noise varlss', 'noise', dict(npix=[2], n=n, varlss=True,
                                           no_eta=False)),
            ('noise varlss no eta', 'noise', dict(npix=[2], n=n, varlss=True,
                                                  no_eta=True, zero=True)),
            ('noise no eta', 'noise', dict(npix=[2], n=n, varlss=False,
                                           no_eta=True, zero=True)),
            ('noise 2 ranks', 'noise', dict(npix=[2], n=n, varlss=True,
                                            no_eta=False, size=2)),
            ('no continuum', 'nocont', {}),
            ('flux', 'flux', dict(npix=[3], n=4)),
            ('flux zeros', 'flux', dict(npix=[3], n=3, zero=True)),
            ('flux two arms', 'flux', dict(npix=[3, 3], n=7)),
            ('flux between nodes', 'flux', dict(npix=[4], n=5, off=.25)),
            ('flux 2 ranks', 'flux', dict(npix=[2], n=3, size=2, zero=True)),
            ('noise spacing', 'spacing', dict(which='noise')),
            ('flux spacing', 'spacing', dict(which='flux'))]
