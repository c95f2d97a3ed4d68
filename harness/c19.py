"""C19: fitted, true and input continua; validity of a fit."""
import math

from .common import T0, ssum, ite, s_or, s_and, s_not, whole_forest
from .c11 import Table
from . import c14

BOUNDS = {'quick': '1-2 arms of 2-3 pixels; any fluxes, inverse variances, '
                   'fit parameters (polynomial order 0-2, converged or not), '
                   'mean continua, mean fluxes, var_lss and eta; input and '
                   'true continua of 4 points of any value; 2-3 spectra and '
                   '1-3 rows with any TARGETIDs in the input continuum file; '
                   '1-3 ranks',
          'thorough': '3 pixels per arm, 4 rows'}
OUTSIDE = ('what the minimisers return (any result is considered); continua '
           'within 1e-6 of zero, whose sign is a matter of rounding')

Z = 3.
WAVES = {'B': [4000., 4000.5, 4001.], 'R': [4000.5, 4001.5, 4002.]}
RF0, DEN = 1000., math.log(1000.5 / 1000.)


def slope(w):
    return 2 * (math.log((w / 4) / RF0) / DEN) - 1


class Mini:
    """A stand-in for both minimisers: any outcome."""

    def __init__(self, E, n, valid=None):
        self.E, self.n = E, n
        self.valid = bool(E.bool('converged')) if valid is None else valid
        self.x = E.reals('x', n, -2, 2)
        self.cov = [[.5 * (i == j) + .125 * (i + j) for i in range(n)]
                    for j in range(n)]
        self.calls = []

    def install(self):
        o = self

        class Minuit:
            LEAST_SQUARES = 1.0
            LIKELIHOOD = .5

            def __init__(m, cost, x0, *a, **k):
                o.calls.append((cost, x0))
                m.valid = False

            def migrad(m, *a, **k):
                m.valid = o.valid
                m.values = o.E.arr(o.x, 'f')
                m.covariance = o.E.arr(o.cov, 'f')
                return m

        class Res:
            pass

        class Hess:
            def todense(m):
                return o.E.arr(o.cov, 'f')

        def minimize(cost, x0, args=(), **k):
            o.calls.append(((lambda x: cost(x, *args)), x0))
            r = Res()
            r.success = o.valid
            r.x = o.E.arr(o.x, 'f')
            r.hess_inv = Hess()
            return r
        self.E.stub('iminuit.Minuit', Minuit)
        self.E.stub('scipy.optimize.minimize', minimize)


def smoothed(E, spec, ivar):
    """The smoothed noise is the one given, unlike that of the pixels."""
    for a in ivar:
        spec.forestivar[a][:] = 1.
    spec.set_smooth_forestivar(16.)
    for a, v in ivar.items():
        for i in range(len(v)):
            spec.forestivar_sm[a][i] = v[i]


def setting(E, npix, ivsym=True, fixmf=False, fixf=False):
    arms = ['B', 'R'][:len(npix)]
    waves = {a: WAVES[a][:n] for a, n in zip(arms, npix)}
    flux = {a: ([1.25 - .5 * i for i in range(len(w))] if fixf
                else E.reals('f' + a, len(w), -2, 2))
            for a, w in waves.items()}
    ivar = {a: ([E.real('i' + a, 0, 2)] if ivsym else [.5])
            + [1.5 - .25 * i for i in range(len(w) - 1)]
            for a, w in waves.items()}
    xs = sorted({x for w in waves.values() for x in w})
    n = len(xs)
    vl = dict(zip(xs, [.125 * (i % 3) for i in range(n)]))
    et = dict(zip(xs, [1. + .25 * (i % 2) for i in range(n)]))
    if fixmf:
        mf = {x: .5 + .125 * i for i, x in enumerate(xs)}
    else:
        mf = dict(zip(xs, E.reals('m', n, .5, 1)))
    spec = whole_forest(E, waves, flux, ivar, z=Z)
    return spec, waves, flux, ivar, vl, et, mf


def after(E, spec, waves, flux, ivar, cont, vl, et):
    """State of a spectrum with a valid continuum."""
    chi2 = 0.
    for a, w in waves.items():
        E.check(a in spec.cont_params['cont'], 'continuum of every arm')
        for i, x in enumerate(w):
            c = cont[a][i]
            E.close(spec.cont_params['cont'][a][i], c, 'continuum model')
            d = et[x] + ivar[a][i] * vl[x] * c * c
            E.close(spec.forestweight[a][i] * d, ivar[a][i],
                    'weights use the new continuum')
            # of the stored weights and continuum, themselves checked above
            chi2 = chi2 + spec.forestweight[a][i] * (
                flux[a][i] - spec.cont_params['cont'][a][i])**2
    E.close(spec.cont_params['chi2'], chi2, 'chi2 of the new continuum')


def invalid(E, spec, ivar):
    E.check(not spec.cont_params['valid'], 'marked invalid')
    E.check(not spec.cont_params['cont'], 'no continuum')
    E.close(spec.cont_params['chi2'], -1., 'no chi2')
    vs = E.mod('qsonic.spectrum').valid_spectra([spec])
    E.check(len(list(vs)) == 0, 'left out of later steps')


def picca(E, npix, order, minimizer, ivsym=False, before=None):
    """before: outcome of an earlier fit of the same spectrum."""
    spec, waves, flux, ivar, vl, et, mf = setting(E, npix, ivsym,
                                                  fixmf=order > 0)
    xs = sorted({x for w in waves.values() for x in w})
    mc = dict(zip(xs, E.reals('mc', len(xs), .5, 2)))
    M = E.get('qsonic.continuum_models', 'PiccaContinuumModel')
    mini = Mini(E, order + 1)
    mini.install()
    model = M(Table(E, {x / 4: v for x, v in mc.items()}), Table(E, mf),
              Table(E, vl), Table(E, et), order, RF0, DEN, minimizer)
    x00 = spec.cont_params['x'][0]
    model.init_spectra([spec])
    npx = ssum(ite(v > 0, 1, 0) for a in ivar for v in ivar[a])
    E.close(spec.cont_params['dof'], npx - order - 1, 'degrees of freedom')
    E.check(len(spec.cont_params['x']) == order + 1, 'number of parameters')
    E.close(spec.cont_params['x'][0], x00, 'initial amplitude is kept')
    if before is not None:
        now = mini.valid, mini.x
        mini.valid, mini.x = bool(before), [1.5] + [0.] * order
        model.fit_continuum(spec)
        E.check(bool(spec.cont_params['valid']) == bool(before),
                'a converged fit is valid')
        mini.valid, mini.x = now
        mini.calls.clear()
    old = [spec.cont_params['x'][k] for k in range(order + 1)]
    model.fit_continuum(spec)
    E.check(len(mini.calls) == 1, 'one minimisation per spectrum')
    cost, x0 = mini.calls[0]
    E.check(len(x0) == order + 1, 'number of parameters')
    a0 = ssum(f * v for a in waves for f, v in zip(flux[a], ivar[a]))
    n0 = ssum(v for a in waves for v in ivar[a])
    E.close(x0[0] * (n0 + 1e-6), a0, 'initial amplitude')
    for k in range(1, order + 1):
        E.close(x0[k], 0., 'initial slope')
    cont, neg = {}, False
    for a, w in waves.items():
        cont[a] = []
        for x in w:
            s = slope(x)
            q = mc[x] * ssum(p * s**k for k, p in enumerate(mini.x))
            # a sign that rounding could change is not judged
            E.assume(s_or(q > 1e-6, q < -1e-6))
            neg = s_or(neg, q < 0)
            cont[a].append(q * mf[x])
    if not mini.valid or bool(neg):
        invalid(E, spec, ivar)
        for a in waves:
            for i in range(len(ivar[a])):
                E.close(spec.forestweight[a][i], ivar[a][i],
                        'weights without a continuum')
        for k in range(order + 1):
            E.close(spec.cont_params['x'][k], old[k],
                    'parameters of an invalid fit are not stored')
        return
    E.check(bool(spec.cont_params['valid']), 'a converged fit is valid')
    if not spec.cont_params['valid']:
        return
    after(E, spec, waves, flux, ivar, cont, vl, et)
    for k in range(order + 1):
        E.close(spec.cont_params['x'][k], mini.x[k], 'fit parameters')
        for j in range(order + 1):
            E.close(spec.cont_params['xcov'][k][j], mini.cov[k][j],
                    'parameter covariance')


def cost(E, npix, minimizer, zero=None, smooth=False):
    """The minimised function: chi2 plus the normalisation of weights."""
    spec, waves, flux, ivar, vl, et, mf = setting(E, npix, False, True)
    if zero is not None:
        for a in ivar:
            k = E.choice('k' + a, [0, 1])
            ivar[a][k] = zero
            spec.forestivar[a][k] = zero
    if smooth:
        smoothed(E, spec, ivar)
    xs = sorted({x for w in waves.values() for x in w})
    mc = {x: .75 + .125 * i for i, x in enumerate(xs)}
    M = E.get('qsonic.continuum_models', 'PiccaContinuumModel')
    mini = Mini(E, 2, valid=False)
    mini.install()
    model = M(Table(E, {x / 4: v for x, v in mc.items()}), Table(E, mf),
              Table(E, vl), Table(E, et), 1, RF0, DEN, minimizer)
    model.init_spectra([spec])
    model.fit_continuum(spec)
    f = mini.calls[0][0]
    for p in ([1.25, .5], [-.75, .25]):
        exp = 0.
        for a, w in waves.items():
            for i, x in enumerate(w):
                c = mc[x] * (p[0] + p[1] * slope(x)) * mf[x]
                wt = ivar[a][i] / (et[x] + ivar[a][i] * vl[x] * c * c)
                exp = exp + wt * (flux[a][i] - c)**2
                if wt > 0:
                    exp = exp - math.log(wt)
        v, e = E.attempt(f, E.arr(p, 'f'))
        E.check(e is None, 'the minimised function can be evaluated')
        if e is None:
            E.close(v, exp, 'cost of the parameters')


def spline(E, w, w1, dw, data):
    t = (w - w1) / dw
    i = c14.cell(len(data), t)
    return c14.oracle(c14.second(len(data), 'not-a-knot'), data, i, t - i)


def tabulated(E, sym, lo, hi):
    """Four values of the continuum, any or given."""
    return E.reals('t', 4, lo, hi) if sym else [.75, 1.5, 1.25, 1.75]


def true(E, npix, sym):
    spec, waves, flux, ivar, vl, et, mf = setting(E, npix, not sym, True,
                                                  fixf=sym)
    data = tabulated(E, sym, -2, 2)
    spec.cont_params['true_data_w1'] = 3998.
    spec.cont_params['true_data_dwave'] = 1.5
    spec.cont_params['true_data'] = E.arr(data, 'f')
    M = E.get('qsonic.continuum_models', 'TrueContinuumModel')
    m = M(Table(E, mf), Table(E, vl))
    m.init_spectra([spec])
    m.fit_continuum(spec)
    cont = {a: [spline(E, x, 3998., 1.5, data) * mf[x] for x in w]
            for a, w in waves.items()}
    E.check(bool(spec.cont_params['valid']), 'a true continuum is valid')
    after(E, spec, waves, flux, ivar, cont, vl, {x: 1. for x in et})


def inputc(E, npix, nan=False, sym=True):
    spec, waves, flux, ivar, vl, et, mf = setting(E, npix, not sym, True,
                                                  fixf=sym)
    data = tabulated(E, sym, -1, 2)
    if nan:
        data = [float('nan')] + data[1:]
    M = E.get('qsonic.continuum_models', 'InputContinuumModel')
    m = M('', Table(E, mf), Table(E, vl), Table(E, et))
    p = spec.cont_params
    p.update(method='input', valid=True, cont={}, input_w1=999.5,
             input_dwave=.5, input_data=E.arr(data, 'f'))
    if nan:
        m.fit_continuum(spec)
        invalid(E, spec, ivar)
        return
    raw = {a: [spline(E, x / 4, 999.5, .5, data) for x in w]
           for a, w in waves.items()}
    for a in raw:
        for v in raw[a]:    # rounding decides the sign of smaller values
            E.assume(s_or(v > 1e-6, v < -1e-6))
    m.fit_continuum(spec)
    if bool(s_or(*[v <= 0 for a in raw for v in raw[a]])):
        invalid(E, spec, ivar)
        # and it stays so
        m.fit_continuum(spec)
        invalid(E, spec, ivar)
        return
    E.check(bool(p['valid']), 'a positive continuum is valid')
    if p['valid']:
        after(E, spec, waves, flux, ivar,
              {a: [v * mf[x] for v, x in zip(raw[a], waves[a])]
               for a in waves}, vl, et)


def files(E, n, rows, bad=False, missing=None):
    """Input continua are matched by TARGETID."""
    sp = E.mod('qsonic.spectrum')
    M = E.get('qsonic.continuum_models', 'InputContinuumModel')
    E.stub('healpy.ang2pix', lambda nside, ra, dec, **k: E.arr(
        [int(E.value(r)) + nside for r in ra], 'i'))
    d = E.path('in')
    pix = [10., 20.]
    tids = [E.int(f't{i}', T0 + 1, T0 + 4) for i in range(n)]
    specs, where = [], []
    for i in range(n):
        k = E.choice(f'p{i}', [0, 1]) if i else 0
        where.append(k)
        specs.append(whole_forest(
            E, {'B': [4000., 4000.5]}, {'B': [1., 1.]}, {'B': [1., 1.]},
            z=Z, tid=tids[i], ra=pix[k]))
    for i in range(n):      # a quasar has one position
        for j in range(i):
            if where[i] != where[j]:
                E.assume(tids[i] != tids[j])
    ft = [E.int(f'f{r}', T0 + 1, T0 + 4) for r in range(rows)]
    for r in range(rows):
        for q in range(r):
            E.assume(ft[r] != ft[q])

    def data(k, r):
        return [1. + r + 8 * k + .25 * q for q in range(4)]
    for k in (0, 1):
        if missing == k:
            continue
        nr = rows if k == 0 else 1
        t = ft if k == 0 else [T0 + 3]
        E.fits(f'{d}/input-continuum-8-{int(pix[k]) + 8}.fits', [
            ('FIBERMAP', E.table({'TARGETID': E.arr(t, 'i')}), {}),
            ('CONTINUA', E.arr([data(k, r) for r in range(
                nr + (1 if bad and not k else 0))], 'f'),
             {'WAVE1': 999.5 + k, 'DWAVE': .5})])
    m = M(d, Table(E, {}), Table(E, {}), Table(E, {}))
    r, e = E.attempt(m.init_spectra, specs)
    if bad:
        E.check(e is not None, 'inconsistent file is refused')
        return
    E.check(e is None, 'input continua are read')
    if e is not None:
        return
    for i, s in enumerate(specs):
        k = where[i]
        t = ft if k == 0 else [T0 + 3]
        hit = [r for r, x in enumerate(t) if bool(x == tids[i])]
        if missing == k:
            hit = []
            E.check(len(E.warnings) > 0, 'an unreadable file is warned of')
        E.check(bool(s.cont_params['valid']) == bool(hit),
                'valid iff the quasar has an input continuum')
        if hit and s.cont_params['valid']:
            E.close(s.cont_params['input_data'],
                    E.arr(data(k, hit[0]), 'f'),
                    'input continuum of its own quasar')
            E.close(s.cont_params['input_w1'], 999.5 + k, 'wavelength grid')
            E.close(s.cont_params['input_dwave'], .5, 'wavelength grid')


class Model:
    def __init__(self, v):
        self.v = v

    def fit_continuum(self, s):
        s.cont_params['valid'] = self.v[s.tid]


class Spec:
    def __init__(self, tid):
        self.tid, self.cont_params = tid, {}


def counts(E, size, per):
    """No valid fit on any rank is an error everywhere, else nowhere."""
    val = {(r, i): bool(E.bool(f'v{r}{i}')) for r in range(size)
           for i in range(per[r])}

    def f(comm, rank, mod):
        P = mod('qsonic.picca_continuum').PiccaContinuumFitter
        p = P.__new__(P)
        p.comm, p.mpi_rank = comm, rank
        p.model = Model(val)
        sl = [Spec((rank, i)) for i in range(per[rank])]
        p.fit_continua(sl)
        return [s.cont_params['valid'] for s in sl]
    out = E.spmd(size, f)
    anyv = any(val.values())
    for r, o in enumerate(out):
        if anyv:
            E.check(o.exc is None, 'fits succeed if any spectrum is valid')
            if o.exc is None:
                E.check(o.value == [val[r, i] for i in range(per[r])],
                        'every spectrum is fitted')
        else:
            E.check(o.raised('QsonicException'),
                    'no valid fit at all is an error on every rank')


def cases(tier):
    big = tier == 'thorough'
    out = [('picca 0', 'picca', dict(npix=[2], order=0,
                                     minimizer='iminuit')),
           ('picca 1', 'picca', dict(npix=[3], order=1,
                                     minimizer='iminuit')),
           ('picca arms', 'picca', dict(npix=[2, 2], order=1,
                                        minimizer='iminuit')),
           ('picca 2', 'picca', dict(npix=[2], order=2,
                                     minimizer='l_bfgs_b')),
           ('picca scipy', 'picca', dict(npix=[2], order=1, ivsym=True,
                                         minimizer='l_bfgs_b')),
           ('cost iminuit', 'cost', dict(npix=[2, 2], minimizer='iminuit')),
           ('cost scipy', 'cost', dict(npix=[3], minimizer='l_bfgs_b')),
           ('cost masked', 'cost', dict(npix=[2, 3], minimizer='iminuit',
                                        zero=0.)),
           ('cost noisy', 'cost', dict(npix=[2, 2], minimizer='iminuit',
                                       zero=1e-4)),
           ('cost smoothed', 'cost', dict(npix=[2, 2], smooth=True,
                                          minimizer='iminuit')),
           ('cost smoothed scipy', 'cost', dict(npix=[2], smooth=True,
                                                minimizer='l_bfgs_b')),
           ('picca valid before', 'picca', dict(
               npix=[2, 1], order=0, minimizer='iminuit', before=1)),
           ('picca invalid before', 'picca', dict(
               npix=[2, 1], order=0, minimizer='l_bfgs_b', before=0)),
           ('true data', 'true', dict(npix=[2], sym=True)),
           ('true data arms', 'true', dict(npix=[2, 2], sym=True)),
           ('true flux', 'true', dict(npix=[2, 2], sym=False)),
           ('input data', 'inputc', dict(npix=[2])),
           ('input data arms', 'inputc', dict(npix=[2, 2])),
           ('input flux', 'inputc', dict(npix=[2, 2], sym=False)),
           ('input nan', 'inputc', dict(npix=[2], nan=True)),
           ('files', 'files', dict(n=2, rows=2)),
           ('files 3', 'files', dict(n=3, rows=1)),
           ('files bad', 'files', dict(n=1, rows=2, bad=True)),
           ('files missing', 'files', dict(n=2, rows=1, missing=1)),
           ('files missing first', 'files', dict(n=2, rows=1, missing=0)),
           ('counts 1', 'counts', dict(size=1, per=[2])),
           ('counts 3', 'counts', dict(size=3, per=[2, 0, 1]))]
    if big:
        out += [('picca arms 3', 'picca', dict(npix=[3, 3], order=1,
                                               minimizer='iminuit')),
                ('true 3', 'true', dict(npix=[3, 3], sym=True)),
                ('files 3/3', 'files', dict(n=3, rows=3))]
    return out
