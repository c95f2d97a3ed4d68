"""C26: global functions: fiducials, mean continuum, var_lss and eta."""
import inspect
import math

from .common import AllArgs, ssum, ite, s_and, s_or, s_not, whole_forest
from .c11 import Table
from . import c14

BOUNDS = {'quick': 'fiducial files of 3-5 rows of any values, one row '
                   'displaced by any amount, columns present or not; mean '
                   'continua of 4-5 rest-frame bins, any stacked flux, empty '
                   'bins, projection orders 0-2, 1-3 ranks; 2 spectra of any '
                   'flux, continuum, inverse variance and validity; any '
                   'validity of 2-3 fits on 1-3 ranks; 1-3 '
                   'iterations, all combinations of eta, normalisation and '
                   'noise options',
          'thorough': '6 rest-frame bins, orders up to 3'}
OUTSIDE = ('what UnivariateSpline, curve_fit and the minimisers return: they '
           'are replaced; mean continua with a norm below 1/10')


class Args(AllArgs):
    def __init__(self, nb=4, **k):
        self.num_iterations, self.cont_order = 3, 1
        self.outdir = None
        self.var_fit_eta = self.normalize_stacked_flux = False
        self.eta_calib_ivar = self.var_use_cov = False
        self.forest_w1, self.forest_w2 = 1000., 1000. + 10. * nb
        self.rfdwave = 10.
        self.wave1, self.wave2 = 3960., 4440.
        self.fiducial_meanflux = self.fiducial_varlss = None
        self.continuum_model, self.minimizer = 'picca', 'iminuit'
        self.input_continuum_dir = None
        self.true_continuum = False
        self.__dict__.update(k)


class Spline:
    """Stands in for UnivariateSpline: keeps the values."""

    def __init__(self, E, calls):
        self.E, self.calls = E, calls

    def __call__(self, x, y, w=None, **k):
        self.calls.append((x, y, w))
        y = self.E.arr(list(y), 'f')
        return lambda z: y.copy()


class Var:
    """Stands in for VarLSSFitter."""
    log = None
    result = None

    def __init__(self, w1, w2, nwbins=None, *a, **k):
        self.nwbins = nwbins or int(round((w2 - w1) / 120.))
        self.dwobs = (w2 - w1) / self.nwbins
        E = self.E
        self.waveobs = E.arr([w1 + self.dwobs * (i + .5)
                              for i in range(self.nwbins)], 'f')
        self.added = []
        self.made.append(bool(inspect.signature(self.real.__init__).bind(
            self, w1, w2, nwbins, *a, **k).arguments.get('use_cov', False)))

    def construct_interp(self, y0=1.):
        E = self.E
        return self.cubic(float(self.waveobs[0]), self.dwobs,
                          E.arr([y0] * self.nwbins, 'f'),
                          ep=E.arr([0.] * self.nwbins, 'f'))

    def reset(self):
        self.added = []

    def add(self, wave, delta, ivar):
        self.added.append((wave, delta, ivar))

    def fit(self, guess, smooth=True):
        self.log.append((guess, list(self.added)))
        return self.result(self, guess, len(self.log))

    def write(self, fs, *a, **k):
        fs.write([self.waveobs], names=['wave'], extname='VAR_STATS')


class Log(list):
    made = ()


def use_var(E, mod, result):
    m = mod('qsonic.picca_continuum')
    c = mod('qsonic.mathtools').FastCubic1DInterp
    log = Log()

    class V(Var):
        pass
    V.made, V.real = [], m.VarLSSFitter
    log.made = V.made
    V.E, V.log, V.result, V.cubic = E, log, staticmethod(result), c
    m.VarLSSFitter = V
    return log


def fiducial(E, n, size, what):
    """Values between rows are linear; bad files are refused everywhere."""
    p = E.path('fid.fits')
    off = E.real('off', -25, 25) if what == 'space' else 0.
    wv = [3900. + 100. * i for i in range(n)]
    wv[-1] = wv[-1] + off
    mf = E.reals('m', n, .25, 1)
    vl = E.reals('v', n, 0, 1)
    cols = {'LAMBDA': E.arr(wv, 'f')}
    if what != 'nomf':
        cols['MEANFLUX'] = E.arr(mf, 'f')
    if what != 'novl':
        cols['VAR_LSS'] = E.arr(vl, 'f')
    cols['VAR'] = E.arr([9.] * n, 'f')
    E.fits(p, [('STATS' if what != 'noext' else 'X', E.table(cols), {})])
    i = E.choice('i', list(range(n - 1)))
    t = E.real('t', 0, 1)
    x = 3900. + 100. * i + 100. * t

    def f(comm, rank, mod):
        use_var(E, mod, None)
        P = mod('qsonic.picca_continuum').PiccaContinuumFitter
        q = P(Args(fiducial_meanflux=p if what != 'only v' else None,
                   fiducial_varlss=p if what != 'only m' else None))
        xs = E.arr([x], 'f')
        return (q.meanflux_interp(xs)[0], q.varlss_interp(xs)[0],
                q.eta_interp(xs)[0])
    bad = what in ('nomf', 'novl', 'noext')
    if what == 'space':
        a = ite(off < 0, -off, off)
        E.assume(s_or(a < 1e-5, a > 1e-2))
        bad = bool(a > 1e-2)
    for o in E.spmd(size, f):
        if bad:
            E.check(o.raised('QsonicException'),
                    'a bad fiducial file is an error on every rank')
            continue
        E.check(o.exc is None, 'a good fiducial file is read on every rank')
        if o.exc is not None:
            return
        m, v, e = o.value
        if what == 'only v':
            E.close(m, 1., 'mean flux is one without a fiducial')
        else:
            E.close(m, mf[i] * (1 - t) + mf[i + 1] * t,
                    'fiducial mean flux at its wavelength', atol=1e-6)
        if what == 'only m':
            E.close(v, .1, 'initial var_lss')
        else:
            E.close(v, vl[i] * (1 - t) + vl[i + 1] * t,
                    'fiducial var_lss at its wavelength', atol=1e-6)
        E.close(e, 1., 'eta is one')


class Model:
    """A continuum model that stacks given pixels."""

    def __init__(self, E, pix, resid):
        self.E, self.pix, self.resid = E, pix, resid

    def stack_spectra(self, specs, st):
        E = self.E
        self.seen = [s for s in specs]
        for obs, rf, f, c, w in self.pix:
            st.add(E.arr([obs], 'f'), E.arr([rf], 'f'), E.arr([f * w], 'f'),
                   E.arr([c * w], 'f'), E.arr([w], 'f'))

    def stacks_residual_flux(self):
        return self.resid


def weights(x):
    """Integration weights of natural splines."""
    import numpy as np
    from scipy.interpolate import CubicSpline
    return [float(v) for v in CubicSpline(
        x, np.eye(len(x)), bc_type='natural').integrate(0, 1)]


def between(y, i, t):
    """Not-a-knot spline through y, in the cell i."""
    return c14.oracle(c14.second(len(y), 'not-a-knot'), y, i, t)


def legendre(n, t):
    return [1, t, (3 * t * t - 1) / 2, (5 * t**3 - 3 * t) / 2][n]


def mean(E, nb, order, resid, size=1, empty=(), calm=False, conv=None,
         kind='picca', neg=None):
    rf = [1005. + 10. * i for i in range(nb)]
    fp0 = [1. + .125 * i for i in range(nb)]
    r, pix = [], []
    for i in range(nb):
        if i in empty:
            r.append(None)
            continue
        if conv is not None and conv != i:
            v = 1.
        else:
            v = E.real(f'r{i}', .96 if calm else -.5 if i == neg
                       else .5, 1.04 if calm else 2)
        r.append(v)
        pix.append((4000. + 8. * i, rf[i], 1., v, 4. if i % 2 else 1.))
    own = [E.choice(f'o{k}', list(range(size))) if k < 2 else 0
           for k in range(len(pix))]
    calls = []
    E.stub('scipy.interpolate.UnivariateSpline', Spline(E, calls))

    def f(comm, rank, mod):
        use_var(E, mod, None)
        P = mod('qsonic.picca_continuum').PiccaContinuumFitter
        # orders are removed only from what was fitted with them
        q = P(Args(nb, cont_order=order if kind == 'picca' else 1,
                   continuum_model=kind, true_continuum=kind == 'true',
                   input_continuum_dir=E.path('c')
                   if kind == 'input' else None))
        q.meancont_interp.reset(E.arr(fp0, 'f'), ep=E.arr([0.] * nb, 'f'))
        q.model = Model(E, [p for p, o in zip(pix, own) if o == rank], resid)
        c = q.update_mean_cont([])
        m = q.meancont_interp
        return (bool(c) if conv is not None else c, list(m.fp), list(m.ep),
                list(m(E.arr(rf + [v + 2.5 for v in rf[:-1]], 'f'))))
    live = [v for v in r if v is not None]
    avg = ssum(live) / len(live)
    std = [None if v is None else (.5 if i % 2 else 1.)
           for i, v in enumerate(r)]
    sl = [s for s in std if s is not None]
    std = [10 * sum(sl) / len(sl) if s is None else s for s in std]
    y = [avg if v is None else v for v in r]
    if resid:
        y = [a * b for a, b in zip(y, fp0)]
    den = math.log(rf[-1] / rf[0])
    x = [math.log(v / rf[0]) / den for v in rf]
    W = weights(x)
    for k in range(1, order + 1):
        L = [legendre(k, 2 * v - 1) for v in x]
        B = (2 * k + 1) * ssum(w * a * b for w, a, b in zip(W, y, L))
        y = [a - B * b for a, b in zip(y, L)]
    N = ssum(w * a for w, a in zip(W, y))
    E.assume(N >= .1)
    up = [a / b - N for a, b in zip(y, fp0)]         # times the norm
    c1 = s_and(*[s_and(u < .33 * s, u > -.33 * s) for u, s in zip(up, std)])
    chi = ssum(u * u / (s * s) for u, s in zip(up, std)) / nb
    c2 = chi < 1e-3
    for u, s in zip(up, std) if conv is not None else ():
        E.assume(s_or(*[s_and(u - q > 1e-6) for q in (.33 * s,)],
                      *[u - q < -1e-6 for q in (.33 * s,)]))
        E.assume(s_or(u + .33 * s > 1e-6, u + .33 * s < -1e-6))
    if conv is not None:
        E.assume(s_or(chi > 1.01e-3, chi < .99e-3))
    for o in E.spmd(size, f):
        E.check(o.exc is None, 'the mean continuum is updated')
        if o.exc is not None:
            return
        c, fp, ep, at = o.value
        for i in range(nb):
            E.close(fp[i] * N, y[i], 'projected and normalised stack')
            E.close(at[i], fp[i], 'the interpolator follows')
            E.close(ep[i] * N, std[i], 'error of the mean continuum')
        for i in range(nb - 1):
            E.close(at[nb + i], between(fp, i, .25),
                    'the interpolator follows')
        E.close(ssum(w * v for w, v in zip(W, fp)), 1.,
                'the mean continuum has a mean of one')
        if conv is None:
            continue
        want = s_or(c1, c2)
        E.check(s_or(s_not(want), c), 'small updates are convergence')
        E.check(s_or(want, not c), 'large updates are not convergence')
    for k in range(size):
        xx, yy, ww = calls[k]
        for i in range(nb):
            E.close(xx[i], rf[i], 'smoothed as a function of wavelength')
            E.close(ww[i] * std[i], 1., 'smoothed with inverse errors')


def spectra(E, n, tag=''):
    out = []
    for k in range(n):
        w = {'B': [4000., 4000.5], 'R': [4001.]}
        s = whole_forest(E, w, {'B': [1., 1.], 'R': [1.]},
                         {'B': [1., 1.], 'R': [1.]}, tid=100 + k)
        s.set_smooth_forestivar(16.)    # unlike the noise set below
        f = {a: E.reals(f'f{k}{a}', len(v), -2, 2) for a, v in w.items()}
        i = {a: E.reals(f'i{k}{a}', len(v), 0, 2) for a, v in w.items()}
        c = {a: E.reals(f'c{k}{a}', len(v), .5, 2) for a, v in w.items()}
        for a in w:
            for j in range(len(w[a])):
                s.forestflux[a][j] = f[a][j]
                s.forestivar[a][j] = i[a][j]
        ok = bool(E.bool(f'ok{k}'))
        s.cont_params['valid'] = ok
        s.cont_params['cont'] = {a: E.arr(v, 'f') for a, v in c.items()} \
            if ok else None
        out.append(dict(s=s, f=f, i=i, c=c, ok=ok, w=w))
    return out


def variance(E, eta):
    """Variances are fitted to the deltas of valid spectra."""
    nw = 4
    ys = E.reals('y', nw, 0, 1)
    es = E.reals('e', nw, .5, 2)

    def result(v, guess, k):
        e = E.arr([.5, .25, .125, .0625], 'f')
        if eta:
            return (E.arr([[a, b] for a, b in zip(ys, es)], 'f'),
                    E.arr([[.5 + i, .25 + i] for i in range(nw)], 'f'))
        return E.arr(ys, 'f'), e
    log = use_var(E, E.mod, result)
    P = E.get('qsonic.picca_continuum', 'PiccaContinuumFitter')
    q = P(Args(var_fit_eta=eta))
    t = spectra(E, 2)
    for k in range(2):
        q.update_var_lss_eta([x['s'] for x in t])
        E.check(len(log) == k + 1, 'one fit')
        guess, added = log[-1]
        want = [(x, a) for x in t if x['ok'] for a in x['w']]
        E.check(len(added) == len(want), 'valid spectra only')
        if len(added) != len(want):
            return
        for (w, d, iv), (x, a) in zip(added, want):
            for j in range(len(x['w'][a])):
                c = x['c'][a][j]
                E.close(w[j], x['w'][a][j], 'wavelength')
                E.close(d[j], x['f'][a][j] / c - 1, 'delta')
                E.close(iv[j], x['i'][a][j] * c * c, 'noise of the delta')
        wv = E.arr([4020. + 120 * i for i in range(nw)], 'f')
        v, e = q.varlss_interp(wv), q.eta_interp(wv)
        mv, me = q.varlss_interp(wv[:-1] + 30.), q.eta_interp(wv[:-1] + 30.)
        for i in range(nw - 1):
            E.close(mv[i], between(ys, i, .25), 'var_lss between the bins')
            E.close(me[i], between(es, i, .25) if eta else 1.,
                    'eta between the bins')
        for i in range(nw):
            g = guess[i][0] if eta else guess[i]
            E.close(g, ys[i] if k else .1, 'guess from the previous fit')
            if eta:
                E.close(guess[i][1], es[i] if k else 1.,
                        'guess from the previous fit')
            E.close(v[i], ys[i], 'var_lss is the fitted one')
            E.close(e[i], es[i] if eta else 1.,
                    'eta is the fitted one, or one if not fitted')


class Given:
    """A model that finds what it is told."""

    def fit_continuum(self, s):
        s.cont_params['valid'] = s.good


class Quasar:
    def __init__(self, good):
        self.good, self.cont_params = good, {'valid': False}


def ranks(E, n):
    """Fits fail on every rank, if there is no valid one on any."""
    good = [[bool(E.bool(f'g{r}{k}')) for k in range(m)]
            for r, m in enumerate(n)]

    def f(comm, rank, mod):
        use_var(E, mod, None)
        q = mod('qsonic.picca_continuum').PiccaContinuumFitter(Args())
        q.model = Given()
        q.fit_continua([Quasar(g) for g in good[rank]])
    for o in E.spmd(len(n), f):
        if any(g for x in good for g in x):
            E.check(o.exc is None, 'valid fits on any rank are enough')
        else:
            E.check(o.raised('QsonicException'),
                    'no valid fits are an error on every rank')


class Steps:
    """Scripted model for the iteration."""

    def __init__(self, E, q, specs, gain, log):
        self.E, self.q, self.specs, self.gain, self.log = \
            E, q, specs, gain, log
        self.n = 0

    def init_spectra(self, sl):
        self.log.append('init')

    def fit_continuum(self, s):
        if self.specs and s is self.specs[0]:
            self.n += 1
            q = self.q
            self.log.append(('fit', list(q.meancont_interp.fp),
                             list(q.varlss_interp.fp),
                             list(q.eta_interp.fp)))

    def stack_spectra(self, specs, st):
        E = self.E
        g = self.gain[min(self.n, len(self.gain)) - 1]
        specs = list(specs)
        for i in range(4):
            v = 1. + g * (i - 1.5)
            x = 4000. + 120 * i
            st.add(E.arr([x], 'f'), E.arr([1005. + 10 * i], 'f'),
                   E.arr([4. * self.flux[i]], 'f'), E.arr([4. * v], 'f'),
                   E.arr([4.], 'f'))

    def stacks_residual_flux(self):
        return True


def iterate(E, eta, norm, calib, fid, gain, iters=3, cov=False):
    """gain: size of the update of every iteration."""
    calls = []
    E.stub('scipy.interpolate.UnivariateSpline', Spline(E, calls))
    nw = 4

    def result(v, guess, k):
        if eta:
            return (E.arr([[.25 * k, 1. + .25 * k]] * nw, 'f'),
                    E.arr([[.5, .25]] * nw, 'f'))
        return E.arr([.25 * k] * nw, 'f'), E.arr([.5] * nw, 'f')
    log = use_var(E, E.mod, result)
    P = E.get('qsonic.picca_continuum', 'PiccaContinuumFitter')
    out = E.path('out')
    E.mkdir(out)
    p = None
    if fid:
        p = E.path('fid.fits')
        E.fits(p, [('STATS', E.table({
            'LAMBDA': E.arr([4020. + 120. * i for i in range(nw)], 'f'),
            'MEANFLUX': E.arr([.75] * nw, 'f'),
            'VAR_LSS': E.arr([.375] * nw, 'f')}), {})])
    q = P(Args(outdir=out, var_fit_eta=eta, normalize_stacked_flux=norm,
               eta_calib_ivar=calib, fiducial_varlss=p, cont_order=0,
               num_iterations=iters, var_use_cov=cov))
    t = spectra(E, 2)
    ev = []
    m = Steps(E, q, [x['s'] for x in t], gain, ev)
    m.flux = E.reals('s', 4, .5, 2)
    q.model = m
    if not any(x['ok'] for x in t):
        return
    _, e = E.attempt(q.iterate, [x['s'] for x in t])
    E.check(e is None, 'the iteration succeeds')
    if e is not None:
        return
    E.check(log.made and all(x == cov for x in log.made),
            'covariance is used iff asked')
    n = len([g for g in gain if g])
    n = iters if n >= iters else n + 1
    fits = [x for x in ev if x != 'init']
    E.check(ev[:1] == ['init'] and ev.count('init') == 1,
            'spectra are initialised once')
    E.check(len(fits) == n,
            'iterates until converged or out of iterations')
    if len(fits) != n:
        return
    h = {}
    names = []
    for x in E.read_fits(out + '/attributes.fits'):
        if x.ext:
            E.check(x.ext not in h, 'each table is written once')
            h[x.ext] = x
            names.append(x.ext)
    for k, (_, mc, vl, et) in enumerate(fits):
        c = h.get(f'CONT-{k + 1}')
        E.check(c is not None, 'the mean continuum of every iteration')
        if c is None:
            return
        for i in range(4):
            E.close(c.data['mean_cont'][i], mc[i],
                    'saved mean continuum is the one used')
            E.close(c.data['lambda_rf'][i], 1005. + 10 * i, 'wavelength')
        if fid:
            E.check(f'VAR_FUNC-{k + 1}' not in h, 'no fitted variance')
            for i in range(nw):
                E.close(vl[i], .375, 'the fiducial var_lss is used')
                E.close(et[i], 1., 'no eta with fiducial var_lss')
            continue
        c = h.get(f'VAR_FUNC-{k + 1}')
        E.check(c is not None, 'the variance of every iteration')
        if c is None:
            return
        for i in range(nw):
            E.close(vl[i], .25 * k if k else .1, 'var_lss of the last fit')
            E.close(et[i], 1. + .25 * k if eta else 1.,
                    'eta of the last fit')
            E.close(c.data['var_lss'][i], vl[i], 'saved variance is used')
            E.close(c.data['eta'][i], et[i], 'saved eta is used')
    c = h.get('CONT')
    E.check(c is not None and 'STACKED_FLUX' in h and 'STACKED_FLUX_RF' in h
            and 'VAR_STATS' in h, 'final functions are saved')
    if c is None or 'STACKED_FLUX' not in h:
        return
    st = h['STACKED_FLUX'].data
    for i in range(4):
        x = 4000. + 120 * i
        j = [k for k in range(len(st['lambda']))
             if abs(float(st['lambda'][k]) - x) < 4.01]
        E.close(st['stacked_flux'][j[-1]], m.flux[i], 'stacked flux')
    if not fid:
        E.close(h['VAR_FUNC'].data['var_lss'][0], .25 * n, 'final variance')
    E.check(('VAR_FUNC-fit' in h) == bool(fid),
            'variance fitted at the end with a fiducial')
    # spectra afterwards
    wv = E.arr([4020. + 120 * i for i in range(nw)], 'f')
    v, et = q.varlss_interp(wv), q.eta_interp(wv)
    for i in range(nw):
        E.close(v[i], .375 if fid else .25 * n,
                'var_lss for weights afterwards')
        E.close(et[i], 1. + .25 * n if eta and not fid else 1.,
                'eta for weights afterwards')
    e1 = 1. + .25 * n if eta and not fid else 1.
    for x in t:
        for a, w in x['w'].items():
            for j in range(len(w)):
                E.close(x['s'].forestivar[a][j] * (e1 if calib else 1.),
                        x['i'][a][j], 'noise is divided by eta iff asked')
                if not x['ok']:
                    continue
                if norm:
                    # flux stacks sit at bin centres, linear in between
                    fac = stackval(E, st, w[j])
                else:
                    fac = 1.
                E.close(x['s'].cont_params['cont'][a][j], x['c'][a][j] * fac,
                        'continuum is normalised iff asked')


def stackval(E, st, x):
    lam = [float(v) for v in st['lambda']]
    for k in range(len(lam) - 1):
        if lam[k] <= x <= lam[k + 1]:
            t = (x - lam[k]) / (lam[k + 1] - lam[k])
            return st['stacked_flux'][k] * (1 - t) \
                + st['stacked_flux'][k + 1] * t


def cases(tier):
    big = tier == 'thorough'
    out = [('fiducial', 'fiducial', dict(n=4, size=2, what='')),
           ('fiducial 5', 'fiducial', dict(n=5, size=1, what='')),
           ('fiducial mean only', 'fiducial', dict(n=3, size=1,
                                                   what='only m')),
           ('fiducial var only', 'fiducial', dict(n=4, size=1,
                                                  what='only v')),
           ('fiducial spacing', 'fiducial', dict(n=4, size=3, what='space'))]
    out += [('fiducial ' + w, 'fiducial', dict(n=4, size=2, what=w))
            for w in ('nomf', 'novl', 'noext')]
    out += [('mean 0', 'mean', dict(nb=4, order=0, resid=True)),
            ('mean 1', 'mean', dict(nb=4, order=1, resid=True)),
            ('mean 2', 'mean', dict(nb=5, order=2, resid=False)),
            ('mean calm', 'mean', dict(nb=4, order=1, resid=True,
                                       calm=True)),
            ('mean empty', 'mean', dict(nb=5, order=1, resid=True,
                                        empty=(1,))),
            ('mean negative', 'mean', dict(nb=4, order=0, resid=False,
                                           neg=1)),
            ('mean ranks', 'mean', dict(nb=4, order=1, resid=True, size=2)),
            ('mean true', 'mean', dict(nb=4, order=0, resid=False,
                                       kind='true')),
            ('mean input', 'mean', dict(nb=4, order=0, resid=False,
                                        kind='input')),
            ('mean conv 0', 'mean', dict(nb=4, order=0, resid=True, conv=1)),
            ('mean conv 1', 'mean', dict(nb=4, order=1, resid=True, conv=2)),
            ('mean conv edge', 'mean', dict(nb=4, order=1, resid=True,
                                            conv=3)),
            ('mean conv raw', 'mean', dict(nb=4, order=1, resid=False,
                                           conv=0)),
            ('mean conv ranks', 'mean', dict(nb=4, order=1, resid=True,
                                             conv=0, size=2)),
            ('fits 1', 'ranks', dict(n=[2])),
            ('fits 2', 'ranks', dict(n=[1, 2])),
            ('fits 3', 'ranks', dict(n=[2, 0, 1])),
            ('variance', 'variance', dict(eta=False)),
            ('variance eta', 'variance', dict(eta=True))]
    G = [.25, .25, .25]
    for eta in (False, True):
        for norm in (False, True):
            for calib in (False, True):
                out.append((f'iterate {eta:d}{norm:d}{calib:d}', 'iterate',
                            dict(eta=eta, norm=norm, calib=calib, fid=False,
                                 gain=[.25, 0.])))
    out += [('iterate 1', 'iterate', dict(eta=True, norm=False, calib=False,
                                          fid=False, gain=G, iters=1)),
            ('iterate 3', 'iterate', dict(eta=True, norm=True, calib=True,
                                          fid=False, gain=G)),
            ('iterate conv', 'iterate', dict(eta=False, norm=False,
                                             calib=False, fid=False,
                                             gain=[0.], cov=True)),
            ('iterate fiducial', 'iterate', dict(eta=False, norm=True,
                                                 calib=False, fid=True,
                                                 gain=[.25, 0.])),
            ('iterate fiducial eta', 'iterate', dict(
                eta=True, norm=False, calib=True, fid=True, gain=[0.],
                cov=True))]
    if big:
        out += [('mean 3', 'mean', dict(nb=6, order=3, resid=True)),
                ('mean empties', 'mean', dict(nb=6, order=2, resid=False,
                                              empty=(0, 3)))]
    return out
