"""C17: variance statistics of deltas in wavelength and noise bins."""
import numpy as np

from .common import ssum, ite, s_or, s_and

BOUNDS = {'quick': '2-3 spectra of 1-3 pixels in 2 wavelength x 2 noise bins '
                   '(plus under- and overflow), any wavelength within the '
                   'range, delta and inverse variance >= 0 (zero included), '
                   '2 subsamples, 1-3 ranks; fits with 2-3 wavelength bins '
                   'of 5-6 noise bins of any population',
          'thorough': '4 pixels more'}
OUTSIDE = ('values exactly at bin edges; bins with all weight in one '
           'subsample (errors); what curve_fit and UnivariateSpline return')

EDGES = [.25, 1., 4.]
W1, W2 = 4000., 4240.


def fitter(E, mod=None, comm=None, use_cov=False, ns=2):
    V = (mod or E.mod)('qsonic.picca_continuum').VarLSSFitter
    return V(W1, W2, 2, .25, 4., 2, nsubsamples=ns, use_cov=use_cov,
             comm=comm)


def off_edge(E, v, edges):
    for x in edges:
        E.assume(s_or(v > x + 1e-6, v < x - 1e-6))


def spectra(E, spec):
    """spec: per spectrum a list of pixels: 'a' any wavelength or '0', '1' the
    wavelength bin, 'o' out of range as well; '+' fixed inverse variance; 'd' fixed delta."""
    out = []
    for k, pix in enumerate(spec):
        ws, ds, iv = [], [], []
        for i, p in enumerate(pix):
            n = f'{k}{i}'
            if p[0] in 'ao':
                w = E.real('w' + n, *((W1, W2) if p[0] == 'a'
                                      else (W1 - 300., W2 + 300.)))
                off_edge(E, w, [4000., 4120., 4240.])
            else:
                w = 4030. + 120. * int(p[0]) + 8 * i
            if '+' in p:
                v = [.5, .375, .625][(i + k) % 3]
            else:
                v = E.real('i' + n, 0, 8)
                off_edge(E, v, EDGES)
            ws.append(w)
            ds.append([.5, -.25, .75][(i + k) % 3] if 'd' in p
                      else E.real('d' + n, -2, 2))
            iv.append(v)
        out.append((ws, ds, iv))
    return out


def where(w, v):
    """Bin of a pixel, None out of range."""
    if bool(w < W1) or bool(w > W2):
        return None
    iw = 0 if bool(w < 4120.) else 1
    if bool(v < EDGES[0]) or bool(v > EDGES[2]):
        return None
    return iw * 2 + (0 if bool(v < EDGES[1]) else 1)


def oracle(E, data, subs, f, use_cov=False, errors=True):
    """data: spectra, subs: subsample index of each."""
    bins = [[] for _ in range(4)]
    for k, (ws, ds, iv) in enumerate(data):
        for w, d, v in zip(ws, ds, iv):
            b = where(w, v)
            if b is not None:
                bins[b].append((k, d, v))
    for b, pix in enumerate(bins):
        n = len(pix)
        E.close(f['npix'][b], n, 'number of pixels in the bin')
        E.close(f['nqso'][b], len({k for k, _, _ in pix}),
                'number of spectra in the bin')
        if not n:
            continue
        m = ssum(d for _, d, _ in pix) / n
        s2 = ssum(d * d for _, d, _ in pix) / n
        s4 = ssum(d * d * d * d for _, d, _ in pix) / n
        var = s2 - m * m
        E.close(f['mean'][b], m, 'mean delta')
        E.close(f['var'][b], var, 'variance of delta')
        v2 = (s4 - var * var) / n
        E.close(f['var2'][b], v2, 'variance of delta squared')
        E.close(f['cen'][b] * n, ssum(1 / v for _, _, v in pix),
                'mean pipeline variance')
        if not errors:
            continue
        per = [[(d, v) for k, d, v in pix if subs[k] == s] for s in (0, 1)]
        if not per[0] or not per[1]:
            continue

        def jk(g):
            # delete-one means of two subsamples are the means of the other
            a, c = [ssum(g(d, v) for d, v in q) / len(q) for q in per]
            return (a - c) * (a - c) / 4
        j0 = jk(lambda d, v: d)
        if use_cov:
            var1 = jk(lambda d, v: d * d) + 2 * j0 * j0 + 4 * j0 * m * m
            E.close(f['cov'][b // 2][b % 2][b % 2], var1,
                    'covariance of the variance')
        else:
            var1 = jk(lambda d, v: d * d) + 4 * m * m * j0 + 2 * j0 * j0
            got = f['evar'][b] * f['evar'][b]
            E.close(got, ite(var1 > v2, var1, v2), 'error on the variance')
        E.close(f['ecen'][b] * f['ecen'][b], jk(lambda d, v: 1 / v),
                'error on the mean pipeline variance')


def stats(v):
    return dict(npix=v.num_pixels, nqso=v.num_qso, mean=v.mean_delta,
                var=v.var_delta, var2=v.var2_delta, cen=v.var_centers,
                evar=v.e_var_delta, ecen=v.e_var_centers,
                cov=v.cov_var_delta)


def add(E, v, s):
    v.add(E.arr(s[0], 'f'), E.arr(s[1], 'f'), E.arr(s[2], 'f'))


def run(E, spec, use_cov=False, hist=False, errors=True):
    data = spectra(E, spec)
    v = fitter(E, use_cov=use_cov)
    if hist:
        add(E, v, ([4030.], [E.real('h', -2, 2)], [.5]))
        if E.choice('calc', [False, True]):
            v.calculate_subsampler_stats()
        v.reset()
    for s in data:
        add(E, v, s)
    v.calculate_subsampler_stats()
    if hist:
        v.calculate_subsampler_stats()
    oracle(E, data, [k % 2 for k in range(len(data))], stats(v), use_cov,
           errors)


def ranks(E, size, spec):
    """The statistics do not depend on how spectra are spread."""
    data = spectra(E, spec)
    own = [E.choice(f'own{k}', list(range(size)))
           for k in range(len(data))]

    def f(comm, rank, mod):
        v = fitter(E, mod, comm)
        for s, o in zip(data, own):
            if o == rank:
                add(E, v, s)
        v.calculate_subsampler_stats()
        r = stats(v)
        return {k: list(r[k]) for k in ('npix', 'nqso', 'mean', 'var',
                                        'var2', 'cen')}
    for o in E.spmd(size, f):
        E.check(o.exc is None, 'all ranks succeed')
        if o.exc is None:
            oracle(E, data, None, o.value, errors=False)


def auto(E, w1, w2, n):
    """Without a number of bins, they are close to 120 A wide."""
    v = E.get('qsonic.picca_continuum', 'VarLSSFitter')(
        w1, w2, nvarbins=2, var1=.25, var2=4., nsubsamples=2)
    E.check(v.nwbins == n, 'number of wavelength bins')
    dw = (w2 - w1) / n
    E.close(v.waveobs, E.arr([w1 + dw * (i + .5) for i in range(n)], 'f'),
            'wavelength bins')
    x = E.real('x', w1, w2)
    off_edge(E, x, [w1 + dw * i for i in range(n + 1)])
    add(E, v, ([x], [.5], [.5]))
    v.calculate_subsampler_stats()
    for i in range(n):
        E.close(v.num_pixels[2 * i], ite(s_and(
            x > w1 + dw * i, x < w1 + dw * (i + 1)), 1, 0),
            'the pixel is in the bin of its wavelength')
        E.close(v.num_pixels[2 * i + 1], 0, 'and in no other')
    f = v.construct_interp(.5)
    E.close(f(E.arr([x], 'f'))[0], .5, 'constant function')


class Fit:
    """Stands in for curve_fit."""

    def __init__(self, E, fails):
        self.E, self.fails, self.calls = E, fails, []

    def __call__(self, f, xdata, ydata, p0=None, sigma=None, **kw):
        E = self.E
        p0 = E.np.atleast_1d(p0)
        self.calls.append((f, xdata, ydata, p0, sigma, kw))
        if self.fails[len(self.calls) - 1]:
            raise RuntimeError('no convergence')
        k = len(p0)
        n = len(self.calls)
        return (E.arr([.25 * n + .0625 * j for j in range(k)], 'f'),
                E.arr([[(.5 + j) if i == j else .125 for i in range(k)]
                       for j in range(k)], 'f'))


POP = {'A': (8, 4), 'B': (7, 4), 'C': (8, 3), 'D': (4, 2), 'E': (3, 2),
       'F': (4, 1), 'G': (0, 0), 'H': (9, 5)}


class Spl:
    """Stands in for UnivariateSpline."""

    def __init__(self, E):
        self.E, self.calls = E, []

    def __call__(self, x, y, w=None, **kw):
        self.calls.append((list(x), list(y), list(w)))
        n = len(self.calls)
        return lambda z: self.E.arr([float(q) * n for q in z], 'f')


def fit(E, nw, nv, two=False, may_fail=False, free={}, smooth=False,
        use_cov=False, nsub=2):
    """Which bins enter the fit, and what is done with failures."""
    V = E.get('qsonic.picca_continuum', 'VarLSSFitter')
    v = V(W1, W1 + 120. * nw, nw, .0625, 1024., nv, nsubsamples=nsub,
          use_cov=use_cov)
    edges = [2.**(-10 + 14. * k / nv) for k in range(nv + 1)]
    old = V.min_num_pix, V.min_num_qso
    V.min_num_pix, V.min_num_qso = 8, 4
    # pixels and quasars of each bin
    pop = [[POP[E.choice(f'p{a}_{b}', list(free[f'{a},{b}']))]
            if f'{a},{b}' in free else POP['A'] for b in range(nv)]
           for a in range(nw)]
    dl = {}
    for a in range(nw):
        for b in range(nv):
            iv = (edges[b] * edges[b + 1])**.5
            w = W1 + 60. + 120. * a
            dl[a, b] = iv
            n, q = pop[a][b]
            for k in range(q):
                m = n - q + 1 if k == 0 else 1
                add(E, v, ([w] * m, [.5 - .125 * (b + k + j % 3)
                                     for j in range(m)], [iv] * m))
    fails = [bool(E.bool(f'fail{a}')) if may_fail else False
             for a in range(nw)]
    stub = Fit(E, fails)
    E.stub('scipy.optimize.curve_fit', stub)
    spl = Spl(E)
    E.stub('scipy.interpolate.UnivariateSpline', spl)
    g = [.5 + .125 * a for a in range(nw)]
    guess = E.arr([[x, 1.] for x in g] if two else g, 'f')
    r, e = E.attempt(v.fit, guess, *([] if smooth else [False]))
    V.min_num_pix, V.min_num_qso = old
    used, k, nfail = [], 0, 0
    for a in range(nw):
        ok = [n >= 8 and q >= 4 for n, q in pop[a]]
        if sum(ok) < 5:
            ok = [n >= 4 and q >= 2 for n, q in pop[a]]
        if sum(ok) < 5:
            used.append(None)
            nfail += 1
            continue
        used.append(k)
        E.check(len(stub.calls) > k, 'enough statistics: fitted')
        if len(stub.calls) <= k:
            return
        f, x, y, p0, sig, kw = stub.calls[k]
        idx = [b for b in range(nv) if ok[b]]
        E.check(len(x) == len(idx) == len(y) == len(sig),
                'only bins with enough pixels and quasars are fitted')
        if not len(x) == len(idx) == len(y) == len(sig):
            return
        cov = None
        if use_cov:
            cov = [[float(E.value(v.cov_var_delta[a][b, b2])) for b2 in idx]
                   for b in idx]
            if min(np.linalg.eigvalsh(np.array(cov))) <= 0:
                cov = None
        E.check(bool(kw.get('absolute_sigma')), 'errors are absolute')
        lo, hi = kw.get('bounds', (0, 0))
        E.check(np.ravel(lo).tolist() == [0] * np.size(lo)
                and np.ravel(hi).tolist() == [2] * np.size(hi),
                'documented domain of the parameters')
        for q, b in enumerate(idx):
            E.close(x[q] * dl[a, b], 1., 'pipeline variance of the bin')
            E.close(y[q], v.var_delta[a * nv + b], 'variance of the bin')
            if cov is None:
                E.close(sig[q], v.e_var_delta[a * nv + b],
                        'error of the bin')
            else:
                for q2 in range(len(idx)):
                    E.close(sig[q][q2], cov[q][q2],
                            'covariance of the bins')
        E.close(p0[0], g[a], 'initial guess of the wavelength bin')
        x = E.real(f'x{a}', 0, 4)
        if two:
            E.close(p0[1], 1., 'initial guess of the wavelength bin')
            E.close(f(x, .5, .25), .25 * x + .5, 'variance model')
        else:
            E.close(f(x, .5), x + .5, 'variance model')
        if fails[k]:
            nfail += 1
            used[-1] = None
        k += 1
    E.check(len(stub.calls) == k, 'one fit per wavelength bin')
    if nfail > .4 * nw:
        E.check(e is not None, 'too many failed bins are an error')
        return
    E.check(e is None, 'a fit with few failed bins succeeds')
    if e is not None:
        return
    y, s = r
    good = [a for a in range(nw) if used[a] is not None]
    nj = 2 if two else 1
    if smooth:
        E.check(len(spl.calls) == nj, 'each parameter is smoothed')
        if len(spl.calls) != nj:
            return
    for j in range(nj):
        if smooth:
            xs, ys, ws = spl.calls[j]
            E.check(len(xs) == len(ys) == len(ws) == len(good),
                    'failed bins do not enter the smoothing')
            if not len(xs) == len(ys) == len(ws) == len(good):
                return
            for q, a in enumerate(good):
                E.close(xs[q], W1 + 60. + 120. * a, 'smoothed wavelength')
                E.close(ys[q], .25 * (used[a] + 1) + .0625 * j,
                        'smoothed fit result')
                E.close(ws[q] * ws[q] * (.5 + j), 1., 'smoothing weights')
        for a in range(nw):
            gy = y[a][j] if two else y[a]
            gs = s[a][j] if two else s[a]
            if smooth:
                E.close(gy, (W1 + 60. + 120. * a) * (j + 1),
                        'smoothed in all bins')
            elif used[a] is None:
                E.close(gy, 0., 'failed bins')
            else:
                E.close(gy, .25 * (used[a] + 1) + .0625 * j, 'fit result')
            if used[a] is not None:
                E.close(gs * gs, .5 + j, 'fit error')


def write(E, use_cov):
    data = spectra(E, [['0+', '1+'], ['0+']])
    v = fitter(E, use_cov=use_cov)
    for s in data:
        add(E, v, s)
    v.calculate_subsampler_stats()
    M = E.get('qsonic.mpi_utils', 'MPISaver')
    p = E.path('var.fits')
    fs = M(p, 0)
    v.write(fs, 1., 7.)
    fs.close()
    other = M(p, 1)
    other.write([E.arr([1.], 'f')], names=['x'], extname='OTHER')
    other.close()
    M('', 0).close()
    E.check([str(x.ext) for x in E.read_fits(p) if x.ext] == ['VAR_STATS'],
            'only the master writes')
    h = [x for x in E.read_fits(p) if x.ext == 'VAR_STATS']
    E.check(len(h) == 1, 'one table')
    t = h[0].data
    q = stats(v)
    for c, k in (('num_pixels', 'npix'), ('num_qso', 'nqso'),
                 ('mean_delta', 'mean'), ('var_delta', 'var'),
                 ('var_pipe', 'cen'), ('e_var_pipe', 'ecen'),
                 ('var2_delta', 'var2'), ('e_var_delta', 'evar')):
        E.close(t[c], q[k], 'written statistics')
    E.close(t['wave'], E.arr([4060.] * 2 + [4180.] * 2, 'f'),
            'written wavelengths')
    for k, x in (('MINSNR', 1.), ('MAXSNR', 7.), ('WAVE1', 4060.),
                 ('WAVE2', 4180.), ('NWBINS', 2), ('NVARBINS', 2),
                 ('IVAR1', .25), ('IVAR2', 4.), ('MINNPIX', 500),
                 ('MINNQSO', 50)):
        E.close(h[0].hdr[k], x, 'header')
    if use_cov:
        E.close(t['cov_var_delta'], q['cov'].reshape(4, 2),
                'written covariance')


ALL = 'ABCDEFGH'


def cases(tier):
    big = tier == 'thorough'
    out = [('one spectrum', 'run', dict(spec=[['a', 'a']], errors=False)),
           ('out of range', 'run', dict(spec=[['o+', 'o+d']], errors=False)),
           ('default bins', 'auto', dict(w1=3600., w2=4060., n=4)),
           ('default bins 2', 'auto', dict(w1=3600., w2=4010., n=3)),
           ('two spectra', 'run', dict(spec=[['a'], ['0']])),
           ('one bin', 'run', dict(spec=[['0+', '0+d'], ['0+d']])),
           ('one bin ivar', 'run', dict(spec=[['0', '0d'], ['0+d']])),
           ('three spectra', 'run', dict(spec=[['0+d'], ['0'], ['0+d']])),
           ('covariance', 'run', dict(spec=[['0+', '0d'], ['0+d']],
                                      use_cov=True)),
           ('covariance bins', 'run', dict(
               spec=[['0', '1+d'], ['0+d', '1+']], use_cov=True)),
           ('reset', 'run', dict(spec=[['0', '1+']], hist=True,
                                 errors=False)),
           ('ranks 2', 'ranks', dict(size=2, spec=[['0', '0+d'], ['0+d'],
                                                   ['1+']])),
           ('ranks 3', 'ranks', dict(size=3, spec=[['0'], ['0+']])),
           ('fit', 'fit', dict(nw=1, nv=6, free={'0,0': ALL, '0,5': ALL})),
           ('fit 2', 'fit', dict(nw=2, nv=6, free={
               '0,0': 'AF', '1,0': 'ADEF', '1,1': 'BC'})),
           ('fit eta', 'fit', dict(nw=2, nv=6, two=True, free={
               '0,0': 'BC', '0,3': 'ADEF', '1,3': 'AF'})),
           ('fit fails', 'fit', dict(nw=2, nv=5, may_fail=True, free={
               '0,0': 'AE'})),
           ('fit fails 3', 'fit', dict(nw=3, nv=5, may_fail=True, free={})),
           ('fit smooth', 'fit', dict(nw=3, nv=5, may_fail=True, free={},
                                      smooth=True)),
           ('fit smooth eta', 'fit', dict(nw=3, nv=5, may_fail=True, free={},
                                          two=True, smooth=True)),
           ('fit cov', 'fit', dict(nw=2, nv=6, use_cov=True, free={
               '1,2': 'AE'})),
           ('fit cov full', 'fit', dict(nw=2, nv=6, use_cov=True, nsub=24,
                                        free={'0,1': 'AE'})),
           ('write', 'write', dict(use_cov=False)),
           ('write cov', 'write', dict(use_cov=True))]
    if big:
        out += [('two spectra 2+1', 'run', dict(spec=[['a', '1'], ['0']])),
                ('one bin 2+1', 'run', dict(spec=[['0+', '0+'], ['0+d']])),
                ('ranks 3 many', 'ranks', dict(size=3, spec=[
                    ['0', '1+'], ['0+'], ['a'], ['0+']]))]
    return out
