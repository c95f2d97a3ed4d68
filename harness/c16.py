"""C16: smoothing the inverse variance."""
import math

from .common import (s_and, s_or, s_not, ite, ssum, whole_forest, GRID, smax,
                     smin)

BOUNDS = {'quick': 'smoothing of 3-6 values; 3-4 pixels (one or two arms), '
                   'any error in [1/4, 4] per pixel, any pixels masked, '
                   'smoothing scales of 0.5 to 4 pixels and the default 20',
          'thorough': '5 pixels'}
OUTSIDE = 'longer spectra'


def linear(E, n, sig):
    """Linear, preserves constants, mirror symmetric, shift invariant."""
    f = E.get('qsonic.mathtools', 'fft_gaussian_smooth')
    x = E.reals('x', n, -4, 4)
    a = E.real('a', -4, 4)
    y = f(E.arr(x, 'f'), sig)
    E.check(y.shape == (n,), 'same size')
    K = []
    for j in range(n):
        K.append(f(E.arr([1. if i == j else 0. for i in range(n)], 'f'),
                   sig))
    r = f(E.arr(x[::-1], 'f'), sig)
    c = f(E.arr([a] * n, 'f'), sig)
    for i in range(n):
        E.close(y[i], ssum(float(K[j][i]) * x[j] for j in range(n)),
                'smoothing is linear')
        E.close(r[n - 1 - i], y[i], 'smoothing is symmetric')
        E.close(c[i], a, 'a constant stays a constant')
    if sig == 4:
        # edges repeat the first and the last value: the first value weighs
        # as much as everything on its side does in the interior
        E.close(float(K[0][0]), float(ssum(K[1][1 + d]
                                           for d in range(n - 2))),
                'edge values are repeated', atol=2e-2)
    for i in range(1, n - 1):
        for j in range(1, n - 2):
            if i + 1 < n - 1:
                E.close(float(K[j][i]), float(K[j + 1][i + 1]),
                        'smoothing is shift invariant', atol=1e-6)


def gauss(sig, n, pad):
    """Weight of value j in pixel i, edges repeated over `pad` pixels."""
    def g(d):
        return math.exp(-.5 * (d / sig)**2)
    K = [[0.] * n for _ in range(n)]
    for i in range(n):
        norm = sum(g(d) for d in range(-n - pad, n + pad + 1))
        for q in range(-pad, n + pad):
            K[min(max(q, 0), n - 1)][i] += g(q - i) / norm
    return K


def width(E, n, sig):
    """The kernel is the Gaussian of the given standard deviation."""
    f = E.get('qsonic.mathtools', 'fft_gaussian_smooth')
    x = E.reals('x', n, -4, 4)
    y = f(E.arr(x, 'f'), sig)
    K = [f(E.arr([1. if i == j else 0. for i in range(n)], 'f'), sig)
         for j in range(n)]
    G = gauss(sig, n, 8 * sig)
    N = gauss(sig / (2 * math.pi), n, 8 * sig)
    narrow = all(abs(float(K[j][i]) - N[j][i]) < 1e-3
                 for i in range(n) for j in range(n))
    # F8 in known_findings.json: exactly 2 pi too narrow, and nothing else
    label = ('the Gaussian is 2 pi narrower than asked for' if narrow
             else 'Gaussian of the given width')
    for i in range(n):
        E.close(y[i], ssum(G[j][i] * x[j] for j in range(n)), label,
                atol=.1)


def median(E, xs):
    """Median by selection."""
    xs = list(xs)
    for i in range(len(xs)):            # insertion sort
        for j in range(i, 0, -1):
            if bool(xs[j] < xs[j - 1]):
                xs[j], xs[j - 1] = xs[j - 1], xs[j]
            else:
                break
    m = len(xs) // 2
    return xs[m] if len(xs) % 2 else (xs[m] + xs[m - 1]) / 2


def errors(E, tag, n):
    e, iv, m = [], [], []
    for i in range(n):
        v = E.real(f'e{tag}{i}', .25, 4)
        E.positive_root(v)
        z = E.bool(f'z{tag}{i}')
        m.append(bool(z))
        e.append(v)
        iv.append(0. if m[-1] else 1 / (v * v))
    return e, iv, m


def expected(E, e, masked, sig, got, esigma=3.5):
    n = len(e)
    good = [i for i in range(n) if not masked[i]]
    if not good:
        for i in range(n):
            E.close(got[i], 0., 'masked pixels stay masked')
        return
    med = median(E, [e[i] for i in good])
    mad = median(E, [ite(e[i] >= med, e[i] - med, med - e[i])
                     for i in good]) * 1.4826
    out = [i in good and bool(e[i] - med > esigma * mad) for i in range(n)]
    inp = [med if (masked[i] or out[i]) else e[i] for i in range(n)]
    s = E.get('qsonic.mathtools', 'fft_gaussian_smooth')(E.arr(inp, 'f'), sig)
    for i in range(n):
        if masked[i]:
            E.close(got[i], 0., 'masked pixels stay masked')
        elif out[i]:
            E.close(got[i] * e[i] * e[i], 1., 'outliers keep their own value')
        else:
            E.close(got[i] * s[i] * s[i], 1.,
                    'smoothed error of the other pixels')


def smooth(E, n, sig=2., esigma=None):
    f = E.get('qsonic.mathtools', 'get_smooth_ivar')
    e, iv, m = errors(E, '', n)
    arr = E.arr(iv, 'f')
    kw = {} if esigma is None else dict(esigma=esigma)
    got = f(arr, sig, **kw) if sig else f(arr, **kw)
    expected(E, e, m, sig or 20, got, esigma or 3.5)
    for i in range(n):
        E.close(arr[i], iv[i], 'the input is not modified')


def spec(E, npix, size):
    """Through Spectrum: weights are the smoothed ones, ivar is kept."""
    arms = ['B', 'R'][:len(npix)]
    waves = {a: GRID[a][:n] for a, n in zip(arms, npix)}
    es = {a: errors(E, a, n) for a, n in zip(arms, npix)}
    for a in arms:
        E.assume(s_not(s_and(*[bool(m) for m in es[a][2]])))
    sp = whole_forest(E, waves, {a: [1.] * n for a, n in zip(arms, npix)},
                      {a: es[a][1] for a in arms})
    sp.set_smooth_forestivar(size)
    for k in range(2):
        for a in arms:
            e, iv, m = es[a]
            E.close(sp.forestivar[a], E.arr(iv, 'f'),
                    'inverse variance is kept')
            E.close(sp.forestweight[a], sp.forestivar_sm[a],
                    'smoothed values are the weights')
            if size > 0 and not k:
                expected(E, e, m, size / .5, sp.forestivar_sm[a])
            else:
                E.close(sp.forestivar_sm[a], E.arr(iv, 'f'),
                        'smoothing is undone')
        if not k:
            sp.set_forest_weight()
            for a in arms:
                E.close(sp.forestweight[a], sp.forestivar_sm[a],
                        'weights without continuum')
        sp.set_smooth_forestivar(0.)


def cases(tier):
    big = tier == 'thorough'
    out = [(f'linear {n} {s}', 'linear', dict(n=n, sig=s))
           for n, s in ((3, .5), (4, 2.), (6, 4.), (6, .1), (5, 20))]
    out += [('smooth 3', 'smooth', dict(n=3)),
            ('smooth 4', 'smooth', dict(n=4)),
            ('smooth 3 narrow', 'smooth', dict(n=3, sig=.5, esigma=.5)),
            ('smooth default', 'smooth', dict(n=3, sig=None)),
            ('spectrum', 'spec', dict(npix=[3], size=1.)),
            ('spectrum narrow', 'spec', dict(npix=[2], size=.25)),
            ('spectrum off', 'spec', dict(npix=[3], size=0.)),
            ('spectrum arms', 'spec', dict(npix=[2, 2], size=1.))]
    if big:
        out += [('smooth 5', 'smooth', dict(n=5)),
                ('spectrum 3+2', 'spec', dict(npix=[3, 2], size=1.))]
    # last: a known finding
    out += [('width 20', 'width', dict(n=8, sig=20)),
            ('width 12', 'width', dict(n=8, sig=12))]
    return out
