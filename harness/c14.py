"""C14: the fast interpolators are the linear interpolation and the cubic
splines they stand for."""
from fractions import Fraction as Fr

from .common import ssum

BOUNDS = {'quick': 'tables of 2-6 points for linear and 2-8, 18, 21 and 22 '
                   'points for cubic interpolation, any table values; any '
                   'evaluation point in and up to two steps out of the table '
                   '(linear, cubic with up to 4 points) or a fixed list of '
                   'points',
          'thorough': 'tables up to 24 points, any evaluation point up to 6 '
                      'points'}
OUTSIDE = 'longer tables; non-finite values'


def solve(A, B):
    """Exact solution X of A X = B (lists of Fractions)."""
    n = len(A)
    M = [list(map(Fr, a)) + list(map(Fr, b)) for a, b in zip(A, B)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[p] = M[p], M[i]
        d = M[i][i]
        M[i] = [v / d for v in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                q = M[r][i]
                M[r] = [u - q * v for u, v in zip(M[r], M[i])]
    return [row[n:] for row in M]


def second(n, bc):
    """Second derivatives (per unit spacing squared) as a matrix acting on
    the table values, from the defining equations of the spline."""
    if n == 2:
        return [[Fr(0)] * 2] * 2
    if n == 3 and bc == 'not-a-knot':
        return [[Fr(1), Fr(-2), Fr(1)]] * 3    # the parabola
    A = [[0] * n for _ in range(n)]
    B = [[0] * n for _ in range(n)]
    for i in range(1, n - 1):
        A[i][i - 1:i + 2] = [Fr(1, 6), Fr(4, 6), Fr(1, 6)]
        B[i][i - 1:i + 2] = [1, -2, 1]
    if bc == 'natural':
        A[0][0] = A[-1][-1] = 1
    else:
        A[0][:3] = [1, -2, 1]
        A[-1][-3:] = [1, -2, 1]
    return solve(A, B)


def cell(n, t):
    """Cell of the position t (in units of the spacing)."""
    return min(max(int(t), 0), n - 2)


def oracle(M, f, i, b):
    """Value at cell i, fraction b; M None: linear."""
    a = 1 - b
    r = a * f[i] + b * f[i + 1]
    if M is None:
        return r

    def y2(k):
        return ssum(float(c) * v for c, v in zip(M[k], f) if c)
    return r + ((a * a * a - a) * y2(i) + (b * b * b - b) * y2(i + 1)) \
        * (1 / 6)


def make(E, kind, x0, dx, f, **kw):
    m = E.mod('qsonic.mathtools')
    if kind == 'linear':
        return m.FastLinear1DInterp(x0, dx, f, **kw)
    return m.FastCubic1DInterp(x0, dx, f, bc_type=kind, **kw)


def run(E, kind, n, point, hist=False):
    f = E.reals('f', n, -8, 8)
    x0, dx = 1.5, .25
    M = None if kind == 'linear' else second(n, kind)
    arr = E.arr(f, 'f')
    if hist:
        g = E.reals('g', n, -8, 8)
        garr = E.arr(g, 'f')
        it = make(E, kind, x0, dx, garr, copy=True)
        garr[0] = garr[0] + 1.      # a copy is not affected
        probe(E, it, kind, n, point, x0, dx, M, g)
        it.reset(arr, copy=True, ep=7.)
        arr[0] = arr[0] + 1.
        E.close(it.ep, 7., 'errors are kept')
    else:
        it = make(E, kind, x0, dx, arr)
    probe(E, it, kind, n, point, x0, dx, M, f)
    for i in range(n):
        E.close(arr[i], f[i] + (1. if hist and i == 0 else 0.),
                'the input table is not modified')


def probe(E, it, kind, n, point, x0, dx, M, f):
    if point == 'any':
        i = E.choice('cell', list(range(n - 1)))
        lo, hi = 0, 1
        if i == 0:
            lo = -2
        if i == n - 2:
            hi = 3
        b = E.real('b', lo, hi)
        if i != n - 2:
            E.assume(b < 1)
        got = it(E.arr([x0 + dx * i + dx * b], 'f'))
        E.close(got[0], oracle(M, f, i, b), 'interpolated value')
        return
    ts = [k for k in range(n)] + [k + .25 for k in range(n - 1)] \
        + [k + .625 for k in range(n - 1)] + [-.5, -1.25, n - .5, n + .25]
    got = it(E.arr([x0 + dx * t for t in ts], 'f'))
    E.check(got.shape == (len(ts),), 'one value per point')
    for t, v in zip(ts, got):
        i = cell(n, t)
        E.close(v, oracle(M, f, i, t - i), 'interpolated value')


def bc(E):
    k = E.choice('bc', ['clamped', '', None, 'Natural'])
    r, e = E.attempt(make, E, k, 0., 1., E.arr([1., 2., 3., 4.], 'f'))
    E.check(e is not None, 'unknown boundary conditions are refused')


def poly(E, n):
    c = E.reals('c', n, -4, 4)
    x = E.reals('x', 2, -4, 4)
    got = E.get('qsonic.mathtools', 'mypoly1d')(E.arr(c, 'f'), E.arr(x, 'f'))
    for v, y in zip(x, got):
        t = c[-1]
        for q in reversed(c[:-1]):
            t = t * v + q
        E.close(y, t, 'power series in increasing order')


def cases(tier):
    big = tier == 'thorough'
    out = []
    for n in (2, 3, 4, 6):
        out.append((f'linear {n}', 'run', dict(kind='linear', n=n,
                                               point='any')))
    out.append(('linear reset', 'run', dict(kind='linear', n=3, point='list',
                                            hist=True)))
    ns = [2, 3, 4, 5, 6, 7, 8, 18, 21, 22]
    if big:
        ns += [9, 10, 12, 15, 16, 17, 19, 20, 23, 24]
    for k in ('natural', 'not-a-knot'):
        for n in ns:
            if k == 'natural' and n > 8 and not big:
                continue
            out.append((f'{k} {n}', 'run', dict(kind=k, n=n, point='list')))
        for n in (2, 3, 4, 5, 6) if big else (2, 3, 4):
            out.append((f'{k} any {n}', 'run', dict(kind=k, n=n,
                                                    point='any')))
        out.append((f'{k} reset', 'run', dict(kind=k, n=4, point='list',
                                              hist=True)))
    out += [('bc', 'bc', {}), ('poly 1', 'poly', dict(n=1)),
            ('poly 4', 'poly', dict(n=4))]
    return out
