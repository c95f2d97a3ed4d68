"""C15: subsampled means, delete-one jackknife (co)variances."""
from symx.spmd import IN_PLACE

from .common import ssum

BOUNDS = {'quick': '1-5 measurements into 2-3 subsamples of 1-4 values in 1-2 '
                   'sets, any start index; any weighted values; any weights '
                   '>= 0 for the mean and fixed weights for covariances; 1-3 '
                   'ranks; resets and repeated calls in any order of four',
          'thorough': '4 subsamples, 7 measurements'}
OUTSIDE = 'more subsamples; a subsample that carries all of the weight'

WTS = [2., 3., 1., 4., 5., 2., 3.]


def jackknife(xs, ws):
    """xs[s]: weighted sum of subsample s, ws[s] its weight (concrete)
    -> mean, delete-one means."""
    n = len(xs)
    W = ssum(ws)
    tot = ssum(xs)
    mean = tot / W
    jack = [(tot - xs[s]) / (W - ws[s]) for s in range(n)]
    return mean, jack


def fill(E, sub, meas, nset, ndata, start, ns):
    """Add measurements and return the expected per-subsample sums."""
    X = [[[0.] * ndata for _ in range(nset)] for _ in range(ns)]
    W = [[0.] * ndata for _ in range(ns)]
    for k, (x, w) in enumerate(meas):
        sub.add_measurement(
            E.arr(x[0] if nset == 1 else x, 'f'), E.arr(w, 'f'))
        s = (start + k) % ns
        for d in range(ndata):
            for j in range(nset):
                X[s][j][d] = X[s][j][d] + x[j][d]
            W[s][d] = W[s][d] + w[d]
    return X, W


def measure(E, tag, n, nset, ndata, symw=False):
    out = []
    for k in range(n):
        x = [E.reals(f'x{tag}{k}_{j}_', ndata, -4, 4) for j in range(nset)]
        if symw:
            w = E.reals(f'w{tag}{k}_', ndata, 0, 4)
        else:
            w = [WTS[(k + d) % 7] for d in range(ndata)]
        out.append((x, w))
    return out


def mean(E, n, ns, nset=1, ndata=1):
    """Any weights, also zero."""
    M = E.get('qsonic.mathtools', 'SubsampleCov')
    start = E.int('start', 0, 2 * ns)
    s0 = E.value(start) if False else start
    sub = M(ndata if nset == 1 else (nset, ndata), ns, s0)
    meas = measure(E, '', n, nset, ndata, symw=True)
    # weighted values vanish where the weight does
    for x, w in meas:
        for d in range(ndata):
            for j in range(nset):
                x[j][d] = x[j][d] * w[d]
    for x, w in meas:
        sub.add_measurement(E.arr(x[0] if nset == 1 else x, 'f'),
                            E.arr(w, 'f'))
    got = sub.get_mean()
    E.check(got.shape == (nset, ndata), 'one mean per set and value')
    for j in range(nset):
        for d in range(ndata):
            W = ssum(w[d] for _, w in meas)
            X = ssum(x[j][d] for x, _ in meas)
            if bool(W == 0):
                E.close(got[j][d], 0., 'no data gives zero')
            else:
                E.close(got[j][d] * W, X, 'weighted mean')
    r, e = E.attempt(sub.add_measurement,
                     E.arr(meas[0][0][0] if nset == 1 else meas[0][0], 'f'),
                     E.arr(meas[0][1], 'f'))
    E.check(e is not None, 'no measurements after the mean is taken')


def verify(E, X, W, got, cov=None, var=None, nset=1, ndata=1, blockdim=None,
           bias=False, indices=None):
    ns = len(X)
    ref, diffs = {}, {}
    for j in range(nset):
        for d in range(ndata):
            m, jack = jackknife([X[s][j][d] for s in range(ns)],
                                [W[s][d] for s in range(ns)])
            mj = ssum(jack) / ns
            if bias:
                m = m - (ns - 1) * (mj - m)
            E.close(got[j][d], m, 'weighted mean')
            diffs[j, d] = [v - mj for v in jack]
    f = (ns - 1) / ns
    if var is not None:
        for j in range(nset):
            for d in range(ndata):
                E.close(var[j][d], ssum(v * v for v in diffs[j, d]) * f,
                        'jackknife variance')
    if cov is not None:
        E.check(len(cov) == nset, 'one covariance per set')
        for j in range(nset):
            if indices is not None and j not in indices:
                E.check(cov[j] is None, 'only requested covariances')
                continue
            b = blockdim or ndata
            shape = (ndata // b, b, b) if blockdim else (b, b)
            E.check(cov[j].shape == shape, 'shape of the covariance')
            for d in range(ndata):
                for q in range(ndata):
                    if d // b != q // b:
                        continue
                    v = cov[j][d // b][d % b][q % b] if blockdim \
                        else cov[j][d][q]
                    E.close(v, ssum(a * c for a, c in zip(
                        diffs[j, d], diffs[j, q])) * f,
                        'jackknife covariance')


def jack(E, n, ns, nset=1, ndata=1, blockdim=None, bias=False, which='cov',
         indices=None, start=0):
    M = E.get('qsonic.mathtools', 'SubsampleCov')
    sub = M(ndata if nset == 1 else (nset, ndata), ns, start)
    X, W = fill(E, sub, measure(E, '', n, nset, ndata), nset, ndata, start,
                ns)
    kw = dict(nset=nset, ndata=ndata, bias=bias)
    if which == 'cov':
        m, c = sub.get_mean_n_cov(indices=indices, blockdim=blockdim,
                                  bias_correct=bias)
        verify(E, X, W, m, cov=c, blockdim=blockdim, indices=indices, **kw)
    else:
        m, v = sub.get_mean_n_var(bias_correct=bias)
        verify(E, X, W, m, var=v, **kw)


def history(E):
    """Any order of queries gives the same answers; reset starts over."""
    M = E.get('qsonic.mathtools', 'SubsampleCov')
    ns, ndata = 2, 2
    start = E.choice('start', [0, 1, 3])
    sub = M(ndata, ns, start)
    for rnd in range(2):
        X, W = fill(E, sub, measure(E, 'r%d' % rnd, 3, 1, ndata), 1, ndata,
                    start, ns)
        for step in range(2):
            op = E.choice(f'op{rnd}{step}', ['mean', 'cov', 'var'])
            if op == 'mean':
                m, e = E.attempt(sub.get_mean)
                m = (m,)
            else:
                m, e = E.attempt(getattr(sub, 'get_mean_n_' + op))
            E.check(e is None, 'means and covariances in any order')
            if e is not None:
                return
            verify(E, X, W, m[0], ndata=ndata,
                   cov=m[1] if op == 'cov' else None,
                   var=m[1] if op == 'var' else None)
        if rnd:
            return
        sub.reset()


def ranks(E, size):
    """Allreduce: as if all measurements were made in one place."""
    ns, ndata = 2, 1
    meas = [measure(E, 'k%d' % r, r + 1, 1, ndata) for r in range(size)]

    def f(comm, rank, mod):
        m = mod('qsonic.mathtools')
        sub = m.SubsampleCov(ndata, ns, istart=rank)
        for x, w in meas[rank]:
            sub.add_measurement(E.arr(x[0], 'f'), E.arr(w, 'f'))
        sub.allreduce(comm, IN_PLACE)
        a, v = sub.get_mean_n_var()
        return [a[0][0], v[0][0]]
    out = E.spmd(size, f)
    X = [[[0.] * ndata] for _ in range(ns)]
    W = [[0.] * ndata for _ in range(ns)]
    for r in range(size):
        for k, (x, w) in enumerate(meas[r]):
            s = (r + k) % ns
            X[s][0][0] = X[s][0][0] + x[0][0]
            W[s][0] = W[s][0] + w[0]
    for o in out:
        E.check(o.exc is None, 'all ranks succeed')
        if o.exc is None:
            verify(E, X, W, [[o.value[0]]], var=[[o.value[1]]])


def square(E, nblock, nd):
    f = E.get('qsonic.mathtools', 'block_covariance_of_square')
    n = nblock * nd
    m = E.reals('m', n, -4, 4)
    v = E.reals('v', n, 0, 4)
    c = [[E.reals(f'c{b}{i}_', nd, -4, 4) for i in range(nd)]
         for b in range(nblock)]
    for b in range(nblock):     # covariances are symmetric
        for i in range(nd):
            for j in range(i):
                c[b][i][j] = c[b][j][i]
    got = f(E.arr(m, 'f'), E.arr(v, 'f'), E.arr(c, 'f'))
    E.check(got.shape == (nblock, nd, nd), 'block shape')
    for b in range(nblock):
        for i in range(nd):
            for j in range(nd):
                p, q = b * nd + i, b * nd + j
                k = c[b][i][j]
                E.close(got[b][i][j], v[p] * v[q] + k * k
                        + 2 * k * m[p] * m[q] + v[p] * m[q] * m[q]
                        + v[q] * m[p] * m[p], 'covariance of the square')


def cases(tier):
    big = tier == 'thorough'
    out = [('mean 1', 'mean', dict(n=1, ns=2)),
           ('mean 3', 'mean', dict(n=3, ns=2)),
           ('mean sets', 'mean', dict(n=3, ns=2, nset=2, ndata=1)),
           ('mean 2x2', 'mean', dict(n=2, ns=3, nset=1, ndata=2)),
           ('cov', 'jack', dict(n=4, ns=3, ndata=2)),
           ('cov start', 'jack', dict(n=5, ns=3, ndata=1, start=2)),
           ('cov sets', 'jack', dict(n=4, ns=3, nset=2, ndata=2)),
           ('cov indices', 'jack', dict(n=4, ns=3, nset=2, ndata=1,
                                        indices=[1])),
           ('cov blocks', 'jack', dict(n=4, ns=3, ndata=4, blockdim=2)),
           ('cov bias', 'jack', dict(n=4, ns=3, ndata=1, bias=True)),
           ('var', 'jack', dict(n=4, ns=3, ndata=2, which='var')),
           ('var sets', 'jack', dict(n=4, ns=3, nset=2, ndata=1,
                                     which='var', start=4)),
           ('var bias', 'jack', dict(n=5, ns=3, ndata=1, which='var',
                                     bias=True)),
           ('history', 'history', {}),
           ('ranks 2', 'ranks', dict(size=2)),
           ('ranks 3', 'ranks', dict(size=3)),
           ('square 1x2', 'square', dict(nblock=1, nd=2)),
           ('square 2x2', 'square', dict(nblock=2, nd=2))]
    if big:
        out += [('cov 4', 'jack', dict(n=7, ns=4, ndata=2)),
                ('var 4', 'jack', dict(n=7, ns=4, ndata=2, nset=2,
                                       which='var')),
                ('mean 4', 'mean', dict(n=4, ns=3)),
                ('square 2x3', 'square', dict(nblock=2, nd=3))]
    return out
