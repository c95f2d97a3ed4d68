"""C23: qsonic-calib: which deltas enter, and what is stacked."""
import sys

from .common import T0, AllArgs, ssum, ite, s_and, s_or, s_not, catalog_table, distinct
from .c13 import hdu

BOUNDS = {'quick': '0-7 delta files on 1-4 ranks; 1-3 deltas of 2-4 pixels, '
                   'any TARGETID, SNR, delta, weight and inverse variance; '
                   'removal lists of 0-2 ids, 1-3 catalog quasars with any '
                   'BAL velocities and survey; any observed start, and '
                   'limits that pixel sizes divide or not',
          'thorough': '0-9 files on 1-6 ranks, 4 deltas'}
OUTSIDE = ('what curve_fit and UnivariateSpline return; pixels half way '
           'between two bins of the stack; deltas of different pixel sizes')


class Args(AllArgs):
    def __init__(self, **k):
        self.remove_targetid_list = self.catalog = self.keep_surveys = None
        self.mock_analysis = self.remove_bal_qsos = False
        self.__dict__.update(k)


def files(E, size, nmax):
    """Every delta file is read by exactly one rank."""
    n = E.choice('n', list(range(nmax + 1)))
    d = E.path('in')
    E.mkdir(d)
    per = [1 + k % 2 for k in range(n)]
    ids = []
    for k in range(n):
        hs = []
        for _ in range(per[k]):
            ids.append(T0 + 100 + len(ids))
            hs.append(hdu(E, 'q', [4000.], [.5], [1.], [1.], [1.],
                          tid=ids[-1]))
        E.fits(d + '/delta-%d.fits%s' % (7 * k, '.gz' * (k % 3 == 1)), hs)
    E.fits(d + '/attributes.fits', [('X', E.table({'A': E.arr([1.])}), {})])

    def f(comm, rank, mod):
        m = mod('qsonic.scripts.qsonic_calib')
        r = m.mpi_read_all_deltas(Args(input_dir=d), comm, rank, size)
        return [int(x.targetid) for y in r for x in y]
    got = []
    for o in E.spmd(size, f):
        E.check(o.exc is None, 'delta files are read')
        if o.exc is not None:
            return
        got += o.value
    E.check(sorted(got) == ids, 'every delta is read by exactly one rank')


def removal(E, nlist, ncat, size, bal, survey, cols=2):
    a = Args()
    want = []
    ids = [E.int(f'r{k}', T0 + 100, T0 + 104) for k in range(nlist or 0)]
    if nlist is not None:
        a.remove_targetid_list = E.path('ids.txt')
        E.textfile(a.remove_targetid_list, ids)
    want += [(True, i) for i in ids]
    tids = [E.int(f't{k}', T0 + 100, T0 + 104) for k in range(ncat)]
    distinct(E, tids)
    if ncat:
        extra = {}
        isbal = [False] * ncat
        if bal:
            for q in ('450', '2000'):
                v = {}
                nc = cols + (q == '450')    # unlike numbers of troughs
                for m in ('MIN', 'MAX'):
                    v[m] = [[E.real(f'{m}{q}{k}{j}', -2, 100)
                             if j == 0 or (j < cols and q == '450' and not survey)
                             else -1. for j in range(nc)] for k in range(ncat)]
                    extra[f'V{m}_CIV_{q}'] = E.arr(v[m], 'f')
                for k in range(ncat):
                    isbal[k] = s_or(isbal[k], *[
                        s_and(v['MIN'][k][j] > 0, v['MAX'][k][j] > 0)
                        for j in range(nc)])
        surv = None
        if survey:
            surv = [E.choice(f's{k}', ['main', 'sv1', 'sv3'])
                    for k in range(ncat)]
            a.keep_surveys = survey
        a.remove_bal_qsos = bool(bal)
        p = E.path('cat.fits')
        a.catalog = p
        a.mock_analysis = not survey
        E.fits(p, [('CAT', catalog_table(
            E, ncat, tid=tids, pix=[1 + k for k in range(ncat)],
            survey=surv, extra=extra), {})])
        for k in range(ncat):
            c = isbal[k]
            if survey:
                c = s_or(c, surv[k] not in survey)
            want.append((c, tids[k]))

    def f(comm, rank, mod):
        m = mod('qsonic.scripts.qsonic_calib')
        r = m.mpi_set_targetid_list_to_remove(a, comm, rank)
        return [bool(t in r) for t in range(T0 + 99, T0 + 106)]
    for o in E.spmd(size, f):
        E.check(o.exc is None, 'the removal list is made')
        if o.exc is not None:
            return
        for t, g in zip(range(T0 + 99, T0 + 106), o.value):
            e = s_or(False, *[s_and(c, i == t) for c, i in want])
            E.check(s_and(s_or(s_not(e), g), s_or(e, not g)),
                    'exactly the listed, BAL and other-survey quasars are '
                    'removed')


def stack(E, spec, size, w1, w2, dw, free=True):
    """spec: per delta the first pixel index and the number of pixels."""
    S = E.mod
    dl, own = [], []
    P = E.path('delta-0.fits')
    hs = []
    off = E.real('off', -.5, .5) if free else 0.
    if free:
        E.assume(s_and(off > -.5 + 1e-6, off < .5 - 1e-6))
    for k, (i0, n) in enumerate(spec):
        w = [w1 + dw * (i0 + i + off) for i in range(n)]
        d = E.reals(f'd{k}', n, -1, 1)
        wt = E.reals(f'w{k}', n, 0, 2)
        for q in wt:
            E.assume(s_or(q == 0, q > 1e-3))
        dl.append((i0, d, wt))
        own.append(E.choice(f'own{k}', list(range(size))))
        hs.append(hdu(E, 'q%d' % k, w, d, [1.] * n, wt, [1.] * n, dw=dw,
                      tid=T0 + 100 + k))
    E.fits(P, hs)
    a = Args(wave1=w1, wave2=w2)

    def f(comm, rank, mod):
        m = mod('qsonic.scripts.qsonic_calib')
        r = mod('qsonic.io').read_deltas(P)
        r = [x for x, o in zip(r, own) if o == rank]
        return m.mpi_stack_fluxes(a, comm, r)
    lo = min(i for i, _, _ in dl)
    hi = max(i + len(d) for i, d, _ in dl)
    for o in E.spmd(size, f):
        E.check(o.exc is None, 'stacking succeeds on every rank')
        if o.exc is not None:
            return
        x, y = o.value
        E.check(len(x) == len(y), 'one flux per wavelength')
        last = int((w2 - w1) / dw + 1e-9)
        E.check(len(x) == last + 1, 'the stack covers the wavelength range')
        for j in range(min(len(x), last + 1)):
            E.close(x[j], w1 + dw * j, 'wavelength of the bin')
            pix = [(d[j - i], w[j - i]) for i, d, w in dl
                   if 0 <= j - i < len(d)]
            if not pix:
                E.close(y[j], 0., 'bins without data are zero')
                continue
            W = ssum(w for _, w in pix)
            E.close(y[j] * W, ssum((1 + d) * w for d, w in pix),
                    'weighted mean flux of the bin')
            E.check(s_or(W > 0, y[j] == 0), 'bins without weight are zero')


class Fit:
    def __init__(self, E):
        self.E = E

    def __call__(self, f, xdata, ydata, p0=None, sigma=None, **kw):
        E = self.E
        return (E.arr([.25, 1.5], 'f'),
                E.arr([[.25, 0.], [0., 4.]], 'f'))


class Spline:
    def __init__(self, E):
        self.E = E

    def __call__(self, x, y, w=None, **k):
        return lambda z: y[0] + 0 * z


def whole(E, layout, size, stale=True):
    """layout: deltas per file; the whole script."""
    n = sum(layout)
    d, out = E.path('in'), E.path('out')
    E.mkdir(d)
    tid = [E.int(f't{k}', T0 + 100, T0 + 102) for k in range(n)]
    sn = [E.real(f's{k}', 0, 5) for k in range(n)]
    lo, hi = 1.5, 3.
    data, k = [], 0
    for q, m in enumerate(layout):
        hs = []
        for _ in range(m):
            E.assume(s_and(sn[k] != lo, sn[k] != hi))
            dl = [.5 - .25 * k, .125 + .0625 * k]
            iv = [.4, 3. + k]
            wt = [1. + k, .5]
            w = [4000. + .8 * k, 4002.4]
            data.append((dl, iv, wt))
            hs.append(hdu(E, 'q%d' % k, w, dl, iv, wt, [1., 1.],
                          tid=tid[k], snr=sn[k], dw=.8))
            k += 1
        E.fits(d + '/delta-%d.fits' % q, hs)
    rm = E.int('rm', T0 + 99, T0 + 103)
    L = E.path('ids.txt')
    E.textfile(L, [rm, T0 + 99])
    if stale:
        E.mkdir(out)
        E.fits(out + '/qsonic-eta-fits-snr1.5-3.0-variance-stats.fits', [
            ('OLD', E.table({'x': E.arr([1.], 'f')}), {})])
    E.stub('scipy.optimize.curve_fit', Fit(E))
    E.stub('scipy.interpolate.UnivariateSpline', Spline(E))
    argv = ['qsonic-calib', '-i', d, '-o', out, '--remove-targetid-list', L,
            '--min-snr', '1.5', '--max-snr', '3', '--wave1', '3995.2',
            '--wave2', '4004.8', '--nwbins', '1', '--nvarbins', '5',
            '--var1', '.03125', '--var2', '32']

    def f(comm, rank, mod):
        V = mod('qsonic.picca_continuum').VarLSSFitter
        V.min_num_pix = V.min_num_qso = 0
        mod('qsonic.scripts.qsonic_calib').mpi_run_all(comm, rank, size)
    old = sys.argv
    sys.argv = argv
    try:
        r = E.spmd(size, f)
    finally:
        sys.argv = old
    keep = [bool(s_and(tid[k] != rm, sn[k] > lo, sn[k] < hi))
            for k in range(n)]
    if not any(keep):
        return
    for o in r:
        E.check(o.exc is None, 'the calibration script succeeds')
        if o.exc is not None:
            return
    fn = out + '/qsonic-eta-fits-snr1.5-3.0-variance-stats.fits'
    E.check(E.exists(fn), 'results are written')
    if not E.exists(fn):
        return
    h = {x.ext: x for x in E.read_fits(fn)}
    E.check('OLD' not in h, 'results replace those of an earlier run')
    t = h['VAR_STATS'].data
    # inverse variance edges 2^-5, 2^-3, 2^-1, 2, 8, 32
    cnt = [0] * 5
    for k in range(n):
        if keep[k]:
            for v in data[k][1]:
                cnt[[v <= .125, v <= .5, v <= 2., v <= 8., True]
                    .index(True)] += 1
    for b in range(5):
        E.close(t['num_pixels'][b], cnt[b],
                'the statistics are those of the kept deltas')
    y = h['STACKED_FLUX'].data
    for j in range(len(y['lambda'])):
        x = 3995.2 + .8 * j
        pix = []
        for k in range(n):
            for i, xx in enumerate([4000. + .8 * k, 4002.4]):
                if keep[k] and abs(xx - x) < .1:
                    pix.append((data[k][0][i], data[k][2][i]))
        W = ssum(w for _, w in pix)
        E.close(y['lambda'][j], x, 'written stack')
        E.close(y['stacked_flux'][j] * W,
                ssum((1 + q) * w for q, w in pix),
                'the stack is that of the kept deltas')
    q = h['VAR_FUNC'].data
    for c, v in (('lambda', 4000.), ('var_lss', .25), ('e_var_lss', .5),
                 ('eta', 1.5), ('e_eta', 2.)):
        E.close(q[c][0], v, 'written fit results')


def cases(tier):
    big = tier == 'thorough'
    out = [('files %d' % s, 'files', dict(size=s, nmax=9 if big else 7))
           for s in ((1, 2, 3, 4, 5, 6) if big else (1, 2, 3, 4))]
    out += [('list', 'removal', dict(nlist=2, ncat=0, size=2, bal=False,
                                     survey=None)),
            ('no list', 'removal', dict(nlist=None, ncat=0, size=1,
                                        bal=False, survey=None)),
            ('list one', 'removal', dict(nlist=1, ncat=1, size=1, bal=True,
                                         survey=None)),
            ('bal', 'removal', dict(nlist=None, ncat=2, size=1, bal=True,
                                    survey=None, cols=2)),
            ('bal survey', 'removal', dict(nlist=None, ncat=2, size=1,
                                           bal=True,
                                           survey=['main', 'sv3'])),
            ('survey', 'removal', dict(nlist=1, ncat=2, size=2, bal=False,
                                       survey=['sv1'])),
            ('catalog only', 'removal', dict(nlist=None, ncat=2, size=1,
                                             bal=False, survey=None)),
            ('stack', 'stack', dict(spec=[(0, 2), (1, 2)], size=1, w1=4000.,
                                    w2=4002., dw=.5)),
            ('stack uneven', 'stack', dict(spec=[(0, 2), (1, 2)], size=1,
                                           w1=4000., w2=4001.75, dw=.5)),
            ('stack 2 ranks', 'stack', dict(spec=[(0, 2), (1, 2)], size=2,
                                            w1=4000., w2=4001., dw=.5)),
            ('stack outside', 'stack', dict(spec=[(-1, 3), (1, 3)], size=1,
                                            w1=4000., w2=4001., dw=.5)),
            ('script', 'whole', dict(layout=[1, 1], size=1)),
            ('script new', 'whole', dict(layout=[1], size=1, stale=False)),
            ('script new 2', 'whole', dict(layout=[1], size=2,
                                           stale=False)),
            ('script 2', 'whole', dict(layout=[1, 1, 1], size=2))]
    return out
