"""C27: the chi2 catalog describes every quasar of every rank."""
from .c26 import Args, use_var
from .common import T0, whole_forest

BOUNDS = {'quick': '2-3 quasars on any of 1-3 ranks, valid or not, with 1-2 '
                   'arms of 2 pixels, polynomial orders 0-2; any chi2, '
                   'parameters, covariance, redshift and pixel',
          'thorough': '4 quasars on 4 ranks'}
OUTSIDE = 'single precision rounding of the columns'
GRID = {'B': [4000., 4000.5], 'R': [4000.5, 4001.]}


def run(E, n, size, order, narms=1, outdir=True, drop=False):
    out = E.path('out')
    E.mkdir(out)
    E.fits(out + '/continuum_chi2_catalog.fits', [
        ('OLD', E.table({'TARGETID': E.arr([1], 'i')}), {})])
    c = order + 1
    q = []
    for k in range(n):
        arms = ['B', 'R'][:narms]
        q.append(dict(
            k=k, own=E.choice(f'r{k}', list(range(size))),
            tid=T0 + [7, 5, 9, 3][k], z=E.real(f'z{k}', 2.1, 3.5),
            pix=E.int(f'p{k}', 0, 49151), valid=bool(E.bool(f'v{k}')),
            chi2=E.real(f'c{k}', 0, 9), dof=E.int(f'd{k}', 0, 50),
            x=E.reals(f'x{k}', c, -2, 2),
            xcov=[E.reals(f'y{k}_{j}', c, -2, 2) for j in range(c)],
            arms=arms, flux={a: E.reals(f'f{k}{a}', 2, .5, 2)
                             for a in arms}))

    def f(comm, rank, mod):
        use_var(E, mod, None)
        P = mod('qsonic.picca_continuum').PiccaContinuumFitter
        p = P(Args(outdir=out if outdir else None, cont_order=order))
        specs = []
        for o in q:
            if o['own'] != rank:
                continue
            s = whole_forest(
                E, {a: GRID[a] for a in o['arms']}, o['flux'],
                {a: [1., 2.] for a in o['arms']}, z=o['z'], mod=mod,
                tid=o['tid'], pix=o['pix'])
            if drop and o['k'] == 0:
                s.set_forest_region(3999., 4000.25, 16., 100000.)
            s.cont_params.update(
                valid=o['valid'], x=E.arr(o['x'], 'f'), dof=o['dof'],
                chi2=o['chi2'] if o['valid'] else -1.,
                xcov=E.arr(o['xcov'], 'f'),
                cont={a: E.arr([1., 1.], 'f') for a in o['arms']}
                if o['valid'] else None)
            if drop and o['k'] == 0 and o['valid']:
                s.cont_params['cont'] = {'B': E.arr([1.], 'f')}
            specs.append(s)
        p.save_contchi2_catalog(specs)
        return [(int(E.value(s.targetid)), {a: s.mean_snr[a] for a in
                                            s.forestwave}, s.rsnr)
                for s in specs]
    snr = {}
    for o in E.spmd(size, f):
        E.check(o.exc is None, 'the catalog is saved')
        if o.exc is not None:
            return
        snr.update({t: (m, r) for t, m, r in o.value})
    h = [x for x in E.read_fits(out + '/continuum_chi2_catalog.fits')
         if x.ext]
    if not outdir:
        E.check([str(x.ext) for x in h] == ['OLD'],
                'nothing is written without an output folder')
        return
    E.check([str(x.ext) for x in h] == ['CHI2_CAT'], 'one table')
    if [str(x.ext) for x in h] != ['CHI2_CAT']:
        return
    t = h[0].data
    E.check(len(t) == n, 'one row per quasar of all ranks')
    if len(t) != n:
        return
    rows = {int(E.value(t['TARGETID'][i])): i for i in range(n)}
    E.check(sorted(rows) == sorted(int(E.value(o['tid'])) for o in q),
            'every quasar has its row')
    if len(rows) != n:
        return

    def same(a, b, what):
        E.close(a, b, what, rtol=1e-5, atol=1e-5)
    for o in q:
        tid = int(E.value(o['tid']))
        i = rows.get(tid)
        if i is None:
            return
        same(t['Z'][i], o['z'], 'redshift')
        E.close(t['HPXPIXEL'][i], o['pix'], 'pixel')
        E.close(t['MPI_RANK'][i], o['own'], 'rank')
        E.check(bool(t['CONT_valid'][i]) == o['valid'], 'validity')
        same(t['CONT_chi2'][i], o['chi2'] if o['valid'] else -1., 'chi2')
        E.close(t['CONT_dof'][i], o['dof'], 'degrees of freedom')
        x = E.np.atleast_1d(t['CONT_x'][i])
        y = E.np.atleast_1d(t['CONT_xcov'][i])
        E.check(len(x) == c and len(y) == c * c, 'number of parameters')
        if len(x) != c or len(y) != c * c:
            return
        for j in range(c):
            same(x[j], o['x'][j], 'parameters')
            for m in range(c):
                same(y[c * j + m], o['xcov'][j][m], 'covariance')
        m, r = snr[tid]
        same(t['RSNR'][i], r, 'RSNR')
        E.check(str(t['ARMS'][i]).strip() == ','.join(m), 'arms')
        for j, v in enumerate(list(m.values()) + [0.] * (3 - len(m))):
            same(t['MEANSNR'][i][j], v, 'SNR of the arms')


def cases(tier):
    out = [('one rank', 'run', dict(n=2, size=1, order=1)),
           ('two ranks', 'run', dict(n=2, size=2, order=1)),
           ('three ranks', 'run', dict(n=2, size=3, order=0)),
           ('order 2', 'run', dict(n=1, size=1, order=2)),
           ('arms', 'run', dict(n=2, size=2, order=1, narms=2)),
           ('unlike arms', 'run', dict(n=2, size=2, order=1, narms=2,
                                       drop=True)),
           ('no folder', 'run', dict(n=1, size=2, order=1, outdir=False))]
    if tier == 'thorough':
        out += [('four', 'run', dict(n=4, size=3, order=1)),
                ('three', 'run', dict(n=3, size=4, order=2, narms=2))]
    return out
