"""C12: coadding the arms of a spectrum is the weighted mean per wavelength."""
from .common import (s_and, s_or, ite, whole_forest, make_spec, GRID, ssum)
from .c11 import Table

BOUNDS = {'quick': 'two arms of 2-4 pixels overlapping in 0, 1 or 2 pixels '
                   'or separated by a gap, any flux, inverse variance >= 0 '
                   '(zeros included), var_lss, eta; resolution of 3 or 3/5 '
                   'diagonals',
          'thorough': 'three arms'}
OUTSIDE = 'arms whose grids are shifted against each other'

ARMS = {'over1': {'B': [4000., 4000.5, 4001.], 'R': [4001., 4001.5]},
        'over2': {'B': [4000., 4000.5, 4001.], 'R': [4000.5, 4001., 4001.5]},
        'touch': {'B': [4000., 4000.5], 'R': [4001., 4001.5]},
        'gap': {'B': [4000., 4000.5], 'R': [4001.5, 4002.]},
        'rev': {'R': [4000.5, 4001.], 'B': [4000., 4000.5]},
        'decimal': {'B': [4000., 4000.8], 'R': [4000.8, 4001.6, 4002.4]},
        'three': {'B': [4000., 4000.5], 'R': [4000.5, 4001., 4001.5],
                  'Z': [4001.5, 4002.]}}


def data(E, waves, lo, flo=-4):
    flux = {a: E.reals('f' + a, len(w), flo, 4) for a, w in waves.items()}
    ivar = {a: E.reals('i' + a, len(w), 0, 4) for a, w in waves.items()}
    for a in waves:
        for v in ivar[a]:
            E.assume(s_or(v == 0, v >= lo))
    return flux, ivar


def resos(E, waves, ndia):
    return {a: [[.25 * (d + 1) + .5 * i + (3 if a == 'R' else 0)
                 for i in range(len(w))] for d in range(ndia[a])]
            for a, w in waves.items()}


def padded(r, i, n):
    """Column i of a resolution matrix, centred in n diagonals."""
    k = (n - len(r)) // 2
    return [0.] * k + [row[i] for row in r] + [0.] * k


def check_reso(E, got, xs, terms, ndia):
    """terms(x) -> [(weight, column)]"""
    E.check(got.shape == (ndia, len(xs)), 'shape of the resolution matrix')
    if got.shape != (ndia, len(xs)):
        return
    E.check(s_and(*[v == v for row in got for v in row]),
            'the coadded resolution is a number everywhere')
    for j, x in enumerate(xs):
        t = terms(x)
        if not t:
            continue
        t = [(ite(w == 0, 1e-8, w), c) for w, c in t]
        den = ssum(w for w, _ in t)
        for d in range(ndia):
            E.close(got[d][j] * den, ssum(w * c[d] for w, c in t),
                    'coadded resolution matrix')


def grid(waves):
    lo = min(w[0] for w in waves.values())
    hi = max(w[-1] for w in waves.values())
    d = waves['B'][1] - waves['B'][0]
    return [round(lo + d * i, 6) for i in range(round((hi - lo) / d) + 1)]


def simple(E, which, reso=None):
    waves = ARMS[which]
    flux, ivar = data(E, waves, .25)
    res = resos(E, waves, reso) if reso else None
    spec = make_spec(E, waves, flux, ivar, reso=res)
    spec.simple_coadd()
    xs = grid(waves)
    E.check(list(spec.wave) == list(spec.flux) == list(spec.ivar),
            'one coadded arm')
    E.check(len(spec.wave) == 1, 'one coadded arm')
    arm = list(spec.wave)[0]
    E.close(spec.wave[arm], E.arr(xs, 'f'), 'coadded wavelength grid')
    for j, x in enumerate(xs):
        pix = [(a, w.index(x)) for a, w in waves.items() if x in w]
        norm = ssum(ivar[a][i] for a, i in pix)
        E.close(spec.ivar[arm][j], norm, 'coadded inverse variance')
        E.close(spec.flux[arm][j] * ite(norm == 0, 1., norm),
                ssum(ivar[a][i] * flux[a][i] for a, i in pix),
                'coadded flux is the weighted mean')
    if reso:
        n = max(reso.values())
        check_reso(E, spec.reso[arm], xs, lambda x: [
            (ivar[a][w.index(x)], padded(res[a], w.index(x), n))
            for a, w in waves.items() if x in w], n)


def forest(E, which, cont, reso=None, valid=True, smooth=0):
    waves = ARMS[which]
    flux, ivar = data(E, waves, .25, .125)
    for a in waves:
        E.assume(s_or(*[v > 0 for v in ivar[a]]))
    res = resos(E, waves, reso) if reso else None
    spec = whole_forest(E, waves, flux, ivar, reso=res)
    xs = grid(waves)
    c = dict(zip(xs, [1. + .5 * k for k in range(len(xs))]))
    vl = dict(zip(xs, [.125 * (k % 3) for k in range(len(xs))]))
    et = dict(zip(xs, [.5 + .25 * (k % 4) for k in range(len(xs))]))
    V, H = Table(E, vl), Table(E, et)
    if cont:
        spec.cont_params['cont'] = {a: E.arr([c[x] for x in w], 'f')
                                    for a, w in waves.items()}
        spec.cont_params['valid'] = valid
    spec.set_forest_weight(V, H)
    use = cont and valid

    def wgt(v, x):
        return v / (et[x] + v * vl[x] * c[x]**2) if use else v
    spec.coadd_arms_forest(V, H)
    for d in (spec.forestwave, spec.forestflux, spec.forestivar,
              spec.forestivar_sm, spec.forestweight, spec.mean_snr):
        E.check(len(d) == 1, 'one coadded arm')
    arm = list(spec.forestwave)[0]
    E.close(spec.forestwave[arm], E.arr(xs, 'f'), 'coadded wavelength grid')
    snr, npix = 0., 0.
    for j, x in enumerate(xs):
        pix = [(a, w.index(x)) for a, w in waves.items() if x in w]
        ws = [wgt(ivar[a][i], x) for a, i in pix]
        norm = ssum(ws)
        gi, gf = spec.forestivar[arm][j], spec.forestflux[arm][j]
        if not pix or bool(norm == 0):
            E.close(gi, 0., 'no weight where there is no data')
            E.close(gf, 0., 'no flux where there is no data')
            E.close(spec.forestweight[arm][j], 0.,
                    'no weight where there is no data')
            continue
        E.close(gf * norm, ssum(w * flux[a][i] for w, (a, i) in zip(ws, pix)),
                'coadded flux is the weighted mean')
        # var = sum w^2 / ivar / norm^2; w^2/ivar = w * w/ivar
        d = ssum(w * (1 / (et[x] + ivar[a][i] * vl[x] * c[x]**2)
                      if use else 1.) for w, (a, i) in zip(ws, pix))
        E.close(gi * d, norm**2, 'coadded inverse variance propagates noise')
        E.close(spec.forestweight[arm][j] *
                (et[x] + gi * vl[x] * c[x]**2 if use else 1.), gi,
                'coadded weight')
        snr = snr + E.np.sqrt(gi) * gf
        npix += 1
        if cont:
            E.close(spec.cont_params['cont'][arm][j], c[x],
                    'coadded continuum')
    E.close(spec.mean_snr[arm] * npix, snr, 'mean SNR of the coadd')
    if cont:
        fin = [v == v for v in spec.cont_params['cont'][arm]]
        E.check(s_and(*fin), 'the coadded continuum is a number everywhere')
    if reso:
        n = max(reso.values())
        check_reso(E, spec.forestreso[arm], xs, lambda x: [
            (wgt(ivar[a][w.index(x)], x), padded(res[a], w.index(x), n))
            for a, w in waves.items() if x in w], n)


def smooth(E, how):
    """The coadd smooths its own inverse variance again."""
    waves = {'B': [4000. + .5 * i for i in range(6)],
             'R': [4002. + .5 * i for i in range(5)]}
    flux = {a: [1. + .25 * i for i in range(len(w))]
            for a, w in waves.items()}
    ivar = {a: [1. + (i * i) % 5 for i in range(len(w))]
            for a, w in waves.items()}
    ivar['B'][2] = 0. if how else 1.
    x = E.real('f', .25, 4)
    flux['B'][0] = x
    spec = whole_forest(E, waves, flux, ivar)
    xs = grid(waves)
    V = Table(E, {q: .25 for q in xs})
    H = Table(E, {q: 1.5 for q in xs})
    spec.cont_params['valid'] = True
    spec.cont_params['cont'] = {a: E.arr([2.] * len(w), 'f')
                                for a, w in waves.items()}
    spec.set_smooth_forestivar(2.)
    spec.set_forest_weight(V, H)
    spec.coadd_arms_forest(V, H)
    arm = list(spec.forestwave)[0]
    sm = E.get('qsonic.mathtools', 'get_smooth_ivar')(
        spec.forestivar[arm].copy(), 4.)
    E.close(spec.forestivar_sm[arm], sm, 'smoothed noise of the coadd')
    for j in range(len(xs)):
        E.close(spec.forestweight[arm][j] * (1.5 + sm[j]), sm[j],
                'weight of the coadd is smooth')


def dropped(E):
    """Arms that were dropped do not contribute to the coadd."""
    waves = ARMS['over1']
    flux, ivar = data(E, waves, .25, .125)
    for a in waves:
        E.assume(s_or(*[v > 0 for v in ivar[a]]))
    res = resos(E, waves, {'B': 3, 'R': 5})
    spec = whole_forest(E, waves, flux, ivar, reso=res)
    gone = E.choice('gone', ['B', 'R'])
    keep = 'R' if gone == 'B' else 'B'
    cont = bool(E.bool('cont'))
    xs = waves[keep]
    V = Table(E, {x: .125 for w in waves.values() for x in w})
    H = Table(E, {x: 1.5 for w in waves.values() for x in w})
    spec.cont_params['valid'] = cont
    if cont:
        spec.cont_params['cont'] = {a: E.arr([2.] * len(w), 'f')
                                    for a, w in waves.items()}
    spec.drop_arm(gone)
    spec.set_forest_weight(V, H)
    r, e = E.attempt(spec.coadd_arms_forest, V, H)
    E.check(e is None, 'the remaining arms are coadded')
    if e is not None:
        return
    arm = list(spec.forestwave)[0]
    E.close(spec.forestwave[arm], E.arr(xs, 'f'), 'coadded wavelength grid')
    n = len(res[keep])
    E.check(spec.forestreso[arm].shape == (n, len(xs)),
            'shape of the resolution matrix')
    if spec.forestreso[arm].shape != (n, len(xs)):
        return
    for j in range(len(xs)):
        E.close(spec.forestflux[arm][j], ite(
            ivar[keep][j] == 0, 0., flux[keep][j]), 'flux of the arm left')
        E.close(spec.forestivar[arm][j], ivar[keep][j],
                'inverse variance of the arm left')
        for d in range(n):
            E.close(spec.forestreso[arm][d][j], res[keep][d][j],
                    'resolution of the arm left')


def cases(tier):
    out = []
    arms = ['over1', 'over2', 'touch', 'gap', 'rev', 'decimal']
    if tier == 'thorough':
        arms.append('three')
    for w in arms:
        out.append(('simple ' + w, 'simple', dict(which=w)))
        out.append(('forest ' + w, 'forest', dict(which=w, cont=False)))
        if w not in ('over2', 'decimal') or tier == 'thorough':
            out.append(('forest cont ' + w, 'forest',
                        dict(which=w, cont=True)))
    r3, r5 = {'B': 3, 'R': 3}, {'B': 3, 'R': 5}
    out += [('simple reso', 'simple', dict(which='over1', reso=r3)),
            ('simple reso pad', 'simple', dict(which='rev', reso=r5)),
            ('forest reso', 'forest', dict(which='rev', cont=False, reso=r3)),
            ('forest reso pad', 'forest',
             dict(which='rev', cont=True, reso=r5)),
            ('simple reso gap', 'simple', dict(which='gap', reso=r3)),
            ('forest reso gap', 'forest',
             dict(which='gap', cont=True, reso=r3)),
            ('smooth', 'smooth', dict(how=0)),
            ('smooth masked', 'smooth', dict(how=1)),
            ('dropped', 'dropped', {}),
            ('forest invalid', 'forest',
             dict(which='rev', cont=True, valid=False))]
    return out
