"""C24: exposures read after continuum fitting."""
from .common import T0, ssum, ite, s_and, s_or, s_not, catalog_table
from .c22 import Args

Z = 2.4

BOUNDS = {'quick': '1-2 quasars in 1-2 pixels of 1-2 surveys (any order of '
                   'TARGETIDs), 0-2 exposures each, 1-2 arms of 4-5 pixels, '
                   'any continuum, exposures of any flux, any arm of the '
                   'coadded spectrum or of an exposure masked, arms coadded '
                   'before, after or not, 1-2 ranks',
          'thorough': '3 quasars, 3 exposures'}
OUTSIDE = 'masks that differ between the coadded spectrum and its exposures'

WAVES = {'B': [4000., 4000.5, 4001., 4001.5],
         'R': [4001., 4001.5, 4002., 4002.5]}
GAP = {'B': WAVES['B'], 'R': [4002.5, 4003., 4003.5, 4004.]}
COLS = ['PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID', 'TILEID']


def hdus(E, rows, arms, exp, WAVES=WAVES):
    """rows: (tid, flux, ivar, expid)"""
    m = len(rows)
    fib = {'TARGETID': E.arr([r[0] for r in rows], 'i')}
    if exp:
        for c in COLS:
            fib[c] = E.arr([r[3] if c == 'EXPID' else 7 for r in rows], 'i')
    h = [('FIBERMAP', E.table(fib), {})]
    for a in arms:
        h += [(a + '_WAVELENGTH', E.arr(WAVES[a], 'f'), {}),
              (a + '_FLUX', E.arr([r[1][a] for r in rows], 'f'), {}),
              (a + '_IVAR', E.arr([r[2][a] for r in rows], 'f'), {}),
              (a + '_MASK', E.arr([[0] * len(WAVES[a])] * m, 'i'), {})]
    return h


class NoMask:
    def apply(self, spec):
        pass


def run(E, quasars, nexp, arms, coadd, size=1, off=(), offexp=(), snr=False,
        free=True, gap=False):
    """quasars: (pixel, survey); off: may the arm of the coadded spectrum be
    masked; offexp: that of the exposures."""
    n = len(quasars)
    W = GAP if gap else WAVES
    tid = [E.int(f't{k}', T0 + 100, T0 + 99 + 2 * n) for k in range(n)]
    for k in range(n):
        for j in range(k):
            E.assume(tid[k] != tid[j])
    inp = E.path('in')
    groups = {}
    exps = []
    for k, (p, s) in enumerate(quasars):
        f = {a: [1. + .25 * i + k for i in range(4)] for a in arms}
        iv = {a: [1.] * 4 for a in arms}
        for a in off:
            if bool(E.bool(f'off{k}{a}')):
                iv[a] = [0.] * 4
        rows = []
        for x in range(nexp[k]):
            g = {a: [(E.real(f'f{k}{x}{a}', .25, 8)
                      if i == 1 and free else
                      1. + .5 * i + x + 4. * k + (2. if a == 'R' else 0))
                     for i in range(4)] for a in arms}
            jv = {a: [4., 1., 1., 4.] for a in arms}
            for a in offexp:
                if bool(E.bool(f'offe{k}{x}{a}')):
                    jv[a] = [0.] * 4
            rows.append((tid[k], g, jv, 30 + 10 * k + x))
        groups.setdefault((p, s), []).append(
            ((tid[k], f, iv, 0), rows))
        exps.append((k, rows))
    for (p, s), q in groups.items():
        d = f'{inp}/{s}/dark/{p // 100}/{p}/'
        E.fits(d + f'coadd-{s}-dark-{p}.fits',
               hdus(E, [c for c, _ in q], arms, False, W))
        E.fits(d + f'spectra-{s}-dark-{p}.fits',
               hdus(E, [r for _, rs in reversed(q) for r in reversed(rs)],
                    arms, True, W))
    # one catalog per pixel, sorted by survey and id
    pixs = sorted({p for p, _ in quasars})
    queue = []
    for p in pixs:
        ks = sorted([k for k in range(n) if quasars[k][0] == p],
                    key=lambda k: (quasars[k][1], int(E.value(tid[k]))))
        queue.append(catalog_table(
            E, len(ks), tid=[tid[k] for k in ks], z=[Z] * len(ks),
            pix=[p] * len(ks), survey=[quasars[k][1] for k in ks]))
    lim = E.real('min', .25, 6) if snr else 0.

    def cont(k, a, x, val):
        return val[k, x] if coadd != 'disable' else val[k, x] + (
            1. if a == 'R' else 0.)
    xs = sorted({x for a in arms for x in W[a]} | ({4002.} if gap else set()))
    val = {(k, x): E.real(f'c{k}_{x}', .5, 2) if free and x in (4000.5, 4001.5)
           else 1. + .125 * i for k in range(n) for i, x in enumerate(xs)}

    def f(comm, rank, mod):
        m = mod('qsonic.scripts.qsonic_fit')
        a = Args(input_dir=inp, arms=arms, mock_analysis=False,
                 exposures='after', coadd_arms=coadd)
        q = [c for i, c in enumerate(queue) if i % size == rank]
        mk = [NoMask()]
        specs = m.mpi_read_calibrate_mask_select_spectra(q, mk, a, comm,
                                                         rank)
        specs = [s for s in specs if s.forestwave]
        for s in specs:
            k = [j for j in range(n) if bool(tid[j] == s.targetid)][0]
            if coadd == 'after':
                s.cont_params['cont'] = {
                    b: E.arr([val[k, float(x)] for x in w], 'f')
                    for b, w in s.forestwave.items()}
            s.cont_params['valid'] = True
            if coadd == 'after':
                s.coadd_arms_forest()
            s.cont_params['cont'] = {
                b: E.arr([cont(k, b, float(x), val) for x in w], 'f')
                for b, w in s.forestwave.items()}
            s.cont_params['chi2'] = 7. + k
        have = [(int(E.value(s.targetid)), {b: [float(x) for x in w] for b, w
                                            in s.forestwave.items()})
                for s in specs]
        a.min_forestsnr = lim
        r = m.mpi_read_exposures_after(specs, mk, a, comm, rank)
        return have, list(r)
    have, got = {}, []
    for o in E.spmd(size, f):
        E.check(o.exc is None, 'exposures are read on every rank')
        if o.exc is not None:
            return
        have.update(dict(o.value[0]))
        got += o.value[1]
    ids = [int(E.value(t)) for t in tid]
    want = []
    for k, rows in exps:
        if ids[k] not in have:
            continue
        for r in rows:
            want.append((k, r))
    seen = set()
    for s in got:
        t = int(E.value(s.targetid))
        E.check(t in have, 'exposures of fitted quasars only')
        x = int(E.value(s.catrow['EXPID']))
        E.check((t, x) not in seen, 'each exposure appears once')
        seen.add((t, x))
        if t not in have:
            return
        k = ids.index(t)
        row = [r for r in exps[k][1] if r[3] == x]
        E.check(len(row) == 1, 'exposures of the quasar')
        if not row:
            return
        row = row[0]
        for b, w in s.forestwave.items():
            E.check(b in have[t], 'only arms with a continuum')
            if b not in have[t]:
                continue
            if not s.cont_params['valid']:
                continue
            E.check(len(s.cont_params['cont'][b]) == len(w)
                    == len(s.forestflux[b]) == len(s.forestivar[b]),
                    'one continuum value per pixel')
            for i in range(len(w)):
                v = float(w[i])
                E.check(v in have[t][b],
                        'pixels where the quasar has a continuum')
                E.close(s.cont_params['cont'][b][i], cont(k, b, v, val),
                        'continuum of the same quasar and wavelength')
                pix = []
                for a in arms:
                    if v in W[a] and (coadd != 'disable' or a == b):
                        j = W[a].index(v)
                        pix.append((row[1][a][j], row[2][a][j]))
                tot = ssum(q for _, q in pix)
                E.close(s.forestivar[b][i], tot, 'noise of the exposure')
                E.close(s.forestflux[b][i] * tot,
                        ssum(g * q for g, q in pix), 'flux of the exposure')
        E.close(s.cont_params['chi2'], 7. + k, 'chi2 of the same quasar')
    for k, r in want:
        t = ids[k]
        # pixels of the exposure; SNR per pixel as for any spectrum
        pix = {}
        for a in arms:
            for i, v in enumerate(W[a]):
                pix.setdefault('brz' if coadd != 'disable' else a, {}) \
                    .setdefault(v, []).append((r[1][a][i], r[2][a][i]))
        dead = [b for b, d in pix.items()
                if all(q == 0 for u in d.values() for _, q in u)]
        if len(dead) == len(pix):
            E.check((t, r[3]) not in seen, 'masked exposures are left out')
            continue
        if snr:
            continue
        E.check((t, r[3]) in seen, 'every exposure of a fitted quasar is kept')
        s = [s for s in got if int(E.value(s.targetid)) == t
             and int(E.value(s.catrow['EXPID'])) == r[3]]
        for b in have[t]:
            if b in dead or not s:
                continue
            own = {v for a in arms for v in W[a] if any(r[2][a])
                   and b in ('brz', a)}
            if b == 'brz':
                own = {v for v in xs if min(own) <= v <= max(own)}
            both = [v for v in have[t][b] if v in own]
            if not both:
                E.check(not s[0].cont_params['valid']
                        or len(s[0].forestwave.get(b, ())) == 0,
                        'no pixels without a continuum')
                continue
            E.check(b in s[0].forestwave, 'arms with a continuum are kept')
            if b in s[0].forestwave:
                E.check(bool(s[0].cont_params['valid']), 'valid')
                E.check([float(v) for v in s[0].forestwave[b]] == both,
                        'all pixels with a continuum are kept')
    if snr:
        E.check(len(seen) >= 0, 'done')
        for k, r in want:
            b = arms[0]
            m = ssum(r[1][b][i] * [2., 1., 1., 2.][i] for i in range(4)) / 4
            E.assume(s_or(m > lim + 1e-6, m < lim - 1e-6))
            keep = bool(m >= lim)
            E.check(((ids[k], r[3]) in seen) == keep,
                    'exposures below the SNR limit are left out')


def cases(tier):
    two = [(21, 'main'), (21, 'sv3')]
    out = [('one', 'run', dict(quasars=two[:1], nexp=[2], arms=['B'],
                               coadd='disable')),
           ('two arms', 'run', dict(quasars=two[:1], nexp=[2],
                                    arms=['B', 'R'], coadd='disable')),
           ('coadd before', 'run', dict(quasars=two[:1], nexp=[1],
                                        arms=['B', 'R'], coadd='before')),
           ('coadd after', 'run', dict(quasars=two[:1], nexp=[1],
                                       arms=['B', 'R'], coadd='after')),
           ('arm off', 'run', dict(quasars=two[:1], nexp=[1],
                                   arms=['B', 'R'], coadd='disable',
                                   off=['B', 'R'], free=False)),
           ('arm off exposure', 'run', dict(
               quasars=two[:1], nexp=[2], arms=['B', 'R'], coadd='disable',
               off=['R'], offexp=['B', 'R'], free=False)),
           ('arm off after', 'run', dict(
               quasars=two[:1], nexp=[1], arms=['B', 'R'], coadd='after',
               off=['B', 'R'], offexp=['B'], free=False)),
           ('gap', 'run', dict(
               quasars=two[:1], nexp=[1], arms=['B', 'R'], coadd='before',
               off=['B', 'R'], offexp=['B', 'R'], free=False, gap=True)),
           ('surveys', 'run', dict(quasars=two, nexp=[1, 2], arms=['B'],
                                   coadd='disable', free=False)),
           ('pixels', 'run', dict(quasars=[(21, 'main'), (1300, 'main')],
                                  nexp=[2, 1], arms=['B'], coadd='disable',
                                  size=2, free=False)),
           ('no quasar', 'run', dict(quasars=two[:1], nexp=[1], arms=['B'],
                                     coadd='before', size=2, free=False)),
           ('snr', 'run', dict(quasars=two[:1], nexp=[2], arms=['B'],
                               coadd='disable', snr=True))]
    if tier == 'thorough':
        out += [('three', 'run', dict(
            quasars=two + [(1300, 'main')], nexp=[2, 1, 3],
            arms=['B', 'R'], coadd='before', size=2, free=False)),
            ('surveys off', 'run', dict(
                quasars=two, nexp=[1, 2], arms=['B', 'R'], coadd='disable',
                off=['B', 'R'], free=False))]
    return out
