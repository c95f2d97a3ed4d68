"""C18: stacking fluxes of all valid spectra of all ranks."""
from .common import ssum, ite, s_or, s_and, whole_forest, GRID
from .c11 import Table

BOUNDS = {'quick': '1-3 additions of 1-3 pixels into 3 observed and 3 rest '
                   'frame bins, any wavelength within the range, weighted '
                   'flux and weight >= 0; 2-3 spectra (valid or not) of 1-2 '
                   'arms; 1-3 ranks',
          'thorough': '4 pixels, 4 spectra'}
OUTSIDE = 'wavelengths exactly at bin edges'

W1, W2, DW = 4000., 4024., 8.
R1, DR = 1142., 4.
RF = [1144., 1148., 1152.]


def stacker(E, mod=None, comm=None):
    F = (mod or E.mod)('qsonic.picca_continuum').FluxStacker
    return F(W1, W2, DW, E.arr(RF, 'f'), DR, comm=comm)


def off_edge(E, v, edges):
    for x in edges:
        E.assume(s_or(v > x + 1e-6, v < x - 1e-6))


def additions(E, spec):
    out = []
    for k, pix in enumerate(spec):
        rows = []
        for i, p in enumerate(pix):
            n = f'{k}{i}'
            if p == 'a':
                w = E.real('w' + n, W1, W2)
                off_edge(E, w, [4000., 4008., 4016., 4024.])
                r = 1143. + 4. * i
            elif p == 'r':
                w = 4004. + 8. * i
                r = E.real('r' + n, R1, R1 + 12)
                off_edge(E, r, [R1, R1 + 4., R1 + 8., R1 + 12.])
            else:
                w, r = 4001. + 8. * int(p), 1153. - 4. * int(p)
            wt = E.real('t' + n, 0, 4)
            f = E.real('f' + n, -2, 2) * wt
            c = E.real('c' + n, -2, 2) * wt
            rows.append((w, r, f, c, wt))
        out.append(rows)
    return out


def add(E, st, rows):
    st.add(*[E.arr([q[j] for q in rows], 'f') for j in range(5)])


def verify(E, rows, got):
    """got: flux, weights, flux_rf, std_rf"""
    flux, wts, frf, srf = got
    for col, val, off, step, f in ((0, 2, W1, DW, flux),
                                   (1, 3, R1, DR, frf)):
        for b in range(3):
            inb = [q for q in rows if bool(
                s_and(q[col] >= off + step * b, q[col] < off + step * (b + 1))
            )]
            W = ssum(q[4] for q in inb)
            if not inb or bool(W == 0):
                E.close(f[b], 0., 'empty bins are zero')
                E.close((wts if col == 0 else srf)[b], 0.,
                        'empty bins have no weight')
                continue
            E.close(f[b] * W, ssum(q[val] for q in inb),
                    'weighted mean of the bin')
            if col == 0:
                E.close(wts[b], W, 'weight of the bin')
            else:
                E.close(srf[b] * srf[b] * W, 1., 'error of the bin')
                E.check(srf[b] > 0, 'errors are positive')


def stats(st):
    return [list(st.stacked_flux), list(st.weights),
            list(st.stacked_flux_rf), list(st.std_flux_rf)]


def run(E, spec, hist=False):
    data = additions(E, spec)
    st = stacker(E)
    E.close(st(E.arr([4000., 4010.5, 4024.], 'f')), E.arr([1.] * 3, 'f'),
            'one before any stacking')
    E.close(st.waveobs, E.arr([4004., 4012., 4020.], 'f'), 'bin centres')
    st.reset()
    if hist:
        add(E, st, additions(E, [['1']])[0])
        st.calculate()
        st.reset()
    for rows in data:
        add(E, st, rows)
    st.calculate()
    got = stats(st)
    verify(E, [q for r in data for q in r], got)
    x = st(E.arr([4004., 4014., 4018.], 'f'))
    f = got[0]
    for v, e in zip(x, (f[0], .75 * f[1] + .25 * f[2],
                        .25 * f[1] + .75 * f[2])):
        E.close(v, e, 'stacked flux interpolates linearly')


def ranks(E, size, spec):
    data = additions(E, spec)
    own = [E.choice(f'own{k}', list(range(size))) for k in range(len(data))]

    def f(comm, rank, mod):
        st = stacker(E, mod, comm)
        st.reset()
        for rows, o in zip(data, own):
            if o == rank:
                add(E, st, rows)
        st.calculate()
        return stats(st)
    for o in E.spmd(size, f):
        E.check(o.exc is None, 'all ranks succeed')
        if o.exc is None:
            verify(E, [q for r in data for q in r], o.value)


def spectra(E, model, npix, nspec):
    """Only valid spectra are stacked, with their continuum weights."""
    C = E.mod('qsonic.continuum_models')
    sp = E.mod('qsonic.spectrum')
    arms = ['B', 'R'][:len(npix)]
    z = 2.5
    # rest frame bins follow the observed ones
    F = E.get('qsonic.picca_continuum', 'FluxStacker')
    st = F(3999., 4007., 4., E.arr([1143. + k for k in range(3)], 'f'), 1.)
    st.reset()
    specs, rows = [], []
    for k in range(nspec):
        waves = {a: GRID[a][:n] for a, n in zip(arms, npix)}
        flux = {a: E.reals(f'f{k}{a}', n, -2, 2) for a, n in zip(arms, npix)}
        ivar = {a: [E.real(f'i{k}{a}0', 0, 2)] + [1. + .5 * k] * (n - 1)
                for a, n in zip(arms, npix)}
        s = whole_forest(E, waves, flux, ivar, z=z, tid=100 + k)
        valid = bool(E.bool(f'v{k}'))
        s.cont_params['valid'] = valid
        cont = {a: E.reals(f'c{k}{a}', n, .03125, 2) for a, n in zip(arms, npix)}
        s.cont_params['cont'] = None
        if valid:
            s.cont_params['cont'] = {a: E.arr(c, 'f')
                                     for a, c in cont.items()}
            for a, w in waves.items():
                for i, x in enumerate(w):
                    wt = ivar[a][i] * cont[a][i] * cont[a][i]
                    fc = ivar[a][i] * flux[a][i] * cont[a][i]
                    rows.append((x, x / 3.5, fc, wt * cont[a][i]
                                 if model != 'picca' else fc, wt))
        s.set_forest_weight()
        specs.append(s)
    M = {'base': C.TrueContinuumModel, 'input': C.InputContinuumModel,
         'picca': C.PiccaContinuumModel}[model]
    M = M.__new__(M)
    M.stack_spectra(sp.valid_spectra(specs), st)
    st.calculate()
    E.check(bool(M.stacks_residual_flux()) == (model == 'picca'),
            'kind of stack')
    for col, val, off, step, f in ((0, 2, 3999., 4., st.stacked_flux),
                                   (1, 3, 1142.5, 1., st.stacked_flux_rf)):
        for b in range(len(f)):
            q = [r for r in rows if off + step * b <= r[col]
                 < off + step * (b + 1)]
            W = ssum(r[4] for r in q)
            if not q or bool(W == 0):
                E.close(f[b], 0., 'no valid spectra in the bin')
            else:
                E.close(f[b] * W, ssum(r[val] for r in q),
                        'stack over valid spectra')


def cases(tier):
    big = tier == 'thorough'
    out = [('one', 'run', dict(spec=[['a']])),
           ('rest frame', 'run', dict(spec=[['r', 'r']])),
           ('two pixels', 'run', dict(spec=[['a', '1']])),
           ('two spectra', 'run', dict(spec=[['a', '0'], ['1', '0']])),
           ('reset', 'run', dict(spec=[['0', '1'], ['1']], hist=True)),
           ('ranks 2', 'ranks', dict(size=2, spec=[['0', '1'], ['a'],
                                                   ['0']])),
           ('ranks 3', 'ranks', dict(size=3, spec=[['0'], ['1']])),
           ('picca', 'spectra', dict(model='picca', npix=[2], nspec=2)),
           ('picca arms', 'spectra', dict(model='picca', npix=[2, 2],
                                          nspec=1)),
           ('input', 'spectra', dict(model='input', npix=[2], nspec=1)),
           ('true', 'spectra', dict(model='base', npix=[2], nspec=2))]
    if big:
        out += [('four', 'run', dict(spec=[['a', 'a'], ['a', '1']])),
                ('picca arms 2', 'spectra', dict(
                    model='picca', npix=[2, 2], nspec=2))]
    return out
