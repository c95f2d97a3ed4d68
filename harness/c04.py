"""C04: what the master reads reaches every rank identically; a failure makes
every rank fail (no rank continues with missing input, none hangs)."""
import argparse

from .common import (s_and, s_or, s_not, catalog_table, ssum)

BOUNDS = {
    'quick': '1 to 3 ranks; master succeeds or fails (symbolic), any returned '
             'integer / None / False / array; files present, absent or '
             'malformed; error class and failing rank symbolic',
    'thorough': '1 to 4 ranks'}
OUTSIDE = 'failures of MPI itself; more ranks'
ASSUMPTIONS = ['ranks interact only through the collectives; a collective '
               'that not all ranks enter is a hang']


def name(e):
    return type(e).__name__


def bcast(E, m, nocomm):
    bad = E.bool('fails')
    kind = E.choice('kind', ['int', 'none', 'false', 'array', 'tuple', 'err'])
    v = E.int('v', -5, 5)
    ncalls = []

    def fnc(x, y=0):
        ncalls.append(1)
        if bad:
            raise E.choice('exc', [ValueError, OSError, KeyError])(
                *E.choice('args', [['boom'], []]))
        return {'int': v + x + y, 'none': None, 'false': False,
                'array': E.arr([x, v], 'i'), 'tuple': (v, None),
                'err': -1}[kind]

    def body(comm, rank, mod):
        f = mod('qsonic.mpi_utils').mpi_fnc_bcast
        if nocomm:
            return f(fnc, None, rank, 'msg', 3, y=4)
        return f(fnc, comm, rank, 'msg', 3, y=4)
    outs = E.spmd(m, body)
    if bad:
        for o in outs:
            E.check(o.exc is not None and name(o.exc) == 'QsonicException',
                    'every rank raises when the master fails')
            E.check(o.exc is not None and 'msg' in str(o.exc),
                    'the error message is the given one')
        return
    E.check(nocomm or len(ncalls) == 1, 'evaluated on the master only')
    for o in outs:
        if o.exc is not None:
            E.fail('a successful call returns on every rank')
            continue
        w = o.value
        if kind == 'int':
            E.check(s_and(w is not None, w == v + 7), 'same value everywhere')
        elif kind == 'none':
            E.check(w is None, 'same value everywhere')
        elif kind == 'false':
            E.check(w is False, 'same value everywhere')
        elif kind == 'array':
            E.check(s_and(w[0] == 3, w[1] == v), 'same value everywhere')
        elif kind == 'tuple':
            E.check(s_and(w[0] == v, w[1] is None), 'same value everywhere')
        else:
            E.check(w == -1, 'same value everywhere')


def parse(E, m):
    opts = E.choice('opts', [['--a', '3'], ['--a', 'x'], ['--bogus'], [],
                             ['--a', '-1']])
    logic = E.bool('logic')

    def body(comm, rank, mod):
        p = argparse.ArgumentParser()
        p.add_argument('--a', type=int, default=7)
        return mod('qsonic.mpi_utils').mpi_parse(
            p, comm, rank, options=opts, args_logic_fnc=lambda args: logic)
    outs = E.spmd(m, body)
    good = opts in (['--a', '3'], [], ['--a', '-1'])
    if good and logic:
        want = {'3': 3, '-1': -1}.get(opts[-1] if opts else '', 7)
        for o in outs:
            E.check(o.exc is None and o.value.a == want,
                    'every rank gets the parsed arguments')
    else:
        for o in outs:
            E.check(isinstance(o.exc, SystemExit),
                    'every rank stops on invalid arguments')


def queue(E, m, n):
    """Catalog failures: missing file, empty selection, duplicates."""
    mode = E.choice('mode', ['ok', 'missing', 'column'])
    z = E.reals('z', n, 0, 5)
    tid = E.ints('tid', n, 1, 3)
    path = E.path('cat.fits')
    if mode != 'missing':
        t = catalog_table(E, n, z=z, tid=tid, pix=list(range(n)))
        if mode == 'column':
            t = E.table({'TARGETID': t['TARGETID'], 'Z': t['Z']})
        E.fits(path, [('ZCATALOG', t, None)])
    which = E.choice('which', ['queue', 'catalog'])

    def body(comm, rank, mod):
        c = mod('qsonic.catalog')
        if which == 'queue':
            return c.mpi_get_local_queue(path, comm, rank, m, is_mock=True,
                                         zmin=2., zmax=4.)
        return c.mpi_read_quasar_catalog(path, comm, rank, is_mock=True,
                                         zmin=2., zmax=4.)
    outs = E.spmd(m, body)
    if mode != 'ok':
        for o in outs:
            E.check(o.raised('QsonicException'),
                    'an unreadable catalog fails on every rank')
        return
    dup = s_or(*[tid[i] == tid[j] for i in range(n) for j in range(i)])
    sel = s_or(*[s_and(x >= 2., x <= 4.) for x in z])
    bad = s_or(dup, s_not(sel))
    for o in outs:
        if o.exc is not None:
            E.check(s_and(bad, o.raised('QsonicException')),
                    'only an invalid catalog fails')
        else:
            E.check(s_not(bad), 'an invalid catalog fails on every rank')
    if which == 'catalog' and outs[0].exc is None and all(
            o.exc is None for o in outs):
        ref = outs[0].value
        for o in outs[1:]:
            E.check(o.value.size == ref.size, 'same catalog on every rank')
            if o.value.size == ref.size:
                E.close(o.value['TARGETID'], ref['TARGETID'],
                        'same catalog on every rank: ids')


def inputs(E, m, what):
    """Calibration and mask inputs."""
    mode = E.choice('mode', ['ok', 'missing', 'extension', 'column',
                             'spacing'])
    d = E.real('d', -4, 4)
    path = E.path('in.fits')
    wave = [4000., 4008., 4016., 4024.]
    if mode == 'spacing':
        E.assume(s_or(d > 0.5, d < -0.5))
        wave[2] = wave[2] + d
    else:
        E.assume(d == 0)
    if what == 'dla':
        if mode == 'spacing':
            return
        cols = {'TARGETID': E.arr([5, 6], 'i'), 'Z': E.arr([2., 3.], 'f'),
                'NHI': E.arr([20.5, 21.0], 'f')}
        ext = 'DLACAT'
        drop = 'NHI'
    else:
        cols = {'lambda': E.arr(wave, 'f')}
        if what == 'noise':
            cols['var_lss'] = E.arr([.25, .5, .5, .25], 'f')
            cols['eta'] = E.arr([1., 1.5, 2., 1.], 'f')
            ext, drop = 'VAR_FUNC', 'eta'
        else:
            cols['stacked_flux'] = E.arr([1., 1.5, 2., 1.], 'f')
            ext, drop = 'STACKED_FLUX', 'stacked_flux'
    if mode == 'column':
        cols.pop(drop)
    if mode == 'extension' and what == 'dla':
        ext = 'DLACAT'
        cols.pop('TARGETID')
    elif mode == 'extension':
        ext = 'SOMETHING'
    if mode != 'missing':
        E.fits(path, [(ext, E.table(cols), None)])

    def body(comm, rank, mod):
        if what == 'dla':
            o = mod('qsonic.masks').DLAMask(
                path, E.arr([5, 6], 'i'), comm, rank)
            return len(o.unique_targetids) if hasattr(
                o, 'unique_targetids') else 0
        c = mod('qsonic.calibration')
        if what == 'noise':
            return c.NoiseCalibrator(path, comm, rank).eta_interp(
                E.arr([4008., 4012.], 'f'))
        return c.FluxCalibrator(path, comm, rank).stacked_flux_interp(
            E.arr([4008., 4012.], 'f'))
    outs = E.spmd(m, body)
    if mode == 'ok':
        for o in outs:
            if o.exc is not None:
                E.fail('valid input is accepted')
                continue
            if what == 'dla':
                E.check(o.value == outs[0].value, 'same on every rank')
            else:
                E.close(o.value[0], 1.5, 'value at a node')
                E.close(o.value, outs[0].value, 'same on every rank')
    else:
        for o in outs:
            E.check(o.raised('QsonicException'),
                    'invalid input fails on every rank')


def main_(E, m, script):
    """Exit status: an error on a rank is never swallowed."""
    which = E.choice('exc', ['none', 'qsonic', 'other'])
    bad = E.int('rank', 0, m - 1)

    def body(comm, rank, mod):
        s = mod('qsonic.scripts.' + script)
        Q = mod('qsonic').QsonicException

        def run_all(comm_, r, size):
            E.check(r == rank and size == m, 'run with its rank and size')
            if r == bad or which == 'none':
                if which == 'qsonic':
                    raise Q('bad input')
                if which == 'other':
                    raise RuntimeError('bug')
        s.mpi_run_all = run_all
        return s.main()
    outs = E.spmd(m, body)
    r = int(E.value(bad))
    o = outs[r]
    if which == 'none':
        for o in outs:
            E.check(o.exc is None, 'a clean run ends normally')
    elif which == 'qsonic':
        E.check(isinstance(o.exc, SystemExit) and o.exc.code not in (0, None),
                'an input error ends with a non-zero status')
    else:
        E.check(name(o.exc) == 'Aborted' or (
            isinstance(o.exc, SystemExit) and o.exc.code not in (0, None)),
            'an unexpected error aborts all ranks')


def cases(tier):
    out = []
    for m in ([1, 2, 3] if tier == 'quick' else [1, 2, 3, 4]):
        out.append((f'bcast m={m}', 'bcast', dict(m=m, nocomm=False)))
        out.append((f'parse m={m}', 'parse', dict(m=m)))
        out.append((f'catalog m={m}', 'queue', dict(m=m, n=2)))
        for w in ('noise', 'flux', 'dla'):
            out.append((f'{w} input m={m}', 'inputs', dict(m=m, what=w)))
    out.append(('bcast without MPI', 'bcast', dict(m=1, nocomm=True)))
    for s in ('qsonic_fit', 'qsonic_calib'):
        out.append((f'main {s}', 'main_', dict(m=2, script=s)))
    return out
