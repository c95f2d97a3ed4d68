"""C21: blinding and the consistency of options."""
from .common import AllArgs, s_and, s_or, s_not

BOUNDS = {'quick': 'any maximum night in [20200101, 20260101], any forest '
                   'start, all combinations of mock analysis and resolution '
                   'matrix; all combinations of the nine consistency rules '
                   'with any wavelength limits; any number for --skip; 1-3 '
                   'ranks; option lists of the parser',
          'thorough': 'the same'}
OUTSIDE = 'repeated set_blinding in one process'

LYA = 1215.67


class Args(AllArgs):
    pass


def blinding(E, night):
    S = E.get('qsonic.spectrum', 'Spectrum')
    a = Args()
    a.mock_analysis = bool(E.bool('mock'))
    a.forest_w1 = E.real('w1', 800, 1600)
    E.assume(s_or(a.forest_w1 > LYA + 1e-6, a.forest_w1 < LYA - 1e-6))
    a.forest_w2 = a.forest_w1 + E.real('dw', 1, 400)
    a.skip_resomat = bool(E.bool('skip'))
    E.check(bool(S.blinding_not_set()), 'blinding is not set by default')
    n = E.int('night', 20200101, 20260101)
    S.set_blinding(None if a.mock_analysis and night else n, a)
    E.check(not S.blinding_not_set(), 'blinding is set')
    side = bool(a.forest_w1 > LYA)
    if a.mock_analysis or side or bool(n < 20210514):
        exp = 'none'
    elif bool(n < 20210801):
        exp = 'desi_m2'
    elif bool(n < 20220801):
        exp = 'desi_y1'
    else:
        exp = 'desi_y3'
    d = E.path('out')
    E.mkdir(d)
    from .c20 import make, pixels
    t = make(E, 0, [2], 100, 5, True, conc=True,
             reso=None if a.skip_resomat else
             (lambda w: [[.1, .1], [.25, .25], [.5, .5], [.25, .25],
                         [.1, .1]]))
    r, e = E.attempt(E.mod('qsonic.io').save_deltas, [t['spec']], d, False, 0)
    E.check(e is None, 'deltas are saved')
    if e is not None:
        return
    h = E.read_fits(d + '/delta-0.fits')
    names = list(h[0].data.dtype.names)
    col = 'DELTA' if exp == 'none' else 'DELTA_BLIND'
    E.check(('DELTA_BLIND' in names) == (exp != 'none'),
            'blinded column iff the data must be blinded')
    E.check(('DELTA' in names) == (exp == 'none'),
            'plain column iff the data need not be blinded')
    E.check(str(h[0].hdr['BLINDING']).strip() == exp, 'blinding strategy')
    E.check(('RESOMAT' in names) == (not a.skip_resomat),
            'resolution matrix iff asked for')
    if col in names:
        pixels(E, t, 'B', h[0], col)


FLAGS = ['true_continuum', 'mock_analysis', 'tile_format', 'save_by_hpx']


def logic(E, fixed=()):
    f = E.get('qsonic.scripts.qsonic_fit', 'args_logic_fnc_qsonic_fit')
    a = Args()
    for k in FLAGS:
        setattr(a, k, bool(E.bool(k)))
    a.arms = ['B', 'R', 'B']
    a.fiducial_meanflux = E.choice('mf', ['m.fits', None])
    a.fiducial_varlss = E.choice('vl', ['v.fits', None])
    a.input_continuum_dir = E.choice('ind', ['in', None])
    a.exposures = E.choice('exp', ['before', 'after', 'disable'])
    a.continuum_model = E.choice('cm', ['picca', 'true', 'input'])
    a.coadd_arms = 'before'
    a.wave1, a.wave2 = E.reals('w', 2, 3000, 9000)
    a.forest_w1, a.forest_w2 = E.reals('r', 2, 800, 1600)
    true = a.true_continuum or a.continuum_model == 'true'
    bad = s_or(a.wave2 <= a.wave1, a.forest_w2 <= a.forest_w1)
    if true and (not a.mock_analysis or not a.fiducial_meanflux
                 or not a.fiducial_varlss or a.input_continuum_dir):
        bad = True
    if a.tile_format and (a.mock_analysis or a.save_by_hpx
                          or a.exposures != 'disable'):
        bad = True
    cm = a.continuum_model
    ok = bool(f(a))
    E.check(ok == (not bool(bad)), 'accepted iff the options are consistent')
    if ok:
        E.check(sorted(a.arms) == ['B', 'R'], 'every arm once')
        exp = 'true' if true else ('input' if a.input_continuum_dir else cm)
        E.check(a.continuum_model == exp, 'continuum model asked for')
        E.check(bool(a.true_continuum) == true, 'true continuum')


def skip(E):
    f = E.get('qsonic.io', '_float_range')
    lo = E.real('lo', -4, 4)
    hi = E.real('hi', -4, 4)
    x = E.real('x', -8, 8)
    v, e = E.attempt(f(lo, hi), x)
    good = bool(s_and(x >= lo, x <= hi))
    E.check((e is None) == good, 'accepted iff within the range')
    if e is None:
        E.close(v, x, 'the number itself')
    v, e = E.attempt(f(lo, hi), 'abc')
    E.check(e is not None, 'not a number')


GOOD = ['--input-dir', 'i', '--catalog', 'c.fits']
OPTS = [
    ([], True, {}),
    (['--skip', '0.5'], True, dict(skip=.5)),
    (['--skip', '1.5'], False, {}),
    (['--skip', '-0.5'], False, {}),
    (['--arms', 'B', 'B', 'Z'], True, {}),
    (['--arms', 'Q'], False, {}),
    (['--coadd-arms', 'sometimes'], False, {}),
    (['--coadd-arms', 'after'], True, dict(coadd_arms='after')),
    (['--exposures', 'after', '--tile-format'], False, {}),
    (['--tile-format'], True, dict(tile_format=True)),
    (['--wave1', '6000', '--wave2', '6000'], False, {}),
    (['--wave1', '5000', '--wave2', '5999.5'], True,
     dict(wave1=5000., wave2=5999.5)),
    (['--forest-w1', '1200'], False, {}),
    (['--continuum-model', 'true'], False, {}),
    (['--continuum-model', 'other'], False, {}),
    (['--input-continuum-dir', 'x'], True, dict(continuum_model='input')),
    (['--true-continuum', '--mock-analysis', '--fiducial-meanflux', 'a',
      '--fiducial-varlss', 'b'], True, dict(continuum_model='true')),
    (['--keep-surveys', 'sv1', 'main'], True,
     dict(keep_surveys=['sv1', 'main'])),
]


def parse(E, size):
    """Every rank gets the same options, or every rank stops."""
    k = E.choice('k', list(range(len(OPTS))))
    opts, ok, want = OPTS[k]
    more = E.choice('req', [0, 1, 2])

    def f(comm, rank, mod):
        m = mod('qsonic.scripts.qsonic_fit')
        a = mod('qsonic.mpi_utils').mpi_parse(
            m.get_parser(), comm, rank, GOOD[more:] + opts,
            m.args_logic_fnc_qsonic_fit)
        return vars(a)
    out = E.spmd(size, f)
    if more:
        ok = False
    for o in out:
        if ok:
            E.check(o.exc is None, 'consistent options are accepted')
            if o.exc is None:
                for q, v in want.items():
                    E.check(o.value[q] == v, 'value of the option')
                E.check(o.value['input_dir'] == 'i'
                        and o.value['catalog'] == 'c.fits',
                        'value of the option')
        else:
            E.check(o.exc is not None and o.raised('SystemExit'),
                    'inconsistent options stop every rank')


def cases(tier):
    return [('blinding', 'blinding', dict(night=False)),
            ('blinding mock', 'blinding', dict(night=True)),
            ('logic', 'logic', {}),
            ('skip', 'skip', {}),
            ('parse 1', 'parse', dict(size=1)),
            ('parse 3', 'parse', dict(size=3))]
