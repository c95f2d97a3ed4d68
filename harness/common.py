"""Shared pieces of the harnesses (both symbolic and concrete mode)."""
from symx.core import (s_and, s_or, s_not, ite, smax, smin, num, SNum, SBool,
                       is_sym, mkbool, bexp)  # noqa: F401


# identifiers are larger than 2**53, as in DESI
T0 = 39627622543528000


class AllArgs:
    """Defaults of every option of the programs."""
    input_dir = catalog = outdir = noise_calibration = None
    flux_calibration = sky_mask = dla_mask = input_continuum_dir = None
    fiducial_meanflux = fiducial_varlss = remove_targetid_list = None
    nwbins = None
    tile_format = mock_analysis = skip_resomat = save_by_hpx = False
    varlss_as_additive_noise = bal_mask = true_continuum = False
    var_fit_eta = var_use_cov = normalize_stacked_flux = False
    eta_calib_ivar = remove_bal_qsos = False
    keep_surveys = ['main']
    arms = ['B', 'R']
    coadd_arms, exposures = 'before', 'disable'
    smoothing_scale = 16.
    min_rsnr = min_forestsnr = 0
    skip = .2
    wave1, wave2, forest_w1, forest_w2 = 3600., 6000., 1050., 1180.
    num_iterations, cont_order, rfdwave = 10, 1, .8
    continuum_model, minimizer = 'picca', 'iminuit'
    fbase = 'qsonic-eta-fits'
    nvarbins, var1, var2, min_snr, max_snr = 100, 1e-4, 20., 0, 100


class Sized:
    """Stand-in for a catalog array: only its size matters."""

    def __init__(self, i, n):
        self.i, self.size = i, n

    def __len__(self):
        return int(self.size)

    @property
    def shape(self):
        return (self.size,)

    @property
    def nbytes(self):
        return self.size * 64


def ssum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def count(bs):
    """Number of true entries, as a term."""
    return ssum(ite(b, 1, 0) if is_sym(b) else int(bool(b)) for b in bs)


def catalog_table(E, n, tag='', tid=None, z=None, pix=None, survey=None,
                  tile=None, petal=None, ra=None, dec=None, night=None,
                  extra=None):
    cols = {'TARGETID': E.arr(tid if tid is not None
                              else [100 + i for i in range(n)], 'i'),
            'Z': E.arr(z if z is not None else [2.5] * n, 'f'),
            'RA': E.arr(ra if ra is not None else [10.0] * n, 'f'),
            'DEC': E.arr(dec if dec is not None else [20.0] * n, 'f')}
    if pix is not None:
        cols['HPXPIXEL'] = E.arr(pix, 'i')
    if survey is not None:
        cols['SURVEY'] = E.arr(survey)
        cols['LASTNIGHT'] = E.arr(night or [20220101] * n, 'i')
    if tile is not None:
        cols['TILEID'] = E.arr(tile, 'i')
        cols['PETAL_LOC'] = E.arr(petal, 'i')
    if extra:
        cols.update(extra)
    return E.table(cols)


def distinct(E, xs):
    for i in range(len(xs)):
        for j in range(i):
            E.assume(xs[i] != xs[j])


# ------------------------------------------------------------------ spectra
def catrow(E, z=2.5, tid=101, pix=5, ra=10., dec=20., **extra):
    cols = {'TARGETID': E.arr([tid], 'i'), 'Z': E.arr([z], 'f'),
            'RA': E.arr([ra], 'f'), 'DEC': E.arr([dec], 'f'),
            'HPXPIXEL': E.arr([pix], 'i')}
    for k, v in extra.items():
        cols[k] = E.arr([v])
    return E.table(cols)[0]


GRID = {'B': [4000.0, 4000.5, 4001.0, 4001.5, 4002.0, 4002.5],
        'R': [4002.0, 4002.5, 4003.0, 4003.5, 4004.0]}
"""Two overlapping arms; dyadic values, so boundaries are exact in floats."""


def make_spec(E, waves, flux, ivar, z=2.5, mask=None, reso=None, mod=None,
              **extra):
    """A Spectrum from per-arm lists."""
    S = (mod or E.mod)('qsonic.spectrum').Spectrum
    w = {a: E.arr(x, 'f') for a, x in waves.items()}
    f = {a: E.arr([flux[a]], 'f') for a in waves}
    i = {a: E.arr([ivar[a]], 'f') for a in waves}
    m = {a: E.arr([mask[a] if mask else [0] * len(waves[a])], 'i')
         for a in waves}
    r = {}
    if reso:
        r = {a: E.arr([reso[a]], 'f') for a in waves}
    return S(catrow(E, z=z, **extra), w, f, i, m, r, 0)


def whole_forest(E, waves, flux, ivar, z=2.5, reso=None, mod=None, **extra):
    """Spectrum whose forest is all of its pixels."""
    spec = make_spec(E, waves, flux, ivar, z=z, reso=reso, mod=mod, **extra)
    lo = min(w[0] for w in waves.values())
    hi = max(w[-1] for w in waves.values())
    spec.set_forest_region(lo - 1, hi + 1, 16., 100000.)
    return spec
