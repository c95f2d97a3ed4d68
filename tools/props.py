"""Property texts. tools/mk.py turns them into properties.jsonl/MANIFEST."""
S = 'py/qsonic/spectrum.py'
IO = 'py/qsonic/io.py'
CAT = 'py/qsonic/catalog.py'
MPI = 'py/qsonic/mpi_utils.py'
MASK = 'py/qsonic/masks.py'
CAL = 'py/qsonic/calibration.py'
MATH = 'py/qsonic/mathtools.py'
PIC = 'py/qsonic/picca_continuum.py'
FIT = 'py/qsonic/scripts/qsonic_fit.py'
CALIB = 'py/qsonic/scripts/qsonic_calib.py'
COADD = 'py/qsonic/scripts/qsonic_coadd_deltas.py'
CM = 'py/qsonic/continuum_models/'

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            dict(name=n, where=w) for n, w in mech])))


prop('C01', 'Every quasar is worked on by exactly one rank, load balanced',
     'When the selected quasar catalog is distributed over MPI ranks, every '
     'selected quasar is handed to exactly one rank, exactly once and with '
     'its row unaltered. All quasars of one healpix pixel (or tile) stay '
     'together in one group that contains no other pixel. The load is '
     'balanced: no rank carries more than another by more than one group, '
     'and the busiest rank stays within 4/3 of the best possible split.',
     ['inputs', 'configurations'],
     'all group sizes, pixel/tile numbers and numbers of ranks',
     'The one balancing test fixes a single list of sizes and ranks.',
     [MPI, CAT], [('balance_load', MPI), ('mpi_get_local_queue', CAT)])
prop('C02', 'The analysed catalog is exactly the selected, ordered subset',
     'Reading a quasar catalog returns exactly the rows whose redshift lies '
     'within the inclusive redshift limits and whose survey is among the '
     'requested ones (all, if none are requested), with their values '
     'unaltered. Mock catalogs without pixel numbers get them at nside 16, '
     'nested, from their coordinates and data at nside 64. Rows are ordered '
     'by pixel, survey (data) and target, or by tile, petal and target; an '
     'empty selection is an error.',
     ['inputs', 'configurations'],
     'all redshifts, limits, targets, pixels, tiles, petals and survey lists',
     'Tests use one five-row catalog with one set of limits.',
     [CAT], [('_prime_catalog, _validate_adjust_column_names', CAT),
             ('mpi_read_quasar_catalog', CAT)])
prop('C03', 'Catalogs are accepted iff complete and without duplicates',
     'A catalog that lacks a required column (under any accepted name) or '
     'that holds duplicate entries (target, or target and tile in the tile '
     'format) is refused; any other catalog is accepted with all its rows. '
     'Columns stored under an accepted alternative name are available under '
     'the standard name with the values of their own row.',
     ['inputs', 'configurations'],
     'all combinations of present column names, all target and tile ids',
     'Tests try three column sets.',
     [CAT], [('_read, _validate_adjust_column_names', CAT)])
prop('C04', 'A failure on one rank stops every rank; results are shared',
     'Whatever the master process reads for everybody (arguments, catalogs, '
     'masks, calibrations) arrives with the same value on every rank, '
     'including None, False and empty results. If reading fails, every rank '
     'raises the package error (or exits), so none continues with missing '
     'input and none waits forever. The programs exit with a failure status '
     'on a package error and abort all ranks on any other exception.',
     ['inputs', 'fault_sequences', 'schedules'],
     'all returned values, failing ranks, exception types; 1-4 ranks',
     'The broadcast test runs on a single process with two outcomes.',
     [MPI, CAT, MASK, CAL, FIT, CALIB],
     [('mpi_fnc_bcast, mpi_parse', MPI), ('main', FIT), ('main', CALIB)])
prop('C05', 'Every spectrum holds the data of its own quasar',
     'Spectra read from DESI coadd, exposure, tile and mock files belong to '
     'the catalog quasars: flux, inverse variance, mask, resolution matrix '
     'and true continuum of a spectrum come from the file row(s) with its '
     'TARGETID in the file of its survey (or petal), and its catalog row is '
     'its own, whatever the order of rows in the file. Every catalog quasar '
     'in the file gives one spectrum (one per exposure for exposures), no '
     'foreign row gives any, and missing quasars produce a warning, not a '
     'shift.',
     ['inputs', 'configurations'],
     'all target ids and row orders of files and catalogs',
     'The reading test is not run reliably and covers one file order.',
     [IO], [('_read_onehealpix_file, _read_onehealpix_file_onlyreso', IO),
            ('read_onehealpix_file_data_*, read_onehealpix_file_mock', IO)])
prop('C06', 'Bad pixels carry no signal or weight; good ones are unchanged',
     'When a spectrum is built from file data, every pixel that has a '
     'non-zero mask bit, a NaN flux, a NaN inverse variance or a negative '
     'inverse variance ends up with zero flux and zero inverse variance. '
     'Every other pixel keeps its flux and inverse variance exactly, and the '
     'resolution matrix is that of this quasar. The input arrays are not '
     'modified and not shared.',
     ['inputs'], 'all flux, inverse variance, mask and NaN patterns',
     'Tests build spectra from clean data only.',
     [S], [('Spectrum.__init__, from_dictionary', S)])
prop('C07', 'The forest is exactly the pixels inside both wavelength limits',
     'Setting the forest region keeps exactly the pixels that are at or '
     'above the lower and below the upper limit, in both the observed and '
     'the rest frame, with wavelength, flux, inverse variance and resolution '
     'unchanged; arms without any valid pixel in the range are left out. The '
     'mean SNR of each arm, the SNR redward of Lya and the starting '
     'continuum amplitude are the documented averages over valid pixels.',
     ['inputs'], 'all redshifts, limits, fluxes and inverse variances',
     'Tests check one redshift and one range.',
     [S], [('set_forest_region, _set_rsnr, _set_forest_related_parameters',
            S)])
prop('C08', 'Sky and BAL masks zero exactly the pixels in masked ranges',
     'The sky mask sets flux and inverse variance to zero exactly for pixels '
     'in [min, max) of a row, compared in the observed or in the rest frame '
     'as the row says; all other pixels stay unchanged. The BAL mask does '
     'the same for the blueshifted trough of each listed transition for '
     'every trough with positive minimum and maximum velocity. BAL masking '
     'is refused if a BAL column is missing from the catalog.',
     ['inputs'], 'all mask limits, frames, redshifts, trough velocities',
     'Tests check one range of one mask.',
     [MASK], [('SkyMask.apply', MASK), ('BALMask.apply, check_catalog',
                                        MASK)])
prop('C09', 'DLAs are masked or corrected in their own quasar only',
     'For a quasar that has DLAs in the DLA catalog, pixels blueward of its '
     'Lya line are zeroed where the combined Lya and Lyb transmission of all '
     'its DLAs is below the limit and otherwise divided by it (inverse '
     'variance multiplied by its square). Pixels redward of Lya and quasars '
     'without DLAs are unchanged. The catalog may name the redshift column '
     'either way, the dedicated one taking precedence.',
     ['inputs'], 'all target ids, mask limits, quasar redshifts, fluxes',
     'No test covers DLA masking.',
     [MASK], [('DLAMask.apply, get_all_dlas, _read_catalog', MASK)])
prop('C10', 'Calibration scales each forest pixel by the calibration file',
     'Noise calibration divides the inverse variance of every forest pixel '
     'by eta (zero entries count as one) or, in additive mode, by eta plus '
     'inverse variance times var_lss times continuum squared, negative '
     'results becoming zero; it never touches the flux. Flux calibration '
     'divides the flux by the linearly interpolated stacked flux (zero '
     'entries count as one) and multiplies the inverse variance by its '
     'square. Unequally spaced tables, and additive mode without continua, '
     'are refused.',
     ['inputs', 'configurations'],
     'all table values, fluxes, inverse variances, continua',
     'Tests use constant tables.',
     [CAL], [('NoiseCalibrator', CAL), ('FluxCalibrator', CAL)])
prop('C11', 'Forest weights and continuum chi2 follow the noise model',
     'With a valid continuum the weight of a forest pixel is i / (eta + i '
     'var_lss C^2), where i is its (smoothed) inverse variance; without one '
     'it is the inverse variance itself. Weights are never negative and '
     'masked pixels have none. The continuum chi2 is the weighted sum of '
     'squared residuals over all arms, and -1 without a valid continuum.',
     ['inputs'], 'all fluxes, inverse variances, continua, var_lss and eta',
     'Tests check constant inputs.',
     [S], [('set_forest_weight, calc_continuum_chi2', S)])
prop('C12', 'Coadding arms gives the weighted mean at each wavelength',
     'Coadding the arms of a spectrum puts all of them on one uniform grid '
     'that covers them, where flux (and resolution) is the weighted mean of '
     'the arms observed at that wavelength and the inverse variance is the '
     'propagated one. Pixels without data have zero flux, inverse variance '
     'and weight and no undefined values. The continuum is carried over and '
     'weights and mean SNR are recomputed.',
     ['inputs'], 'all fluxes, inverse variances (zeros included), overlaps',
     'Tests coadd identical constant arms.',
     [S], [('simple_coadd, coadd_arms_forest', S)])
prop('C13', 'Coadding deltas averages every quasar once, by weight',
     'Coadding two deltas of a quasar gives, per wavelength, the weighted '
     'mean delta, continuum and resolution, the propagated inverse variance, '
     'and a weight with the same intrinsic variance; masked pixels '
     'contribute nothing. The coadd program writes every quasar found in the '
     'input directories exactly once, into the file of its healpix pixel, '
     'and fails if there are no input files.',
     ['inputs', 'histories'],
     'all deltas, inverse variances, overlaps; all target ids in the files',
     'No test covers delta coaddition.',
     [S, COADD], [('Delta.coadd', S), ('read_dirs_to_dict, main', COADD)])

prop('C14', 'Fast interpolators equal the interpolants they stand for',
     'The one-dimensional interpolators give, at any point, the linear '
     'interpolation of their table or the not-a-knot or natural cubic '
     'spline through their table (both extended outside it by their first '
     'and last pieces), for any number of points from two on and also after '
     'the table is reset; the table itself is not modified. Unknown boundary '
     'conditions are refused. The polynomial helper evaluates the power '
     'series of its coefficients in increasing order.',
     ['inputs', 'configurations'],
     'all table values, table sizes within bounds and evaluation points',
     'Tests compare a few random tables.',
     [MATH], [('FastLinear1DInterp, FastCubic1DInterp', MATH)])
prop('C15', 'Subsampled means, jackknife errors and covariances are right',
     'SubsampleCov puts consecutive measurements into subsamples in turn; '
     'its mean is the weighted mean of all measurements, its variance and '
     'covariance are those of the delete-one jackknife, for one or several '
     'sets of values, in whatever order mean, variance and covariance are '
     'asked for, after a reset, and identically on every rank after reducing '
     'over MPI ranks.',
     ['inputs', 'histories', 'configurations'],
     'all measurements, weights, start indices, orders of calls, ranks',
     'Tests use one random set of measurements and call order.',
     [MATH], [('SubsampleCov', MATH)])
prop('C16', 'Smoothed inverse variance respects masks, mean and scale',
     'Gaussian smoothing is linear, keeps constants, treats the spectrum and '
     'its mirror image alike and is a Gaussian of the given width. Smoothing '
     'the inverse variance smooths the error of all pixels, with masked '
     'pixels and outliers (errors above the median by more than esigma '
     'scaled MADs) replaced by the median error of unmasked pixels; masked '
     'pixels stay at zero, outliers keep their own value, and the inverse '
     'variance smoothed is itself not modified. A spectrum smooths every arm '
     'with its scale in Angstrom over the pixel size, uses the smoothed '
     'values as weights, and undoes smoothing for a non-positive scale.',
     ['inputs', 'configurations'],
     'all errors, masks, smoothing scales and arms',
     'No test covers smoothing with masks.',
     [MATH, S], [('fft_gaussian_smooth, get_smooth_ivar', MATH),
                 ('set_smooth_forestivar', S)])
prop('C17', 'Variance statistics use every good pixel once, per bin',
     'The variance fitter adds every pixel with positive inverse variance '
     'within its wavelength and noise range to exactly one bin, of its own '
     'wavelength and pipeline variance, over all ranks; its reported means, '
     'variances of delta, errors and counts are those of the pixels in the '
     'bin, also after a reset; in every wavelength bin the fit uses exactly '
     'the noise bins with enough pixels and quasars (half the numbers if '
     'fewer than five remain), failed wavelength bins are zero and too many '
     'of them are an error, and the statistics written to file are the ones '
     'computed.',
     ['inputs', 'configurations'],
     'all wavelengths, deltas, inverse variances, ranks and bin populations',
     'No test covers the variance fitter.',
     [PIC], [('VarLSSFitter', PIC)])
prop('C18', 'Stacked fluxes are weighted means over all spectra and ranks',
     'Stacking adds every pixel of every valid spectrum of every rank once, '
     'into the bin of its observed and of its rest-frame wavelength, and '
     'gives in every bin the weighted mean and the weight (its error in the '
     'rest frame); every rank sees the same stack, bins without weight are '
     'zero, and a reset forgets everything.',
     ['inputs', 'configurations', 'histories'],
     'all wavelengths, fluxes, continua, weights, validity flags and ranks',
     'No test covers stacking.',
     [PIC, CM], [('FluxStacker', PIC), ('stack_spectra', CM)])
prop('C19', 'A continuum is the model asked for, or marked invalid',
     'Whatever the minimiser returns, a continuum fit ends either invalid '
     '(not converged, or a negative continuum: no continuum, chi2 of -1, '
     'left out of later steps) or with the continuum of its parameters times '
     'the mean flux in every arm, weights and chi2 of that continuum, and '
     'the returned parameters and covariance. The minimised cost is chi2 '
     'plus the log determinant of the variance over unmasked pixels. True '
     'and input continua are the splines of their own quasar (matched by '
     'TARGETID) times the mean flux; a non-positive, undefined or missing '
     'input continuum is invalid. No valid fit on any rank is an error on '
     'every rank.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all minimiser outcomes, parameters, fluxes, variances, tables, target '
     'ids and ranks',
     'No test runs a continuum model.',
     [CM, PIC], [('PiccaContinuumModel', CM), ('InputContinuumModel', CM),
                 ('TrueContinuumModel', CM), ('fit_continua', PIC)])

prop('C20', 'Delta files hold exactly the deltas of the valid spectra',
     'Every valid spectrum is saved exactly once per non-empty arm, in the '
     'file of its healpix pixel (or of its rank for MPI-rank output), with '
     'its wavelength, delta = flux/continuum - 1, inverse variance scaled by '
     'the continuum squared, weight, continuum, resolution matrix and '
     'identification; masked pixels have zero inverse variance and weight; '
     'invalid spectra are not saved; arms without signal are skipped; '
     'every delta file written can be opened and read back to the same '
     'values, from any of the alternative column and key names, and files '
     'lacking a needed column or key are refused.',
     ['inputs', 'configurations', 'histories'],
     'all fluxes, continua, inverse variances, weights, validity flags, '
     'pixels and ids',
     'No test writes or reads a delta file.',
     [IO, S, MATH], [('save_deltas', IO), ('Spectrum.write', S), ('Delta', S)])
prop('C21', 'Blinding follows the newest night; bad options are refused',
     'Data are blinded if and only if they are not mocks, are not taken in a '
     'side band and contain a night later than the first blinded one, with '
     'the strategy of the newest night, and blinded data are only ever '
     'written under the blinded column name. Inconsistent command line '
     'options are refused; consistent ones are accepted unchanged, and every '
     'rank works with the same parsed options or stops.',
     ['inputs', 'configurations'],
     'all nights, forest limits and combinations of options and ranks',
     'The combinations of nights, bands and options are too many for tests.',
     [S, FIT, MPI], [('set_blinding, _set_fits_dtype', S),
                     ('args_logic_fnc_qsonic_fit', FIT), ('mpi_parse', MPI)])
prop('C22', 'Exactly the spectra passing the cuts are analysed',
     'A quasar is kept if and only if its red-side SNR passes the limit, it '
     'has unmasked forest pixels in the analysed range, more of them remain '
     'after masking than the given fraction of the forest (no such cut for '
     'a fraction of zero), and its forest SNR passes the limit; arms that '
     'are fully masked or too short are dropped and all per-arm quantities '
     'stay of one length; no kept spectrum has pixels outside the observed '
     'and rest-frame wavelength limits. The outcome of a quasar does not '
     'depend on the other quasars or on the number of ranks.',
     ['inputs', 'configurations'],
     'all fluxes, masks, SNR limits, length ratios, wavelength limits',
     'No test runs the selection.',
     [FIT, S], [('mpi_read_spectra_local_queue, mpi_noise_flux_calibrate, '
                 'apply_masks, remove_short_spectra', FIT),
                ('drop_short_arms, slice, mean_rsnr', S)])

prop('C23', 'qsonic-calib uses each kept delta of each file exactly once',
     'On any number of ranks every delta file is read by exactly one rank and '
     'every delta in it enters the statistics exactly once, except those '
     'whose TARGETID is in the removal list, whose forest SNR is not '
     'strictly between the limits, that belong to another survey in the '
     'catalog when surveys are selected, or that are BAL quasars there when '
     'those are to be removed. The stacked flux of a wavelength '
     'bin is the weighted mean of 1 + delta of the unmasked pixels in that '
     'bin, at the wavelength of the bin, and the variance statistics are of '
     'exactly these pixels. Ranks without deltas change nothing.',
     ['inputs', 'configurations'],
     'all numbers of files and ranks, ids, SNRs, deltas and weights',
     'No test runs qsonic-calib.',
     [CALIB, S], [('mpi_read_all_deltas, mpi_stack_fluxes, mpi_run_all',
                   CALIB)])
prop('C24', 'Exposures read after fitting get their own quasar\'s continuum',
     'When exposures are read after continuum fitting, every exposure of '
     'every quasar with a valid continuum is taken exactly once, with its own '
     'flux, inverse variance and identification and the continuum of the same '
     'quasar at the same wavelength; arms without a continuum are dropped; '
     'exposures failing the SNR limit, and quasars without a valid fit, do '
     'not appear. This does not depend on the order of targets, surveys '
     'within a pixel, or on the number of ranks, also if a rank has none.',
     ['inputs', 'configurations'],
     'all fluxes, continua, masks, orders of ids, surveys and ranks',
     'No test reads exposures after a fit.',
     [FIT, S, IO], [('mpi_read_exposures_after', FIT),
                    ('Spectrum.slice, drop_arm', S)])
prop('C25', 'A whole qsonic-fit run saves every selected quasar correctly',
     'Running qsonic-fit on a catalog and its spectra saves every selected '
     'quasar exactly once, with the deltas, inverse variances, weights and '
     'continua of its own spectrum after the requested masks, calibrations, '
     'additive noise, fiducials and coadding, from pixel, tile or exposure '
     'files; no quasar with a long enough forest is lost to the redshift cut '
     'of the catalog; the result is the same for any number of ranks, also with '
     'more ranks than pixels. The blinding strategy is that of the newest '
     'night of all quasars on all ranks, the continuum catalog lists every '
     'fitted quasar once, and a given fiducial var_lss is the one used in '
     'the weights.',
     ['inputs', 'configurations', 'schedules'],
     'all fluxes, nights, pixel placements and rank layouts',
     'No test runs the pipeline end to end, and none with several ranks.',
     [FIT, IO, S, PIC], [('mpi_run_all', FIT), ('save_deltas', IO)])
prop('C26', 'Global functions are those of the fiducial files and the stacks',
     'Fiducial mean flux and var_lss evaluate to the values of their file at '
     'its wavelengths on every rank, bad files are refused on every rank, and '
     'without one they are one and the initial guess. Each iteration '
     'multiplies or replaces the mean continuum by the smoothed stack, with '
     'Legendre tilts removed and a mean of one, empty bins filled by the mean '
     'and ten times the mean error; all ranks get the same. Iterations stop '
     'exactly when the update is converged or at the limit; the variance is '
     'fitted to all valid spectra in between, and each iteration\'s '
     'functions, as used, are saved.',
     ['inputs', 'configurations', 'histories'],
     'all stacked fluxes, file values, options and rank layouts',
     'No test runs the continuum iterations.',
     [PIC], [('PiccaContinuumFitter', PIC)])
prop('C27', 'The chi2 catalog describes every fitted quasar of every rank',
     'The continuum catalog written after a run has one row per quasar of all '
     'ranks, valid or not, each with its own redshift, pixel, rank, arms and '
     'their mean SNR, RSNR, validity, chi2, degrees of freedom, continuum '
     'parameters and covariance; it replaces one of an earlier run, and is '
     'not written without an output folder.',
     ['inputs', 'configurations', 'schedules'],
     'all fit results, validities and rank layouts',
     'No test writes this catalog.',
     [PIC], [('PiccaContinuumFitter.save_contchi2_catalog', PIC)])
prop('N01', 'The fitted continuum minimises the cost function',
     'The continuum parameters stored for a valid quasar are those at the '
     'global minimum of the documented cost function, and the stored '
     'covariance is its inverse curvature there.',
     ['inputs'], 'all spectra', 'Tests do not fit continua.',
     [CM + 'picca_continuum_model.py'],
     [('PiccaContinuumModel', CM + 'picca_continuum_model.py')])
prop('N02', 'The fitted var_lss and eta minimise the variance model chi2',
     'The var_lss and eta of each wavelength bin are those that minimise the '
     'chi2 of the variance model over its domain.',
     ['inputs'], 'all variance statistics', 'Tests do not fit variances.',
     [PIC], [('VarLSSFitter.fit', PIC)])
prop('N03', 'Missing pixel numbers are the HEALPix pixels of the positions',
     'If a catalog has no pixel column, the pixel assigned to a quasar is the '
     'nested HEALPix pixel of its right ascension and declination.',
     ['inputs'], 'all positions', 'Tests sample no positions.',
     [CAT], [('_add_healpix', CAT)])

NA = [
    ('N01', 'the minimum is found by the compiled code of iminuit or scipy '
            '(floating point iterations), which cannot be encoded; what is '
            'minimised and what is done with the result is decided in C19'),
    ('N02', 'curve_fit is a floating point iteration in compiled code; what '
            'is fitted, with which errors, model and domain, and what is '
            'done with the result is decided in C17'),
    ('N03', 'healpy.ang2pix is compiled trigonometric code; that its result '
            'for each row is what is used is decided in C02 and C19'),
]
