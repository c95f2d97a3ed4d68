"""Writes DESIGN.md: tools/design_head.md, one section per property (text
here, bounds from the harnesses), tools/design_tail.md."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P, NA  # noqa: E402

HOW = {
 'C01': ('balance_load over symbolic group sizes; mpi_get_local_queue over '
         'catalogs with symbolic pixels or tiles, run once per rank',
         'the union of the queues is the catalog as a multiset and no pixel '
         'or tile is in two queues; the load of the fullest rank is within '
         'one group of the emptiest'),
 'C02': ('read_quasar_catalog on a symbolic FITS table; every comparison of '
         'the selection and of the sort is a solver branch',
         'a row is returned iff its redshift and survey are selected; rows '
         'are ordered by pixel/tile, survey/petal, TARGETID; columns of a '
         'row stay together'),
 'C03': ('read_quasar_catalog with symbolic presence of each alternative '
         'column and symbolic ids',
         'accepted iff every required set has a member and ids are distinct '
         '(per tile for tiles)'),
 'C04': ('mpi_fnc_bcast, mpi_parse, the catalog, calibration and DLA readers '
         'and both main functions under the SPMD scheduler with a symbolic '
         'failure of the master',
         'same value on all ranks, or an exception on all; a rank waiting '
         'for a collective the others never call is a violation (deadlock)'),
 'C05': ('all readers of qsonic.io on FITS files with symbolic TARGETID '
         'columns (missing, foreign, reordered, repeated rows)',
         'each spectrum holds the pixels of a row with its own TARGETID; one '
         'spectrum per matching row'),
 'C06': ('Spectrum construction from symbolic flux, ivar, mask bits, NaN',
         'bad pixels get zero flux and ivar (and zero resolution), others '
         'are copied; the caller\'s arrays are untouched'),
 'C07': ('set_forest_region, remove_nonforest_pixels with symbolic limits and '
         'redshift; searchsorted is encoded as comparisons',
         'exactly the pixels inside both ranges; SNRs and initial amplitude '
         'recomputed from first principles'),
 'C08': ('SkyMask and BALMask with symbolic limits, velocities, redshift',
         'ivar and flux zero exactly in [lo, hi) of OBS/RF rows, or of the '
         'velocity ranges of each BAL line'),
 'C09': ('DLAMask with symbolic TARGETIDs, limit, flux and ivar; the profile '
         'itself is evaluated concretely per absorber',
         'own TARGETID only; masked iff transmission below the limit, else '
         'flux divided by it and ivar multiplied by its square'),
 'C10': ('Noise and FluxCalibrator through MPI from symbolic tables',
         'ivar/eta(+var_lss), flux/stack, ivar*stack^2; zeros mean one; '
         'unequal spacing refused'),
 'C11': ('set_forest_weight and calc_continuum_chi2, all quantities symbolic',
         'w (eta + ivar var_lss C^2) = ivar; chi2 = sum w (f - C)^2'),
 'C12': ('coadd_arms_forest and simple_coadd with symbolic pixels, five '
         'overlap patterns',
         'weighted mean and variance per common wavelength, gaps empty, '
         'resolution averaged with the same weights'),
 'C13': ('Delta, coadd and the whole coadd script, symbolic deltas',
         'per wavelength weighted mean and variance; one entry per quasar '
         'in the file of its pixel; files of an earlier run replaced'),
 'C14': ('FastLinear1DInterp and FastCubic1DInterp with symbolic tables and '
         'evaluation point',
         'exact rational spline coefficients (symx/ratfun), natural and '
         'not-a-knot, continued by the end cells'),
 'C15': ('SubsampleCov, SubsampleVar, block means with symbolic values',
         'mean and delete-one jackknife from the definition; ranks add up'),
 'C16': ('fft_gaussian_smooth is exactly linear: its matrix is extracted and '
         'compared; get_smooth_ivar with symbolic errors and masks',
         'median/outlier rules, smoothing of the rest, masked stay masked'),
 'C17': ('VarLSSFitter add/calculate/fit/write; searchsorted and bincount '
         'encoded; curve_fit and UnivariateSpline replaced by recorders',
         'statistics per bin from the definition; which bins enter a fit, '
         'with which errors or covariance, model and domain; failures'),
 'C18': ('FluxStacker and stack_spectra of every model',
         'weighted mean per observed and rest-frame bin over valid spectra '
         'of all ranks'),
 'C19': ('the three continuum models with a minimiser returning any result',
         'continuum, chi2, validity and cost function from the definition; '
         'input continua matched by TARGETID and file'),
 'C20': ('save_deltas, Spectrum.write, read_deltas, Delta.write round trip',
         'every column and header key; names of extensions and files'),
 'C21': ('set_blinding and the option logic with a symbolic night and all '
         'option combinations', 'table of strategies; refused combinations'),
 'C22': ('the selection part of qsonic-fit (reading, cuts, slicing)',
         'a spectrum is kept iff its recomputed SNRs and length pass'),
 'C23': ('qsonic-calib: files per rank, removal, stacking, whole script',
         'every file read once; kept iff not removed and within SNR limits; '
         'statistics of the kept deltas'),
 'C24': ('mpi_read_exposures_after with symbolic continua and exposures',
         'each exposure gets the continuum of its quasar at its own '
         'wavelengths'),
 'C25': ('qsonic-fit.mpi_run_all from files to files under the SPMD '
         'scheduler', 'deltas, noise, weights and selection from the inputs'),
 'C26': ('PiccaContinuumFitter: fiducials, mean continuum, iterations; '
         'splines of the projection are exact rational functions',
         'values of the files; projected, normalised stack; convergence'),
 'C27': ('save_contchi2_catalog on several ranks', 'one row per quasar with '
         'its own values'),
}
out = open(HERE + '/design_head.md').read()
na = dict(NA)
for p in P:
    i = p['id']
    out += f"\n### {i} {p['title']}\n\n"
    if i in na:
        out += f"Not applicable: {na[i]}\n"
        continue
    ns = {}
    for n in ast.parse(open(f'{ROOT}/harness/{i.lower()}.py').read()).body:
        if isinstance(n, ast.Assign) and getattr(
                n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE'):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    how, oracle = HOW[i]
    out += f"* Executed symbolically: {how}.\n* Oracle: {oracle}.\n"
    out += f"* Bounds (quick): {ns['BOUNDS']['quick']}.\n"
    if ns['BOUNDS']['thorough'] != 'same':
        out += f"* Thorough adds: {ns['BOUNDS']['thorough']}.\n"
    out += f"* Outside: {ns.get('OUTSIDE', '-')}.\n"
    out += f"* Why not tests: {p['why_tests_cant']}\n"
tail = open(HERE + '/design_tail.md').read()
rows = []
for k in json.load(open(ROOT + '/known_findings.json')):
    if k['status'] == 'fixed':
        w = k['what'].split(' ', 3)
        rows.append(f"| {k['id']} | {k['property']} | {w[2]} | {w[3]} |")
tail = tail.replace('FIXED_TABLE', '\n'.join(rows))
rows = ['| bug | caught by | what it breaks |', '|---|---|---|']
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
out += tail.replace('SEED_TABLE', '\n'.join(rows))
open(ROOT + '/DESIGN.md', 'w').write(out)
