From fef5edbc3f7785d23a1fb3f565999d93280e0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:02 +0000
Subject: [PATCH 01/22] fix: sort catalogs by SURVEY also when all surveys are
 kept

Readers split the sorted catalog at survey changes, so with keep_surveys=None
quasars of one survey were looked up in the files of another.
---
 py/qsonic/catalog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index cec749a..51dd557 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -379,11 +379,13 @@ def _prime_catalog(
     if 'SURVEY' in colnames and keep_surveys is not None:
         w = np.isin(catalog["SURVEY"], keep_surveys)
         catalog = catalog[w]
-        if len(keep_surveys) > 1 and not is_tile:
-            sort_order.insert(1, 'SURVEY')
         logging.info(
             f"There are {w.sum()} quasars in given surveys {keep_surveys}.")
 
+    # Readers split the catalog by survey
+    if 'SURVEY' in colnames and not is_tile:
+        sort_order.insert(1, 'SURVEY')
+
     if catalog.size == 0:
         raise Exception("Empty quasar catalogue.")
 
-- 
2.43.0


From 51d3293d29e93de14fcf3293ab7b40e7466463a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:05 +0000
Subject: [PATCH 02/22] fix: read Z_DLA deterministically when a DLA catalog
 also has Z

---
 py/qsonic/masks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index f6faa2c..64b8897 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -388,11 +388,12 @@ class DLAMask():
         catalog: :external+numpy:py:class:`ndarray <numpy.ndarray>`
             DLA catalog.
         """
-        z_colname = DLAMask.accepted_zcolnames[0]
         fts = fitsio.FITS(fname)
 
         fts_colnames = set(fts["DLACAT"].get_colnames())
-        z_colname = fts_colnames.intersection(DLAMask.accepted_zcolnames)
+        # Earlier names in accepted_zcolnames take precedence
+        z_colname = [name for name in DLAMask.accepted_zcolnames
+                     if name in fts_colnames]
 
         if not z_colname:
             fts.close()
@@ -400,7 +401,7 @@ class DLAMask():
                 "DLA mask error::Z colname has to be one of "
                 f"{', '.join(DLAMask.accepted_zcolnames)}")
 
-        z_colname = z_colname.pop()
+        z_colname = z_colname[0]
         columns_list = ["TARGETID", z_colname, "NHI"]
         catalog = fts['DLACAT'].read(columns=columns_list)
 
-- 
2.43.0


From a044c9f2c69b1e8541d065d8d3085a36d8353d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:19 +0000
Subject: [PATCH 03/22] fix: do not leave uninitialised continuum in gaps
 between coadded arms

---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c2d65ba..ebf4e92 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -638,7 +638,7 @@ class Spectrum():
         self._forestivar = {'brz': coadd_ivar}
 
         if self.cont_params['cont']:
-            coadd_cont = np.empty(nwaves)
+            coadd_cont = np.zeros(nwaves)
 
             for arm, idx in idxes.items():
                 # continuum needs not weighting
-- 
2.43.0


From f158bcb4125631c8911b7e338a4315f5cfe95ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:49 +0000
Subject: [PATCH 04/22] fix: masked pixels do not add intrinsic variance when
 coadding deltas

---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index ebf4e92..9719f55 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1019,7 +1019,7 @@ class Delta():
             coadd_delta[idx] += obj.weight * obj.delta
             coadd_cont[idx] += obj.weight * obj.cont
             coadd_ivar[idx] += obj.weight**2 * var
-            coadd_lss[idx] += 1 - obj.weight * var
+            coadd_lss[idx] += w - obj.weight * var
             coadd_norm[idx] += obj.weight
 
         w = coadd_norm > 0
-- 
2.43.0


From 130e58d64d385a499b2adb75558ccccbd059b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:04 +0000
Subject: [PATCH 05/22] fix: match resolution matrices read later to their own
 quasar

---
 py/qsonic/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 46e5a6f..a5d2bb6 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -481,8 +481,8 @@ def _read_onehealpix_file_onlyreso(
     for arm in arms_to_keep:
         imhdu = fitsfile[f'{arm}_RESOLUTION']
 
-        for jj, spec in zip(idx_fbr, spectra_list):
-            # assert (common_targetids[jj] == spec.targetid)
+        for jj, kk in zip(idx_fbr, idx_cat):
+            spec = spectra_list[kk]
 
             if arm not in spec.forestwave.keys():
                 continue
-- 
2.43.0


From 703312b2e10523972db7cd109a8e0cb08f9debda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:15 +0000
Subject: [PATCH 06/22] fix: not-a-knot splines of fewer than four points

---
 py/qsonic/mathtools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 53b7ec3..1ec6a9a 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -105,6 +105,14 @@ def _spline_cubic_notaknot(fp, dxp):
     """
     N = fp.size
     y2p = np.empty(N)
+
+    # Too few points: a line or a parabola
+    if N < 4:
+        y2p[:] = 0
+        if N == 3:
+            y2p[:] = (fp[0] - 2 * fp[1] + fp[2]) / dxp**2
+        return y2p
+
     # Solve the submatrix 1:-1 using precalculated u and p values
     u = np.array([
         6.000000000000000000e+00, 4.000000000000000000e+00,
-- 
2.43.0


From 85ca0a912b3b37cf0064e9f90b5d2f9eadf4dbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:15 +0000
Subject: [PATCH 07/22] fix: SubsampleCov covariance after get_mean

---
 py/qsonic/mathtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 1ec6a9a..5cafcd5 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -650,7 +650,7 @@ class SubsampleCov():
         cov: list(:class:`ndarray <numpy.ndarray>`)
             Covariances of the mean.
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
@@ -693,7 +693,7 @@ class SubsampleCov():
         var_xvec: :class:`ndarray <numpy.ndarray>`
             Variance of the mean. 1D array
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
-- 
2.43.0


From 198a0156c3a66d04a8df347029bacb33728fa045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 08/22] fix: delta files without deltas stay readable

---
 py/qsonic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index a5d2bb6..cade1cf 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -268,6 +268,8 @@ def save_deltas(
     for healpix, hp_specs in zip(unique_pix, split_spectra):
         results = fitsio.FITS(
             f"{outdir}/delta-{healpix}.fits", 'rw', clobber=True)
+        # Empty primary HDU keeps the file readable if there are no deltas
+        results.write(None)
 
         for spec in qsonic.spectrum.valid_spectra(hp_specs):
             spec.write(results)
-- 
2.43.0


From a66dca3e6583b84a95a961c834a280c50a85e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 09/22] fix: slice aliased forest dictionaries only once

---
 py/qsonic/spectrum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 9719f55..215de37 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -291,8 +291,12 @@ class Spectrum():
         self._forestwave[arm] = self._forestwave[arm][i1:i2]
         self._forestflux[arm] = self._forestflux[arm][i1:i2]
         self._forestivar[arm] = self._forestivar[arm][i1:i2]
-        self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
-        self._forestweight[arm] = self._forestweight[arm][i1:i2]
+        # These can be the same dictionary as _forestivar
+        if self._forestivar_sm is not self._forestivar:
+            self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
+        if (self._forestweight is not self._forestivar
+                and self._forestweight is not self._forestivar_sm):
+            self._forestweight[arm] = self._forestweight[arm][i1:i2]
 
         if arm in self._forestreso:
             self._forestreso[arm] = self._forestreso[arm][:, i1:i2]
-- 
2.43.0


From 73cf0cd7ae3d1bd85b9a4165eaeb659d970aba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 10/22] fix: qsonic-calib reads all delta files when ranks do
 not divide them

---
 py/qsonic/scripts/qsonic_calib.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 1cf9374..d1a2a50 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -160,9 +160,8 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
         warnings.warn(
             "There are more MPI processes then number of delta files.")
 
-    nfiles_per_rank = max(1, ndelta_all // mpi_size)
-    i1 = nfiles_per_rank * mpi_rank
-    i2 = min(ndelta_all, i1 + nfiles_per_rank)
+    i1 = (ndelta_all * mpi_rank) // mpi_size
+    i2 = (ndelta_all * (mpi_rank + 1)) // mpi_size
     files_this_rank = all_delta_files[i1:i2]
 
     deltas_list = [qsonic.io.read_deltas(fname) for fname in files_this_rank]
-- 
2.43.0


From 96f4c3d81291dc3d1bc2f1f3f9c91c5bdc7201b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 11/22] fix: accept a list of a single TARGETID to remove

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index d1a2a50..bc2f9e0 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -116,7 +116,7 @@ def mpi_set_targetid_list_to_remove(args, comm=None, mpi_rank=0):
         ids_to_remove = mpi_fnc_bcast(
             np.loadtxt, comm, mpi_rank,
             "Error while reading remove_targetid_list.",
-            args.remove_targetid_list, dtype=int)
+            args.remove_targetid_list, dtype=int, ndmin=1)
 
     if args.catalog:
         catalog = qsonic.catalog.mpi_read_quasar_catalog(
-- 
2.43.0


From a0f9d31fb6b8f9cf2be01dbad0ace11b2e5663ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:02 +0000
Subject: [PATCH 12/22] fix: wavelengths of stacked fluxes match their bins

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index bc2f9e0..8a62994 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -175,7 +175,7 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 def mpi_stack_fluxes(args, comm, deltas_list):
     dwave = deltas_list[0].header['DELTA_LAMBDA']
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
-    waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
+    waveobs = args.wave1 + dwave * np.arange(nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
     weights = np.zeros(nwaveobs)
 
-- 
2.43.0


From 3e8d2c81a9b5ce8acf671c438b0c72effdcd7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:02 +0000
Subject: [PATCH 13/22] fix: stack fluxes also when some ranks have no deltas

---
 py/qsonic/scripts/qsonic_calib.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 8a62994..b40b496 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -173,7 +173,13 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 
 
 def mpi_stack_fluxes(args, comm, deltas_list):
-    dwave = deltas_list[0].header['DELTA_LAMBDA']
+    # Some ranks may not have any deltas
+    dwaves = comm.allgather([
+        delta.header['DELTA_LAMBDA'] for delta in deltas_list[:1]])
+    dwaves = [x for alist in dwaves for x in alist]
+    if not dwaves:
+        raise QsonicException("No deltas to stack.")
+    dwave = dwaves[0]
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
     waveobs = args.wave1 + dwave * np.arange(nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
-- 
2.43.0


From aec60a5493fe4a2bae82559d5bb618f38d13daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:42 +0000
Subject: [PATCH 14/22] fix: drop arms of exposures without a continuum

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4d7ed37..3b09ee6 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -416,7 +416,7 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
         spec.cont_params = spec_coadd.cont_params.copy()
         spec.cont_params['cont'] = {}
 
-        for arm, wave_arm in spec.forestwave.items():
+        for arm, wave_arm in list(spec.forestwave.items()):
             wave_coadd = spec_coadd.forestwave
             if arm not in wave_coadd:
                 spec.drop_arm(arm)
-- 
2.43.0


From 34ccf2e0123272f6eb508cf79bc123008c9cb01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:42 +0000
Subject: [PATCH 15/22] fix: read exposures of quasars from several surveys in
 one healpix

---
 py/qsonic/scripts/qsonic_fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 3b09ee6..a63b149 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -389,7 +389,10 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     local_catalog = np.hstack([_.catrow for _ in spectra_list])
 
     # local_catalog is not sorted
-    idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
+    sort_order = ['HPXPIXEL', 'TARGETID']
+    if 'SURVEY' in local_catalog.dtype.names:
+        sort_order.insert(1, 'SURVEY')
+    idx_sort = local_catalog.argsort(order=sort_order)
     spectra_list = np.array(spectra_list)[idx_sort]
     local_catalog = local_catalog[idx_sort]
     # assert all(np.arange(idx_sort.size) == idx_sort)
-- 
2.43.0


From 42d2236fbc6c4a178b0e1d9c4b32c17da409abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:42 +0000
Subject: [PATCH 16/22] fix: read exposures after fitting when a rank has no
 valid spectra

---
 py/qsonic/scripts/qsonic_fit.py | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index a63b149..8a464ee 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -386,22 +386,25 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     logging.info("Reading exposures and applying RSNR cut.")
     start_time = time.time()
 
-    local_catalog = np.hstack([_.catrow for _ in spectra_list])
-
-    # local_catalog is not sorted
-    sort_order = ['HPXPIXEL', 'TARGETID']
-    if 'SURVEY' in local_catalog.dtype.names:
-        sort_order.insert(1, 'SURVEY')
-    idx_sort = local_catalog.argsort(order=sort_order)
-    spectra_list = np.array(spectra_list)[idx_sort]
-    local_catalog = local_catalog[idx_sort]
-    # assert all(np.arange(idx_sort.size) == idx_sort)
-    del idx_sort
-
-    # exposures cannot be saved in tile format
-    unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
-    local_queue = np.split(local_catalog, s[1:])
-    del s, unique_pix
+    # This rank may not have any valid spectra
+    local_queue = []
+    if spectra_list:
+        local_catalog = np.hstack([_.catrow for _ in spectra_list])
+
+        # local_catalog is not sorted
+        sort_order = ['HPXPIXEL', 'TARGETID']
+        if 'SURVEY' in local_catalog.dtype.names:
+            sort_order.insert(1, 'SURVEY')
+        idx_sort = local_catalog.argsort(order=sort_order)
+        spectra_list = np.array(spectra_list)[idx_sort]
+        local_catalog = local_catalog[idx_sort]
+        # assert all(np.arange(idx_sort.size) == idx_sort)
+        del idx_sort
+
+        # exposures cannot be saved in tile format
+        unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
+        local_queue = np.split(local_catalog, s[1:])
+        del s, unique_pix
 
     args.exposures = "before"
     if args.coadd_arms != "disable":
-- 
2.43.0


From 2fabefc109022baf4e1428c4ba046ddd6408fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:26 +0000
Subject: [PATCH 17/22] fix: run with ranks that do not have any quasars

---
 py/qsonic/scripts/qsonic_fit.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 8a464ee..6cb1523 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -12,7 +12,7 @@ import qsonic.catalog
 import qsonic.io
 import qsonic.spectrum
 import qsonic.masks
-from qsonic.mpi_utils import mpi_parse
+from qsonic.mpi_utils import mpi_parse, mpi_fnc_bcast
 from qsonic.picca_continuum import (
     PiccaContinuumFitter, add_picca_continuum_parser)
 
@@ -200,7 +200,11 @@ def mpi_read_masks(local_queue, args, comm, mpi_rank):
     # BAL mask
     if args.bal_mask:
         logging.info("Checking BAL mask.")
-        qsonic.masks.BALMask.check_catalog(local_queue[0])
+        # Some ranks may not have any quasars, but the master always does
+        mpi_fnc_bcast(
+            qsonic.masks.BALMask.check_catalog, comm, mpi_rank,
+            "BAL columns are missing in the catalog.",
+            local_queue[0] if local_queue else None)
 
         maskers.append(qsonic.masks.BALMask)
 
@@ -208,7 +212,8 @@ def mpi_read_masks(local_queue, args, comm, mpi_rank):
     if args.dla_mask:
         logging.info("Reading DLA mask.")
         local_targetids = np.concatenate(
-            [cat['TARGETID'] for cat in local_queue])
+            [np.array([], dtype=int)]
+            + [cat['TARGETID'] for cat in local_queue])
 
         # Read catalog
         dlamasker = qsonic.masks.DLAMask(
@@ -475,7 +480,8 @@ def mpi_run_all(comm, mpi_rank, mpi_size):
     if args.mock_analysis:
         maxlastnight = None
     else:
-        maxlastnight = np.max([_['LASTNIGHT'].max() for _ in local_queue])
+        maxlastnight = max(
+            (_['LASTNIGHT'].max() for _ in local_queue), default=0)
         maxlastnight = comm.allreduce(maxlastnight, max)
     qsonic.spectrum.Spectrum.set_blinding(maxlastnight, args)
 
-- 
2.43.0


From 78f26a6e126ca8d716292b99966fb909060dc0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 18/22] fix: read input continua when a rank has no spectra

---
 py/qsonic/continuum_models/input_continuum_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/qsonic/continuum_models/input_continuum_model.py b/py/qsonic/continuum_models/input_continuum_model.py
index 7d0a2ca..a7cee86 100644
--- a/py/qsonic/continuum_models/input_continuum_model.py
+++ b/py/qsonic/continuum_models/input_continuum_model.py
@@ -143,6 +143,10 @@ class InputContinuumModel(BaseContinuumModel):
         spectra_list: list(Spectrum)
             Spectrum objects.
         """
+        # This rank may not have any spectra
+        if len(spectra_list) == 0:
+            return
+
         local_catalog = np.hstack([_.catrow for _ in spectra_list]).copy()
         local_catalog['HPXPIXEL'] = ang2pix(
             self.nside, local_catalog['RA'], local_catalog['DEC'],
-- 
2.43.0


From 8dc9079a0e66253be46b9163eb7af8318cf8eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 19/22] fix: keep fiducial var_lss in weights after the final
 variance fit

---
 py/qsonic/picca_continuum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 5859ec3..aa93a0e 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -574,8 +574,11 @@ class PiccaContinuumFitter():
 
         self.save(fattr)
         if self.varlss_fitter is None:
+            fiducial_interps = self.varlss_interp, self.eta_interp
             self.fit_final_varlss(spectra_list)
             self.save(fattr, '-fit')
+            # Fiducial functions go into weights, not these fits
+            self.varlss_interp, self.eta_interp = fiducial_interps
 
         self.varlss_fitter.write(fattr)
         fattr.close()
-- 
2.43.0


From 746be9adaa2e6c2fe859a10eaa976c4c5473c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:42 +0000
Subject: [PATCH 20/22] fix: read resolution matrices of spectra whose
 nonforest pixels are removed

---
 py/qsonic/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index cade1cf..8e82d77 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -182,7 +182,8 @@ def read_resolution_matrices_onehealpix_data(
     survey_split_cat = np.split(catalog_hpx, s2[1:])
     s2 = np.append(s2, len(spectra_list))
 
-    arms_to_keep = spectra_list[0].wave.keys()
+    # wave of a spectrum is empty if its nonforest pixels are removed
+    arms_to_keep = qsonic.spectrum.Spectrum._wave.keys()
 
     for ii, cat_by_survey in enumerate(survey_split_cat):
         survey = cat_by_survey['SURVEY'][0]
-- 
2.43.0


From 6445d08c917bf869c60958395580e2fd93e18f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:30 +0000
Subject: [PATCH 21/22] fix: no NaN resolution in gaps between coadded arms and
 deltas

---
 py/qsonic/spectrum.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 215de37..cc640b4 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -583,7 +583,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self.reso = {'brz': coadd_reso}
 
         self._current_wave = Spectrum._coadd_wave
@@ -669,7 +670,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self._forestreso = {'brz': coadd_reso}
 
         self.set_smooth_forestivar(self._smoothing_scale)
@@ -995,7 +997,8 @@ class Delta():
             coadd_reso[:, idxes[j]] += weight * obj.reso
             coadd_norm[idxes[j]] += weight
 
-        coadd_reso /= coadd_norm
+        w = coadd_norm > 0
+        coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
     def coadd(self, other, dwave=0.8):
-- 
2.43.0


From a695ac9bd827f81593a51104ad1e10e5044d9881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:36 +0000
Subject: [PATCH 22/22] fix: save RESOMAT only if the resolution matrix is
 present

The column name was appended whenever --skip-resomat was not given, also for
spectra without a RESOLUTION extension (saving then failed), and once more
with every call of set_blinding.
---
 py/qsonic/spectrum.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index cc640b4..3b8b629 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -163,9 +163,6 @@ class Spectrum():
         if Spectrum._blinding != "none":
             Spectrum._fits_colnames[1] = 'DELTA_BLIND'
 
-        if not args.skip_resomat:
-            Spectrum._fits_colnames.append('RESOMAT')
-
     @staticmethod
     def blinding_not_set():
         """bool: ``True`` if blinding is not set."""
@@ -769,12 +766,14 @@ class Spectrum():
             delta[ivar == 0] = 0
 
             cols = [wave_arm, delta, ivar, weight, cont_est]
+            names = Spectrum._fits_colnames.copy()
             if self.forestreso:
+                names.append('RESOMAT')
                 hdr_dict['MEANRESO'] = self.mean_resolution(arm)
                 cols.append(self.forestreso[arm].T.astype('f8'))
 
             fts_file.write(
-                cols, names=Spectrum._fits_colnames, header=hdr_dict,
+                cols, names=names, header=hdr_dict,
                 extname=f"{self.targetid}-{arm}{expid}")
 
     @property
-- 
2.43.0

