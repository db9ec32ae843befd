From a4a03a76ef4aeec76ed0dee532ccd6639b23d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:20 +0000
Subject: [PATCH 01/32] fix: sort the quasar catalog by SURVEY whenever the
 column is present

With keep_surveys=None the catalog was sorted by HPXPIXEL and TARGETID only,
although the documented order is HPXPIXEL, SURVEY, TARGETID. The healpix
readers split each healpix at the first occurrence of every survey, so they
looked for quasars in the wrong survey's file.
---
 py/qsonic/catalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index cec749a..81651b7 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -373,14 +373,15 @@ def _prime_catalog(
         sort_order = ['TILEID', 'PETAL_LOC', 'TARGETID']
     else:
         sort_order = ["HPXPIXEL", 'TARGETID']
+        # Spectra are grouped by SURVEY within a healpix when reading data
+        if 'SURVEY' in colnames:
+            sort_order.insert(1, 'SURVEY')
 
     # Filter all the objects in the catalogue not belonging to the specified
     # surveys.
     if 'SURVEY' in colnames and keep_surveys is not None:
         w = np.isin(catalog["SURVEY"], keep_surveys)
         catalog = catalog[w]
-        if len(keep_surveys) > 1 and not is_tile:
-            sort_order.insert(1, 'SURVEY')
         logging.info(
             f"There are {w.sum()} quasars in given surveys {keep_surveys}.")
 
-- 
2.43.0


From 69c6a8b63b5d4c8da573397ebe7a84a67eff0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:22 +0000
Subject: [PATCH 02/32] fix: let mpi_get_local_queue run without MPI

comm=None is the documented default, but it was used unconditionally.
---
 py/qsonic/catalog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index 81651b7..9edcd42 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -178,7 +178,8 @@ def mpi_get_local_queue(
     else:
         status = False
 
-    status = comm.bcast(status)
+    if comm is not None:
+        status = comm.bcast(status)
     if not status:
         raise QsonicException("Error while reading catalog.")
 
@@ -197,6 +198,9 @@ def mpi_get_local_queue(
     else:
         local_queue = None
 
+    if comm is None:
+        return local_queue[mpi_rank]
+
     return comm.scatter(local_queue)
 
 
-- 
2.43.0


From 1b8f26bf22e30a2bbe033e7647e88823878fa7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:51 +0000
Subject: [PATCH 03/32] fix: report failures of callables without a name in
 mpi_fnc_bcast

functools.partial objects and callable instances have no __name__, so the
error report itself raised AttributeError on the master rank, which left the
other ranks waiting in the broadcast.
---
 py/qsonic/mpi_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/mpi_utils.py b/py/qsonic/mpi_utils.py
index eb0a3c9..1e94e05 100644
--- a/py/qsonic/mpi_utils.py
+++ b/py/qsonic/mpi_utils.py
@@ -95,7 +95,8 @@ def mpi_fnc_bcast(fnc, comm=None, mpi_rank=0, err_msg="", *args, **kwargs):
             result = fnc(*args, **kwargs)
         except Exception as e:
             logging.exception(e)
-            logging.error(f"Error in {fnc.__module__}.{fnc.__name__}.")
+            name = getattr(fnc, "__name__", repr(fnc))
+            logging.error(f"Error in {getattr(fnc, '__module__', '')}.{name}.")
             result = _INVALID_VALUE
 
     if comm is not None:
-- 
2.43.0


From d15b786d4ec16f1d0447f6bca34b653b2139a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:10 +0000
Subject: [PATCH 04/32] fix: slice aliased forest arrays only once in
 Spectrum.slice

forestivar_sm and forestweight point to forestivar until smoothing and
weights are set, so the same array was sliced two or three times.
---
 py/qsonic/spectrum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c2d65ba..1862740 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -290,9 +290,13 @@ class Spectrum():
 
         self._forestwave[arm] = self._forestwave[arm][i1:i2]
         self._forestflux[arm] = self._forestflux[arm][i1:i2]
+        ivar_sm, weight = self._forestivar_sm, self._forestweight
         self._forestivar[arm] = self._forestivar[arm][i1:i2]
-        self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
-        self._forestweight[arm] = self._forestweight[arm][i1:i2]
+        # These can point to the same dictionary. Slice each only once
+        if ivar_sm is not self._forestivar:
+            ivar_sm[arm] = ivar_sm[arm][i1:i2]
+        if weight is not self._forestivar and weight is not ivar_sm:
+            weight[arm] = weight[arm][i1:i2]
 
         if arm in self._forestreso:
             self._forestreso[arm] = self._forestreso[arm][:, i1:i2]
-- 
2.43.0


From 7477904384153427fff23e605598d0834140081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:10 +0000
Subject: [PATCH 05/32] fix: forget arms of a previous forest region in
 set_forest_region

Arms without pixels in the new region kept the data of the old region.
---
 py/qsonic/spectrum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 1862740..288bcd1 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -322,6 +322,11 @@ class Spectrum():
         l1 = max(w1, (1 + self.z_qso) * lya1)
         l2 = min(w2, (1 + self.z_qso) * lya2)
 
+        self._forestwave = {}
+        self._forestflux = {}
+        self._forestivar = {}
+        self._forestreso = {}
+
         for arm, wave_arm in self.wave.items():
             # Slice to forest limits
             ii1, ii2 = np.searchsorted(wave_arm, [l1, l2])
-- 
2.43.0


From bd82ce12b9048953b9e09bbda73f21fc7652d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:27 +0000
Subject: [PATCH 06/32] fix: not-a-knot spline of two or three points

The second derivatives were wrong by a factor of 36 and read uninitialised
memory. Few wavelength bins are reached with short wavelength ranges.
---
 py/qsonic/mathtools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 53b7ec3..7605c2e 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -104,6 +104,13 @@ def _spline_cubic_notaknot(fp, dxp):
         Second derivative array. Same size as ``fp``.
     """
     N = fp.size
+    if N < 4:
+        # One parabola or line passes through all points
+        y2p = np.zeros(N)
+        if N == 3:
+            y2p += (fp[0] - 2 * fp[1] + fp[2]) / dxp**2
+        return y2p
+
     y2p = np.empty(N)
     # Solve the submatrix 1:-1 using precalculated u and p values
     u = np.array([
-- 
2.43.0


From 9574136ee72ae83742db29117f5e23c2b39c3a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:27 +0000
Subject: [PATCH 07/32] fix: SubsampleCov results depended on the order of
 calls

get_mean_n_cov and get_mean_n_var crashed after get_mean, and returned the
mean of an earlier call even if its bias correction was different.
---
 py/qsonic/mathtools.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 7605c2e..c2f953b 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -649,9 +649,8 @@ class SubsampleCov():
         cov: list(:class:`ndarray <numpy.ndarray>`)
             Covariances of the mean.
         """
-        if self.mean is None:
-            mean_xvec = self.get_mean()
-            self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
+        mean_xvec = self.get_mean()
+        self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
         if indices is None:
             indices = range(self.all_measurements.shape[1])
@@ -692,9 +691,8 @@ class SubsampleCov():
         var_xvec: :class:`ndarray <numpy.ndarray>`
             Variance of the mean. 1D array
         """
-        if self.mean is None:
-            mean_xvec = self.get_mean()
-            self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
+        mean_xvec = self.get_mean()
+        self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
         self.variance = (np.einsum('ijk,ijk->jk', self.xdiff, self.xdiff)
                          * (self.nsamples - 1) / self.nsamples)
-- 
2.43.0


From 3b25863ae04e50826f5d871dddd7e9a496abc66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:27 +0000
Subject: [PATCH 08/32] fix: cancellation at the line centre in H_tepper_garcia

Optical depth was off by orders of magnitude, even negative, for wavelengths
at the line centre of a DLA, yielding infinite transmission.
---
 py/qsonic/masks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index f6faa2c..d809458 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -261,7 +261,8 @@ class DLAMask():
         P = u**2 + 1e-12
         Q = 1.5 / P
         R = np.exp(-P)
-        corr = (R**2 * (4 * P**2 + 7 * P + 4 + Q) - Q - 1)
+        # expm1 is needed for Q * (R**2 - 1), since Q is large for small P
+        corr = R**2 * (4 * P**2 + 7 * P + 4) + Q * np.expm1(-2 * P) - 1
         corr *= a / P / sqrt_pi
         return R - corr
 
-- 
2.43.0


From d22ba89ef7973ae498b583a3a12f8a8897e6cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:27 +0000
Subject: [PATCH 09/32] fix: prefer Z_DLA when a DLA catalog also has Z

set.pop picked one of them depending on string hashing, so runs of the same
data could use the quasar redshift for DLAs.
---
 py/qsonic/masks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index d809458..3f9c829 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -401,7 +401,8 @@ class DLAMask():
                 "DLA mask error::Z colname has to be one of "
                 f"{', '.join(DLAMask.accepted_zcolnames)}")
 
-        z_colname = z_colname.pop()
+        z_colname = next(
+            _ for _ in DLAMask.accepted_zcolnames if _ in z_colname)
         columns_list = ["TARGETID", z_colname, "NHI"]
         catalog = fts['DLACAT'].read(columns=columns_list)
 
-- 
2.43.0


From c536901cac97bc69caf210d84c436df620f066b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:53 +0000
Subject: [PATCH 10/32] fix: no NaN resolution in wavelength gaps between
 coadded arms

0/0 in gaps also made the MEANRESO header value NaN.
---
 py/qsonic/spectrum.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 288bcd1..08bab79 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -588,7 +588,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self.reso = {'brz': coadd_reso}
 
         self._current_wave = Spectrum._coadd_wave
@@ -674,7 +675,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self._forestreso = {'brz': coadd_reso}
 
         self.set_smooth_forestivar(self._smoothing_scale)
@@ -1000,7 +1002,8 @@ class Delta():
             coadd_reso[:, idxes[j]] += weight * obj.reso
             coadd_norm[idxes[j]] += weight
 
-        coadd_reso /= coadd_norm
+        w = coadd_norm > 0
+        coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
     def coadd(self, other, dwave=0.8):
-- 
2.43.0


From 94e7b1cd79935b90fe83e9b44d5bf9867d9c5a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:53 +0000
Subject: [PATCH 11/32] fix: uninitialised continuum in wavelength gaps between
 coadded arms

The coadded continuum was read from np.empty where no arm has pixels. It is
interpolated there now, the pixels stay masked.
---
 py/qsonic/spectrum.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 08bab79..342700d 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -648,11 +648,17 @@ class Spectrum():
         self._forestivar = {'brz': coadd_ivar}
 
         if self.cont_params['cont']:
-            coadd_cont = np.empty(nwaves)
+            coadd_cont = np.zeros(nwaves)
+            covered = np.zeros(nwaves, dtype=bool)
 
             for arm, idx in idxes.items():
                 # continuum needs not weighting
                 coadd_cont[idx] = self.cont_params['cont'][arm]
+                covered[idx] = True
+
+            # Gaps between arms are not set above
+            coadd_cont[~covered] = np.interp(
+                coadd_wave[~covered], coadd_wave[covered], coadd_cont[covered])
 
             self.cont_params['cont'] = {'brz': coadd_cont}
 
-- 
2.43.0


From 8d3c1d313e00b8b5605f96dfb9d134b1394a2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:53 +0000
Subject: [PATCH 12/32] fix: masked pixels changed the weights of coadded
 deltas

A pixel with zero weight contributed one to the var_lss sum of Delta.coadd.
---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 342700d..ad2c5f8 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1037,7 +1037,7 @@ class Delta():
             coadd_delta[idx] += obj.weight * obj.delta
             coadd_cont[idx] += obj.weight * obj.cont
             coadd_ivar[idx] += obj.weight**2 * var
-            coadd_lss[idx] += 1 - obj.weight * var
+            coadd_lss[idx] += w * (1 - obj.weight * var)
             coadd_norm[idx] += obj.weight
 
         w = coadd_norm > 0
-- 
2.43.0


From b13361d35085cc2db980861760062238c23b2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:19 +0000
Subject: [PATCH 13/32] fix: read exposures of catalogs with TILEID or
 PETAL_LOC columns

merge_arrays refuses the same column in the catalog and in the fibermap.
---
 py/qsonic/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 46e5a6f..b675267 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -593,9 +593,11 @@ def read_onehealpix_file_data_uncoadd(
 
         new_cat = cat_by_survey[
             np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
+        # Values in fibermap are specific to exposures
+        fbrmap = drop_fields(fbrmap, 'TARGETID', usemask=False)
+        new_cat = drop_fields(new_cat, fbrmap.dtype.names, usemask=False)
         new_cat = merge_arrays(
-            (new_cat, drop_fields(fbrmap, 'TARGETID', usemask=False)),
-            flatten=True, usemask=False
+            (new_cat, fbrmap), flatten=True, usemask=False
         )
 
         spectra_list.extend(
-- 
2.43.0


From 0a61bf0a4938487f37d8863169c45edf39e03063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:13 +0000
Subject: [PATCH 14/32] fix: pair catalog rows with spectra by TARGETID when
 reading

Spectra are read in TARGETID order, but the catalog was only brought to this
order if some quasars were missing. Mock catalogs with a SURVEY column are
sorted by SURVEY first, so quasars were given the spectra of others.
---
 py/qsonic/io.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index b675267..8c92fa9 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -538,8 +538,7 @@ def read_onehealpix_file_data_coadd(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        cat_by_survey = cat_by_survey[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -588,8 +587,7 @@ def read_onehealpix_file_data_uncoadd(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat,
             ['TARGETID', 'PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID', 'TILEID'])
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        cat_by_survey = cat_by_survey[idx_cat]
 
         new_cat = cat_by_survey[
             np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
@@ -649,8 +647,7 @@ def read_onetile_coaddfile_data(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_petal['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_petal.size:
-            cat_by_petal = cat_by_petal[idx_cat]
+        cat_by_petal = cat_by_petal[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -695,8 +692,7 @@ def read_onehealpix_file_mock(
     data, idx_cat, _ = _read_onehealpix_file(
         catalog_hpx['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-    if idx_cat.size != catalog_hpx.size:
-        catalog_hpx = catalog_hpx[idx_cat]
+    catalog_hpx = catalog_hpx[idx_cat]
 
     fspec = f"{input_dir}/{pixnum//100}/{pixnum}/truth-{nside}-{pixnum}.fits"
     if read_true_continuum:
-- 
2.43.0


From c31430623fb63a466fc6a15bd98a03704be56808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:05 +0000
Subject: [PATCH 15/32] fix: delta files without any valid spectrum could not
 be read back

---
 py/qsonic/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 8c92fa9..e47f0dd 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -268,6 +268,9 @@ def save_deltas(
     for healpix, hp_specs in zip(unique_pix, split_spectra):
         results = fitsio.FITS(
             f"{outdir}/delta-{healpix}.fits", 'rw', clobber=True)
+        # Empty primary HDU. Otherwise, the file is not a readable FITS file
+        # when none of the spectra are valid.
+        results.write(None)
 
         for spec in qsonic.spectrum.valid_spectra(hp_specs):
             spec.write(results)
-- 
2.43.0


From 6b0366bf952f2c0fe12dd353500f6e9777f06729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:12 +0000
Subject: [PATCH 16/32] fix: deltas without a resolution matrix could not be
 written

---
 py/qsonic/spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index ad2c5f8..74f2e1f 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -780,12 +780,14 @@ class Spectrum():
             delta[ivar == 0] = 0
 
             cols = [wave_arm, delta, ivar, weight, cont_est]
+            names = Spectrum._fits_colnames[:len(cols)]
             if self.forestreso:
                 hdr_dict['MEANRESO'] = self.mean_resolution(arm)
                 cols.append(self.forestreso[arm].T.astype('f8'))
+                names.append('RESOMAT')
 
             fts_file.write(
-                cols, names=Spectrum._fits_colnames, header=hdr_dict,
+                cols, names=names, header=hdr_dict,
                 extname=f"{self.targetid}-{arm}{expid}")
 
     @property
-- 
2.43.0


From d46843b10977eb8af2d8bcdb3a2308be3af8b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:19 +0000
Subject: [PATCH 17/32] fix: set_blinding kept the column names of a previous
 call

---
 py/qsonic/spectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 74f2e1f..b809cd2 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -160,6 +160,8 @@ class Spectrum():
         else:
             Spectrum._blinding = "desi_y3"
 
+        # Set anew, a previous call must not leave its column names behind
+        Spectrum._fits_colnames[1:] = ['DELTA', 'IVAR', 'WEIGHT', 'CONT']
         if Spectrum._blinding != "none":
             Spectrum._fits_colnames[1] = 'DELTA_BLIND'
 
-- 
2.43.0


From 94754b627a8dac2fe8cf4f7504ece2eac82f0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:58 +0000
Subject: [PATCH 18/32] fix: keep fiducial var_lss in weights after the final
 variance fit

---
 py/qsonic/picca_continuum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 5859ec3..c91e06f 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -574,8 +574,11 @@ class PiccaContinuumFitter():
 
         self.save(fattr)
         if self.varlss_fitter is None:
+            fiducial_interps = (self.varlss_interp, self.eta_interp)
             self.fit_final_varlss(spectra_list)
             self.save(fattr, '-fit')
+            # The fit results do not go into weights
+            self.varlss_interp, self.eta_interp = fiducial_interps
 
         self.varlss_fitter.write(fattr)
         fattr.close()
-- 
2.43.0


From cbcada1ed01f5742f4eab725648bea032217f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:58 +0000
Subject: [PATCH 19/32] fix: normalizing by the stacked flux zeroed continua in
 bins without data

---
 py/qsonic/picca_continuum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index c91e06f..bfd9fb1 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -496,9 +496,16 @@ class PiccaContinuumFitter():
 
         logging.info("Forcing stacked flux to be one.")
 
+        # Stacked flux is zero in bins without data. Leave these as they are.
+        stacked_flux = self.flux_stacker.stacked_flux.copy()
+        stacked_flux[stacked_flux == 0] = 1
+        norm_interp = FastLinear1DInterp(
+            self.flux_stacker.waveobs[0], self.flux_stacker.dwobs,
+            stacked_flux)
+
         for spec in valid_spectra(spectra_list):
             for arm, wave_arm in spec.forestwave.items():
-                spec.cont_params['cont'][arm] *= self.flux_stacker(wave_arm)
+                spec.cont_params['cont'][arm] *= norm_interp(wave_arm)
 
     def _eta_calibate_ivar(self, spectra_list):
         """Divides forest ivar values by eta estimates if ``--eta-calib-ivar``
-- 
2.43.0


From 25a778ec39ee7d7a42e12667f8a5f80e1f450e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:40 +0000
Subject: [PATCH 20/32] fix: a fully masked forest ended the run when short
 spectra are kept

---
 py/qsonic/scripts/qsonic_fit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4d7ed37..0f98133 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -305,9 +305,10 @@ def mpi_read_calibrate_mask_select_spectra(
     spectra_list = remove_short_spectra(
         spectra_list, args.forest_w1, args.forest_w2, args.skip)
 
-    # Remove spectra with respect to forest snr
+    # Remove spectra without any pixels left and with respect to forest snr
     spectra_list = [spec for spec in spectra_list
-                    if spec.get_effective_meansnr() >= args.min_forestsnr]
+                    if spec.forestwave
+                    and spec.get_effective_meansnr() >= args.min_forestsnr]
 
     return spectra_list
 
-- 
2.43.0


From 4e15ecfd51a88793c0522041291176a0a649d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:03 +0000
Subject: [PATCH 21/32] fix: dropping an arm of an exposure changed the
 dictionary being iterated

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 0f98133..c23bf88 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -417,7 +417,7 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
         spec.cont_params = spec_coadd.cont_params.copy()
         spec.cont_params['cont'] = {}
 
-        for arm, wave_arm in spec.forestwave.items():
+        for arm, wave_arm in list(spec.forestwave.items()):
             wave_coadd = spec_coadd.forestwave
             if arm not in wave_coadd:
                 spec.drop_arm(arm)
-- 
2.43.0


From 3ce1cd3935432d2410c47c85701739355d1c2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:03 +0000
Subject: [PATCH 22/32] fix: sort by survey before reading exposures of mixed
 surveys

---
 py/qsonic/scripts/qsonic_fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index c23bf88..f575ce9 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -390,7 +390,10 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     local_catalog = np.hstack([_.catrow for _ in spectra_list])
 
     # local_catalog is not sorted
-    idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
+    sort_order = ['HPXPIXEL', 'SURVEY', 'TARGETID']
+    if 'SURVEY' not in local_catalog.dtype.names:
+        sort_order.remove('SURVEY')
+    idx_sort = local_catalog.argsort(order=sort_order)
     spectra_list = np.array(spectra_list)[idx_sort]
     local_catalog = local_catalog[idx_sort]
     # assert all(np.arange(idx_sort.size) == idx_sort)
-- 
2.43.0


From 245e880e73a070ee4606559d2b05b2c62b12689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:17 +0000
Subject: [PATCH 23/32] fix: a rank without valid spectra could not read
 exposures

---
 py/qsonic/scripts/qsonic_fit.py | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index f575ce9..8d60f65 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -387,22 +387,24 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     logging.info("Reading exposures and applying RSNR cut.")
     start_time = time.time()
 
-    local_catalog = np.hstack([_.catrow for _ in spectra_list])
-
-    # local_catalog is not sorted
-    sort_order = ['HPXPIXEL', 'SURVEY', 'TARGETID']
-    if 'SURVEY' not in local_catalog.dtype.names:
-        sort_order.remove('SURVEY')
-    idx_sort = local_catalog.argsort(order=sort_order)
-    spectra_list = np.array(spectra_list)[idx_sort]
-    local_catalog = local_catalog[idx_sort]
-    # assert all(np.arange(idx_sort.size) == idx_sort)
-    del idx_sort
-
-    # exposures cannot be saved in tile format
-    unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
-    local_queue = np.split(local_catalog, s[1:])
-    del s, unique_pix
+    local_queue = []
+    # All ranks must continue even if they have no valid spectra
+    if spectra_list:
+        local_catalog = np.hstack([_.catrow for _ in spectra_list])
+
+        # local_catalog is not sorted
+        sort_order = ['HPXPIXEL', 'SURVEY', 'TARGETID']
+        if 'SURVEY' not in local_catalog.dtype.names:
+            sort_order.remove('SURVEY')
+        idx_sort = local_catalog.argsort(order=sort_order)
+        spectra_list = np.array(spectra_list)[idx_sort]
+        local_catalog = local_catalog[idx_sort]
+        # assert all(np.arange(idx_sort.size) == idx_sort)
+
+        # exposures cannot be saved in tile format
+        unique_pix, s = np.unique(
+            local_catalog['HPXPIXEL'], return_index=True)
+        local_queue = np.split(local_catalog, s[1:])
 
     args.exposures = "before"
     if args.coadd_arms != "disable":
-- 
2.43.0


From c5cfce99825197d622916ee895577c41475586ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:17 +0000
Subject: [PATCH 24/32] fix: a rank without spectra could not read input
 continua

---
 py/qsonic/continuum_models/input_continuum_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/qsonic/continuum_models/input_continuum_model.py b/py/qsonic/continuum_models/input_continuum_model.py
index 7d0a2ca..ecc31cf 100644
--- a/py/qsonic/continuum_models/input_continuum_model.py
+++ b/py/qsonic/continuum_models/input_continuum_model.py
@@ -143,6 +143,10 @@ class InputContinuumModel(BaseContinuumModel):
         spectra_list: list(Spectrum)
             Spectrum objects.
         """
+        # MPI rank may have no spectra
+        if len(spectra_list) == 0:
+            return
+
         local_catalog = np.hstack([_.catrow for _ in spectra_list]).copy()
         local_catalog['HPXPIXEL'] = ang2pix(
             self.nside, local_catalog['RA'], local_catalog['DEC'],
-- 
2.43.0


From cf0c3c4001e01b902c1c3bb66b8819e4104a755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:52 +0000
Subject: [PATCH 25/32] fix: order of arms depended on the hash seed of the
 process

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 8d60f65..5a0462f 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -58,7 +58,7 @@ def get_parser(add_help=True):
 
 
 def args_logic_fnc_qsonic_fit(args):
-    args.arms = list(set(args.arms))
+    args.arms = sorted(set(args.arms))
     args.true_continuum |= (args.continuum_model == "true")
 
     condition_msg = [
-- 
2.43.0


From 577da398102d10af90480e3f19aa928e2d2d2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:52 +0000
Subject: [PATCH 26/32] fix: nan was accepted as a skip ratio

---
 py/qsonic/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index e47f0dd..957ddfc 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -721,7 +721,7 @@ def _float_range(f1, f2):
             f = float(arg)
         except ValueError:
             raise argparse.ArgumentTypeError("must be a floating point number")
-        if f < f1 or f > f2:
+        if not (f1 <= f <= f2):
             raise argparse.ArgumentTypeError(f"must be in range [{f1}--{f2}]")
         return f
 
-- 
2.43.0


From e3816cb7bb18bf78bc2f5e81ca17ee6a2fda8106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:05 +0000
Subject: [PATCH 27/32] fix: a continuum of zero was accepted as a valid fit

---
 py/qsonic/continuum_models/picca_continuum_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/continuum_models/picca_continuum_model.py b/py/qsonic/continuum_models/picca_continuum_model.py
index 50e148d..5acf4f4 100644
--- a/py/qsonic/continuum_models/picca_continuum_model.py
+++ b/py/qsonic/continuum_models/picca_continuum_model.py
@@ -231,7 +231,7 @@ class PiccaContinuumModel(BaseContinuumModel):
                 cont_est = self.get_continuum_model(
                     result['x'], wave_arm / (1 + spec.z_qso))
 
-                if any(cont_est < 0):
+                if not np.all(cont_est > 0):
                     spec.cont_params['valid'] = False
                     break
 
-- 
2.43.0


From 9caed6a8c2201c52e9e107137b0a8db3f0c3a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:59 +0000
Subject: [PATCH 28/32] fix: a pixel on the upper edge of the forest made
 stacking fail

---
 py/qsonic/picca_continuum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index bfd9fb1..654f760 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -1320,7 +1320,9 @@ class FluxStacker():
         weight: :external+numpy:py:class:`ndarray <numpy.ndarray>`
             Weight array.
         """
+        # Rounding can push the last pixel on the upper edge to the next bin
         wave_indx = ((wave - self.waveobs[0]) / self.dwobs + 0.5).astype(int)
+        wave_indx[wave_indx == self.nwbins] = self.nwbins - 1
 
         self._interp.fp += np.bincount(
             wave_indx, weights=weighted_flux, minlength=self.nwbins)
@@ -1328,6 +1330,7 @@ class FluxStacker():
             wave_indx, weights=weight, minlength=self.nwbins)
 
         wave_indx = ((wave_rf - self.waverf0) / self.dwrf + 0.5).astype(int)
+        wave_indx[wave_indx == self.nwrfbins] = self.nwrfbins - 1
 
         self._interp_rf.fp += np.bincount(
             wave_indx, weights=weighted_cont, minlength=self.nwrfbins)
-- 
2.43.0


From 3daad3e3ace7efa133fb389b4db3113b327777f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:13 +0000
Subject: [PATCH 29/32] fix: stacked flux of qsonic-calib was placed on a
 stretched wavelength grid

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 1cf9374..eddebcd 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -176,7 +176,7 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 def mpi_stack_fluxes(args, comm, deltas_list):
     dwave = deltas_list[0].header['DELTA_LAMBDA']
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
-    waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
+    waveobs = args.wave1 + dwave * np.arange(nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
     weights = np.zeros(nwaveobs)
 
-- 
2.43.0


From 74625cb44f0b53d5bd18f0c931229a3d1b1e6877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:01 +0000
Subject: [PATCH 30/32] fix: a removal list of one TARGETID could not be
 combined with a catalog

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index eddebcd..e045e5b 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -116,7 +116,7 @@ def mpi_set_targetid_list_to_remove(args, comm=None, mpi_rank=0):
         ids_to_remove = mpi_fnc_bcast(
             np.loadtxt, comm, mpi_rank,
             "Error while reading remove_targetid_list.",
-            args.remove_targetid_list, dtype=int)
+            args.remove_targetid_list, dtype=int, ndmin=1)
 
     if args.catalog:
         catalog = qsonic.catalog.mpi_read_quasar_catalog(
-- 
2.43.0


From c99a723ac5cea4a839d9f123136e947491bc6600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:44 +0000
Subject: [PATCH 31/32] fix: a rank without deltas could not stack fluxes in
 qsonic-calib

---
 py/qsonic/scripts/qsonic_calib.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index e045e5b..49308b6 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -174,7 +174,13 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 
 
 def mpi_stack_fluxes(args, comm, deltas_list):
-    dwave = deltas_list[0].header['DELTA_LAMBDA']
+    # This rank may have no deltas
+    dwave = deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else None
+    dwave = [x for x in comm.allgather(dwave) if x is not None]
+    if not dwave:
+        raise QsonicException("There are no deltas to stack.")
+    dwave = dwave[0]
+
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
     waveobs = args.wave1 + dwave * np.arange(nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
-- 
2.43.0


From 2ce324287272b496b44e523fd8a83ad9992bbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:49 +0000
Subject: [PATCH 32/32] fix: qsonic-calib ignored delta files when ranks do not
 divide them

---
 py/qsonic/scripts/qsonic_calib.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 49308b6..f936920 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -160,9 +160,8 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
         warnings.warn(
             "There are more MPI processes then number of delta files.")
 
-    nfiles_per_rank = max(1, ndelta_all // mpi_size)
-    i1 = nfiles_per_rank * mpi_rank
-    i2 = min(ndelta_all, i1 + nfiles_per_rank)
+    i1 = ndelta_all * mpi_rank // mpi_size
+    i2 = ndelta_all * (mpi_rank + 1) // mpi_size
     files_this_rank = all_delta_files[i1:i2]
 
     deltas_list = [qsonic.io.read_deltas(fname) for fname in files_this_rank]
-- 
2.43.0

