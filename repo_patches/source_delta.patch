From 87b6468cd9be4f322aced3ab04a2fa8adfb53ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 01/60] fix: replace numpy aliases removed from numpy (np.int,
 np.float, np.NaN)

---
 misfit/fit/fit_core.py         |  6 ++---
 misfit/fit/fit_io.py           |  2 +-
 misfit/general/galaxy_utils.py | 46 +++++++++++++++++-----------------
 misfit/model/aper_model.py     |  2 +-
 misfit/model/kin_functions.py  |  2 +-
 misfit/plot/plot_bestfit.py    |  2 +-
 misfit/plot/plot_image_slit.py |  8 +++---
 misfit/plot/plot_trace.py      |  4 +--
 8 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1d3016f..fbc399f 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -195,7 +195,7 @@ def run_mcmc(fitEmis2D, fitEmis2D_fit=None):
         and then delete attributes
     """
     print("fitting with emcee version: {}".format(emcee.__version__))
-    if np.int(emcee.__version__[0]) >= 3:
+    if int(emcee.__version__[0]) >= 3:
         fitEmis2D = _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
     else:
         fitEmis2D = _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
@@ -216,7 +216,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
@@ -515,7 +515,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index c73ba99..f95a45e 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -50,7 +50,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
         try:
             acor_time = sampler.get_autocorr_time(self, low=5, c=10)
         except:
-            acor_time = np.NaN
+            acor_time = np.nan
 
     try:
         nDim = sampler.ndim
diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0c95bcd..1669209 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -891,7 +891,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                             args=(xx, sp_arr, err_arr))
 
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         if (m0 > (len(snr_arr) -1)):
             m0_closest = len(snr_arr) -1
         elif (m0 < 0):
@@ -902,8 +902,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0_closest]
         if dither:
-            m1 = np.int(np.round(result.params['mu_l'].value))
-            m2 = np.int(np.round(result.params['mu_r'].value))
+            m1 = int(np.round(result.params['mu_l'].value))
+            m2 = int(np.round(result.params['mu_r'].value))
 
         if debug:
             print(ypos)
@@ -931,9 +931,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
             sp_ind_neg2 = m2
 
             diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-            cut = np.int(np.ceil(diff/2.))
+            cut = int(np.ceil(diff/2.))
         else:
-            cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+            cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
         m_min = m0 - cut
         m_max = m0 + cut
@@ -950,7 +950,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 print("m0, ypos=", m0, ypos)
 
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
 
                 params = lmfit.Parameters()
 
@@ -974,7 +974,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                 args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value))
+                m0 = int(np.round(result.params['mu'].value))
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -984,8 +984,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value - m0
                 m0_peak_snr = snr_arr[m0_closest]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value))
-                    m2 = np.int(np.round(result.params['mu_r'].value))
+                    m1 = int(np.round(result.params['mu_l'].value))
+                    m2 = int(np.round(result.params['mu_r'].value))
 
                 if debug:
                     print(ypos)
@@ -1010,9 +1010,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
 
                 m_min = m0 - cut
@@ -1071,7 +1071,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                     args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value)) + trimval
+                m0 = int(np.round(result.params['mu'].value)) + trimval
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -1081,8 +1081,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value + trimval - m0
                 m0_peak_snr = snr_arr[m0_closest-trimval]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                    m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                    m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                    m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
                 if debug:
                     print(ypos)
@@ -1105,9 +1105,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
                 m_min = m0 - cut
                 m_max = m0 + cut
@@ -1147,12 +1147,12 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 result = lmfit.minimize(utils.gaus_residual, params,
                             args=(xx, sp_arr, err_arr))
 
-            m0 = np.int(np.round(result.params['mu'].value)) + trimval
+            m0 = int(np.round(result.params['mu'].value)) + trimval
             m0_shift_fit = result.params['mu'].value + trimval - m0
             m0_peak_snr = snr_arr[m0-trimval]
             if dither:
-                m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
             if debug:
                 print(ypos            )
@@ -1175,9 +1175,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 sp_ind_neg2 = m2
 
                 diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                cut = np.int(np.ceil(diff/2.))
+                cut = int(np.ceil(diff/2.))
             else:
-                cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
             m_min = m0 - cut
             m_max = m0 + cut
@@ -1195,7 +1195,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         result = lmfit.minimize(utils.gaus_residual, params,
                         args=(xx, sp_arr, err_arr))
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0]
 
@@ -1225,7 +1225,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         if ypos is not None:
             if ((np.abs(ypos-m0) > 2.) & (not skip_check)):
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
                 m0_shift_fit = ypos - m0
                 m0_peak_snr = snr_arr[m0]
 
diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e36093b..09574f2 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -750,7 +750,7 @@ class AperModel2D(object):
     def check_do_upsample_wave(self):
         if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :
             # Create new array that has finer sampling:
-            self.delt_wave = self.delt_wave_real / np.float(self.adaptive_upsample_factor)
+            self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
 
             nwmin = self.wave_arr.min() - 0.5*(self.delt_wave_real - self.delt_wave)
             nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real - self.delt_wave)
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 5dbb9d1..9c2cd50 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -290,7 +290,7 @@ def check_slit_illum(xarr, wh_in_slit_x, A_tmp, mu_y, FWHM_arcsec, tot_slit_widt
     if modified_bounds:
         # Determine the new mu:
         model = A_tmp*gaus_from_fwhm(xarr, FWHM_arcsec, mu_y)
-        model_mask = np.zeros(len(xarr))*np.NaN
+        model_mask = np.zeros(len(xarr))*np.nan
         model_mask[wh_in_slit_x] = 1.
         model_orig = model.copy()
         model *= model_mask
diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index c264bfd..e5ded5f 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -56,7 +56,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     
     """
     sh_spec_trim = np.shape(fitEmis2D.galaxy.spec2D.flux)
-    sp_rat = sh_spec_trim[1]/np.float(sh_spec_trim[0])  # width/height
+    sp_rat = sh_spec_trim[1]/float(sh_spec_trim[0])  # width/height
 
 
     fig = plt.figure()
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index d1c7803..0fd1f63 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -163,7 +163,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         yarc_orig = yarr_orig*instrument_img.pixscale
 
         # Output pix/arc array:
-        n_round = np.int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
+        n_round = int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
 
         ### New:
         yarr_new = np.linspace(0, n_round, num=n_round, endpoint=False)
@@ -250,8 +250,8 @@ def plot_image_slit(galaxy=None, instrument=None,
 
     #######################################
     # Scale based on noise levels:
-    xlim_round = np.array([np.int(np.round(xlim[0])), np.int(np.round(xlim[1]))])
-    ylim_round = np.array([np.int(np.round(ylim[0])), np.int(np.round(ylim[1]))])
+    xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
+    ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
@@ -259,7 +259,7 @@ def plot_image_slit(galaxy=None, instrument=None,
     range_spec = np.abs(range_spec)
     range_spec.sort()
     # Only consider the lowest 50\% *abs* points:
-    range_spec = range_spec[0:np.int(np.ceil(len(range_spec)/2.))]
+    range_spec = range_spec[0:int(np.ceil(len(range_spec)/2.))]
     median_err = np.median(range_spec)
 
     ext = 3.
diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 1fe2433..6838f2c 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -45,7 +45,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
 
     nWalkers = sampler_dict['nWalkers']
 
-    alpha = max(0.01, 1./np.float(nWalkers))
+    alpha = max(0.01, 1./float(nWalkers))
 
 
     # Define random color inds for tracking some walkers:
@@ -56,7 +56,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
     trace_inds = np.random.randint(0,nWalkers, size=nTraceWalkers)
     trace_colors = []
     for i in range(nTraceWalkers):
-        trace_colors.append(cmap(1./np.float(nTraceWalkers)*i))
+        trace_colors.append(cmap(1./float(nTraceWalkers)*i))
 
     norm_inds = np.setdiff1d(range(nWalkers), trace_inds)
 
-- 
2.43.0


From fa65cfe87d2d2cb39882597fc265738677987b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 02/60] fix: convert the trimming range, not the redshift, to a
 list in trim_spectrum_1D

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 1669209..c6bfb90 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -46,7 +46,7 @@ def trim_spectrum_1D(spec1D, galaxy, trim_restwave_range=None,
         trim_restwave_range = io.read_wave_range(param_restwave_filename,linename=linename)
 
     if trim_obswave_range is None:
-        trim_obswave_range = np.array(trim_restwave_range)*(1.+galaxy.z).tolist()
+        trim_obswave_range = (np.array(trim_restwave_range)*(1.+galaxy.z)).tolist()
 
     # Find the range there is coverage:
     if spec1D is not None:
-- 
2.43.0


From fbf43eac890ead0eefdd46ab06579aa0607d364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 03/60] fix: do not write the sky line mask into the 1D
 spectrum mask when fitting the continuum

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c6bfb90..7cba309 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -388,7 +388,7 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
                             median_err=spec2D.median_flux_error,
                             cutoff=spec2D.band_cutoff, full=True)
 
-        spec_mask_tmp = galaxy.spec1D.spec_mask[:]
+        spec_mask_tmp = galaxy.spec1D.spec_mask.copy()
         spec_mask_tmp[wh_sky] = 0.
 
 
-- 
2.43.0


From 6aa2c351202629932f21e6ddac9a98ae795e465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 04/60] fix: mask num_edge pixels at the right edge of a 1D
 spectrum, as at the left edge

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 7cba309..5174f34 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -694,7 +694,7 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
         if edge_l > 0:
             spec_mask[edge_l:edge_l+num_edge] = 0
         if edge_r < len(spec)-1:
-            spec_mask[edge_r-num_edge-1:edge_r+1] = 0
+            spec_mask[max(edge_r-num_edge+1, 0):edge_r+1] = 0
 
     return spec_mask
 
-- 
2.43.0


From 6e2752798b5704542393b48aec09fe1cd1b43eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 05/60] fix: include the dithered negative images in the Moffat
 PSF kernel

---
 misfit/instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index 52ba1d3..215a9f9 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -69,7 +69,8 @@ class PSFMoffat(PSFBase):
         beta = self.PSF_beta
         alpha = PSF_FWHM/(2. * np.sqrt(np.power(2., 1./beta) -1))
 
-        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta)
+        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta,
+                        yspace_dither_arc=self.yspace_dither_arc)
 
 
 class Instrument(object):
-- 
2.43.0


From f5444373ee72360517a1980645a84dc248299f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 06/60] fix: use the requested dispersion profile slope inside
 the aperture too

---
 misfit/model/kin_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 9c2cd50..f7b0e0a 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -597,7 +597,7 @@ def sigma_aper_dispersion(aperModel1DDisp = None, re_arcsec=None, re_mass_arcsec
     # re_arcsec should already be circularized -- use q=1.
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=1., delt_PA=0., re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    d=aperModel1DDisp.d, r_core=aperModel1DDisp.r_core)
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full, re_arcsec=re_arcsec,
                         n=aperModel1DDisp.galaxy.n, q=1., delt_PA=0.,r_core=aperModel1DDisp.r_core)
@@ -680,7 +680,7 @@ def sigma_aper_dispersion_misalign(aperModel1DDisp = None,
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=aperModel1DDisp.galaxy.q, delt_PA=aperModel1DDisp.galaxy.delt_PA,
                     re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    d=aperModel1DDisp.d, r_core=aperModel1DDisp.r_core)
 
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
@@ -995,13 +995,13 @@ def sigma_aper_dispersion_misalign_ORIG(aperModel1DDisp = None, re_arcsec=None,
 
 #@jit
 @njit
-def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None):
+def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, d=-0.089, r_core=None):
 
     r = r_int_ellip(x, y, q, delt_PA)
 
     # r is relative to r_circularized for that given ellipse -- use re_circ.
     # INPUT RE_CIRC!
-    sigma_val = sigma_profile(r, re_mass_arcsec, r_core=r_core)
+    sigma_val = sigma_profile(r, re_mass_arcsec, d=d, r_core=r_core)
 
     return sigma_val**2
 
-- 
2.43.0


From d648e91185200debe3f1127c6d5656a03472308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 07/60] fix: place the spatial subpixels of the 2D model on the
 detector pixel grid

The row coordinates were spread over less than the padded slit length, so
the model rows were not pixscale apart.
---
 misfit/model/aper_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 09574f2..e4a6101 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -706,9 +706,8 @@ class AperModel2D(object):
         self.z_arr = np.linspace(-(self.n_pix_z/2.-0.5)*self.delt_z,
                             (self.n_pix_z/2.-0.5)*self.delt_z, num=self.nZ)
 
-        self.y_arr = np.linspace(-(self.padY-0.5)*self.delt_y,
-                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY-0.5)*self.delt_y,
-                num=self.nY)
+        # Subpixel centers, with the center of whole pixel j at j*pixscale:
+        self.y_arr = (np.arange(self.nY) - self.padY - 0.5*(self.nSubpixels-1.))*self.delt_y
 
         self.z = self.theta[-1]
 
-- 
2.43.0


From c26854b4c2ea040932e86d2921a63c456396b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 08/60] fix: center the PSF kernel of the 2D model

The kernel was evaluated on coordinates relative to the galaxy center, and
could have an even number of points, so the PSF displaced the galaxy by its
offset from the middle of the cutout.
---
 misfit/model/aper_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e4a6101..7a971cd 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -598,10 +598,11 @@ class AperModel2D(object):
         ## Convolve the spectra cube with the PSF:
         ## Trim x_arr, y_arr so you're only making a convolution kernal for +- FWHM
         #       x_arr, y_arr are in *ARCSECONDS*
-        xc = np.average(self.x_arr)
-        yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        # The kernel needs an odd number of points centered on zero, or it would shift the cube.
+        n_x = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_x))
+        n_y = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_y))
+        x_arr_trim = np.arange(-n_x, n_x+1)*self.delt_x
+        y_arr_trim = np.arange(-n_y, n_y+1)*self.delt_y
 
         #x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         #y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
-- 
2.43.0


From 4bba9e56725c34d70252779a3d639bb3c1c7bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:26 +0000
Subject: [PATCH 09/60] fix: rebuild the 2D model grid when the redshift or
 spatial offset is updated

---
 misfit/model/aper_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 7a971cd..d4bf1d0 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -629,6 +629,12 @@ class AperModel2D(object):
     def update_model(self, **kwargs):
         self.setAttr(**kwargs)
 
+        # The grid depends on the redshift and on the spatial offset:
+        if (self.theta[-1] != self.z) or \
+                (self.galaxy.spec2D.m0 + self.theta[-2] != self.m0_fit):
+            self.delta_position_velspace = None
+            self.setup_calcs()
+
         self.do_model_calcs()
 
     def do_model_calcs(self):
-- 
2.43.0


From 98b7dab13be78e99eee2f58614134e11a6ea84ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:26 +0000
Subject: [PATCH 10/60] fix: convolve a 2D model with its own PSF kernel when
 the instrument is shared

---
 misfit/model/aper_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index d4bf1d0..9fa8b8e 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -618,6 +618,7 @@ class AperModel2D(object):
         kern3D = np.zeros(shape=(1, conv_stamp.shape[0], conv_stamp.shape[1],))
         kern3D[0, :, :] = conv_stamp
 
+        self.conv_stamp = kern3D
         self.instrument.PSF.set_conv_stamp(kern3D)
 
     def make_model(self):
@@ -841,6 +842,8 @@ class AperModel2D(object):
 
     def convolve_spectral_cube_PSF(self):
         ## Convolve the spectra cube with the PSF:
+        # The instrument can be shared, and hold the kernel of another model:
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
         self.spectra_cube_conv = kfuncs.PSF_convolve(self.spectra_cube, self.instrument.PSF)
 
 
-- 
2.43.0


From ba4bf456d3eb7d83df4d1c36be15b76a73c7278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:26 +0000
Subject: [PATCH 11/60] fix: average the upsampled wavelengths of the 2D model,
 and keep its unbinned rows

The model is a flux density, so summing the upsampled wavelengths scaled it by
the upsampling factor below the dispersion threshold. With rebin_output=False
the spatial subpixels were collapsed here anyway.
---
 misfit/model/aper_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 9fa8b8e..bd1e6d8 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -893,8 +893,10 @@ class AperModel2D(object):
 
 
     def downsample_to_real_wave(self):
+        # Average, as the model is a flux density:
         self.model_out = kfuncs.rebin(self.model_out,
-                            self.nWave_real, self.n_pix_y_whole)
+                            self.nWave_real, self.model_out.shape[1])*\
+                            (float(self.nWave_real)/self.nWave)
         # Reset other parameters to original values:
         self.wave_arr = self.wave_arr_real.copy()
         self.nWave = self.nWave_real
-- 
2.43.0


From fc1274e85440add61ea0c9b3fa9100a6f11b5c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:26 +0000
Subject: [PATCH 12/60] fix: zero dispersion 2D models: velocity bins, and flux
 density normalization

---
 misfit/model/kin_functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index f7b0e0a..3c1b57c 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -124,8 +124,9 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
 
             I_Vxy_oneline = np.sum(I_conv, axis=1)*delt_z
         else:
-            I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr, nWave,
-                            nZ, nY, nX, delt_z, delt_wave, lam0)
+            # The bins are in velocity:
+            I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, 1.+wave_arr/c_kms, nWave,
+                            nZ, nY, nX, delt_z, delt_wave, 1.)
 
         I_Vxy += I_Vxy_oneline
 
@@ -159,7 +160,8 @@ def I_simple_collapse(I_wide, V_wide, wave_arr,
 
                 # Force it all into the closest pixel:
                 wh_closest = np.argmin(lam_diff)
-                I_Vxy[wh_closest,j,k] += I*delt_z
+                # Flux density, as for non-zero dispersions
+                I_Vxy[wh_closest,j,k] += I*delt_z/delt_wave
 
 
     return I_Vxy
-- 
2.43.0


From 2ca133cbadf6c923c4091ea84fad91e7877ce18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 13/60] fix: center the PSF kernel of the 1D rotation aperture
 model on the slit offset

---
 misfit/model/aper_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index bd1e6d8..3e6817e 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -264,8 +264,8 @@ class AperModel1DRot(AperModel1DBase):
         # x_arr, y_arr are in *ARCSECONDS*
         xc = np.average(self.x_arr)
         yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM] - xc
+        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM] - yc
 
         # x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
-- 
2.43.0


From bdf6f420472f96c9076df7a75ee37cfb438ab73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 14/60] fix: allow a Moffat PSF of zero width (no seeing), as
 for the Gaussian PSF

---
 misfit/instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index 215a9f9..c3d6031 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -162,7 +162,8 @@ def PSF_stamp_gauss(x, y, PSF_FWHM=None, yspace_dither_arc=None):
     return conv_stamp
 
 ## TEST 2019.11.14
-@njit
+# (numpy error model: an unused FWHM=0 kernel must not raise, as for the Gaussian)
+@njit(error_model='numpy')
 def PSF_stamp_moffat(x, y, alpha=None, beta=None, yspace_dither_arc=None):
     # x, y should already be *CENTERED*, and in arcsec.
 
-- 
2.43.0


From 276492fd1abb2d3875241e3af35e9f31b5bf355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 15/60] fix: do not use masked pixels to scale the rows of the
 model to the data

---
 misfit/model/kin_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index cc87e12..4d7b478 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -142,9 +142,13 @@ class KinModel2D(object):
         # Use the galaxy spectrum to scale the model:
         wh_no_sky = galaxy.spec2D.wh_nosky.copy()
 
-        num_arr = np.sum(galaxy.spec2D.flux[:,wh_no_sky]*self.model[:,wh_no_sky]/\
+        # Only use the good pixels of every row (fully masked rows do not enter the fit: scale to all pixels)
+        mask = np.array(galaxy.spec2D.spec_mask[:,wh_no_sky], dtype=float)
+        mask[~np.any(mask > 0., axis=1),:] = 1.
+
+        num_arr = np.sum(mask*galaxy.spec2D.flux[:,wh_no_sky]*self.model[:,wh_no_sky]/\
                             galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
-        den_arr = np.sum(self.model[:,wh_no_sky]**2/galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
+        den_arr = np.sum(mask*self.model[:,wh_no_sky]**2/galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
 
         num_arr[~np.isfinite(num_arr)] = 0.
         num_arr[np.abs(den_arr) == 0.] = 0.
-- 
2.43.0


From 62ebb5f413ece379ae8906ca3e60627287dadeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 16/60] fix: refresh the free parameters of the flat prior with
 its bounds when the settings change

---
 misfit/fit/fit2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 4e913e6..828632b 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -357,6 +357,8 @@ class FitEmissionLines2D(object):
 
         if ((self.thetaPrior.name == 'ThetaPriorFlat') & \
                 (self.thetaSettings.theta_bounds is not None)):
+            self.thetaPrior.theta = copy.deepcopy(self.kinModel.theta)
+            self.thetaPrior.theta_vary = copy.deepcopy(self.kinModel.theta_vary)
             self.thetaPrior.theta_bounds = copy.deepcopy(self.thetaSettings.theta_bounds)
 
 
-- 
2.43.0


From b15fa69da294a585174599a591d19480dde8fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 17/60] fix: keep the last row of the 2D spectrum when trimming
 spatially

---
 misfit/general/galaxy_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 5174f34..488a6cb 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -197,10 +197,10 @@ def trim_spectrum_2D_spatial(spec2D, galaxy, instrument):
     #       obj is near edge of image
     if galaxy.dither:
         l_ind = max([0,m_min])
-        r_ind = min([n_spatial_orig-1, m_max])
+        r_ind = min([n_spatial_orig, m_max])
     else:
         l_ind = 0
-        r_ind = n_spatial_orig-1
+        r_ind = n_spatial_orig
 
     # Trim everything
     spec2D.flux = spec2D.flux[l_ind:r_ind,:]
-- 
2.43.0


From 7985b9d66463656ebe69d0e11b63a802bc939f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 18/60] fix: do not overwrite the arrays given by the user when
 masking and filling missing data

---
 misfit/general/galaxy_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 488a6cb..3adac8b 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -682,6 +682,9 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
     Mask the edges of the spectrum, as these are often very noisy.
     """
 
+    # Don't modify the input mask
+    spec_mask = spec_mask.copy()
+
     # Find the edges by the first, last non-zero spec_mask value
     unmasked_inds = np.where(spec_mask == 1)[0]
 
@@ -707,6 +710,9 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
     """
     if spec_mask is None:
         spec_mask = np.ones(spec.shape, dtype=float)
+    else:
+        # Don't modify the input mask
+        spec_mask = spec_mask.copy()
 
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
@@ -738,6 +744,9 @@ def mask_spec2D_from_1D(mask2D=None, mask1D=None):
 def spec_nan_masking(flux=None, spec_mask=None, fill_value=-99., mask_zero=False, mask_all_masked=False):
     # Change the non-finite errors so they don't create problems in calculations multiplying with mask
 
+    # Don't modify the input array
+    flux = flux.copy()
+
     if not mask_all_masked:
         wh_reset = np.where((np.invert(np.isfinite(flux))) & (spec_mask == 0.))
         flux[wh_reset] = fill_value
-- 
2.43.0


From dd90116535c0765fbd9db7d0ead8146f7196444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 19/60] fix: mask 2D pixels with zero error as missing

---
 misfit/general/galaxy_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 3adac8b..e842460 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -281,8 +281,7 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
     Subtract continuum from 2D spectrum, using info in spec2D, galaxy (incl. galaxy.spec1D)
     """
     spec2D.spec_mask = spec_mask_missing(spec=spec2D.flux, spec_err=spec2D.flux_err,
-                    spec_weight=spec2D.spec_weight, spec_mask=spec2D.spec_mask,
-                    nonfinite_only=True)
+                    spec_weight=spec2D.spec_weight, spec_mask=spec2D.spec_mask)
 
     if not no_cont_subtraction:
         # Implement nonfinite to also include the *MISSING*, eg err=0 points, if err is not all 0.
@@ -717,7 +716,7 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
     if (not nonfinite_only) & (np.abs(spec_err).max() > 0.):
-        wh_missing = np.where(spec_err == 0.)[0]
+        wh_missing = np.where(spec_err == 0.)
         spec_mask[wh_missing] = 0.
     # ##########################################################
 
-- 
2.43.0


From ee9757c7f2a940c2d3e7ba0590b1d87586c0f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 20/60] fix: mask zero errors also when other errors are not
 finite

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index e842460..4409a97 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -715,7 +715,7 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
 
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
-    if (not nonfinite_only) & (np.abs(spec_err).max() > 0.):
+    if (not nonfinite_only) & np.any(np.abs(spec_err) > 0.):
         wh_missing = np.where(spec_err == 0.)
         spec_mask[wh_missing] = 0.
     # ##########################################################
-- 
2.43.0


From 314d88e8893cbdedb04230bd2ec0a689ae006b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 21/60] fix: trim 2D spectra without weights, and the continuum
 arrays of trimmed copies

---
 misfit/general/galaxy_utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 4409a97..92dfe82 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -122,7 +122,8 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D.flux = spec2D.flux[:,wh]
                 spec2D.flux_err = spec2D.flux_err[:,wh]
                 spec2D.spec_mask = spec2D.spec_mask[:,wh]
-                spec2D.spec_weight = spec2D.spec_weight[:,wh]
+                if spec2D.spec_weight is not None:
+                    spec2D.spec_weight = spec2D.spec_weight[:,wh]
 
                 try:
                     spec2D.flux_incl_cont = spec2D.flux_incl_cont[:,wh]
@@ -156,7 +157,15 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D_trim.flux = spec2D.flux[:,wh]
                 spec2D_trim.flux_err = spec2D.flux_err[:,wh]
                 spec2D_trim.spec_mask = spec2D.spec_mask[:,wh]
-                spec2D_trim.spec_weight = spec2D.spec_weight[:,wh]
+                if spec2D.spec_weight is not None:
+                    spec2D_trim.spec_weight = spec2D.spec_weight[:,wh]
+
+                try:
+                    spec2D_trim.flux_incl_cont = spec2D.flux_incl_cont[:,wh]
+                    spec2D_trim.cont_model = spec2D.cont_model[:,wh]
+                except:
+                    spec2D_trim.flux_incl_cont = None
+                    spec2D_trim.cont_model = None
 
                 spec2D_trim.calculate_restwave(galaxy)
             else:
-- 
2.43.0


From 214bc2460f474a51ef210b54f1e2b163358dcaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 22/60] fix: normalize the 1D lines by their flux, not by the
 brightest sampled pixel

---
 misfit/model/emission_lines_model.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 5b8292a..f8de580 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -275,9 +275,6 @@ def gaussian_line(x, mu, vel_sig, flux):
     # Convert vel_sig into sig in wavelength:
     sig = vel_sig / c_kms * mu
 
-    # make gaussian
-    gaus = norm.pdf(x, mu, sig)
-    # scale to amplitude
-    scale = flux/(sig*np.sqrt(2.*np.pi))
-    gaus = gaus/gaus.max()*scale
+    # make gaussian, with integral equal to the flux
+    gaus = flux*norm.pdf(x, mu, sig)
     return gaus
-- 
2.43.0


From 9a570324dee1db87f3871ec600cce7767c560745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 23/60] fix: keep wavelengths or flux ratios given for a 1D
 line set when only one of them is set

---
 misfit/model/emission_lines_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index f8de580..bb8b56c 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -241,8 +241,11 @@ class EmissionLines1DModel(EmissionLines):
                 wave_arr.append(io.read_restwave(wave_file, linename=linename))
                 line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
 
-            self.restwave_arr = np.array(wave_arr)
-            self.flux_ratio_arr = np.array(line_ratio_arr)
+            # Only use the lib info for what is not set:
+            if self.restwave_arr is None:
+                self.restwave_arr = np.array(wave_arr)
+            if self.flux_ratio_arr is None:
+                self.flux_ratio_arr = np.array(line_ratio_arr)
 
 
 
-- 
2.43.0


From b386ee38b2aa1437de1767aeed47cbbb6bd836e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 24/60] fix: allow 1D fits of line sets with different numbers
 of lines

---
 misfit/fit/fit1D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 41b622d..bdc65af 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -181,7 +181,8 @@ class FitEmissionLines1D(object):
                     wave_arr.append(io.read_restwave(wave_file, linename=linename))
                 waves_arr.append(wave_arr)
 
-            self.restwave_arr = np.array(waves_arr)
+            # Line sets can have different numbers of lines
+            self.restwave_arr = waves_arr
 
     def setup_spectrum(self):
         """
-- 
2.43.0


From 87d6a4a8ee69ba1e920b96ebddf47884f378dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 25/60] fix: finish 1D fits with errors, and correct them with
 the resolution of the instrument

---
 misfit/fit/fit1D.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index bdc65af..cd40091 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -370,7 +370,7 @@ class FitEmissionLines1D(object):
         values_true = np.append(values_true, self.cont_coeff)
 
         print( "-----------------------------------------------------------------------------")
-        print( "{} {:d}".format(self.galaxy.field, self.galaxy.ID) )
+        print( "{} {}".format(self.galaxy.field, self.galaxy.ID) )
         print( "Message: \t\t {}".format(self.lmfit_result.message) )
         print( "Success: \t\t {}".format(self.lmfit_result.success) )
         print( "Errorbars estimated?: \t {}".format( self.lmfit_result.errorbars) )
@@ -507,8 +507,6 @@ class FitEmissionLines1D(object):
             self.cont_coeff_err =   \
                 values_err[len(self.names_arr)+2:len(self.names_arr)+2+self.cont_order+1,:]
 
-            raise ValueError
-
         else:
             print( "Not doing errors")
             self.z_err =            np.zeros(2)
@@ -572,7 +570,7 @@ class FitEmissionLines1D(object):
             if self.galaxy.maskname is not None:
                 title = r'\_'.join(self.galaxy.maskname.split('_'))+'-'+str(self.galaxy.ID)+' '+names_cat
             else:
-                title = self.galaxy.field+'-'+str(self.galaxy.ID)+' '+names_cat
+                title = str(self.galaxy.field)+'-'+str(self.galaxy.ID)+' '+names_cat
 
             ax.set_title(title)
             ax.set_xlim(xlim)
@@ -615,7 +613,7 @@ class FitEmissionLines1D(object):
 
             # Correct all in value matrix
             vel_disp_mc = value_matrix[:,1]
-            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.galaxy.spec1D.instrument_resolution**2)
+            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.instrument.instrument_resolution**2)
 
             # Make non-finite cases: these are where inst res > vel disp
             vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.
-- 
2.43.0


From 97befd17c8df1b0b55c5623c098ccce7c4de4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 26/60] fix: position dependent velocity shifts of the 1D
 rotation aperture model

---
 misfit/model/aper_model.py    |  2 +-
 misfit/model/kin_functions.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 3e6817e..ac4448a 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -421,7 +421,7 @@ class AperModel1DRot(AperModel1DBase):
 
         # Add position offset, if calculating that shift:
         if self.do_position_wave_shift or self.do_inst_res_conv_effective:
-            if (self.delta_position_velspace is None) or (self.inst_disp_wave is None):
+            if (self.delta_position_velspace is None) or (self.inst_disp_vel is None):
                 #################
                 # Exclude the padded regions ????
                 wh_in_slit_x = np.array(range(self.padX,self.n_pix_x+self.padX))
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 3c1b57c..33d485f 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -209,9 +209,13 @@ def calculate_effective_inst_res_lam_shift(I_wide_3d=None,
 
     # # Convolve with seeing:
     # Should have shape (nWave, nY, nX)
-    I_arr_2D_cube = np.array([I_arr_2D])
-    I_arr_2D_conv_cube = PSF_convolve(I_arr_2D_cube, PSF)
-    I_arr_2D_conv = I_arr_2D_conv_cube[0,:,:]
+    if PSF._conv_stamp.ndim == 2:
+        # Kernel of the 1D models: no wavelength axis
+        I_arr_2D_conv = PSF_convolve_flat(I_arr_2D, PSF)
+    else:
+        I_arr_2D_cube = np.array([I_arr_2D])
+        I_arr_2D_conv_cube = PSF_convolve(I_arr_2D_cube, PSF)
+        I_arr_2D_conv = I_arr_2D_conv_cube[0,:,:]
     ########################
 
 
-- 
2.43.0


From ddc7e3165e01a3e9577ec8c69b70e00c1c1f7cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:34 +0000
Subject: [PATCH 27/60] fix: run the emcee 3 sampler without a HDF5 file

---
 misfit/fit/fit_core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index fbc399f..5467522 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -535,8 +535,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
 
     moves = emcee.moves.StretchMove(a=fitEmis2D.mcmcOptions.scale_param_a)
 
-    backend_burn = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, 
-                                             name="burnin_mcmc")
+    backend_burn = _make_backend(fitEmis2D.mcmcOptions.filename_sampler_h5, "burnin_mcmc")
 
     if fitEmis2D.mcmcOptions.overwrite:
         backend_burn.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
@@ -684,7 +683,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
         # Setup sampler:
         # --------------------------------
         # Start backend:
-        backend = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, name="mcmc")
+        backend = _make_backend(fitEmis2D.mcmcOptions.filename_sampler_h5, "mcmc")
 
         if fitEmis2D.mcmcOptions.overwrite:
             backend.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
@@ -829,6 +828,14 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
     return fitEmis2D
 
 
+def _make_backend(filename, name):
+    """Backend for the emcee sampler: in memory if no file is set."""
+    if filename is None:
+        return emcee.backends.Backend()
+
+    return emcee.backends.HDFBackend(filename, name=name)
+
+
 def make_pruned_fitEmis2D_class(fitEmis2D):
     galaxy = GalaxyBasic()
     spec2D = ObsSpectrum2DBasic()
-- 
2.43.0


From 6f42daf3ab027f22c5cb523522c5aae349090355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:34 +0000
Subject: [PATCH 28/60] fix: close the worker pool also when the sampling fails

---
 misfit/fit/fit_core.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 5467522..807f291 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -527,12 +527,24 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
 
 
     # --------------------------------
-    # Start pool, moves, backend:
+    # Start pool:
     if (fitEmis2D.mcmcOptions.nCPUs > 1):
         pool = Pool(fitEmis2D.mcmcOptions.nCPUs)
     else:
         pool = None
 
+    try:
+        return _run_mcmc_emcee_3_pool(fitEmis2D, fitEmis2D_fit, pool)
+    finally:
+        # Also close the pool when the sampling fails
+        if pool is not None:
+            pool.close()
+
+
+def _run_mcmc_emcee_3_pool(fitEmis2D, fitEmis2D_fit, pool):
+    """
+    Run the sampling for _run_mcmc_emcee_3, with the given pool (or None).
+    """
     moves = emcee.moves.StretchMove(a=fitEmis2D.mcmcOptions.scale_param_a)
 
     backend_burn = _make_backend(fitEmis2D.mcmcOptions.filename_sampler_h5, "burnin_mcmc")
@@ -800,13 +812,6 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
         # Get pickleable format:
         sampler_dict = fit_io.make_emcee_sampler_dict(sampler, fitEmis2D=fitEmis2D, nBurn=0)
 
-        # #pool.close()
-        # sampler.pool.close()
-        if fitEmis2D.mcmcOptions.nCPUs > 1:
-            pool.close()
-            sampler.pool.close()
-            sampler_burn.pool.close()
-
         if fitEmis2D.mcmcOptions.filename_sampler is not None:
             # Save stuff to file, for future use:
             fit_io.dumppickle(sampler_dict, filename=fitEmis2D.mcmcOptions.filename_sampler)
-- 
2.43.0


From 004f7ff965ab3967c3ef2b8f5a1c41d34d54714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 29/60] fix: find the posterior peak of constant chains and of
 single parameters

---
 misfit/general/general_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 5fcf554..2dbdc29 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -209,12 +209,16 @@ def find_peak_gaussian_KDE(flatchain, initval):
     if nparams > 1:
         peakvals = np.zeros(nparams)
         for i in range(nparams):
+            if np.ptp(flatchain[:,i]) == 0.:
+                # Constant: eg, derived from fixed parameters only
+                peakvals[i] = flatchain[0,i]
+                continue
             kern = gaussian_kde(flatchain[:,i])
             peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
         return peakvals
     else:
-        neg_kernel = gaussian_KDE_kernel_func(flatchain)
-        peakval = fmin(neg_kernel, initval, disp=False)
+        kern = gaussian_kde(np.ravel(flatchain))
+        peakval = fmin(lambda x: -kern(x), initval, disp=False)
 
         return peakval
 
-- 
2.43.0


From a0a74956f1b552d1512c2bfe3669ce0483bd572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 30/60] fix: limits of the best fit of several groups of linked
 parameters

---
 misfit/fit/fit_core.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 807f291..26f30c0 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1082,9 +1082,8 @@ def get_param_posterior_bestfits(fitEmis2D):
     #       eg, theta_linked_posteriors.
     # eg, for V_a and r_t mcmc based on best-fit value for V(R_E):
     if fitEmis2D.theta_linked_posteriors is not None:
-        mcmc_lims_zip = list(zip(*mcmc_limits))
-
         for i in range(len(fitEmis2D.theta_linked_posteriors)):
+            mcmc_lims_zip = list(zip(*mcmc_limits))
             mcmc_peak, mcmc_uncertainties_1sig = \
                     utils.get_bestfit_values_linked(fitEmis2D,
                     mcmc_uncertainties_1sig, mcmc_lims_zip,
@@ -1092,11 +1091,9 @@ def get_param_posterior_bestfits(fitEmis2D):
             fitEmis2D.mcmc_results.bestfit_theta = mcmc_peak
             fitEmis2D.mcmc_results.err_theta_1sig = mcmc_uncertainties_1sig
 
-            mcmc_lims_zip = list(zip(*mcmc_limits_2sig))
-            mcmc_peak, mcmc_uncertainties_2sig = \
-                    utils.get_bestfit_values_linked(fitEmis2D,
-                    mcmc_uncertainties_2sig, mcmc_lims_zip,
-                    theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i]) #, debug=True)
+            # The 2sig uncertainties refer to the same best fit:
+            mcmc_uncertainties_2sig = np.array([mcmc_peak-mcmc_limits_2sig[0],
+                    mcmc_limits_2sig[1]-mcmc_peak]).T
             fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
 
     #############################################################################
-- 
2.43.0


From 202cbcd58a522a53df7262b0c8903f8c04e6e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 31/60] fix: keep the signs of the chain if the dispersion is
 fixed

---
 misfit/fit/fit_core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 26f30c0..0f7d61a 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -957,10 +957,12 @@ def add_v_re_22(fitEmis2D):
                 else:
                     free_inds.append(None)
             ind = free_inds[ind_all]
-            fitEmis2D.sampler_dict['flatchain'][:, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
-            fitEmis2D.sampler_dict['chain'][:, :, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
+            # Nothing to do if the dispersion is fixed
+            if ind is not None:
+                fitEmis2D.sampler_dict['flatchain'][:, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
+                fitEmis2D.sampler_dict['chain'][:, :, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
         else:
             raise ValueError
 
-- 
2.43.0


From 0b34712c67b883a3372e26600d20a328c51bd11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 32/60] fix: analyze a chain again without adding the derived
 values twice

---
 misfit/fit/fit_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 0f7d61a..130e90d 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -966,6 +966,10 @@ def add_v_re_22(fitEmis2D):
         else:
             raise ValueError
 
+    # Drop the derived values of an earlier analysis:
+    fitEmis2D.sampler_dict['flatchain'] = \
+            fitEmis2D.sampler_dict['flatchain'][:, :fitEmis2D.kinModel.n_free_param]
+
     i_free = 0
     len_chain = fitEmis2D.sampler_dict['flatchain'].shape[0]
     for i in range(len(fitEmis2D.kinModel.theta)):
-- 
2.43.0


From 9fbf46731287b3043141ca6ac614317b98e0603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 33/60] fix: posterior peaks with numpy 2.5

---
 misfit/general/general_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 2dbdc29..4e4da36 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -214,11 +214,11 @@ def find_peak_gaussian_KDE(flatchain, initval):
                 peakvals[i] = flatchain[0,i]
                 continue
             kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
+            peakvals[i] = fmin(lambda x: -kern(x)[0], initval[i], disp=False)[0]
         return peakvals
     else:
         kern = gaussian_kde(np.ravel(flatchain))
-        peakval = fmin(lambda x: -kern(x), initval, disp=False)
+        peakval = fmin(lambda x: -kern(x)[0], initval, disp=False)
 
         return peakval
 
@@ -230,7 +230,7 @@ def find_peak_gaussian_KDE_multiD(flatchain, linked_inds, initval):
 
     nparams = len(linked_inds)
     kern = gaussian_kde(flatchain[:,linked_inds].T)
-    peakvals = fmin(lambda x: -kern(x), initval, disp=False)
+    peakvals = fmin(lambda x: -kern(x)[0], initval, disp=False)
 
     return peakvals
 
-- 
2.43.0


From 4062ca0e5b5d28afdf798d37afd08fd09da916c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:29 +0000
Subject: [PATCH 34/60] fix: search the posterior peak in units of the scatter
 of the chain

---
 misfit/general/general_utils.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 4e4da36..aaf7150 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -214,15 +214,29 @@ def find_peak_gaussian_KDE(flatchain, initval):
                 peakvals[i] = flatchain[0,i]
                 continue
             kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x)[0], initval[i], disp=False)[0]
+            peakvals[i] = _peak_kernel(kern, initval[i], np.std(flatchain[:,i]))[0]
         return peakvals
     else:
         kern = gaussian_kde(np.ravel(flatchain))
-        peakval = fmin(lambda x: -kern(x)[0], initval, disp=False)
+        peakval = _peak_kernel(kern, initval, np.std(flatchain))
 
         return peakval
 
 
+def _peak_kernel(kern, initval, scale):
+    """
+    Peak of the KDE near initval, searched in units of the scatter of the chain:
+    otherwise the search stops at once for initial values near zero.
+    """
+    initval = np.atleast_1d(initval)
+    scale = np.atleast_1d(scale)
+    steps = 0.1*np.eye(len(initval)+1, len(initval), k=-1)
+    offset = fmin(lambda x: -kern(initval+x*scale)[0]*np.prod(scale), steps[0],
+                    initial_simplex=steps, disp=False)
+
+    return initval + offset*scale
+
+
 def find_peak_gaussian_KDE_multiD(flatchain, linked_inds, initval):
     """
     Return chain parameters that give peak of the posterior PDF *FOR LINKED PARAMETERS, using KDE.
@@ -230,7 +244,7 @@ def find_peak_gaussian_KDE_multiD(flatchain, linked_inds, initval):
 
     nparams = len(linked_inds)
     kern = gaussian_kde(flatchain[:,linked_inds].T)
-    peakvals = fmin(lambda x: -kern(x)[0], initval, disp=False)
+    peakvals = _peak_kernel(kern, initval, np.std(flatchain[:,linked_inds], axis=0))
 
     return peakvals
 
-- 
2.43.0


From 29820608177600c95f83b23b76b5a5f127ca309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 35/60] fix: no shared default profiles, options and results
 between fits and models

---
 misfit/fit/fit2D.py           | 22 +++++++++++++++++-----
 misfit/mock/generate_basic.py | 10 ++++++++--
 misfit/model/kin_model.py     | 22 ++++++++++++++++------
 3 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 828632b..d48c55d 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -142,17 +142,29 @@ class FitEmissionLines2D(object):
     def __init__(self, galaxy=None, instrument=None, instrument_img=None,
                     linegroup_name = None, linenames_arr = None,
                     restwave_arr = None, flux_ratio_arr = None,
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions=KinModel2DOptions(),
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     thetaPrior=None,
                     thetaSettings=None,
-                    mcmcOptions = MCMC2DOptions(),
+                    mcmcOptions = None,
                     theta_linked_posteriors = None,
-                    mcmc_results = MCMCResults(),
+                    mcmc_results = None,
                     usetex=True,
                     **kwargs):
 
+        # Each fit has its own defaults:
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+        if mcmcOptions is None:
+            mcmcOptions = MCMC2DOptions()
+        if mcmc_results is None:
+            mcmc_results = MCMCResults()
+
         self.galaxy = galaxy
         self.instrument = instrument
         self.instrument_img = instrument_img
diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 0ada591..8af0e04 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -42,10 +42,16 @@ def generate_mock_basis(z=None,
         pad_factor=0.5,
         do_position_wave_shift=False,
         do_inst_res_conv_effective=False,
-        kinProfile = KinProfileFiducial(),
-        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
+        kinProfile = None,
+        intensityProfile = None,
         debug=False, **kwargs):
 
+    # Each mock has its own profiles:
+    if kinProfile is None:
+        kinProfile = KinProfileFiducial()
+    if intensityProfile is None:
+        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+
     # Enforce min slit-length
     if slit_length < nymin*pixscale:
         slit_length = nymin*pixscale
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 4d7b478..b3a7f76 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -60,15 +60,25 @@ class KinModel2D(object):
     Handles variable + fixed parameters, talks to the Aper2DModel class,
     creates scaled model to data.
     """
-    def __init__(self, galaxy, thetaSettings=Theta2DSettingsFiducial(),
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions = KinModel2DOptions(),
+    def __init__(self, galaxy, thetaSettings=None,
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions = None,
                     do_position_wave_shift=False,
                     do_inst_res_conv_effective=False, **kwargs):
+        # Each model has its own defaults:
+        if thetaSettings is None:
+            thetaSettings = Theta2DSettingsFiducial()
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+
         # Galaxy()
-        # Unpack thetaSettings:
-        self.theta = thetaSettings.theta
+        # Unpack thetaSettings (the values change in the fit, the settings do not):
+        self.theta = copy.deepcopy(thetaSettings.theta)
         self.theta_vary = thetaSettings.theta_vary
         self.theta_names = thetaSettings.theta_names
         self.theta_names_nice = thetaSettings.theta_names_nice
-- 
2.43.0


From 198364cd29e7d9f27d6d2bc251f7288cec23ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:02 +0000
Subject: [PATCH 36/60] fix: mock data cubes with padding, fine wavelengths,
 and other uses of the instrument

---
 misfit/model/aper_model.py |  2 +-
 misfit/model/kin_model.py  | 57 +++++++++++++++++++++-----------------
 2 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index ac4448a..a6f3a27 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -682,7 +682,7 @@ class AperModel2D(object):
         self.n_pix_x = int(np.ceil(self.instrument.slit_width/self.delt_y))
         # Check for case where slit width = slit length:
         #    make sure rounding errors don't end up with diff nPix.
-        if self.y_aper == self.instrument.slit_width:
+        if np.isclose(self.y_aper, self.instrument.slit_width, rtol=1.e-9, atol=0.):
             if self.n_pix_x != self.n_pix_y:
                 self.n_pix_x = self.n_pix_y
         self.delt_x = self.instrument.slit_width/self.n_pix_x
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index b3a7f76..c90d8d6 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -106,6 +106,7 @@ class KinModel2D(object):
         self.bestfit = None
 
         self.aperModel = None
+        self.aperModel_3D = None    # Model of the entire field: see make_3D_int_model
 
         self.debug = False
 
@@ -234,16 +235,17 @@ class KinModel2D(object):
         self.update_parameters(theta_fitting)
         self.update_profiles()  # Needed to update kinProfile theta values for calculations
 
-        if self.aperModel is None:
-            # Change the "slit width" to match the y dim for the IFU cube test case:
+        if self.aperModel_3D is None:
+            # Change the "slit width" to match the y dim for the IFU cube test case
+            #   (of a copy: the slit instrument and the slit model are unchanged)
             if not galaxy.generate_model:
                 n_pix_y_whole = galaxy.spec2D.flux.shape[0]
             else:
                 n_pix_y_whole = galaxy.spec2D.shape[0]
+            instrument = copy.deepcopy(instrument)
             instrument.slit_width = n_pix_y_whole*instrument.pixscale
-            n_pix_x_whole = n_pix_y_whole
 
-            self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
+            self.aperModel_3D = AperModel2D(galaxy=galaxy, instrument=instrument,
                                 theta=self.theta,
                                 spec_type = self.spec_type,
                                 kinProfile=self.kinProfile,
@@ -254,36 +256,30 @@ class KinModel2D(object):
                                 do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
                                 absvalsigma=self.kinModelOptions.absvalsigma,
                                 adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
+                                adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
                                 sigma_floor=self.kinModelOptions.sigma_floor,
                                 debug=self.debug)#,
         else:
             # self.aperModel.update_model(theta=self.theta,
             #                     kinProfile=self.kinProfile)
-            self.aperModel.update_model(theta=self.theta)
+            self.aperModel_3D.update_model(theta=self.theta)
 
-        ###################
-        # Do downsampling:
-        # # Save the 2D model to base part of class
-
-        # Shape: nSpec, nY, nX
-        nWave = len(galaxy.spec2D.wave.copy())
-        # if self.debug:
-        #     print("spec cube conv shape={}".format(self.aperModel.spectra_cube_conv.shape))
-        #     print("n_pix_y_whole={}, padY={}, n_pix_x_whole={}, padX={}".format(n_pix_y_whole,
-        #             self.aperModel.padY, n_pix_x_whole, self.aperModel.padX))
-        self.model_cube = kfuncs.rebin(self.aperModel.spectra_cube_conv.copy(),
-                    nWave, n_pix_y_whole+2*self.aperModel.padY, n_pix_x_whole+2*self.aperModel.padX)
+        self._downsample_3D_int_model()
 
         if self.debug:
-            # Downsample others too
-            self.I_wide = kfuncs.rebin(self.aperModel.I_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            # Downsample others too, without the padding
+            aper = self.aperModel_3D
+            n_pix_y_whole = aper.n_pix_y_whole
+            trimy = slice(aper.padY, aper.padY+aper.n_pix_y)
+            trimx = slice(aper.padX, aper.padX+aper.n_pix_x)
+            self.I_wide = kfuncs.rebin(aper.I_wide[:,trimy,trimx].copy(),
+                        n_pix_y_whole, n_pix_y_whole, n_pix_y_whole)
             #
-            self.V_wide = kfuncs.rebin(self.aperModel.V_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            self.V_wide = kfuncs.rebin(aper.V_wide[:,trimy,trimx].copy(),
+                        n_pix_y_whole, n_pix_y_whole, n_pix_y_whole)
             #
-            self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            self.I_Vsq_wide = kfuncs.rebin(aper.I_Vsq_wide[:,trimy,trimx].copy(),
+                        n_pix_y_whole, n_pix_y_whole, n_pix_y_whole)
 
     def update_3D_int_model(self, theta_fitting=None):
         # For illustrative purposes / toy-model use for mock analysis of IFU data:
@@ -298,10 +294,19 @@ class KinModel2D(object):
         #
         # self.aperModel.update_model(theta=self.theta,
         #                         kinProfile=self.aperModel.kinProfile)
-        self.aperModel.update_model(theta=self.theta)
+        self.aperModel_3D.update_model(theta=self.theta)
 
         # # Save the 2D model to base part of class
-        self.model_cube = self.aperModel.spectra_cube.copy()
+        self._downsample_3D_int_model()
+
+    def _downsample_3D_int_model(self):
+        # The cube is trimmed already. Shape: nSpec, nY, nX
+        # Average in wavelength, if upsampled, as the model is a flux density:
+        cube = self.aperModel_3D.spectra_cube_conv
+        nWave = self.aperModel_3D.nWave
+        self.model_cube = kfuncs.rebin(cube.copy(), nWave,
+                    self.aperModel_3D.n_pix_y_whole, self.aperModel_3D.n_pix_y_whole)*\
+                    (float(nWave)/cube.shape[0])
 
     # +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
-- 
2.43.0


From 5f96e57166c710384131e399176ea2ede8e37456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 37/60] fix: number of rows of mock observations

---
 misfit/mock/generate_basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 8af0e04..9863706 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -64,6 +64,8 @@ def generate_mock_basis(z=None,
 
 
     nwave = len(wave)
+    # Whole pixels along the slit (rounding errors do not add a pixel):
+    ny = int(np.ceil(np.round(instrument.slit_length/instrument.pixscale, 6)))
     galaxy = Galaxy(z=z, ID=ID,
                 n=n, re_arcsec=re_arcsec,
                 delt_PA=delt_PA, q=q, q0=q0,
@@ -73,10 +75,10 @@ def generate_mock_basis(z=None,
                     no_continuum_subtraction=True,
                     spec_type=spec_type)
 
-    spec2D.shape = [ int(np.ceil(instrument.slit_length/instrument.pixscale)), nwave]
+    spec2D.shape = [ny, nwave]
     if spec_type == 'wave':
         spec2D.initialize_lineset()
-    spec2D.m0 = np.ceil(instrument.slit_length/instrument.pixscale)/2. - 0.5
+    spec2D.m0 = ny/2. - 0.5
     spec2D.ypos = spec2D.m0
     galaxy.set_spectrum_2D(spec2D)
 
-- 
2.43.0


From 294c0f3dc0822efa62028fff0193f44614d06a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:30 +0000
Subject: [PATCH 38/60] fix: restored fits can be saved again and plotted

---
 misfit/fit/fit2D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index d48c55d..44a8e12 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -437,7 +437,8 @@ class FitEmissionLines2D(object):
 
 
         # Clean up a few things:
-        del fitEmis2DResults.galaxy.pstamp
+        #   (keep the attributes, so restored fits can be saved again and plotted)
+        fitEmis2DResults.galaxy.pstamp = None
         if 'spec_hdr' in fitEmis2DResults.galaxy.spec2D.__dict__.keys():
             del fitEmis2DResults.galaxy.spec2D.spec_hdr
 
-- 
2.43.0


From 4176c98a61d4d25c89325bb2fccc5c39a8a7abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 39/60] fix: position angle of images rotated by -90 degrees

---
 misfit/plot/plot_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 88b415c..e87f937 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -36,10 +36,7 @@ def pstamp_position_angle(pstamp_hdr):
         # Don't have any information, so you should return 0.
         return 0.
     else:
-        if cd22 == 0.:
-            return 90.
-        else:
-            return np.arctan2(cd21, cd22)*180./np.pi
+        return np.arctan2(cd21, cd22)*180./np.pi
 
 
 def pos_angle(pos1, pos2, units='degrees'):
-- 
2.43.0


From 6caf011837c49349a9a9060aa544959191c39860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 40/60] fix: signs of position angles beyond half a turn

---
 misfit/plot/plot_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index e87f937..e5b892f 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -61,12 +61,10 @@ def pos_angle(pos1, pos2, units='degrees'):
 
 def sign_from_pos_angle(pos_angle):
     ## Input in degrees
-    if pos_angle < 0.:
-        pos_angle += 360.
+    pos_angle = pos_angle % 360.
 
     if pos_angle > 180.:
-        PA_old = pos_angle.copy()
-        pos_angle = 360. - PA_old
+        pos_angle = 360. - pos_angle
 
     if pos_angle > 90.:
         return -1.
-- 
2.43.0


From fb2e99fed9d88c9f40ed975ad0260c5451bedeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 41/60] fix: lines, wavelengths and flux ratios set for the 2D
 fit

---
 misfit/fit/fit2D.py | 54 ++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 44a8e12..c0187b9 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -226,41 +226,25 @@ class FitEmissionLines2D(object):
         return copy.deepcopy(self)
 
     def setup(self):
-        if (self.linenames_arr is None):
-            if self.galaxy.spec2D.linenames_arr is None:
-                # linenames_arr = []
-                # set this from lib if not set:
-                d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
-                names_file = os.path.join(d, 'line_names_cat.dat')
-                self.linenames_arr = io.read_line_names(names_file, name=self.linegroup_name)
-                self.galaxy.spec2D.linenames_arr = self.linenames_arr
-            else:
-                self.linenames_arr = self.galaxy.spec2D.linenames_arr
-
-        if (self.linenames_arr is not None) & (self.restwave_arr is None):
-            if (self.galaxy.spec2D.linenames_arr is not None) & \
-                    (self.galaxy.spec2D.restwave_arr is None):
-                d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
-                wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
-                waves_arr = []
-                for linename in self.linenames_arr:
-                    waves_arr.append(io.read_restwave(wave_file, linename=linename))
-                self.restwave_arr = np.array(waves_arr)
-                self.galaxy.spec2D.restwave_arr = self.restwave_arr
-            else:
-                self.restwave_arr = self.galaxy.spec2D.restwave_arr
-
-        if (self.linenames_arr is not None) & (self.flux_ratio_arr is None):
-            if (self.galaxy.spec2D.linenames_arr is not None) & (self.galaxy.spec2D.flux_ratio_arr is None):
-                d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
-                wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
-                line_ratio_arr = []
-                for linename in self.linenames_arr:
-                    line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
-                self.flux_ratio_arr = np.array(line_ratio_arr)
-                self.galaxy.spec2D.flux_ratio_arr = self.flux_ratio_arr
-            else:
-                self.flux_ratio_arr = self.galaxy.spec2D.flux_ratio_arr
+        spec2D = self.galaxy.spec2D
+
+        # Wavelengths + ratios of the spectrum don't apply if the fit uses other lines:
+        if (self.linenames_arr is not None) and (spec2D.linenames_arr is not None):
+            if list(self.linenames_arr) != list(spec2D.linenames_arr):
+                spec2D.restwave_arr = None
+                spec2D.flux_ratio_arr = None
+
+        # What is set for the fit takes precedence over the spectrum, and over the lib info:
+        for key in ['linenames_arr', 'restwave_arr', 'flux_ratio_arr']:
+            if self.__dict__[key] is not None:
+                spec2D.__dict__[key] = self.__dict__[key]
+        if (spec2D.linenames_arr is None) and (self.linegroup_name is not None):
+            spec2D.linegroup_name = self.linegroup_name
+
+        spec2D.initialize_lineset()
+
+        for key in ['linenames_arr', 'restwave_arr', 'flux_ratio_arr']:
+            self.__dict__[key] = spec2D.__dict__[key]
 
 
         # Setup spectrum:
-- 
2.43.0


From c9f0391ef64a6c3baa5101e2dbc4b3778e697208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 42/60] fix: wavelength ranges of the 2D preparation given as
 lists

---
 misfit/general/galaxy_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 92dfe82..d7c6783 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -354,8 +354,8 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
 
     ######################################
     # Determine fitting ranges:
-    frange = spec2D.wave_full_range_rest*(1.+galaxy.z)
-    line_mask_range = spec2D.mask_lines_wave_range_rest*(1.+galaxy.z)
+    frange = np.array(spec2D.wave_full_range_rest)*(1.+galaxy.z)
+    line_mask_range = np.array(spec2D.mask_lines_wave_range_rest)*(1.+galaxy.z)
 
     # Select the left, right portions of continuum; full range
     wh_line_l = np.where((spec2D.obswave >= frange[0])&(spec2D.obswave < line_mask_range[0]))[0]
-- 
2.43.0


From c9070bd4edb9c3ae7d78dca777b103fe93bbfebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 43/60] fix: lines and wavelengths set for the 1D fit are those
 fitted

---
 misfit/fit/fit1D.py                  | 1 +
 misfit/model/emission_lines_model.py | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index cd40091..a354dd0 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -300,6 +300,7 @@ class FitEmissionLines1D(object):
         # raise ValueError
 
         emisModel = EmissionLinesSpectrum1DModel(names_arr=self.names_arr,
+                        linenames_arr=self.linenames_arr, restwave_arr=self.restwave_arr,
                         cont_order=self.cont_order, shape1D=self.shape1D)
 
         # Do the fitting:
diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index bb8b56c..cbd7e15 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -76,6 +76,10 @@ class EmissionLinesSpectrum1DModel(object):
         self.cont_order = None     # Order of the continuum fit (all in 1.e-18 flam): 0 is intercept only, etc
         self.shape1D = 'gaussian'  # eg, use
 
+        # Lines + wavelengths of each line set: from lib info if not set
+        self.linenames_arr = None
+        self.restwave_arr = None
+
         self.obswave_arr = None
 
         #self.profile = None
@@ -117,7 +121,10 @@ class EmissionLinesSpectrum1DModel(object):
         profile = np.zeros(len(obswave_arr))
 
         for i in range(len(self.names_arr)):
-            lineModel = EmissionLines1DModel(name=self.names_arr[i])
+            linenames = None if self.linenames_arr is None else self.linenames_arr[i]
+            restwaves = None if self.restwave_arr is None else self.restwave_arr[i]
+            lineModel = EmissionLines1DModel(name=self.names_arr[i],
+                            linenames_arr=linenames, restwave_arr=restwaves)
             lineModel.make1DProfile(obswave_arr, z, vel_disp, self.flux_arr[i])
             profile += lineModel.profile
 
-- 
2.43.0


From 93f230ae81b3b8a690825020e6e5e6d161ba44e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:24 +0000
Subject: [PATCH 44/60] fix: flux in the bins of a resampled image

The overlaps at the edges of a bin were counted again where they are aligned with the original pixels,
negative beyond the last pixel, and wrong for bins within a pixel.
---
 misfit/plot/plot_image_slit.py | 46 +++++-----------------------------
 1 file changed, 6 insertions(+), 40 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 0fd1f63..b5ceeee 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -502,49 +502,15 @@ def box_integrate(x, y, x_new, debug=False):
         low = x_new[i] - delt_x_new/2.
         high = x_new[i] + delt_x_new/2.
 
-        # Initialize integrated value:
-        int_y = 0.
-
-        try:
-            # Pixels wholly contained within the new range:
-            c_l = np.where(x_low >= low)[0]
-            c_r = np.where(x_high <= high)[0]
-            ind_c = np.array(list(set(c_l) & set(c_r)))
-            ind_c.sort()
-
-            int_y += np.sum(y[ind_c])*delt_x
-        except:
-            ind_c = 'None'
-
-
-        # For outside edges: wrap in try..except
-        #   to cover case of x_new extending further than
-        #   original x -- the missing data will implicitly be zero.
-        try:
-            # Find element of x_low just lower than low
-            ind_l = np.where(x_low <= low)[0].max()
-            # range corresponding to this interval:
-            # (x_high[ind_l] - low)
-
-            int_y += y[ind_l]*(x_high[ind_l]-low)
-        except:
-            ind_l = 'None'
-
-        try:
-            # find element of x_high just higher than high
-            ind_r = np.where(x_high >= high)[0].min()
-            # range corresponding to this interval:
-            # (high - x_low[ind_r])
-
-            int_y += y[ind_r]*(high-x_low[ind_r])
-        except:
-            ind_r = 'None'
+        # Length of every original pixel which is within this interval.
+        #   Where x_new extends further than the original x,
+        #   the missing data is implicitly zero.
+        overlap = np.clip(np.minimum(x_high, high) - np.maximum(x_low, low), 0., None)
 
         if debug:
-            print("indicies = {:d} {:d} {:d}".format(ind_l, ind_c, ind_r) )
-
+            print("indicies = {}".format(np.where(overlap > 0.)[0]) )
 
-        y_new[i] = int_y/delt_x_new
+        y_new[i] = np.sum(y*overlap)/delt_x_new
 
 
     return y_new
-- 
2.43.0


From f40bcde9b9ad443f3f4f61c53d55d77e15da9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:47 +0000
Subject: [PATCH 45/60] fix: galaxy images smoothed to the resolution of the
 spectrum stay in place

The kernel was centred on the galaxy (rotated without the position angle of the image) rather than on the array,
which moved the image of any galaxy off the centre of the stamp, and had the negative copies of dithered spectra.
---
 misfit/plot/plot_utils.py | 43 ++++++++-------------------------------
 1 file changed, 8 insertions(+), 35 deletions(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index e5b892f..193675d 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -4,13 +4,13 @@
 
 from __future__ import print_function
 
+import copy
 # import pandas as pd
 import numpy as np
 # import scipy as _sp
 
 # import six
 
-from astropy.wcs import WCS
 # from astropy import coordinates as coords
 
 from scipy.ndimage.interpolation import rotate as scipyrotate
@@ -168,30 +168,6 @@ def convolve_rot_gal(galaxy=None, instrument=None, instrument_img=None,
 
     ##################################################################
 
-    w = WCS(galaxy.pstamp.pstamp_hdr)
-    w.sip = None
-
-    origin = 'lower'   # Origin of pstamp for imshow
-    originWCS = 1     # FITS standard
-
-    # x is column, y is row: arrays are row, column
-    cent_pix= np.array([(np.shape(galaxy.pstamp.pstamp)[1]-1)/2.,
-            (np.shape(galaxy.pstamp.pstamp)[0]-1)/2.])
-
-    x0WCS, y0WCS = w.wcs_world2pix(galaxy.RA, galaxy.DEC, originWCS)
-    x0WCS -= 1. # convert to np pixel coordinates
-    y0WCS -= 1. # convert to np pixel coordinates
-
-    try:
-        slit_PA = galaxy.spec2D.slit_PA
-    except:
-        slit_PA = galaxy.spec1D.slit_PA
-
-
-    x0_rot, y0_rot = rot_object_center(x0WCS, y0WCS,
-                                cent_pix, -1.*slit_PA*deg2rad)
-    # in np pixel coordinates
-
     # Rotate the pstamp so the slit is vertical
     pstamp_rot = rotate_pstamp(galaxy)
 
@@ -204,20 +180,17 @@ def convolve_rot_gal(galaxy=None, instrument=None, instrument_img=None,
 
     # Make 2d gaussian:
     #conv_stamp = np.zeros(np.shape(pstamp_rot))
-    x = np.linspace(0, np.shape(pstamp_rot)[1], num=np.shape(pstamp_rot)[1],
-                endpoint=False)
-    y = np.linspace(0, np.shape(pstamp_rot)[0], num=np.shape(pstamp_rot)[0],
-                endpoint=False)
-    #cent = [y0_rot, x0_rot]
-
-    xoff = x - x0_rot
-    yoff = y - y0_rot
+    # Centered on the pixel which leaves the convolved image in place:
+    xoff = np.arange(np.shape(pstamp_rot)[1]) - (np.shape(pstamp_rot)[1]-1)//2
+    yoff = np.arange(np.shape(pstamp_rot)[0]) - (np.shape(pstamp_rot)[0]-1)//2
     xoffarc = xoff * instrument_img.pixscale
     yoffarc = yoff * instrument_img.pixscale
 
 
-    #
-    conv_stamp = instrument.PSF.generate_conv_stamp(xoffarc, yoffarc,
+    # The image has no negative dither copies
+    PSF = copy.deepcopy(instrument.PSF)
+    PSF.yspace_dither_arc = None
+    conv_stamp = PSF.generate_conv_stamp(xoffarc, yoffarc,
                 PSF_FWHM=conv_sigma*(2.*np.sqrt(2.*np.log(2.))))
 
 
-- 
2.43.0


From 8c98efe7edf92f5e48743906623f05234fe05bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:47 +0000
Subject: [PATCH 46/60] fix: image plots with current matplotlib, and verbose

---
 misfit/plot/plot_image_slit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index b5ceeee..714232a 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -175,7 +175,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
         if verbose:
             #print "yarc_orig=", yarc_orig
-            print("yarc_new={:0.3f}".format(yarc_new) )
+            print("yarc_new={}".format(yarc_new) )
 
         #!!!!!!!!!!!!!!!!!!!!!!!
 
@@ -243,7 +243,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         y_off_mid = (y0_gal-ylim[0]) - (m0+0.5)*instrument.pixscale/pscale
         ylim += y_off_mid
         if verbose:
-            print("(y0_gal-ylim[0]) - (m0+0.5)={:0.3f}".format( (y0_gal-ylim[0]) - (m0+0.5) ) )
+            print("(y0_gal-ylim[0]) - (m0+0.5)={}".format( (y0_gal-ylim[0]) - (m0+0.5) ) )
     #
     if verbose:
         print("ylim = {}".format(ylim) )
@@ -374,7 +374,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             ############
             # Information in sub-title:
             if external_ax is False:
-                ax.annotate(s=s, xy=[.5, 0.05], xycoords='figure fraction',
+                ax.annotate(s, xy=[.5, 0.05], xycoords='figure fraction',
                             ha='center', va='bottom')
             if verbose:
                 print("% misfit.plot.plot_image_slit:")
@@ -404,7 +404,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
             # Plot ellipse:
             ell = Ellipse((x0_gal,y0_gal), 2.*semi_minor/pscale,
-                            2.*semi_major/pscale, galfit_angle,
+                            2.*semi_major/pscale, angle=galfit_angle,
                             ec='blue', fc='none', fill=False, zorder=11)
 
             ####################################
-- 
2.43.0


From aaf70d83b458ba08cc3db0a759d9d19a3ecf9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:47 +0000
Subject: [PATCH 47/60] fix: image plots without the galfit ellipse, and
 resampled without m0

---
 misfit/plot/plot_image_slit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 714232a..b6e126e 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -105,6 +105,8 @@ def plot_image_slit(galaxy=None, instrument=None,
         x0_galfit, y0_galfit = w.wcs_world2pix(galaxy.sersicRA, galaxy.sersicDEC, originWCS)
         x0_galfit -= 1. # Convert to np pixel coords
         y0_galfit -= 1. # Convert to np pixel coords
+    else:
+        x0_galfit, y0_galfit = x0WCS_sci.copy(), y0WCS_sci.copy()
 
     # x is column, y is row: arrays are row, column
     cent_pix= np.array([(np.shape(galaxy.pstamp.pstamp)[1]-1)/2.,
@@ -169,6 +171,8 @@ def plot_image_slit(galaxy=None, instrument=None,
         yarr_new = np.linspace(0, n_round, num=n_round, endpoint=False)
         # Center on m0:
         ycent = m0
+        if m0 is None:
+            ycent = (n_round-1)/2.
 
         yarr_new -= ycent
         yarc_new = yarr_new*instrument.pixscale
-- 
2.43.0


From 799a427b00a921c487fc9159789734243c3fcdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:47 +0000
Subject: [PATCH 48/60] fix: offset of the slit drawn on images, in pixels of
 the image shown

---
 misfit/plot/plot_image_slit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index b6e126e..4275ca7 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -302,7 +302,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             slit_angle = galaxy.spec1D.slit_PA - galaxy.pstamp.img_PA
 
     # Offset in slit coords -- pixels
-    y0_off = galaxy.spec2D.yoffset/instrument.pixscale
+    y0_off = galaxy.spec2D.yoffset/pscale
 
     ##############
     # Corner coords: slit rectangle
-- 
2.43.0


From 967fd19b554f772f633417d6c15c1becbba4da7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:47 +0000
Subject: [PATCH 49/60] fix: brightness scale of images with the galaxy near
 the edge

---
 misfit/plot/plot_image_slit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 4275ca7..5ee48e2 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -257,6 +257,10 @@ def plot_image_slit(galaxy=None, instrument=None,
     xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
     ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
+    # (the part which is on the image)
+    xlim_round = np.clip(xlim_round, 0, None)
+    ylim_round = np.clip(ylim_round, 0, None)
+
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
     range_spec = tmp_trim[np.isfinite(tmp_trim)].copy()
-- 
2.43.0


From 2385749cc4a7991c77b44036b5716b79a11d3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:03 +0000
Subject: [PATCH 50/60] fix: plots of fits without a model

---
 misfit/plot/plot_bestfit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index e5ded5f..7463167 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -76,10 +76,10 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
 
     #
     # Pstamp + slit plot, image convolved to spectrum resolution:
-    if fitEmis2D.kinModel.bestfit is not None:
-        m0shift = fitEmis2D.kinModel.bestfit.theta[-2]
-    else:
-        m0shift = 0.
+    m0shift = 0.
+    if fitEmis2D.kinModel is not None:
+        if fitEmis2D.kinModel.bestfit is not None:
+            m0shift = fitEmis2D.kinModel.bestfit.theta[-2]
 
 
     if fitEmis2D.galaxy.pstamp is not None:
-- 
2.43.0


From 7d2252fd019167ce6f157baef1123782bd857205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:04 +0000
Subject: [PATCH 51/60] fix: plots of fits with sky columns left out

---
 misfit/plot/plot_bestfit.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index 7463167..a9ab1c0 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -261,7 +261,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
             if fitEmis2D.kinModel is not None:
                 axes[3].axvline(x=low, ls=ls, color=column_color)
                 axes[4].axvline(x=low, ls=ls, color=column_color)
-        if hi != n_sp-1:
+        if hi != n_wave-1:
             hi += 0.5 # top of pixel
             axes[2].axvline(x=hi, ls=ls, color=column_color)
             if fitEmis2D.kinModel is not None:
@@ -276,27 +276,25 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     hatch_pattern = '//'
     lw_edge_hatch = 0
     for wh in wh_cont:
-        if len(wh_cont) == 1:
-            wh_cont = [wh_cont[0], wh_cont[0]]
-        axes[2].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                        [n_wave-pad, wh_cont[0]-pad],
-                        [n_wave-pad, wh_cont[-1]+1-pad],
-                        [-pad, wh_cont[-1]+1-pad]],
+        axes[2].add_patch(Polygon([[wh[0]-pad, -pad],
+                        [wh[-1]+1-pad, -pad],
+                        [wh[-1]+1-pad, n_sp-pad],
+                        [wh[0]-pad, n_sp-pad]],
                         closed=True,
                         lw=lw_edge_hatch,
                         fill=False, color = color_hatch))
         if fitEmis2D.kinModel is not None:
-            axes[3].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[-1]+1-pad],
-                            [-pad, wh_cont[-1]+1-pad]],
+            axes[3].add_patch(Polygon([[wh[0]-pad, -pad],
+                            [wh[-1]+1-pad, -pad],
+                            [wh[-1]+1-pad, n_sp-pad],
+                            [wh[0]-pad, n_sp-pad]],
                             closed=True,
                             lw=lw_edge_hatch,
                             fill=False, hatch=hatch_pattern, color=color_hatch))
-            axes[4].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[-1]+1-pad],
-                            [-pad, wh_cont[-1]+1-pad]],
+            axes[4].add_patch(Polygon([[wh[0]-pad, -pad],
+                            [wh[-1]+1-pad, -pad],
+                            [wh[-1]+1-pad, n_sp-pad],
+                            [wh[0]-pad, n_sp-pad]],
                             closed=True,
                             lw=lw_edge_hatch,
                             fill=False, hatch=hatch_pattern, color=color_hatch))
-- 
2.43.0


From d7ab88bb46193ceaf475435766bef11d50af47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 52/60] fix: corner plots with current corner

It refuses to write titles with four quantiles; the titles are written here.
---
 misfit/plot/plot_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 7e189e2..1629ecd 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -47,7 +47,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
                             truths=truths,
                             plot_datapoints=False,
-                            show_titles=True,
+                            show_titles=False,      # Set below
                             bins=40,
                             plot_contours=True,
                             verbose=verbose)
-- 
2.43.0


From ebf893da300db48d111bf2b523389897937e2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:30 +0000
Subject: [PATCH 53/60] fix: corner plots of fits with the dispersion fixed

---
 misfit/plot/plot_mcmc.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 1629ecd..9ab1fa2 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -146,18 +146,20 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             xytext=(0,2), textcoords='offset points',
                             ha='left', va='bottom')
 
-    # Annotate sigma
-    wh_sig = np.where(np.array(fitEmis2D.mcmc_results.theta_names) == 'sigma0')[0][0]
-    val = "%3.2f" % fitEmis2D.mcmc_results.bestfit_theta[wh_sig]
-    lower = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][0]
-    upper = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][1]
-    if usetex:
-        sig_string = r"$\sigma="+val+"^{"+upper+r"}_{"+lower+"}$"
-    else:
-        sig_string = "sigma="+val+"-"+lower+"+"+upper
-    fig.gca().annotate(sig_string, xy=(.33, 0.), xycoords="figure fraction",
-                        xytext=(0,2), textcoords="offset points",
-                        ha="right", va="bottom")
+    # Annotate sigma, if it was fit
+    wh_sig = np.where(np.array(fitEmis2D.mcmc_results.theta_names) == 'sigma0')[0]
+    if len(wh_sig) > 0:
+        wh_sig = wh_sig[0]
+        val = "%3.2f" % fitEmis2D.mcmc_results.bestfit_theta[wh_sig]
+        lower = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][0]
+        upper = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][1]
+        if usetex:
+            sig_string = r"$\sigma="+val+"^{"+upper+r"}_{"+lower+"}$"
+        else:
+            sig_string = "sigma="+val+"-"+lower+"+"+upper
+        fig.gca().annotate(sig_string, xy=(.33, 0.), xycoords="figure fraction",
+                            xytext=(0,2), textcoords="offset points",
+                            ha="right", va="bottom")
 
 
     # Annotate V(R_E)
-- 
2.43.0


From f98fc783211d701d5cee4e98777588bb89a7d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:30 +0000
Subject: [PATCH 54/60] fix: corner plots of fits with the rotation velocity
 fixed

---
 misfit/plot/plot_mcmc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 9ab1fa2..d3bab06 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -43,9 +43,13 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
     samples = fitEmis2D.sampler_dict['flatchain'][:,:-2]
 
 
+    # Range of values: parameters that don't vary (eg V(R_E) if the velocity is fixed) need it set
+    ranges = [1. if samples[:,i].max() > samples[:,i].min() else
+                (samples[0,i]-0.5, samples[0,i]+0.5) for i in range(samples.shape[1])]
+
     fig = corner.corner(samples, labels=fitEmis2D.mcmc_results.theta_names_nice,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
-                            truths=truths,
+                            truths=truths, range=ranges,
                             plot_datapoints=False,
                             show_titles=False,      # Set below
                             bins=40,
-- 
2.43.0


From d5fd80aedd2383bb9086eec4933805999db2bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:31 +0000
Subject: [PATCH 55/60] fix: line of constant velocity in corner plots of
 linked parameters

It used the index of the parameters that vary as the index of all parameters, was lost for pairs without the first
parameter, and used the effective radius of the light where the best-fit values use that of the mass.
---
 misfit/plot/plot_mcmc.py | 43 +++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index d3bab06..76483bb 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -7,6 +7,7 @@
 from __future__ import print_function
 
 import numpy as np
+import copy
 import os
 # import six
 
@@ -101,33 +102,21 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
             v22_best = truths[-1]
 
             ###
-            theta_orig = fitEmis2D.kinModel.kinProfile.theta.copy()
-            len_tmp = len(col2arr)
-            for i in range(len(fitEmis2D.kinModel.kinProfile.theta)):
-                if i in fitEmis2D.theta_linked_posteriors[j]:
-                    if i == fitEmis2D.theta_linked_posteriors[j][0]:
-                        theta_tmp = np.array([np.ones(len_tmp)])
-                    else:
-                        # The fixed dimension:
-                        theta_tmp = np.append(theta_tmp,
-                                    np.array([col2arr]), axis=0)
-                else:
-                    if i > 0:
-                        theta_tmp = np.append(theta_tmp,
-                                    np.array([np.repeat(fitEmis2D.kinModel.bestfit.theta[i],
-                                            len_tmp)]), axis=0)
-                    else:
-                        theta_tmp = np.array([np.repeat(fitEmis2D.kinModel.bestfit.theta[i],
-                                    len_tmp)])
-
-            fitEmis2D.kinProfile.update_theta(theta_tmp)
-
-            V_re_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(fitEmis2D.galaxy.re_arcsec, 0.)
-            V_22_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_arcsec, 0.)
-
-
-            fitEmis2D.kinProfile.theta = theta_orig
-            fitEmis2D.kinProfile.update_theta(theta_orig)
+            # Indices of the linked parameters (of those that vary) among all parameters:
+            inds_theta = np.where(fitEmis2D.kinModel.theta_vary)[0][fitEmis2D.theta_linked_posteriors[j][:2]]
+
+            # All other parameters at the best fit
+            theta_tmp = np.tile(np.array([fitEmis2D.kinModel.bestfit.theta]).T, (1, len(col2arr)))
+            theta_tmp[inds_theta[0],:] = 1.
+            theta_tmp[inds_theta[1],:] = col2arr
+
+            kinProfile = copy.deepcopy(fitEmis2D.kinModel.kinProfile)
+            kinProfile.update_theta(theta_tmp)
+
+            # Same radii as for the best-fit values:
+            V_re_arr_dummy = kinProfile.vel(fitEmis2D.galaxy.re_mass_arcsec, 0.)
+            V_22_arr_dummy = kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_mass_arcsec, 0.)
+
 
             #This only works if col1 variable is multiplicative only on the velProfile.
             col1arr_re = vre_best/V_re_arr_dummy
-- 
2.43.0


From 3f9e8dea7263a93afe34495a10c29bf71ffe8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:37 +0000
Subject: [PATCH 56/60] fix: corner plots with usetex, drawn by mathtext

---
 misfit/plot/plot_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 76483bb..d3c0367 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -132,7 +132,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
     # Annotate R_E, n
     if usetex:
-        galparam_str = r'$n=%0.2f$, $R_E=%0.2f "$' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
+        galparam_str = r'$n=%0.2f$, $R_E=%0.2f$ "' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     else:
         galparam_str = r'n=%0.2f, RE=%0.2f "' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     fig.gca().annotate(galparam_str, (0.01, 0.), xycoords='figure fraction',
-- 
2.43.0


From bf40a41e057f93663a5e459ba23fbbb505b840b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:47 +0000
Subject: [PATCH 57/60] fix: 1D aperture models sharing an instrument used each
 other's kernel when calculated again

---
 misfit/model/aper_model.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index a6f3a27..50108e1 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -165,10 +165,13 @@ class AperModel1DDisp(AperModel1DDispBase):
         cent = [np.mean(self.x_arr), np.mean(self.y_arr)]
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self.conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
 
     def calc_aper_correction(self):
+        # Other models might share the instrument
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.sigma_ap = kfuncs.sigma_aper_dispersion(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
@@ -204,10 +207,13 @@ class AperModel1DDispMisalign(AperModel1DDispBase):
         cent = [np.mean(self.x_arr), np.mean(self.y_arr)]
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self.conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
 
     def calc_aper_correction(self):
+        # Other models might share the instrument
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.sigma_ap = kfuncs.sigma_aper_dispersion_misalign(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
@@ -271,11 +277,14 @@ class AperModel1DRot(AperModel1DBase):
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
 
 
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self.conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
 
 
     def calc_aper_correction(self, recalc=False):
+        # Other models might share the instrument
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.update_kinProfile()
 
 
-- 
2.43.0


From f10e4536828d9cb54fea91464960aca85d64738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:38 +0000
Subject: [PATCH 58/60] fix: debug plot of the continuum subtraction used
 non-integer indices and failed

---
 misfit/general/galaxy_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index d7c6783..123e0ca 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -440,7 +440,7 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
             ax = _plt.subplot(gs1[0,0])
             ax2 = _plt.subplot(gs1[0,1])
 
-            yy1d_range = yy1d.copy()
+            yy1d_range = yy1d[np.isfinite(yy1d)]
             yy1d_range.sort()
 
             ax.axvline(x=spec2D.restwave_arr[0], ls='-', color='red')
@@ -453,7 +453,7 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
                         ls='-', color='orange')
 
 
-            ax.set_ylim([yy1d_range[0.01*len(yy1d)], yy1d_range[0.99*len(yy1d)]])
+            ax.set_ylim([yy1d_range[int(0.01*len(yy1d_range))], yy1d_range[int(0.99*len(yy1d_range))]])
             ax.set_title('Continuum fit, 1D spectrum')
 
 
-- 
2.43.0


From ff260f285b3310cca48ed444fc2296a13b2bb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:38 +0000
Subject: [PATCH 59/60] fix: plotting the emission profile replaced the
 measured extent by missing values

---
 misfit/general/galaxy_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 123e0ca..274e163 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -1672,7 +1672,11 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
                     f_or_m = "-".join(gal.maskname.split("_"))
                 except:
                     f_or_m = gal.field
-                ax.set_title(r'{}.{}.{} (SLITOBJNAME: {})'.format(f_or_m, spec2D.band, np.int64(gal.ID), spec2D.slitobjname))
+                title = '{}.{}.{}'.format(f_or_m, spec2D.band, gal.ID)
+                # Not every spectrum has the name of the object in the slit:
+                if getattr(spec2D, 'slitobjname', None) is not None:
+                    title += ' (SLITOBJNAME: {})'.format(spec2D.slitobjname)
+                ax.set_title(title)
 
                 if (filename_plot is not None):
                     _plt.savefig(filename_plot, bbox_inches='tight', dpi=300)
-- 
2.43.0


From edea935d14ad4c7077b56056961bed566111a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:36 +0000
Subject: [PATCH 60/60] fix: refits of 1D lines with bounds returned zero flux
 and could flip the signs

---
 misfit/fit/fit1D.py | 57 +++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index a354dd0..69b8e79 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -229,6 +229,44 @@ class FitEmissionLines1D(object):
 
         return params
 
+    def _fit_bounded(self, emisModel, vel_disp_bound=False, flux_bound=False):
+        """
+        Redo the fit with lower bounds. Bounded fluxes are fit in units of their initial values:
+        the bounds of LMFIT don't resolve values of order 1.e-17.
+        """
+        params = self.make_params(vel_disp_bound=vel_disp_bound, flux_bound=flux_bound)
+        params_unscaled = params.copy()
+
+        scale = {}
+        for name in params:
+            scale[name] = 1.
+        if vel_disp_bound:
+            params['vel_disp'].value = np.abs(self.vel_disp)
+        if flux_bound:
+            flux_max = np.max(np.abs(self.flux_arr))
+            for i in range(len(self.names_arr)):
+                name = 'flux'+str(i)
+                scale[name] = np.abs(self.flux_arr[i])
+                if scale[name] == 0.:
+                    scale[name] = flux_max if flux_max > 0. else 1.e-17
+                params[name].value = 1.
+
+        def residual(params_scaled, *args):
+            for name in scale:
+                params_unscaled[name].value = params_scaled[name].value*scale[name]
+            return emisModel.residual1DProfile(params_unscaled, *args)
+
+        result = lmfit.minimize(residual, params,
+            args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
+                self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+
+        for name in scale:
+            result.params[name].value *= scale[name]
+            if result.params[name].stderr is not None:
+                result.params[name].stderr *= scale[name]
+
+        return result
+
     def fit(self, reload_errors=False,
             noErrors=False, noPlot=False,
             plot_filename=None, err_filename=None,
@@ -309,21 +347,10 @@ class FitEmissionLines1D(object):
                     self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
 
         #raise ValueError
-        if (result.params['vel_disp'].value < 0.) & (result.params['flux0'].value < 0.):
-            params = self.make_params(vel_disp_bound=True, flux_bound=True)
-            result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
-        elif (result.params['vel_disp'].value < 0.):
-            params = self.make_params(vel_disp_bound=True)
-            result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
-        elif (result.params['flux0'].value < 0.):
-            params = self.make_params(flux_bound=True)
-            result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+        if (result.params['vel_disp'].value < 0.) | (result.params['flux0'].value < 0.):
+            # Always bound the dispersion: the signs of the dispersion + fluxes are degenerate
+            result = self._fit_bounded(emisModel, vel_disp_bound=True,
+                flux_bound=(result.params['flux0'].value < 0.))
 
         #if not result.errorbars:
         #    fix_cont = True
-- 
2.43.0

