AP, KF, KC, KM = ('misfit/model/aper_model.py', 'misfit/model/kin_functions.py',
                  'misfit/model/kin_classes.py', 'misfit/model/kin_model.py')
GU, GE, GA, IN = ('misfit/general/galaxy_utils.py', 'misfit/general/general_utils.py',
                  'misfit/galaxy.py', 'misfit/instrument.py')
FC, F2, F1, FIO = ('misfit/fit/fit_core.py', 'misfit/fit/fit2D.py', 'misfit/fit/fit1D.py', 'misfit/fit/fit_io.py')
EM, IO, MO, PU = ('misfit/model/emission_lines_model.py', 'misfit/general/io.py',
                  'misfit/mock/generate_basic.py', 'misfit/plot/plot_utils.py')


def add(p):
    p('C08', 'Preparing a 2D spectrum keeps every array aligned pixel for pixel',
      '''After preparation for fitting, flux, error, weight, every mask, continuum model, unsubtracted flux, wavelengths and
      fitting weights have one common shape and row and column k of all of them belong to the same original pixel; the kept columns are
      exactly those inside the requested observed wavelength window and the kept rows are one contiguous range (all rows when not dithered).
      The combined mask is zero wherever the data are missing, non-finite, zero weight, masked by the user, masked in the 1D spectrum or in a low
      signal row; sky line columns are flagged apart from it, and preparing a prepared spectrum again changes nothing.''',
      ['inputs', 'configurations'],
      'all defect patterns (missing, non-finite, zero weight, user masked, sky) of a bounded spectrum, all windows and dither settings',
      'Misalignment by one row or column appears only for particular trims and defect positions; no test prepares a spectrum and looks at it.',
      [GA, GU],
      [('preparation sequence', GA + ': ObsSpectrum2D.fit_prep_calcs'),
       ('trimming', GU + ': trim_spectrum_2D_wavelength, trim_spectrum_2D_spatial'),
       ('masks', GU + ': spec_mask_missing, mask_spec2D_from_1D, get_skyline_mask_2D')],
      'attributes of galaxy.spec2D after fit_prep_calcs')

    p('C09', 'Continuum subtraction removes exactly the linear continuum',
      '''For every row, the prepared flux plus the recorded continuum equals the original flux, and the recorded continuum is the weighted
      straight line fit outside the line region whose slope is that of the 1D spectrum, so a noiseless linear continuum with common slope is removed exactly
      and pure line flux is untouched, wherever the pixels are masked.
      Masked pixels, sky columns (for the slope) and pixels in the line region never influence the continuum, a continuum seen on one side of the line only is treated as flat,
      and with subtraction switched off the flux is unchanged.''',
      ['inputs'],
      'all continuum levels and slopes of an alphabet with all defect patterns of bounded spectra',
      'Leaks come from particular masked positions relative to the window edges.',
      [GU], [('continuum fit and subtraction', GU + ': subtract_continuum_2D')],
      'galaxy.spec2D.flux, cont_model, flux_incl_cont after preparation')

    p('C10', 'Low signal rows and sky columns are selected by the documented rules',
      '''A row has low signal if its summed flux over usable, non-sky pixels divided by its summed-in-quadrature error is below the cut in absolute value; when there are several
      runs of high signal rows those of at most two rows are rejected as well; and a run of high rows that touches a slit end but ends within that half of the slit
      (a low row follows it before the middle row) is low too.
      A column is sky when its error summed in quadrature over usable pixels reaches the band cutoff times the median of that quantity; only that column is flagged.''',
      ['inputs'],
      'every pattern of high and low rows, and of bright error columns, up to a bounded size',
      'The rule is about patterns of runs; tests sample none of the exponentially many patterns.',
      [GU, GE], [('low signal rows', GU + ': mask_low_snr_rows_2D'), ('sky columns', GU + ': mask_skylines_2D, wh_skylines_1D'),
                 ('runs', GE + ': wh_continuous')],
      'masks and row/column lists returned for each pattern')

    p('C11', 'Fitting weights favour rows as configured and sum to one',
      '''The per-row fitting weights are non-negative, sum to one over the rows (or are all zero when no row is usable) and are the same in every column of a row.
      Up-weighting of edges gives weights inversely proportional to the row signal to noise, optimal weighting the Gaussian that fits the row brightness (continuum included), both zero in low signal rows; no weighting gives equal weights.''',
      ['inputs', 'configurations'],
      'all row signal patterns over a level alphabet up to a bounded number of rows, for each weighting type',
      'No test computes weights; errors show for particular low row patterns.',
      [GU, GA], [('weights', GU + ': calculate_2D_fit_weights')],
      'spec2D.fitting_weight_profile and fitting_weight_matrix')

    p('C12', '1D trimming and masks keep and drop exactly the right pixels',
      '''Trimming a 1D or 2D spectrum that is not yet prepared for fitting returns exactly the pixels whose observed wavelength lies in the requested range, end points included, with all arrays cut alike and rest wavelengths recomputed;
      a rest frame range means that range times (1+z), and a copying trim leaves the input untouched.
      Edge masking masks the given number of pixels inwards from the first and last usable pixel on each side where the data do not reach the array end, and never unmasks;
      missing data (non-finite flux or error, zero weight, zero error unless no pixel has an error) are masked, nothing else is.''',
      ['inputs'],
      'all mask patterns up to a bounded length, all edge counts, all ranges relative to the pixel positions',
      'Boundary errors need particular mask patterns and ranges.',
      [GU, GA], [('trimming', GU + ': trim_spectrum_1D, trim_spectrum_2D_wavelength'),
                 ('edge and missing masks', GU + ': mask_edges_1D, spec_mask_missing, spec_nan_masking')],
      'returned spectra and masks')

    p('C13', 'The 1D emission model adds lines of the stated flux to the continuum',
      '''The 1D model is the continuum polynomial plus, per line, a Gaussian in observed wavelength at rest wavelength times (1+z), whose width combines the velocity dispersion and the instrument dispersion in quadrature
      and whose integral is the line flux (times the fixed ratio of the doublet member), wherever the line lies relative to the pixel grid.
      It is additive over lines, linear in the fluxes and unaffected by masks.''',
      ['inputs', 'configurations'],
      'all combinations of line groups, redshifts, dispersions, fluxes, continuum coefficients and sub-pixel line positions',
      'Normalisation errors vanish at the pixel-centred positions a test would pick.',
      [EM], [('line and continuum model', EM + ': EmissionLinesSpectrum1DModel')],
      'EmissionLinesSpectrum1DModel flux arrays against an independent implementation')

    p('C14', '1D fits recover the lines and ignore masked data',
      '''Fitting a noiseless 1D spectrum returns the redshift, intrinsic velocity dispersion and line fluxes that generated it, for every supported line combination, with the dispersion corrected for the instrument,
      whatever the signs of the starting values, as long as the main line is in emission. The returned dispersion is never negative; when the main line is in absorption the fit either describes the absorption
      or returns fluxes that are not negative and that are the best without the main line.
      Masked pixels never influence the result, a fixed random seed reproduces the Monte Carlo errors, the errors are the 68 percent ranges of refits of noise-perturbed data,
      a saved result reloads as the same result, and a fit that cannot be done (no instrument resolution, a plot or error file without a name) is refused before anything is written.''',
      ['inputs', 'configurations'],
      'all line combinations, truths of an alphabet, and masked pixel patterns of bounded spectra',
      'The tests do not fit 1D spectra at all.',
      [F1, EM], [('fit and errors', F1 + ': FitEmissionLines1D')],
      'results of FitEmissionLines1D')

    p('C15', 'Dispersion aperture corrections equal the light weighted dispersion ratio',
      '''The dispersion aperture correction is the square root of the PSF convolved, light and extraction weighted mean of the squared dispersion profile inside the slit aperture, divided by that of the
      circular aperture of the requested radius, using the same Sersic light, core radius and power-law slope in both.
      It does not depend on the angular unit (all lengths scaled together), equals one for a flat dispersion profile, is even in position angle and in slit offset, and the misaligned elliptical calculation equals the round one when the axis ratio is one.''',
      ['configurations', 'inputs'],
      'all combinations of size, axis ratio, Sersic index, position angle, offset, aperture, extraction method, PSF type and slope in the bounded grid',
      'The tests pin four numbers at one geometry with the default slope.',
      [AP, KF], [('aperture dispersion', KF + ': sigma_aper_dispersion, sigma_aper_dispersion_misalign, sigma_e_dispersion'),
                 ('grids', AP + ': AperModel1DDisp, AperModel1DDispMisalign')],
      'disp_aper_ratio of both models')

    p('C16', 'Rotation aperture corrections equal the light weighted second moment',
      '''The rotation aperture correction is the square root of the PSF convolved, light and extraction weighted mean of squared line of sight velocity plus squared dispersion in the slit aperture,
      divided by the square root of squared velocity plus squared dispersion at the reference radius.
      It is independent of the velocity normalisation and of its sign, is one when velocity over dispersion is zero, follows the requested velocity to dispersion ratio (none meaning no dispersion), and is even under mirroring of position angle and slit offset together.''',
      ['configurations', 'inputs'],
      'all combinations of geometry, V/sigma, turnover radius, offset, extraction method and PSF in the bounded grid',
      'The tests pin six numbers at one geometry.',
      [AP, KF], [('aperture second moment', AP + ': AperModel1DRot')],
      'AperModel1DRot.disp_aper_ratio')

    p('C17', 'The sampling run follows its protocol for every sampler behaviour',
      '''A fit takes exactly the configured burn-in steps and then at most the configured number of sampling steps, stopping early only when early stopping is requested, the acceptance fraction is in range and the chain has exceeded
      the required number of autocorrelation times, with at least the minimum number of steps (50); burn-in samples never enter the posterior.
      The recorded chain, probabilities, acceptance fraction and step counts are those of the sampling steps actually taken, every walker starts inside the bounds, the worker pool is closed on every path, and results go only to the configured files.''',
      ['schedules', 'histories', 'configurations'],
      'all sequences of sampler answers (acceptance fraction, autocorrelation time or its failure) over a small alphabet up to the bounded number of steps, for all option settings',
      'A run of the real sampler shows one random answer sequence; the stopping rules depend on all of them.',
      [FC], [('sampling loop', FC + ': run_mcmc'), ('walker start', FC + ': init_walker_pos')],
      'calls seen by a stand-in sampler and pool; fit results and files')

    p('C18', 'Posterior summaries report the peak and limits of each parameter',
      '''The best fit and the lower and upper errors of every free parameter are computed from the post burn-in chain of that parameter alone (or, for linked parameters, from the joint distribution of the linked ones):
      best fit minus lower error and best fit plus upper error are the 68 percent limits, the 95 percent limits likewise, for any number of linked groups.
      The best-fit model keeps fixed parameters at their values, and relabelling walkers or steps does not change the summary.''',
      ['inputs', 'configurations'],
      'all subsets of free parameters and all linked groupings on bounded chains',
      'Index errors need particular fixed subsets or more than one linked group.',
      [FC, GE], [('chain analysis', FC + ': get_chain_results'), ('peak finding', GE + ': find_peak_gaussian_KDE, get_bestfit_values_linked')],
      'fit.mcmc_results')

    p('C19', 'Derived velocities follow from the fitted parameters sample by sample',
      '''The rotation velocity at the effective radius and at 2.2 scale lengths and the dispersion there are computed for every posterior sample from that sample's own parameters (fixed parameters at their fixed values) with the kinematic profile,
      and their best fit, errors and limits refer to those derived samples.
      The fraction of samples of a parameter whose sign differs from that of its best fit is reported in percent.''',
      ['inputs', 'configurations'],
      'all fixed subsets and parameter orders on bounded chains',
      'Derived quantities depend on the order and subset of free parameters; tests run none of it.',
      [FC], [('derived chains', FC + ': derived quantities of the chain')],
      'fit.mcmc_results derived entries')

    p('C20', 'Fits of different galaxies do not affect each other',
      '''Whatever the order in which two fits, models or spectra are created, prepared, updated and analysed in one session, each of a different galaxy gives the result it gives alone;
      default options, results and profiles are never shared between instances (objects the user passes to both excepted), and copies are independent of their originals.''',
      ['histories'],
      'all interleavings of the operations of two fits up to a bounded length',
      'Leaks through shared defaults or instruments need a second fit after the first.',
      [F2, FC, KM, AP], [('defaults', F2 + ': FitEmissionLines2D.__init__'), ('defaults', KM + ': KinModel2D.__init__')],
      'results of each fit in every interleaving against the fit alone')

    p('C21', 'Saved fits reload as they were',
      '''A saved sampler, and a saved best-fit result, when reloaded into a fresh fit give the same chain, best-fit parameters, errors, derived values and best-fit model as before saving; re-analysing a reloaded chain repeats the analysis exactly.
      Saving does not change the fit being saved, and nothing is read or written when no file name is configured.''',
      ['histories', 'configurations'],
      'all sequences of save, reload, re-analyse and overwrite operations up to a bounded length',
      'No test saves or reloads.',
      [F2, FIO, FC], [('save and reload', F2 + ': save_bestfit_model, reload_results, reload_bestfit_model'), ('pickles', FIO)],
      'fit attributes before saving and after reloading')

    p('C22', 'Geometry helpers agree with elementary geometry for every angle',
      '''Inclination from axis ratio, slit offset angle from position angles (folded to within 90 degrees, unchanged by adding half turns to any input), projections of the major axis on the slit and back,
      the position angle of an image from its header and the signs of an angle along the image axes, and the coordinate rotation and inclination of the 3D model agree with elementary geometry; the transform preserves lengths and is the identity for a face-on aligned galaxy.''',
      ['inputs'],
      'all angles and axis ratios of a dense bounded grid including the special angles',
      'Errors show at particular quadrants and boundaries.',
      [GE, GU, KF], [('helpers', GE), ('offset angle', GU + ': calculate_slit_offset_angles'), ('transform', KF + ': transform_int_3d, sin_i')],
      'function values')

    p('C23', 'PSF kernels have the stated shape, width and negative images',
      '''A PSF kernel is a circular Gaussian or Moffat profile of the configured full width at half maximum and beta centred on the given coordinates, with half-strength negative copies at plus and minus the dither separation along the slit when
      dithering is configured, for either profile; the values at given coordinates do not depend on the grid and the kernel is indexed by slit position first and cross-slit position second.''',
      ['inputs', 'configurations'],
      'all profiles, widths, betas, dithers and (rectangular) grids of a bounded alphabet',
      'Tests use one Gaussian PSF without dither.',
      [IN], [('kernels', IN + ': PSF_stamp_gauss, PSF_stamp_moffat, PSFGaussian, PSFMoffat')],
      'generate_conv_stamp')

    p('C24', 'Line tables give each line its own wavelength, ratio and range',
      '''Every line group and line of the shipped tables resolves to its lines, vacuum wavelengths and flux ratios and, where it has them, its 2D ranges (the full range holds the masking range, which holds the line range, which holds the line) and 1D range.
      Lines, wavelengths and ratios given explicitly take precedence over the tables, for 1D lines and fits, 2D spectra and 2D fits (where those given to the fit come before those of the spectrum), as do ranges given to the 2D spectrum;
      names that are not in the tables, and lines without the ranges needed, are reported rather than replaced by another line.''',
      ['configurations'],
      'all line groups, lines and table entries, and all subsets of explicitly given settings',
      'Tests use one line.',
      [IO, GA, F2, 'misfit/lib/line_wavelengths_ratios.dat'], [('tables', IO), ('line set', GA + ': ObsSpectrum2D.initialize_lineset'), ('precedence', F2 + ': FitEmissionLines2D.setup')],
      'resolved line sets')

    p('C25', 'Image resampling conserves flux and places features correctly',
      '''Binning a profile onto new bins assigns to each bin the integral over the overlap, so total flux is conserved wherever the new bins cover the old, no bin is negative for non-negative data and shifts of the bins shift the result.
      Rotating a galaxy image so that the slit is vertical, cutting a stamp, smoothing and resampling it keep the galaxy at the stated place and turn its major axis as the stated angles say, for every position, image angle and slit angle,
      and the slit, ellipse, compass and profiles are drawn at the corresponding places.''',
      ['inputs', 'configurations'],
      'all old and new bin edge arrangements of a bounded lattice; all image shapes, positions and angles of a bounded alphabet',
      'Overlap cases (aligned, inside, outside) are many and tests cover none.',
      [PU, 'misfit/plot/plot_image_slit.py'], [('bin integration', 'misfit/plot/plot_image_slit.py: box_integrate'), ('stamp and slit', 'misfit/plot/plot_image_slit.py')],
      'resampled arrays; artists drawn')

    p('C27', 'Plots show the fit they are made from',
      '''The best-fit plot shows the data, best-fit model and residual with the rows and columns left out marked and the galaxy centre and effective radius where the fit places them (also on the image of the galaxy);
      the corner plot shows every free parameter and derived velocity with its name, best value, errors and quantiles, for every set of free parameters; the trace plot shows every walker at every step; the 1D plot shows the points used and masked, the model fitted and its values and errors.
      Making a plot changes nothing in the fit, writes only the file named and leaves no figure open.''',
      ['configurations'],
      'all subsets of rows and columns left out, all subsets of free parameters and linked pairs, and the settings of each plot',
      'No test makes a plot; plots are what users judge a fit by.',
      ['misfit/plot'], [('best fit', 'misfit/plot/plot_bestfit.py'), ('corner', 'misfit/plot/plot_mcmc.py'), ('trace', 'misfit/plot/plot_trace.py'), ('1D', 'misfit/fit/fit1D.py: plot')],
      'artists of the figures saved')

    p('C26', 'Mock observations are the forward model of the requested galaxy',
      '''A mock slit observation equals the noiseless 2D model of the same galaxy and parameters, a mock data cube (which, like the model, is given before instrumental broadening) summed across the slit direction agrees with the slit observation of a slit of that width, and
      the cube has the requested spatial and spectral shape with total flux independent of kinematics.
      Generating a mock changes neither the instrument nor the galaxy passed in, and fresh and reused generators agree.''',
      ['configurations', 'histories'],
      'all settings of the bounded grid, and all sequences of mock generations sharing an instrument',
      'No test generates mocks.',
      [MO, KM], [('mock generation', MO), ('cube model', KM + ': make_3D_int_model')],
      'mock generator outputs')

    p('C28', 'Position, wavelength and extent of the emission are recovered',
      '''After preparation the centre row (m0 and m0_shift, also in rows of the full frame) is the row of the emission and the wavelength of the line that of the emission, whatever sky columns are masked, whatever the continuum,
      with and without the dithered negative images, and for every offset of the expected position of up to two rows; in dithered spectra rows further than two rows from the expected one are not taken.
      The window kept holds the emission up to half way to its negative images. The fitted extent of the emission (as observed, with the PSF removed, and as full width at half maximum) is the extent put in, with the errors that belong to it,
      and is flagged as missing (-99) when too few rows are left.''',
      ['inputs', 'configurations'],
      'all positions, offsets, widths, continua and sky masks of a bounded grid of spectra with one line (dithered images at least five widths apart, undithered emission at least 3.6 rows inside the frame)',
      'No test prepares a spectrum whose position and extent are known.',
      [GU, GA], [('position', GU + ': vert_position, get_m0_lam0_pos_2D'), ('extent', GU + ': fit_emission_y_profile'), ('window', GU + ': trim_spectrum_2D_spatial')],
      'prepared spectrum attributes')

    p('C29', 'Diagnostics and output options only report',
      '''Switching on a diagnostic (debug output of the preparation or of the models, plots of the emission profile or of the 1D fit) or naming an output file of a fit never makes a step fail that succeeds without it,
      and never changes what the step leaves behind: the prepared spectrum, the measured extent, cubes and models, chains, best values and errors are those obtained without it (same random numbers).
      A whole fit is the same as setting up, sampling and analysing step by step, writes exactly the files named, and a fit that is refused (negative resolution) writes none.''',
      ['configurations', 'inputs'],
      'all subsets of the output files of a fit, and every diagnostic option off and on over a bounded grid of spectra with up to two defects, emission positions, PSF widths, cubes and line sets',
      'The tests never switch a diagnostic on; errors swallowed in a plot can replace results silently.',
      [GU, KM, 'misfit/fit/fit2D.py', 'misfit/fit/fit1D.py'], [('profile plot', GU + ': fit_emission_y_profile'), ('debug plots', GU + ': subtract_continuum_2D, vert_position, mask_low_snr_rows_2D'), ('whole fit', 'misfit/fit/fit2D.py: fit')],
      'attributes of spectra, models and fits, and files written, with the diagnostics off and on')

