"""Source of properties.jsonl:  python3 tools/mkproperties.py"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=[observe], hook_needed=None)))


AP, KF, KC, KM = ('misfit/model/aper_model.py', 'misfit/model/kin_functions.py',
                  'misfit/model/kin_classes.py', 'misfit/model/kin_model.py')
GU, GE, GA, IN = ('misfit/general/galaxy_utils.py', 'misfit/general/general_utils.py',
                  'misfit/galaxy.py', 'misfit/instrument.py')
FC, F2, F1, FIO = ('misfit/fit/fit_core.py', 'misfit/fit/fit2D.py', 'misfit/fit/fit1D.py', 'misfit/fit/fit_io.py')

p('C01', 'The 2D emission line model is the described forward model',
  '''For every supported galaxy, instrument, profile, parameter set and model option, the noiseless 2D spectrum is
  the inclined, rotated 3D arctan disk with Sersic times vertical exponential light: summed along the line of sight
  into one Gaussian of the given dispersion per line, at rest wavelength times (1+z) with the listed flux ratio,
  then convolved with the PSF (kept to within one FWHM of its centre), summed over the slit, binned to rows and
  convolved with the instrument dispersion.
  Rows are one pixel scale apart with the galaxy at the fitted row plus offset, the slit is displaced by its
  configured offset, and inclination follows from axis ratio and intrinsic thickness.''',
  ['configurations', 'inputs'],
  '''all combinations of geometry, kinematic parameters, line sets, PSF types, subpixel counts, slit offsets,
  spectral types and dispersion regimes''',
  'The tests only build one model and never look at its pixels; an error in one term or convention shows only for some settings.',
  [AP, KF, KC, IN],
  [('model grid and pipeline', AP + ': AperModel2D.setup_model_grid, calculate_spectral_cube'),
   ('geometry transform and line of sight collapse', KF + ': transform_int_3d, add_sigma_collapse_z'),
   ('PSF and instrumental convolution', KF + ': PSF_convolve, convol_instconstfwhm')],
  'AperModel2D(...).model compared pixel by pixel with an independent direct-sum implementation')

p('C02', 'The 2D model obeys the symmetries of the geometry',
  '''Turning the galaxy by 180 degrees equals reversing the sign of its rotation velocity; mirroring position angle
  and slit offset together leaves the model unchanged, reversing the slit reverses the rows, reversing the rotation
  reverses the line; moving the galaxy by whole rows
  moves the model by whole rows wherever it is far from the slit ends.
  A face-on galaxy shows no rotation, only the absolute dispersion can matter when the absolute-value option is
  on, and a galaxy in the middle of the slit with no rotation gives a model symmetric in rows.''',
  ['configurations', 'inputs'],
  'all bounded galaxy, instrument and parameter combinations and all symmetry operations applied to them',
  'A symmetry is a relation between two runs over all settings; tests compare neither.',
  [AP, KF],
  [('coordinate transform', KF + ': transform_int_3d'),
   ('grid offsets', AP + ': AperModel2D.setup_model_grid'), ('PSF kernel', AP + ': AperModel2D.setup_calcs')],
  'pairs of AperModel2D models related by a symmetry operation')

p('C03', 'A 2D model depends only on its current parameters, not on its history',
  '''After any sequence of model builds and parameter updates, including updates that cross the dispersion
  thresholds, change the sign of the dispersion or change redshift or spatial offset, the model equals the one a
  freshly built model gives for the current parameters.
  Updating one model never changes another model that shares its galaxy or instrument, and the caller's parameter
  array, wavelengths and data are left as they were.''',
  ['histories', 'inputs'],
  'all sequences of builds and updates up to a bounded length over a parameter alphabet that crosses every threshold, for every option setting',
  'The cached grids and matrices only go stale after particular update orders; the tests build each model once.',
  [AP, KM, KC],
  [('cached grids and upsampling state', AP + ': AperModel2D.update_model, check_do_upsample_wave, downsample_to_real_wave'),
   ('parameter aliasing', KC + ': KinProfile.update_theta')],
  'AperModel2D.model after each update of every sequence, against a fresh model')

p('C04', 'Line flux is conserved through dispersion, resolution and resampling',
  '''The total line flux of the model (flux density summed over rows and wavelengths, times the wavelength step) does
  not depend on the rotation velocity, on the dispersion (including zero, floored and upsampled dispersions), on the
  instrumental resolution or on the redshift, as long as the lines stay inside the wavelength range and up to the sampling error of a
  Gaussian of that width on the (upsampled) grid.
  Each line contributes in proportion to its listed flux ratio, and the flux-weighted mean wavelength of an isolated
  line of a symmetric galaxy is its observed wavelength, in wavelength as in velocity space.''',
  ['configurations', 'inputs'],
  'all combinations of velocity, dispersion regime, resolution, redshift, subpixels, line set and spectral type in the bounded grid',
  'Normalisation errors hide in particular regimes (below the upsampling threshold, at zero dispersion) that no test visits.',
  [AP, KF],
  [('line normalisation', KF + ': add_sigma_collapse_z, I_simple_collapse'),
   ('flux conserving convolution', KF + ': convol_instconstfwhm, PSF_convolve'),
   ('upsampling', AP + ': AperModel2D.check_do_upsample_wave, downsample_to_real_wave')],
  'sums and first moments of AperModel2D.model')

p('C05', 'Each model row is scaled to the data by the optimal amplitude',
  '''The model that is compared to the data has every row multiplied by the one amplitude that minimises the
  error-weighted squared residual of that row over its usable columns (unmasked, and not sky lines set aside for fitting); rows
  without usable columns or signal never come out as non-finite numbers.
  Masked pixels have no influence on the amplitude, and the amplitude scales linearly with the data.''',
  ['inputs'],
  'all small data, error, mask and sky column patterns',
  'Only particular mask patterns expose a pixel that leaks into the amplitude.',
  [KM, FC],
  [('row scaling', KM + ': scaling of the model to the data')],
  'the scaled model of KinModel2D against exact weighted least squares')

p('C06', 'The fit statistic counts exactly the usable pixels, with their weights',
  '''The log likelihood of a parameter set differs between two parameter sets by minus one half of the difference of the
  weighted sum of squared error-normalised residuals, taken over unmasked pixels with the per-row fitting weights.
  Values and errors in masked pixels and in rows of zero weight never change it, not even when they are
  huge, and the model evaluated for the likelihood is the one for the given parameters with fixed parameters at their fixed values.
  The reported weighted and unweighted (reduced) chi squared count the same pixels, and as many free parameters as are free.''',
  ['inputs', 'configurations'],
  'all mask patterns and all fixed/free subsets of the parameters on bounded spectra, and all parameter values of an alphabet',
  'A leaking masked pixel or swapped parameter biases the fit quietly for particular masks or fixed sets.',
  [F2, FC, KM],
  [('likelihood', FC + ': log likelihood and probability'), ('parameter packing', KM + ': theta from free parameters')],
  'the log probability callables of FitEmissionLines2D')

p('C07', 'The posterior is the likelihood inside the bounds and impossible outside',
  '''The log probability is minus infinity as soon as any free parameter is outside its bounds (bounds included are allowed), and otherwise
  equals prior plus likelihood; it never is NaN.
  Only the free parameters are tested, in their order, each against its own bounds, whatever subset is free.''',
  ['inputs', 'configurations'],
  'all subsets of free parameters, and every below/at/inside/above combination of values',
  'Tests do not evaluate the posterior; an index shift shows only for particular fixed subsets.',
  [KC, F2, FC],
  [('flat prior', KC + ': ThetaPriorFlat.log_prior'), ('log probability', FC + ': lnprob functions')],
  'ThetaPriorFlat.log_prior and the fit log probability')

if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import more_properties
    more_properties.add(p)
    P.sort(key=lambda d: d['id'])
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fh:
        for d in P:
            assert len(d['title']) <= 80, (d['id'], len(d['title']))
            fh.write(json.dumps(d) + '\n')
