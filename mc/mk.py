"""Builds misfit objects from plain configuration dicts (public constructors only)."""
import numpy as np

BASE = dict(
    z=1.5, n=1.0, re=0.45, q=0.55, q0=0.19, PA=35., xc=0., m0=3., m0_shift=0.,
    Va=150., rt=0.25, sigma=60., nrows=7, nwave=15, dlam=2.0, lamc=0.3,
    lines=[6564.6], ratios=[1.0], pixscale=0.18, slit=0.7, psf='Gaussian', fwhm=0.6, beta=2.5,
    dither=None, res=35., nsub=2, pad=0.5, spec_type='wave', absval=False, upsample=True,
    factor=3., floor=True, intensity='fiducial', gen=False, rebin=True, pos_shift=False,
)


def conf(**kw):
    c = dict(BASE)
    for k in kw:
        if k not in c:
            raise KeyError(k)
    c.update(kw)
    return c


def wave_grid(c):
    """Uniform grid whose centre lies `lamc` pixels from the first line."""
    k = np.arange(c['nwave']) - (c['nwave']-1)/2.
    if c['spec_type'] == 'wave':
        return c['lines'][0]*(1.+c['z']) + (k + c['lamc'])*c['dlam']
    return (k + c['lamc'])*c['dlam']


def theta(c):
    return np.array([c['Va'], c['rt'], c['sigma'], c['m0_shift'], c['z']], dtype=float)


def instrument(c):
    import misfit
    return misfit.Spectrograph(instrument_name='X', band='H', pixscale=c['pixscale'], slit_width=c['slit'],
                               slit_length=5., PSF_type=c['psf'], PSF_FWHM=c['fwhm'], PSF_beta=c['beta'],
                               yspace_dither_arc=c['dither'], instrument_resolution=c['res'])


def galaxy(c, flux=None, err=None, mask=None):
    import misfit
    g = misfit.Galaxy(z=c['z'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'], delt_PA=c['PA'],
                      re_mass_arcsec=c['re'], q_mass=c['q'], generate_model=c['gen'])
    w = wave_grid(c)
    shape = (c['nrows'], c['nwave'])
    s = misfit.ObsSpectrum2D(wave=w, flux=np.zeros(shape) if flux is None else flux,
                             flux_err=np.ones(shape) if err is None else err,
                             restwave_arr=np.array(c['lines'], dtype=float),
                             flux_ratio_arr=np.array(c['ratios'], dtype=float),
                             linenames_arr=['L%d' % i for i in range(len(c['lines']))],
                             spec_type=c['spec_type'], band='H', m0=c['m0'])
    if c['gen']:
        s.shape = shape
    g.set_spectrum_2D(s)
    if mask is not None:
        s.spec_mask = mask
    return g


def profiles(c, g):
    import misfit
    kp = misfit.KinProfileFiducial()
    ip = (misfit.IntensityProfileFiducial if c['intensity'] == 'fiducial'
          else misfit.IntensityProfileSersicExpScale)(g)
    return kp, ip


def aper2d(c, g=None, inst=None, th=None):
    from misfit.model import AperModel2D
    g = galaxy(c) if g is None else g
    inst = instrument(c) if inst is None else inst
    kp, ip = profiles(c, g)
    return AperModel2D(galaxy=g, instrument=inst, theta=theta(c) if th is None else th, kinProfile=kp,
                       intensityProfile=ip, nSubpixels=c['nsub'], pad_factor=c['pad'],
                       rebin_output=c['rebin'], xc=c['xc'], spec_type=c['spec_type'], absvalsigma=c['absval'],
                       adaptive_upsample_wave=c['upsample'], adaptive_upsample_factor=c['factor'],
                       sigma_floor=c['floor'], do_position_wave_shift=c['pos_shift'])


def options(c, **kw):
    from misfit.model.kin_model import KinModel2DOptions
    d = dict(nSubpixels=c['nsub'], pad_factor=c['pad'], do_position_wave_shift=c['pos_shift'],
             absvalsigma=c['absval'], adaptive_upsample_wave=c['upsample'],
             adaptive_upsample_factor=c['factor'], sigma_floor=c['floor'])
    d.update(kw)
    return KinModel2DOptions(**d)


def settings(c, vary=(True, True, True, True, True), start=None, bounds=None, linked=None):
    from misfit.model.kin_classes import Theta2DSettingsFiducial
    th = theta(c)
    if start is not None:
        for i in range(5):
            if vary[i]:
                th[i] = start[i]
    return Theta2DSettingsFiducial(theta=th, theta_vary=np.array(vary), theta_bounds=bounds,
                                   theta_linked_posteriors=linked, usetex=False)


def kinmodel(c, g, vary=(True, True, True, True, True), start=None, no_scale=True, **kw):
    """KinModel2D with its own profiles; fixed parameters hold their value, free ones start elsewhere."""
    from misfit.model.kin_model import KinModel2D
    kp, ip = profiles(c, g)
    return KinModel2D(galaxy=g, thetaSettings=settings(c, vary, start), kinProfile=kp, intensityProfile=ip,
                      kinModelOptions=options(c, **kw), no_scale=no_scale, spec_type=c['spec_type'])


def prepared(c, flux, err, mask, nosky, weights):
    """Galaxy whose 2D spectrum is marked as prepared, with the given arrays."""
    g = galaxy(c, flux=flux, err=err, mask=mask)
    s = g.spec2D
    s.wh_nosky = np.array(nosky, dtype=int)
    s.wh_sky = np.setdiff1d(np.arange(c['nwave']), s.wh_nosky)
    s.wh_sky_fit = []
    s.fitting_weight_profile = np.array(weights, dtype=float)
    s.fitting_weight_matrix = np.tile(np.array([weights], dtype=float).T, (1, c['nwave']))
    s.lam0 = s.restwave_arr[0]*(1.+g.z)
    s.dlam = c['dlam']
    s.prepared_for_fitting = True
    return g


def fit2d(c, g, inst, vary=(True, True, True, True, True), start=None, bounds=None, linked=None, mcmc=None, **kw):
    from misfit.fit import FitEmissionLines2D
    from misfit.fit.fit_core import MCMC2DOptions, MCMCResults
    kp, ip = profiles(c, g)
    if bounds is None:
        bounds = [[-400., 400.], [0.01, 3.], [-50., 300.], [-2., 2.], [1.3, 1.7]]
    return FitEmissionLines2D(galaxy=g, instrument=inst, kinProfile=kp, intensityProfile=ip,
                              kinModelOptions=options(c), thetaSettings=settings(c, vary, start, bounds, linked),
                              mcmcOptions=MCMC2DOptions(**(mcmc or {})), mcmc_results=MCMCResults(), usetex=False, **kw)
