import contextlib
import io
import itertools
import warnings
from unittest import mock
import numpy as np

RULE = ('roots: dithered or not, width of the emission, position of the emission (every 0.65 rows of the frame), continuum, separation of the images; below '
        'each every offset of the expected position, wavelength of the line, set of sky columns and signal to noise, each prepared for fitting by the real code '
        'and compared with the emission put in; then the extent is measured for every PSF width with the random numbers supplied.  A state is one spectrum.')
ASSUMPTIONS = ['dithered: the images are at least five widths apart',
               'not dithered: the emission lies at least 3.6 rows from the ends of the 15 rows']
CHUNK = 2
L0 = 6564.6*2.5
S2F = 2.*np.sqrt(2.*np.log(2.))


def cases(tier):
    T = tier == 'thorough'
    out = []
    for sy in (1.3, 1.8, 2.5):
        for cont in (False, True):
            for cen in np.arange(8., 37., .65 if T else 1.3):
                for sep in (12., 14.) if T else (14.,) if cont else (12., 14.):
                    if sep < 5.*sy:
                        continue
                    out.append(dict(dither=True, sy=sy, cont=cont, cen=round(float(cen), 2), sep=sep, deep=T))
            for cen in np.arange(3.6, 10.9, .325 if T else .65):
                out.append(dict(dither=False, sy=sy, cont=cont, cen=round(float(cen), 2), sep=0., deep=T))
    for sy in (1.2, 2.):
        for cen in np.arange(3.5, 9.6, .3 if T else .6):
            out.append(dict(kind='place', sy=sy, cen=round(float(cen), 2), deep=T))
    return out


def do_place(case, rec):
    """Final position and wavelength, whatever the first estimates were."""
    import misfit
    from misfit.general.galaxy_utils import get_m0_lam0_pos_2D
    n, nw = 13, 41
    r, k = np.arange(n), np.arange(nw)
    wave = L0+(k-20)*2.
    cen, level = case['cen'], .01
    span = wave[-1]-wave[0]
    for m0, fit, dy, snr, off, sky, low in itertools.product((5., 6., 8.), (0., .9, -1.4), (0., 1.1, -1.8, 2.6, -3.3), (2., 5.), (0., 7.5, -18.),
                                                            ((), (3, 4), (20, 23)), ((), (0, 1), (0, 1, 2, 10, 11, 12), tuple(range(n)))):
        if len(low) == n and (sky or off):
            continue
        if not case['deep'] and (off != 0.) + (sky != ()) + (low != ()) > 1:
            continue
        if not .5 <= cen+dy <= n-1.5 or (any(abs(i-cen) < .8 for i in low) and len(low) < n):
            continue
        lam = L0+off
        fl = np.exp(-.5*((r-cen)/case['sy'])**2)[:, None]*np.exp(-.5*((wave-lam)/6.)**2)[None, :]
        s = misfit.ObsSpectrum2D(wave=wave, flux=fl.copy(), flux_err=np.full((n, nw), level), linenames_arr=['HA6565'], restwave_arr=np.array([6564.6]),
                                 flux_ratio_arr=np.array([1.]), band='H', ypos=cen+dy)
        s.m0, s.m0_shift_fit, s.m0_peak_snr, s.m_lims, s.lam0 = m0, fit, snr, np.array([0, n]), L0
        s.mask_sky, s.mask_low_snr = np.ones((n, nw)), np.ones((n, nw))
        s.mask_sky[:, list(sky)] = 0.
        s.mask_low_snr[list(low)] = 0.
        s.low_snr_row_inds = np.array(low, dtype=int)
        s.wh_nosky = np.setdiff1d(k, sky)
        g = misfit.Galaxy(z=1.5, n=1., re_arcsec=.5, q=.6, delt_PA=0.)
        g.debug = False
        ok = len(low) < n and (abs(dy) <= 2. or (abs(m0-cen) <= 2. and abs(fit) <= 1. and snr >= 3.))
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            t = get_m0_lam0_pos_2D(s, g)
        rec.step()
        rec.state(m0, fit, dy, snr, off, sky, low)
        what = 'emission at row %s, first row %s, first shift %s, expected row off by %s, S/N %s, line off by %s, sky columns %s, low rows %s' % (
            cen, m0, fit, dy, snr, off, sky, low)
        rec.check(t.m0 == m0 and abs(t.m0_shift-(cen-m0 if ok else 0.)) <= .02, 'place', 'centre row %s and shift %s, %s' % (t.m0, t.m0_shift, what))
        rec.check(abs(t.lam0-(lam if len(low) < n else L0)) <= .1, 'place-wave', 'wavelength %s, %s' % (t.lam0-L0, what))
        rec.check(np.array_equal(s.flux, fl) and (s.flux_err == level).all(), 'place-data', 'the spectrum changed, %s' % what)
        rec.outcome(ok, off)
    rec.trace()


def build(case, dy, lam, sky, level, noisy=()):
    import misfit
    n = 45 if case['dither'] else 15
    k = np.arange(37)-18
    wave = L0+1.7+k*10.
    r = np.arange(n)
    prof = np.exp(-.5*((r-case['cen'])/case['sy'])**2)
    if case['dither']:
        for s in (-1., 1.):
            prof = prof-.5*np.exp(-.5*((r-case['cen']-s*case['sep'])/case['sy'])**2)
    line = np.exp(-.5*((wave-lam)/16.)**2)
    flux = 4.*prof[:, None]*line
    err = np.full(flux.shape, level)
    kw = dict(no_continuum_subtraction=True)
    if case['cont']:
        flux = flux+.2*prof[:, None]*(1.+1.e-3*(wave-L0))
        kw = {}
    for j in sky:
        err[:, j] *= 30.
        flux[:, j] += 3.*(-1.)**r
    for j in noisy:
        err[j] *= 3000.
        flux[j] += 30.
    full, lr, lm = [np.array([6564.6-x/2.5, 6564.6+x/2.5]) for x in (175., 75., 80.)]
    g = misfit.Galaxy(z=1.5, n=1., re_arcsec=.5, q=.6, delt_PA=20., dither=case['dither'])
    s = misfit.ObsSpectrum2D(wave=wave, flux=flux, flux_err=err, band='H', linenames_arr=['HA6565'], restwave_arr=np.array([6564.6]),
                             flux_ratio_arr=np.array([1.]), wave_full_range_rest=full, wave_line_range_rest=lr, mask_lines_wave_range_rest=lm,
                             ypos=case['cen']+dy, **kw)
    g.set_spectrum_2D(s)
    if case['cont']:
        g.set_spectrum_1D(misfit.ObsSpectrum1D(wave=wave.copy(), flux=line+.2*(1.+1.e-3*(wave-L0)), flux_err=np.full(37, level), spec_mask=np.ones(37)))
    return g, s


def instrument(fwhm=.6):
    import misfit
    return misfit.Spectrograph(instrument_name='X', band='H', pixscale=.18, slit_width=.7, slit_length=5., PSF_type='Gaussian', PSF_FWHM=fwhm,
                               instrument_resolution=35.)


def run_case(case, rec):
    from misfit.general import galaxy_utils
    if case.get('kind') == 'place':
        return do_place(case, rec)
    lams = (L0, L0+8., L0-13., L0+16.)
    skies = ((), (12, 19), (18,), (16, 17, 22))
    combos = list(itertools.product((0., 1.2, -1.2), lams, skies)) if case['deep'] else \
        [(d, l, s) for i, (d, l, s) in enumerate(itertools.product((0., 1.2, -1.2), lams, skies)) if i % 3 == (i//12) % 3]
    combos += [(d, L0, ()) for d in (4., -4.)]
    first = int(round(case['cen']))
    far = [j for j in range(first-9, first+10) if abs(j-case['cen']) > 4. and 0 <= j < (45 if case['dither'] else 15)]
    combos += [(0., L0, (), (j,)) for j in (far if case['deep'] else far[::3])]
    for i, (dy, lam, sky, *noisy) in enumerate(combos):
        noisy = noisy[0] if noisy else ()
        level = (.1, .05)[i % 2]
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            g, s = build(case, dy, lam, sky, level, noisy)
            s.fit_prep_calcs(g, instrument())
        rec.step()
        rec.state([dy, lam, sky, noisy])
        at = '-%s-%s-%s-%s' % (case['sy'], case['sep'], case['cen'], dy)
        what = 'emission at row %s, wavelength %.1f from the expected, expected row off by %s, sky columns %s, unreliable rows %s' % (case['cen'], lam-L0, dy, sky, noisy)
        pos = s.full_l_ind+s.m0+s.m0_shift
        ypos = case['cen']+dy
        rec.check(abs(s.full_l_ind+s.ypos-ypos) < 1e-9, 'expected', 'expected row %s became %s of %s, %s' % (ypos, s.ypos, s.full_l_ind, what))
        rec.check(s.full_m0 == s.m0+s.full_l_ind and s.n_spatial == s.full_r_ind-s.full_l_ind == s.flux.shape[0], 'window', 'window %s to %s of %s rows, %s' % (
            s.full_l_ind, s.full_r_ind, s.flux.shape[0], what))
        if abs(dy) > 2.:
            if case['dither']:
                rec.check(abs(pos-ypos) <= 2.51, 'far', 'position %s far from the expected row %s, %s' % (pos, ypos, what))
            continue
        rec.check(abs(pos-case['cen']) <= .02, 'position', 'position %s, %s' % (pos, what))
        rec.check(noisy or abs(s.m0-round(float(s.m0))) == 0. and abs(s.full_m0+s.m0_shift_fit-case['cen']) <= .2 or not case['dither'] or (case['cont'] and (sky or case['cen']+case['sep'] > 44.)),
                  'first'+at,
                  'first position %s, %s' % (s.full_m0+s.m0_shift_fit, what))
        rec.check(abs(s.lam0-lam) <= .3, 'wavelength', 'wavelength %s, expected %s, %s' % (s.lam0, lam, what))
        if noisy:
            continue
        if case['dither']:
            n = 45
            lo, hi = max(0, case['cen']-case['sep']/2.), min(n-1, case['cen']+case['sep']/2.)
            rec.check(s.full_l_ind <= lo+1. and s.full_r_ind-1 >= hi-2., 'window-cut'+at, 'window %s to %s leaves out rows of the emission, %s' % (
                s.full_l_ind, s.full_r_ind, what))
            rec.check(s.full_l_ind >= lo-2. and s.full_r_ind-1 <= hi+2., 'window', 'window %s to %s reaches the negative images, %s' % (
                s.full_l_ind, s.full_r_ind, what))
        else:
            rec.check(s.full_l_ind == 0 and s.full_r_ind == 15, 'window', 'window %s to %s, %s' % (s.full_l_ind, s.full_r_ind, what))
        if i % 4 == 0:
            extent(case, g, s, rec, what, galaxy_utils)
        rec.outcome([s.full_l_ind, s.full_r_ind, len(s.low_snr_row_inds)])
    rec.trace()
    rec.sample = dict(case=case, traces=rec.traces)


def extent(case, g, s, rec, what, gu):
    """Extent of the emission along the slit and its errors, for random numbers owned here."""
    want = case['sy']*.18
    seen = set()
    for fwhm, noise in itertools.product((.3, .6, 1.2), ('none', 'alternating')):
        calls = [0]

        def randn(n):
            calls[0] += 1
            if noise == 'none':
                return np.zeros(n)
            # Inwards and outwards by turns: narrower and wider profiles
            r = np.arange(n)-(s.m0+s.m0_shift)
            return (1. if calls[0] % 2 else -1.)*np.where(np.abs(r) < case['sy'], .3, -.3)
        keep = [a.copy() for a in (s.flux, s.flux_err, s.mask_sky, s.mask_low_snr)]
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), mock.patch('numpy.random.randn', randn):
            warnings.simplefilter('ignore')
            gu.fit_emission_y_profile(s, g, instrument(fwhm), num_MC=6)
        rec.step()
        rec.state([what, fwhm, noise])
        rec.check(all(np.array_equal(a, b) for a, b in zip(keep, (s.flux, s.flux_err, s.mask_sky, s.mask_low_snr))), 'changed', 'spectrum changed, %s' % what)
        n = s.flux.shape[0]-len(s.low_snr_row_inds)
        if n*.18/fwhm < .8:
            rec.check(s.sigma_y_emis_obs == s.D50 == s.sigma_y_emis_int == -99., 'extent', 'extent %s from %d rows with PSF %s, %s' % (s.D50, n, fwhm, what))
            continue
        obs, inner = s.sigma_y_emis_obs, np.sqrt(max(want**2-(fwhm/S2F)**2, 0.))
        rec.check(abs(obs-want) <= .01*want, 'extent', 'observed width %s, emission %s, PSF %s, %s' % (obs, want, fwhm, what))
        rec.check(abs(s.sigma_y_emis_int-np.sqrt(max(obs**2-(fwhm/S2F)**2, 0.))) <= 1e-9 and abs(s.D50-S2F*s.sigma_y_emis_int) <= 1e-9, 'intrinsic',
                  'intrinsic width %s and full width %s of %s, PSF %s, expected near %s, %s' % (s.sigma_y_emis_int, s.D50, obs, fwhm, inner, what))
        errs = [np.asarray(e, float) for e in (s.sigma_y_emis_obs_err, s.sigma_y_emis_int_err, s.D50_err)]
        if noise == 'none':
            rec.check(all(np.all(np.abs(e) <= 1e-6) for e in errs), 'errors', 'errors %s without noise, %s' % (errs, what))
        else:
            # One half of the runs is narrower, one half wider: the limits are their widths
            rec.check(calls[0] == 6 and np.all(errs[0] > 0.) and np.all(errs[0] < want), 'errors', 'errors %s of %s, %s' % (errs, obs, what))
            lims = [obs-errs[0][0], obs+errs[0][1]]
            good = []
            for v, e in zip(lims, (s.sigma_y_emis_int-errs[1][0], s.sigma_y_emis_int+errs[1][1])):
                good.append(abs(e-np.sqrt(max(v**2-(fwhm/S2F)**2, 0.))) <= 1e-6)
            rec.check(all(good) and np.all(np.abs(errs[2]-S2F*errs[1]) <= 1e-6), 'errors', 'errors %s do not belong to one another, %s' % (errs, what))
        seen.add((noise, round(float(errs[0].sum()), 3)))
