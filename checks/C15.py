import itertools
import numpy as np

RULE = ('roots: round or misaligned calculation x Sersic index x size x axis ratio x position angle. From every root all '
        'combinations of extraction width and method, PSF, slit width and offsets, core radius, slope, mass size and reference radius '
        'are evaluated on the real model and compared with an explicit double sum over the same grid; then the symmetry moves '
        '(mirror, half turn, rescale all lengths, flat profile, repeat) are made from each state. A state is one configuration.')
CHUNK = 1
REF = {}


def cases(tier):
    T = tier == 'thorough'
    out = []
    for model in ('round', 'misalign'):
        for n, re in itertools.product((.6, 1., 4.) if not T else (.5, 1., 2.2, 4., 7.), (.08, .45) if not T else (.08, .2, .45, 1.3)):
            for q, PA in itertools.product((.3, 1.), (0., 35., 90., 150.)) if not T else itertools.product((.2, .5, .8, 1.), (0., 20., 45., 70., 90., 110., 150., 180., 250., -40.)):
                out.append(dict(model=model, n=n, re=re, q=q, PA=PA, N=4 if not T else 6, deep=T))
    return out


def build(model, n, re, q, PA, width, method, psf, fwhm, slit, xc, yc, core, d, rem, qm, rad, N, scale=1., dither=None):
    import misfit
    from misfit.model import aper_model
    g = misfit.Galaxy(z=1.5, n=n, re_arcsec=re*scale, q=q, delt_PA=PA, re_mass_arcsec=rem*scale, q_mass=qm)
    inst = misfit.Spectrograph(instrument_name='X', band='H', pixscale=.18, slit_width=slit*scale, slit_length=5., PSF_type=psf,
                               PSF_FWHM=fwhm*scale, PSF_beta=2.5, instrument_resolution=35.,
                               yspace_dither_arc=None if dither is None else dither*scale)
    cls = aper_model.AperModel1DDisp if model == 'round' else aper_model.AperModel1DDispMisalign
    kw = {}
    if width is not None:
        kw['extraction_width'] = width*scale
    if rad is not None:
        kw['disp_aper_radius_arcsec'] = rad*scale
    return cls(galaxy=g, instrument=inst, nPixels=N, extraction_method=method, r_core=core, d=d, xc=xc*scale, yc=yc*scale, **kw)


def kernel(x, y, psf, fwhm, dither):
    def k(yy):
        if psf == 'Gaussian':
            return np.exp(-(x**2+yy**2)*4.*np.log(2.)/fwhm**2)
        a = fwhm/(2.*np.sqrt(2.**(1./2.5)-1.))
        return (1.+(x**2+yy**2)/a**2)**-2.5
    v = k(y)
    if dither is not None:
        v = v-.5*(k(y+dither)+k(y-dither))
    return v


def ser(r, re, n, core):
    return np.exp(-(2.*n-.324)*((r/re+core)**(1./n)-1.))


def disp2(r, rem, d, core):
    return (((r/rem+core)/(1.+core))**d)**2


def reference(model, n, re, q, PA, width, method, psf, fwhm, slit, xc, yc, core, d, rem, qm, rad, N, scale=1., dither=None):
    from scipy.signal import convolve2d
    rc, rmc = re*np.sqrt(q), rem*np.sqrt(qm)
    if model == 'round':
        size, qq, pa = rc, 1., 0.
    else:
        size, qq, pa = re, q, np.deg2rad(PA)
    if size <= .1:
        N = 2*N
    if width is None:
        big, small = np.hypot(size, fwhm/2.), np.hypot(size*qq, fwhm/2.)
        width = 4.*max(abs(big*np.cos(pa)), small)
    dx, dy = slit/(2*N+1), width/(2*N+1)
    k = np.arange(-(2*N+1), 2*N+2)
    X, Y = np.meshgrid(k*dx, k*dy)
    u, v = (X-xc)*np.sin(pa)+(Y-yc)*np.cos(pa), (X-xc)*np.cos(pa)-(Y-yc)*np.sin(pa)
    r = np.sqrt(qq*u**2+v**2/qq)
    I = ser(r, rc, n, core)
    S = I*disp2(r, rmc, d, core)
    if fwhm > 0.:
        ker = kernel(X, Y, psf, fwhm, dither)
        I, S = [convolve2d(a, ker, mode='same') for a in (I, S)]
    cut = slice(N+1, 3*N+2)
    I, S = I[cut, cut], S[cut, cut]
    w = np.ones(2*N+1)
    if method == 'optimal':
        w = np.exp(-.5*(np.arange(-N, N+1)*dy/(.5*width/np.sqrt(8.*np.log(2.))))**2)
    num = (S.sum(axis=1)*w).sum()/(I.sum(axis=1)*w).sum()
    rad = rc if rad is None else rad
    key = (n, rc, core, d, rmc, rad)
    if key not in REF:
        # Gauss-Legendre in t, r = rad t^4 (fine towards the centre)
        t, wt = np.polynomial.legendre.leggauss(240)
        t, wt = .5*(t+1.), .5*wt
        rr = rad*t**4
        f = ser(rr, rc, n, core)*rr*4.*t**3*wt
        REF[key] = (f*disp2(rr, rmc, d, core)).sum()/f.sum()
    return np.sqrt(num), np.sqrt(REF[key])


def run_case(case, rec):
    base = {k: case[k] for k in ('model', 'n', 're', 'q', 'PA', 'N')}
    prod = itertools.product
    if case['deep']:
        app = list(prod((None, .7, 1.6), ('optimal', 'boxcar'), (.4, .7, 1.5)))
        psfs = [('Gaussian', .6, None), ('Moffat', .6, None), ('Gaussian', 0., None), ('Moffat', .25, None), ('Gaussian', .5, 2.7)]
        offs = [(0., 0.), (.2, 0.), (-.15, .1), (0., -.3)]
        profs = list(prod((1./300., .05), (-.089, -.4, .1, 0.)))
        mass = [(case['re'], case['q'], None), (.6, .5, None), (case['re'], case['q'], case['re']*.5), (.3, .8, 1.2)]
    else:
        app = list(prod((None, 1.1), ('optimal', 'boxcar'), (.7,)))+[(1.1, 'optimal', 1.5)]
        psfs = [('Gaussian', .6, None), ('Moffat', .5, None), ('Gaussian', 0., None), ('Gaussian', .5, 2.7)]
        offs = [(0., 0.), (.2, .1)]
        profs = [(1./300., -.089), (.05, -.4), (.01, 0.)]
        mass = [(case['re'], case['q'], None), (.6, .5, .33)]
    for (width, method, slit), (psf, fwhm, dith), (xc, yc), (core, d), (rem, qm, rad) in prod(app, psfs, offs, profs, mass):
        c = dict(base, width=width, method=method, psf=psf, fwhm=fwhm, slit=slit, xc=xc, yc=yc, core=core, d=d, rem=rem, qm=qm, rad=rad, dither=dith)
        m = build(**c)
        want_ap, want_e = reference(**c)
        rec.step()
        rec.trace()
        rec.state(c)
        what = '%s' % c
        rec.outcome(round(float(m.disp_aper_ratio), 6))
        rec.close(m.sigma_e, want_e, 'circular', 'dispersion in the circular aperture, '+what, rtol=1e-5)
        rec.close(m.sigma_ap, want_ap, 'aperture', 'dispersion in the slit aperture, '+what, rtol=1e-7)
        rec.close(m.disp_aper_ratio, want_ap/want_e, 'ratio', 'aperture correction, '+what, rtol=1e-5)
        if d == 0.:
            rec.close(m.disp_aper_ratio, 1., 'flat', 'correction of a flat profile, '+what, rtol=1e-7)
        if method == 'boxcar' and (width is None or case['deep']):
            moves = [('mirror', dict(xc=-xc, PA=-base['PA']), 1e-7), ('turn', dict(xc=-xc, yc=-yc), 1e-7), ('half', dict(PA=base['PA']+180.), 1e-7),
                     ('flip', dict(yc=-yc, PA=-base['PA']), 1e-7)]
            if min(case['re'], case['re']*np.sqrt(case['q'])) > .1:
                moves += [('scale', dict(scale=1.7), 1e-5), ('scale', dict(scale=60.), 1e-5)]
            if case['model'] == 'round':
                moves += [('angle', dict(PA=71.), 1e-9)]
            if case['q'] == 1.:
                moves += [('round', dict(model='round' if case['model'] == 'misalign' else 'misalign'), 1e-7)]
            for name, mv, tol in moves:
                o = build(**dict(c, **mv))
                rec.step()
                rec.state(c, name, mv)
                rec.close(o.disp_aper_ratio, m.disp_aper_ratio, name, 'correction after %s, %s' % (mv, what), rtol=tol)
            m.calc_aper_correction()
            rec.close(m.disp_aper_ratio, want_ap/want_e, 'repeat', 'repeated calculation, '+what, rtol=1e-5)
    rec.sample = dict(case=case, traces=rec.traces)
