import itertools
import numpy as np

RULE = ('roots: size x axis ratio x position angle x number of pixels. From every root all combinations of extraction width and method, '
        'slit, PSF, offsets, Sersic index, turnover radius, velocity to dispersion ratio (none, zero, small, large) and reference '
        'radius are evaluated on the real model and compared with an explicit sum over the same cells; then the symmetry moves '
        '(velocity scale and sign, mirror, half turn, rescale, other intensity normalisation, repeat, reuse of the profile) are made. '
        'A state is one configuration.')
ASSUMPTIONS = ['square PSF kernel cut at one FWHM, as in the code; kernels with an even number of pixels are shifted by half a subpixel '
               '(known finding, pinned by the existing tests), and are compared with the shifted sum']
CHUNK = 1


def cases(tier):
    T = tier == 'thorough'
    out = []
    for re, q, PA in itertools.product((.3, .8), (.12, .5, 1.), (0., 35., 90., 160.)) if not T else \
            itertools.product((.15, .3, .8), (.12, .3, .6, .9, 1.), (0., 20., 45., 70., 90., 110., 160., 200., -35.)):
        for N in (9, 10) if not T else (9, 10, 15):
            out.append(dict(re=re, q=q, PA=PA, N=N, deep=T))
    for q, PA, Va, vs, method in itertools.product((.4, .8), (0., 30., 120.), (120.,), (None, 2.), ('boxcar', 'optimal')):
        out.append(dict(kind='shift', re=.5, q=q, PA=PA, N=41, width=None, method=method, slit=.7, psf='Gaussian', fwhm=.6123, xc=0., n=1.,
                        vs=vs, Va=Va, rt=.2, rad=None))
    return out


def run_shift(case, rec):
    c = dict(case)
    for k in ('kind', 'deep'):
        c.pop(k, None)
    ap, ref, even, edge = reference(shift=True, half=True, **c)
    plain = reference(half=True, **c)[0]
    m = build(shift=True, **c)
    rec.step()
    rec.trace()
    rec.state(c)
    rec.outcome(round(float(m.disp_aper_ratio), 6))
    rec.check(edge > 1e-6, 'bounds', 'kernel edge on a pixel')
    rec.close(m.disp_aper_ratio, ap/ref, 'shift', 'correction with position shifts, %s' % c, rtol=1e-3)
    rec.notes['cases where the shift matters by over 1 percent'] = int(abs(ap/plain-1.) > .01)
    one = m.disp_aper_ratio
    m.calc_aper_correction()
    rec.step()
    rec.close(m.disp_aper_ratio, one, 'shift-repeat', 'repeated calculation with position shifts, %s' % c, rtol=1e-9)
    rec.close(build(**c).disp_aper_ratio, plain/ref, 'shift-off', 'correction without shifts, %s' % c, rtol=1e-5)


def build(re, q, PA, N, width, method, slit, psf, fwhm, xc, n, vs, Va, rt, rad, scale=1., Ie=1., pad=.5, shift=False, kin=None):
    import misfit
    from misfit.model import AperModel1DRot
    g = misfit.Galaxy(z=1.5, n=n, re_arcsec=re*scale, q=q, delt_PA=PA, re_mass_arcsec=re*scale, q_mass=q)
    s = misfit.ObsSpectrum2D(wave=np.linspace(16000., 16100., 5), flux=np.zeros((3, 5)), flux_err=np.ones((3, 5)),
                             linenames_arr=['A'], restwave_arr=np.array([6564.6]), flux_ratio_arr=np.array([1.]), band='H', m0=1.)
    g.set_spectrum_2D(s)
    inst = misfit.Spectrograph(instrument_name='X', band='H', pixscale=.18, slit_width=slit*scale, slit_length=5., PSF_type=psf,
                               PSF_FWHM=fwhm*scale, PSF_beta=2.5, instrument_resolution=35.)
    ip = misfit.IntensityProfileFiducial(g)
    ip.intProfile_r.Ie = Ie
    kw = {}
    if width is not None:
        kw['extraction_width'] = width*scale
    if rad is not None:
        kw['disp_aper_radius_arcsec'] = rad*scale
    kin = misfit.KinProfileFiducial() if kin is None else kin
    return AperModel1DRot(galaxy=g, instrument=inst, nPixels=N, extraction_method=method, theta=[vs, Va, rt*scale], kinProfile=kin,
                          intensityProfile=ip, xc=xc*scale, pad_factor=pad, do_position_wave_shift=shift, **kw)


def row_shift(X0, Y0, I, ins, psf, fwhm, slit):
    """Velocity offset of each row: mean position of its light in the slit, in units of the resolution."""
    from scipy.signal import convolve2d
    from checks.C01 import gauss_fit
    KX, KY = np.meshgrid(X0[np.abs(X0) <= fwhm], Y0[np.abs(Y0) <= fwhm])
    conv = convolve2d(I, np.exp(-(KX**2+KY**2)*4.*np.log(2.)/fwhm**2), mode='full')
    oy, ox = (KX.shape[0]-1)//2, (KX.shape[1]-1)//2
    conv = conv[oy:oy+len(Y0), ox:ox+len(X0)]
    out, h = np.zeros(len(Y0)), .5*slit
    for k in range(len(Y0)):
        mu, A, fw = gauss_fit(X0[ins], conv[k, ins])
        out[k] = min(max(mu, -h), h)
    return out*35.*np.sqrt(8.*np.log(2.))/slit


def reference(re, q, PA, N, width, method, slit, psf, fwhm, xc, n, vs, Va, rt, rad, pad=.5, half=False, eps=0., shift=False):
    from scipy.signal import convolve2d
    pa = np.deg2rad(PA)
    if width is None:
        big, small = np.hypot(re, fwhm/2.), np.hypot(q*re, fwhm/2.)
        width = 4.*max(abs(big*np.cos(pa)), small)
    dy = width/N
    nx = int(np.ceil(slit/dy-1e-9))
    dx = slit/nx
    px, py = int(np.round(fwhm*pad/dx)), int(np.round(fwhm*pad/dy))
    mx, my = nx+2*px, N+2*py
    X0, Y0 = (np.arange(mx)-(mx-1)/2.)*dx, (np.arange(my)-(my-1)/2.)*dy
    Z0 = (np.arange(N)-(N-1)/2.)*dy
    Z, Y, X = np.meshgrid(Z0, Y0, X0-xc, indexing='ij')
    q0 = .19
    cosi = np.sqrt(max(q**2-q0**2, 0.)/(1.-q0**2)) if q > q0 else 0.
    sini = np.sqrt(1.-cosi**2)
    minor, major = X*np.cos(pa)+Y*np.sin(pa), -X*np.sin(pa)+Y*np.cos(pa)
    xi, zi = cosi*minor+sini*Z, -sini*minor+cosi*Z
    r = np.sqrt(xi**2+major**2)
    r = np.where(r < 1e-13, eps, r)     # the centre, up to rounding
    I = np.exp(-(2*n-.324)*((r/re)**(1./n)-1.))*np.exp(-np.abs(zi)/(q0*re))
    v = lambda a: 2./np.pi*Va*np.arctan(a/rt)
    rad = re if rad is None else rad
    if vs is None:
        sig, V = 0., v(r)
    elif vs == 0.:
        sig, V = Va, 0.*r
    else:
        sig, V = abs(v(rad)/vs), v(r)
    V = V*np.divide(major, r, out=np.zeros_like(r), where=r > 0)*sini
    ref = np.hypot(0. if vs == 0. else v(rad), sig)
    if shift:
        V = V+row_shift(X0, Y0, I.sum(axis=0), slice(px, px+nx), psf, fwhm, slit)[None, :, None]
    S, I = ((V**2+sig**2)*I).sum(axis=0), I.sum(axis=0)
    even = 0
    edge = np.inf
    if fwhm > 0:
        kx, ky = X0[np.abs(X0) <= fwhm], Y0[np.abs(Y0) <= fwhm]
        edge = min(np.abs(np.abs(X0)-fwhm).min()/dx, np.abs(np.abs(Y0)-fwhm).min()/dy)
        even = (len(kx) % 2 == 0)+(len(ky) % 2 == 0)
        if even and not half:
            # the kernel on a grid that holds its centre
            def cent(a, d):
                m = int(np.floor(fwhm/d+1e-9))
                return np.arange(-m, m+1)*d
            kx, ky = cent(kx, dx) if len(kx) % 2 == 0 else kx, cent(ky, dy) if len(ky) % 2 == 0 else ky
        KX, KY = np.meshgrid(kx, ky)
        if psf == 'Gaussian':
            K = np.exp(-(KX**2+KY**2)*4.*np.log(2.)/fwhm**2)
        else:
            a = fwhm/(2.*np.sqrt(2.**(1./2.5)-1.))
            K = (1.+(KX**2+KY**2)/a**2)**-2.5
        out = []
        for a in (S, I):
            full = convolve2d(a, K, mode='full')
            oy, ox = (len(ky)-1)//2, (len(kx)-1)//2
            out.append(full[oy:oy+my, ox:ox+mx])
        S, I = out
    S, I = S[py:py+N, px:px+nx], I[py:py+N, px:px+nx]
    w = np.ones(N)
    if method == 'optimal':
        w = np.exp(-.5*((np.arange(N)-(N-1)/2.)*dy/(.5*width/np.sqrt(8.*np.log(2.))))**2)
    ap = np.sqrt((S.sum(axis=1)*w).sum()/(I.sum(axis=1)*w).sum())
    return ap, ref, even, edge


def run_case(case, rec):
    if case.get('kind') == 'shift':
        return run_shift(case, rec)
    base = {k: case[k] for k in ('re', 'q', 'PA', 'N')}
    prod = itertools.product
    T = case['deep']
    app = list(prod((None, 1.3), ('optimal', 'boxcar'), (.7, 1.2))) if T else [(None, 'optimal', .7), (None, 'boxcar', .7), (1.3, 'boxcar', .7), (1.1, 'optimal', 1.3)]
    psfs = [('Gaussian', .61, .5), ('Moffat', .43, .5), ('Gaussian', 0., .5), ('Gaussian', .61, 1.)]+([('Moffat', .9, 1.)] if T else [])
    offs = (0., .17, -.1) if T else (0., .17)
    gals = [(1., .2, None), (4., .05, None), (1., .4, .15)]+([(2., .2, .9), (.5, .1, .3)] if T else [])
    for (width, method, slit), (psf, fwhm, pad), xc, (n, rt, rad), vs in prod(app, psfs, offs, gals, (None, 0., .5, 3.)):
        c = dict(base, width=width, method=method, slit=slit, psf=psf, fwhm=fwhm, xc=xc, n=n, rt=rt, rad=rad, vs=vs, Va=120., pad=pad)
        ap, ref, even, edge = reference(**c)
        if edge < 1e-6:
            continue        # kernel edge on a pixel centre: either cut is right
        # how much rounding of the central radius matters (steep cores)
        tol = 1e-7+3.*abs(reference(eps=2e-16, **c)[0]/ap-1.)
        m = build(**c)
        what = '%s' % c
        rec.step()
        rec.trace()
        rec.state(c)
        rec.outcome(round(float(m.disp_aper_ratio), 6))
        rec.close(m.V_RMS_aper, ref, 'reference', 'rms velocity at the reference radius, '+what, rtol=1e-9)
        if even and fwhm > 0.:
            ap2 = reference(half=True, **c)[0]
            if abs(ap2/ap-1.) > tol and abs(m.sigma_aper/ap2-1.) < tol:
                rec.fail('even-kernel', 'the PSF kernel has an even number of pixels: aperture dispersion %.8g, expected %.8g; %s' % (m.sigma_aper, ap, what))
                ap = ap2
            elif abs(m.sigma_aper/ap-1.) > tol:
                ap = ap2
        rec.close(m.sigma_aper, ap, 'aperture', 'rms velocity in the aperture, '+what, rtol=tol)
        rec.close(m.disp_aper_ratio, ap/ref, 'ratio', 'aperture correction, '+what, rtol=tol)
        if vs == 0.:
            rec.close(m.disp_aper_ratio, 1., 'flat', 'correction without rotation, '+what, rtol=1e-9)
        if width is None and method == 'boxcar' or T:
            moves = [('scale-v', dict(Va=310.)), ('sign', dict(Va=-120.)), ('units', dict(scale=3.)), ('light', dict(Ie=7.))]
            if not even or fwhm == 0.:
                moves += [('mirror', dict(PA=-base['PA'], xc=-xc)), ('half', dict(PA=base['PA']+180.)), ('turn', dict(xc=-xc))]
            if vs not in (None, 0.):
                moves += [('sign-ratio', dict(vs=-vs))]
            for name, mv in moves:
                o = build(**dict(c, **mv))
                rec.step()
                rec.state(c, name)
                rec.close(o.disp_aper_ratio, m.disp_aper_ratio, name, 'correction after %s, %s' % (mv, what), rtol=tol)
            m.calc_aper_correction()
            rec.close(m.disp_aper_ratio, ap/ref, 'repeat', 'repeated calculation, '+what, rtol=tol)
            # the kinematic profile is reused by the next calculation
            o = build(**dict(c, vs={None: 2., 0.: None}.get(vs, 0.), kin=m.kinProfile))
            o = build(**dict(c, kin=m.kinProfile))
            rec.step(2)
            rec.close(o.disp_aper_ratio, ap/ref, 'reuse', 'calculation with a used profile, '+what, rtol=tol)
    rec.sample = dict(case=case, traces=rec.traces)
