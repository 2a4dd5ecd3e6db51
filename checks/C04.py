import numpy as np
from mc import mk
from checks.C01 import prod

RULE = ('roots: products of geometry, PSF, subpixels, spectral type, wavelength step and line set. From every root the '
        'model moves through all combinations of velocity, dispersion (zero, floored, upsampled, resolved, negative), '
        'resolution, redshift and dispersion options; every move must conserve the line flux within the sampling error '
        '2*sum exp(-2 pi^2 m^2 s^2) of a Gaussian of s pixels. A state is one configuration, a transition one move.')
CHUNK = 2
C = 299792.458


def cases(tier):
    T = tier == 'thorough'
    sp = [dict(spec_type='wave', dlam=3., nwave=61), dict(spec_type='wave', dlam=3., lines=[6564.6, 6530.], ratios=[1., 0.4], nwave=91),
          dict(spec_type='wave', dlam=1.7, nwave=90), dict(spec_type='velocity', dlam=60., nwave=61),
          dict(spec_type='velocity', dlam=45., nwave=82)]
    return list(prod(q=[0.1, 0.5, 1.] if T else [0.4, 1.], PA=[10., -100.] if T else [10.], n=[1., 4.] if T else [1.],
                     xc=[0., 0.2] if T else [0.15], nsub=[1, 2], sp=sp, nrows=[5], m0=[2.], 
                     psf=[dict(), dict(psf='Moffat', fwhm=0.5, dither=0.7), dict(fwhm=0.)], lamc=[0., 0.3],
                     big=[T]))


def sampling(s):
    """Bound on the relative error of the sum of a Gaussian of width s sampled with unit step."""
    if s <= 0.:
        return 0.
    m = np.arange(1, 60)
    return 2.*np.sum(np.exp(-2.*np.pi**2*m**2*s**2))


def first_moment(s):
    """Bound on the centroid error, in steps, of a Gaussian of width s sampled with unit step."""
    if s <= 0.:
        return 0.5
    m = np.arange(1, 60)
    return 2.*np.pi*s*s*np.sum(2.*m*np.exp(-2.*np.pi**2*m**2*s**2))


def run_case(case, rec):
    case = dict(case)
    big = case.pop('big')
    base = mk.conf(**case)
    wave_t = base['spec_type'] == 'wave'
    nl = len(base['lines'])

    def flux(c):
        a = mk.aper2d(c)
        m = np.asarray(a.model)
        rec.state(c)
        rec.step()
        rec.trace()
        w = mk.wave_grid(c)
        d = np.diff(w).mean()
        return m, w, d

    ref = dict(base, Va=0., sigma=150., res=0., upsample=False, floor=False, lines=base['lines'][:1], ratios=[1.])
    m, w, d = flux(ref)
    F0 = m.sum()*d
    # the dithered PSF can have a flux that nearly cancels: normalised to the total, not to the rows
    total = sum(base['ratios']) if wave_t else 1.
    modes = [dict(upsample=True, floor=True), dict(upsample=True, floor=False), dict(upsample=False, floor=True),
             dict(upsample=False, floor=False)]
    if big:
        modes.append(dict(upsample=True, floor=True, factor=5.))
    sig = [0., 1., 3., 8., 20., 45., 80., 140.] if not big else [0., 1., 2., 3., 5., 8., 14., 20., 30., 45., 60., 80., 110., 140.]
    for mode in modes:
        for z in ([1.5, 0.4] if wave_t else [1.5]):
            for Va in [0., 130., -250.]:
                for res in [0., 40., 90.]:
                    for sigma in sig:
                        if res == 90. and Va == -250. and not big:
                            continue
                        c = dict(base, Va=Va, res=res, sigma=sigma, z=z, **mode)
                        if not wave_t:
                            unit = c['dlam']
                        else:
                            unit = c['dlam']/(c['lines'][0]*(1.+z))*C
                        n, s = 1., sigma
                        if mode['upsample'] and sigma < unit/2.35:
                            n = c.get('factor', 3.)
                        floor = 0.
                        if mode['floor']:
                            floor = unit/2.35*(0.75/c['factor'] if mode['upsample'] else 1.)
                        s = max(sigma, floor)
                        if 0. < s/(unit/n) < 0.2:
                            continue        # narrower than the grid can hold
                        err = sampling(s/(unit/n)*(base['lines'][-1]/base['lines'][0] if wave_t else 1.)) + \
                            sampling(150./(ref['dlam']/(ref['lines'][0]*(1.+ref['z']))*C if wave_t else unit))
                        # wings outside the range: instrument resolution is renormalised, so only the intrinsic line
                        m, w, d = flux(c)
                        F = m.sum()*d
                        rec.close(F, F0*total, 'flux', 'line flux for %s' % dict(mode, Va=Va, res=res, sigma=sigma, z=z),
                                  rtol=err+2e-7)
                        if nl == 1 or not wave_t:
                            cen = (m.sum(axis=0)*w).sum()/m.sum()
                            obs = c['lines'][0]*(1.+z) if wave_t else 0.
                            if Va == 0.:
                                # first moment of a sampled Gaussian / nearest pixel of a zero width line
                                tol = min(0.5, first_moment(s/unit) + first_moment(s/(unit/n))/n)
                                if res > 0.:
                                    # edges of the range clip the convolved wings
                                    tol += 1e-3*max(1., (res/unit)**2)
                                rec.check(abs(cen-obs) <= (tol*1.2+1e-5)*d, 'centroid',
                                          'centroid %r instead of %r for %s' % (cen, obs, dict(mode, sigma=sigma, res=res)))
                        elif s/(unit/n) > 0.9 and Va != -250.:
                            L = [x*(1.+z) for x in c['lines']]
                            cut = .5*(L[0]+L[1])
                            prof = m.sum(axis=0)*d
                            lo, hi = prof[w < cut].sum(), prof[w >= cut].sum()
                            if (L[0]-L[1])/unit/L[0]*C > 9.*np.hypot(np.hypot(s, res), Va)/unit:
                                rec.close([hi, lo], [F0*c['ratios'][0], F0*c['ratios'][1]], 'line-ratio',
                                          'fluxes of the lines for %s' % dict(mode, Va=Va, res=res, sigma=sigma, z=z),
                                          rtol=1e-3)
    rec.outcome(F0)
    rec.sample = dict(case=case, flux=F0)
