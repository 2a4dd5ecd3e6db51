import itertools
import numpy as np
from mc import tables

RULE = ('roots: every ordered set of up to three line groups x continuum order x explicit or table lines. From every root all '
        'combinations of redshift, dispersion, flux signs and sizes, continuum coefficients and pixel grids (step, sub-pixel '
        'position, line on, beside and outside the grid) are evaluated on the real model and compared with the explicit sum of '
        'Gaussians; residuals for all masks of a small grid. A state is one parameter set and grid.')
CHUNK = 2
C = 299792.458


def cases(tier):
    T = tier == 'thorough'
    g = ['Halpha', 'Hbeta', 'OIII', 'NII', 'SII', 'OII']
    out = []
    for k in (1, 2, 3):
        for s in (itertools.permutations(g, k) if k < 3 or T else itertools.combinations(g, 3)):
            for order in (0, 1, 2, 3) if T else (0, 1, 2) if k == 1 else (len(out) % 3,):
                out.append(dict(kind='model', groups=list(s), order=order, deep=T))
    for s in g:
        out.append(dict(kind='set', group=s, deep=T))
    for n in range(1, 9 if T else 7):
        out.append(dict(kind='mask', n=n))
    return out


def gauss(x, mu, vel, flux):
    s = vel/C*mu
    return flux/(s*np.sqrt(2*np.pi))*np.exp(-0.5*((x-mu)/s)**2)


def params(z, vel, fluxes, cont):
    import lmfit
    p = lmfit.Parameters()
    p.add('z', value=z)
    p.add('vel_disp', value=vel)
    for i, f in enumerate(fluxes):
        p.add('flux%d' % i, value=f)
    for i, c in enumerate(cont):
        p.add('cont_coeff%d' % i, value=c)
    return p


def run_case(case, rec):
    from misfit.model.emission_lines_model import EmissionLinesSpectrum1DModel, EmissionLines1DModel
    if case['kind'] == 'mask':
        n = case['n']
        m = EmissionLinesSpectrum1DModel(names_arr=['Halpha'], cont_order=1)
        x = 6564.6*2.5+(np.arange(n)-n/2.)*5.
        p = params(1.5, 120., [3e-17], [2., 1e-4])
        full = gauss(x, 6564.6*2.5, 120., 3e-17)+(2.+1e-4*x)*1e-18
        data, err = np.cos(np.arange(n))*1e-18, (1.+np.arange(n))*1e-19
        for mask in itertools.product([0., 1.], repeat=n):
            mask = np.array(mask)
            for bad in (None, np.nan, 0., 'zeros', 'gaps'):
                d, e = data.copy(), err.copy()
                if bad == 'zeros':
                    # usable pixels hold exactly zero in places
                    d[::2] = 0.
                    d[mask == 0.] = bad = -0.
                use = mask == 1.
                if bad == 'gaps':
                    # usable pixels without a finite residual do not count
                    d[1::3], e[2::4] = np.nan, 0.
                    use = use & np.isfinite(d) & (e > 0.)
                    bad = np.inf
                if bad is not None:
                    # hidden pixels may hold anything
                    d[mask == 0.] = np.nan
                    e[mask == 0.] = bad
                r = np.asarray(m.residual1DProfile(p, x, d, e, mask))
                want = ((full-np.where(use, d, 0.))/err)[use]
                rec.step()
                rec.trace()
                rec.state(mask, str(bad), (d == 0.).sum())
                rec.close((r**2).sum(), (want**2).sum(), 'residual', 'squared residual for mask %s' % mask, rtol=1e-7, atol=1e-12)
                rec.check(np.isfinite(r).all(), 'residual', 'non-finite residual for mask %s' % mask)
        rec.outcome(n)
        return
    if case['kind'] == 'set':
        want = tables.group(case['group'])
        for explicit in ('table', 'all', 'wave', 'ratio', 'names'):
            kw = dict(name=case['group'])
            w = [list(t) for t in want]
            if explicit == 'all':
                kw = dict(name='mine', linenames_arr=['A', 'B'], restwave_arr=np.array([6000., 6050.]), flux_ratio_arr=np.array([1., .25]))
                w = [[6000., 1.], [6050., .25]]
            elif explicit == 'wave':
                kw['restwave_arr'] = np.array([t[0]+7. for t in want])
                w = [[t[0]+7., t[1]] for t in want]
            elif explicit == 'ratio':
                kw['flux_ratio_arr'] = np.array([t[1]*0.5 for t in want])
                w = [[t[0], t[1]*.5] for t in want]
            elif explicit == 'names':
                kw = dict(name=case['group'], linenames_arr=['HB4863', 'OIII4960'])
                l = tables.lines()
                w = [list(l['HB4863']), list(l['OIII4960'])]
            m = EmissionLines1DModel(**kw)
            for z, vel, flux in itertools.product((0., 1.2, 2.9), (30., 90., 300.), (1., -2.5, 4e-17)):
                mus = [t[0]*(1.+z) for t in w]
                x = np.arange(min(mus)-80., max(mus)+80., 1.3)
                m.make1DProfile(x, z, vel, flux)
                exp = sum(gauss(x, mu, vel, flux*t[1]) for mu, t in zip(mus, w))
                rec.step()
                rec.trace()
                rec.state(explicit, z, vel, flux)
                rec.close(m.profile, exp, 'profile', 'profile of %s (%s lines) z=%s sigma=%s flux=%s' % (case['group'], explicit, z, vel, flux),
                          rtol=1e-9, atol=1e-12*abs(flux))
                rec.outcome(np.round(exp.sum(), 20))
        m = EmissionLines1DModel(name=case['group'], profile_function=lambda x, mu, vel, flux: 0.*x+flux*mu/vel)
        x = np.arange(5.)
        m.make1DProfile(x, 1., 50., 2.)
        rec.close(m.profile, 0.*x+sum(2.*t[1]*t[0]*2./50. for t in want), 'function', 'profile with a given shape function')
        return
    groups, order = case['groups'], case['order']
    sets = [tables.group(g) for g in groups]
    model = EmissionLinesSpectrum1DModel(names_arr=list(groups), cont_order=order)
    ref = [t[0] for s in sets for t in s]
    for z in ((0., 1.5, 2.31) if len(groups) == 1 else (0., 2.31)) if not case['deep'] else (0., 0.7, 1.5, 2.31, 3.1):
        lam = np.array(ref)*(1.+z)
        for vel in (12., 70., 350.):
            for fluxes in ([1e-17*(i+1) for i in range(len(groups))], [2e-17*(-1)**i for i in range(len(groups))], [0.]*len(groups)):
                for cont in ([0.]*(order+1), [3.*10.**(-3*i)*(-1)**i for i in range(order+1)]):
                    # pixel grids: fine around all lines; coarse with the first line between pixels; beside the line only; outside
                    grids = [np.linspace(lam.min()-50., lam.max()+50., 301)]
                    for sub in (0., 0.25, 0.5):
                        grids.append(lam[0]+(np.arange(9)-4.+sub)*6.)
                    grids += [lam[0]+4.+np.arange(5)*3., lam.max()+4000.+np.arange(6)*2., np.array([lam[-1]])]
                    p = params(z, vel, fluxes, cont)
                    for gi, x in enumerate(grids):
                        got = model.make1DProfile(p, x)
                        want = np.zeros(len(x))
                        for s, f in zip(sets, fluxes):
                            for w0, ratio in s:
                                want += gauss(x, w0*(1.+z), vel, f*ratio)
                        base = sum(c*1e-18*x**i for i, c in enumerate(cont))
                        rec.step()
                        rec.trace()
                        rec.state(z, vel, fluxes, cont, gi)
                        sc = np.abs([c*1e-18*x.max()**i for i, c in enumerate(cont)]).max()
                        rec.close(got, want+base, 'model', 'model of %s, z=%s sigma=%s fluxes=%s continuum=%s grid %d' % (
                            groups, z, vel, fluxes, cont, gi), rtol=1e-9, atol=1e-12*sc+1e-40)
                    rec.outcome(z, vel, fluxes, cont)
                    # the line flux itself, on a fine grid that holds the lines
                    s = 12./C*lam.min()
                    x = np.arange(lam.min()-40.*s*vel/12., lam.max()+40.*s*vel/12., 0.4*s*vel/12.)
                    if len(x) < 40000:
                        got = model.make1DProfile(params(z, vel, fluxes, [0.]*(order+1)), x)
                        tot = sum(f*r for ss, f in zip(sets, fluxes) for _, r in ss)
                        rec.close(got.sum()*(x[1]-x[0]), tot, 'flux', 'integrated flux of %s, z=%s sigma=%s' % (groups, z, vel),
                                  rtol=1e-6, atol=1e-22)
    rec.sample = dict(case=case, traces=rec.traces)
