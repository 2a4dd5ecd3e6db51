import itertools
import os
import shutil
import tempfile
import numpy as np
from mc import tables
from checks.C13 import gauss

RULE = ('roots: line sets x redshift x dispersion and starting values x continuum (recovery), one root per masked window '
        '(all positions over the line and its surroundings) x what the hidden pixels hold, and error runs (line set x number of '
        'realisations x seed x save / reload / repeat x resolution below, at and above the dispersion x plot). Every root runs '
        'the real 1D fit. A state is one finished fit.')
ASSUMPTIONS = ['noiseless spectra with more than 20 pixels per line; starting redshift within 10 Angstrom observed, starting '
               'dispersion and flux within a factor of three']
CHUNK = 1
CASE_LIMIT = 400

SETS = [['Halpha'], ['Hbeta'], ['OIII'], ['NII'], ['SII'], ['OII'], ['Halpha', 'NII'], ['Halpha', 'SII'], ['Halpha', 'NII', 'SII'],
        ['OIII', 'Hbeta'], ['Hbeta', 'OIII'], ['NII', 'Halpha']]


def cases(tier):
    T = tier == 'thorough'
    out = []
    for s in SETS:
        for z in (0.8, 2.3) if T else (2.3,):
            for dz, vel, v0, f0 in ([(0., 80., 80., 1.), (.0012, 40., 100., .5), (-.001, 200., 80., 2.)] if not T else
                                    itertools.product((0., .0012, -.001), (40., 80., 200.), (60., 100.), (.5, 2.))):
                if len(s) == 3 and dz == 0. and not T:
                    continue
                for cont in ([0., 0.], [.3, -2e-5], [.2]) if T else ([.3, -2e-5],) if len(s) > 1 else ([.3, -2e-5], [.2]):
                    out.append(dict(kind='recover', groups=s, z=z, dz=dz, vel=vel, v0=v0, f0=f0, cont=cont))
    for s in (['Halpha'], ['OIII', 'Hbeta']) if T else (['Halpha'],):
        for width in (1, 3, 9) if T else (3,):
            for p0 in range(0, 70, 5):
                out.append(dict(kind='mask', groups=s, width=width, first=p0, n=5))
    for s in (['Halpha'], ['OIII'], ['Halpha', 'NII']) if not T else SETS:
        for n in (1, 2, 5) if not T else (1, 2, 5, 12):
            for seed in (1,) if not T else (1, 2, 3):
                out.append(dict(kind='errors', groups=s, n=n, seed=seed))
    for s in (['Halpha'], ['Hbeta']):
        out.append(dict(kind='scatter', groups=s, n=40))
    for s in ('Halpha', 'Hbeta', 'OIII'):
        out.append(dict(kind='table', groups=[s]))
    for s in (['Halpha'], ['Hbeta', 'OIII'], ['OIII', 'Hbeta'], ['Halpha', 'NII'], ['Halpha', 'NII', 'SII']):
        for v0 in (80., 60., 150., -80., -150.):
            out.append(dict(kind='sign', groups=s, v0=v0, deep=T))
    out.append(dict(kind='refuse'))
    for title in (None, 'mask_a_b'):
        for errs in (False, True):
            out.append(dict(kind='plot', groups=['Halpha', 'NII'], mask=title, errs=errs))
    return out


def spectrum(groups, z, vel, fluxes, cont, pad=20., trim=60.):
    lam = [t[0] for s in groups for t in tables.group(s)]
    rng = [min(lam)-trim, max(lam)+trim]
    w = np.arange((rng[0]-pad)*(1.+z), (rng[1]+pad)*(1.+z), 1.6 if z < 1.5 or len(groups) < 3 else 2.6)
    f = sum(c*1e-18*w**i for i, c in enumerate(cont))
    for s, fl in zip(groups, fluxes):
        for w0, r in tables.group(s):
            f = f+gauss(w, w0*(1.+z), vel, fl*r)
    return w, f, rng


def setup(groups, z, w, f, err, rng, vel, flux, order, mask=None, res=35., num=500, maskname=None, **kw):
    import misfit
    from misfit.fit import FitEmissionLines1D
    g = misfit.Galaxy(z=z, field='F', ID=3, maskname=maskname)
    s = misfit.ObsSpectrum1D(wave=w.copy(), flux=f.copy(), flux_err=err.copy(), spec_mask=None if mask is None else mask.copy(), band='H')
    g.set_spectrum_1D(s)
    inst = misfit.Spectrograph(instrument_name='X', band='H', pixscale=.18, slit_width=.7, slit_length=5., PSF_type='Gaussian',
                               PSF_FWHM=.6, instrument_resolution=res)
    return FitEmissionLines1D(galaxy=g, instrument=inst, names_arr=list(groups), flux_arr=list(flux), vel_disp=vel,
                              cont_order=order, trim_restwave_range=rng, num_MC=num, **kw)


def values(fit):
    return np.concatenate([[fit.z, fit.vel_disp], np.ravel(fit.flux_arr), np.ravel(fit.cont_coeff)])


def errors(fit):
    return np.concatenate([np.atleast_2d(fit.z_err), np.atleast_2d(fit.vel_disp_err), np.atleast_2d(fit.flux_arr_err),
                           np.atleast_2d(fit.cont_coeff_err)])


def truth_ok(rec, fit, z, vel, fluxes, key, what, rtol=1e-5):
    rec.close((fit.z-z)*3e5, 0., key+'-z', what+': redshift offset in km/s', atol=0.01, rtol=0)
    rec.close(fit.vel_disp, vel, key+'-disp', what+': velocity dispersion', rtol=rtol)
    rec.close(np.ravel(fit.flux_arr), fluxes, key+'-flux', what+': line fluxes', rtol=rtol)


TABLES = {}


def read_once(read):
    """The tables of lines are read in every evaluation of the models: keep them in memory."""
    def wrapped(name, *args, **kw):
        if not isinstance(name, str) or not os.path.isfile(name) or args:
            return read(name, *args, **kw)
        st = os.stat(name)
        key = (name, st.st_mtime_ns, st.st_size, repr(sorted(kw.items())))
        if key not in TABLES:
            TABLES[key] = read(name, **kw)
        return TABLES[key]
    wrapped.once = True
    return wrapped


def run_case(case, rec):
    from astropy.io import ascii
    if case['kind'] == 'sign' and not hasattr(ascii.read, 'once'):
        ascii.read = read_once(ascii.read)
    tmp = tempfile.mkdtemp()
    try:
        globals()['do_'+case['kind']](case, rec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def do_recover(case, rec, tmp):
    c = case
    fl = [3e-17/(i+1.) for i in range(len(c['groups']))]
    w, f, rng = spectrum(c['groups'], c['z'], c['vel'], fl, c['cont'])
    err = 2e-20*(1.+.5*np.cos(np.arange(len(w))))
    fit = setup(c['groups'], c['z']+c['dz'], w, f, err, rng, c['v0'], [a*c['f0'] for a in fl], len(c['cont'])-1)
    rec.step()
    fit.fit(noErrors=True, noPlot=True)
    rec.trace()
    rec.state(values(fit))
    rec.outcome(c['groups'], c['vel'])
    what = 'fit of %s' % c
    truth_ok(rec, fit, c['z'], c['vel'], fl, 'recover', what)
    x = fit.galaxy.spec1D_trim.obswave
    rec.close(sum(a*x**i for i, a in enumerate(fit.cont_coeff)), sum(a*x**i for i, a in enumerate(c['cont'])), 'recover-cont',
              what+': continuum', rtol=1e-4, atol=1e-6)
    rec.close(fit.final_model, np.interp(x, w, f), 'recover-model', what+': best-fit model', rtol=1e-4, atol=1e-24)
    rec.check(not errors(fit).any(), 'recover-err', 'errors are set without computing them')
    s = fit.galaxy.spec1D
    rec.check(np.array_equal(s.flux, f) and np.array_equal(s.wave, w) and (s.spec_mask == 1.).all(), 'recover-data',
              'the 1D spectrum of the galaxy was changed by the fit')
    fit.calculate_inst_corr_vel_disp(noErrors=True)
    rec.close(fit.vel_disp_inst_corr, np.sqrt(c['vel']**2-35.**2), 'recover-inst', what+': corrected dispersion', rtol=1e-4)
    rec.check(not np.asarray(getattr(fit, 'vel_disp_inst_corr_err', np.ones(2))).any(), 'recover-err', what+': errors of the corrected dispersion are set without computing them')
    # fitting again from the result stays there
    fit.fit(noErrors=True, noPlot=True)
    rec.step()
    rec.state('again', values(fit))
    truth_ok(rec, fit, c['z'], c['vel'], fl, 'again', what+' (repeated)')


def do_sign(case, rec, tmp):
    """Lines in emission and absorption, from starting values of both signs."""
    from scipy.optimize import least_squares
    gr, z, vel = case['groups'], 2.3, 90.
    n = len(gr)
    for signs in itertools.product((1, -1), repeat=n):
        fl = [s*(3e-17 if i == 0 else 2e-17/i) for i, s in enumerate(signs)]
        w, f, rng = spectrum(gr, z, vel, fl, [.3, -2e-5])
        err = 2e-20*(1.+.5*np.cos(np.arange(len(w))))
        best = None
        for start in itertools.product((1., -1., .5, -2.) if case['deep'] or n == 1 else (1., -2.), repeat=min(n, 2)):
            start = list(start)+[1.]*(n-2)
            if signs[0] < 0 and (set(start) != {1.} or (case['v0'] > 0. and not case['deep'] and gr != ['Halpha'] and (gr != ['Halpha', 'NII'] or signs[1] < 0))):
                continue        # (slow fits, to the same result from either sign of the fluxes)
            fit = setup(gr, z, w, f, err, rng, case['v0'], [abs(a)*b for a, b in zip(fl, start)], 1)
            fit.fit(noErrors=True, noPlot=True)
            rec.step()
            rec.trace()
            rec.state(signs, start)
            what = 'lines %s with fluxes %s, starting at dispersion %s and fluxes times %s' % (gr, fl, case['v0'], start)
            got = np.ravel(fit.flux_arr)
            rec.check(fit.vel_disp >= 0., 'sign-disp', 'dispersion %s, %s' % (fit.vel_disp, what))
            rec.outcome(signs, [bool(x > 0) for x in got])
            if signs[0] > 0:
                truth_ok(rec, fit, z, vel, fl, 'sign', what, rtol=1e-4)
                continue
            if np.allclose(got, fl, rtol=1e-3) and abs(fit.vel_disp-vel) < .1:
                continue        # described as absorption
            rec.check((got >= 0.).all(), 'sign-flux', 'fluxes %s, %s' % (got, what))
            tr = fit.galaxy.spec1D_trim
            x, d, e = tr.obswave, tr.flux, tr.flux_err
            if best is None:
                # The best fit without negative fluxes, from the true values (the main line is absent)

                def model(q):
                    m = (q[0]+q[1]*(x-x.mean()))*1e-18
                    for s, a in zip(gr[1:], q[4:]):
                        for w0, r in tables.group(s):
                            m = m+gauss(x, w0*(1.+z+q[2]*1e-3), q[3]*100., a*1e-17*r)
                    return (m-d)/e
                q0 = [.3-2e-5*x.mean(), -2e-5, 0., .9]+[max(a, 1e-19)*1e17 for a in fl[1:]]
                best = least_squares(model, q0, bounds=([-np.inf, -np.inf, -5., .3]+[0.]*(n-1), [np.inf, np.inf, 5., 3.]+[np.inf]*(n-1)))
            chi = (((fit.final_model-d)/e)**2).sum()
            if abs(case['v0']) <= 100. and set(start) == {1.} and (n == 1 or max(signs[1:]) > 0) and 'OIII' not in gr:
                rec.check(chi <= 2.*best.cost*1.02, 'sign-best', 'chi squared %.6g of fluxes %s and dispersion %s, %.6g without the main line, %s' % (
                    chi, got, fit.vel_disp, 2.*best.cost, what))


def do_refuse(case, rec, tmp):
    """What cannot be done is refused, and nothing is written or changed."""
    w, f, rng = spectrum(['Halpha'], 2.3, 90., [3e-17], [.3, -2e-5])
    err = np.full(len(w), 2e-20)
    name = os.path.join(tmp, 'e')
    for res, kw in itertools.product((35., -1.), (dict(noErrors=True, noPlot=False), dict(noErrors=False, noPlot=True), dict(noErrors=True, noPlot=True),
                                                  dict(noErrors=False, noPlot=True, reload_errors=True, err_filename=name+'missing'),
                                                  dict(noErrors=False, noPlot=True, reload_errors=True))):
        fit = setup(['Halpha'], 2.3, w, f, err, rng, 80., [3e-17], 1, res=res, num=2)
        before = values_given(fit)
        bad = res < 0. or not kw['noPlot'] or not kw['noErrors']
        try:
            fit.fit(**kw)
            ok = True
        except Exception:
            ok = False
        rec.step()
        rec.state(res, kw)
        what = 'resolution %s, %s' % (res, kw)
        rec.check(ok != bad, 'refuse', 'a fit with %s is %s' % (what, 'done' if ok else 'refused'))
        rec.check(not os.listdir(tmp), 'refuse', 'files %s of a fit with %s' % (os.listdir(tmp), what))
        if res < 0.:
            rec.check(before == values_given(fit), 'refuse', 'the refused fit changed its values, %s' % what)
    rec.trace()


def values_given(fit):
    return [float(fit.z), float(fit.vel_disp)]+[float(x) for x in np.ravel(fit.flux_arr)]


def do_mask(case, rec, tmp):
    z, vel = 1.1, 90.
    gr = case['groups']
    fl = [3e-17/(i+1.) for i in range(len(gr))]
    w, f, rng = spectrum(gr, z, vel, fl, [.3, -2e-5])
    noise = 4e-19*np.sin(1.7*np.arange(len(w))+.3*np.arange(len(w))**2)
    err = 4e-19*(1.+.5*np.cos(np.arange(len(w))))
    i0 = np.searchsorted(w, tables.group(gr[0])[0][0]*(1.+z))-40
    for p in range(case['first'], case['first']+case['n']):
        mask = np.ones(len(w))
        sl = slice(i0+p, i0+p+case['width'])
        mask[sl] = 0.
        ref = None
        for name, fv, ev in (('plain', None, None), ('nan', np.nan, np.nan), ('huge', 1e30, 1e-30), ('zero', 0., 0.), ('inf', np.inf, None)):
            d, e = f+noise, err.copy()
            if fv is not None:
                d[sl] = fv
            if ev is not None:
                e[sl] = ev
            fit = setup(gr, z+2e-4, d if False else w, d, e, rng, 110., [a*.8 for a in fl], 1, mask=mask)
            rec.step()
            fit.fit(noErrors=True, noPlot=True)
            v = values(fit)
            if ref is None:
                ref = v
            rec.trace()
            rec.state(p, name)
            rec.outcome(v)
            rec.close(v, ref, 'hidden', 'pixels %d to %d masked: the fit depends on what they hold (%s)' % (p, p+case['width']-1, name),
                      rtol=1e-7, atol=1e-30)
        # noiseless: the truth comes back with the window masked
        d = f.copy()
        d[sl] = 5e-17
        fit = setup(gr, z+2e-4, w, d, err, rng, 110., [a*.8 for a in fl], 1, mask=mask)
        fit.fit(noErrors=True, noPlot=True)
        rec.step()
        rec.trace()
        rec.state(p, 'truth')
        truth_ok(rec, fit, z, vel, fl, 'masked', 'pixels %d to %d masked' % (p, p+case['width']-1))


def noisy(gr, n, z=1.1, vel=90.):
    fl = [3e-17/(i+1.) for i in range(len(gr))]
    w, f, rng = spectrum(gr, z, vel, fl, [.3, -2e-5])
    k = np.arange(len(w))
    f = f+2e-19*np.sin(1.7*k+.3*k**2)
    err = 2e-19*(1.+.5*np.cos(k))
    return w, f, err, rng, fl


def do_errors(case, rec, tmp):
    gr, n = case['groups'], case['n']
    z, vel = 1.1, 90.
    w, f, err, rng, fl = noisy(gr, n)
    k = int(np.searchsorted(w, tables.group(gr[0])[0][0]*(1.+z)))+25
    mask = np.ones(len(w))
    mask[k:k+2] = 0.
    name = os.path.join(tmp, 'err.pickle')
    first = None
    for run, bad in (('first', None), ('repeat', None), ('hidden', np.nan)):
        d, e = f.copy(), err.copy()
        if bad is not None:
            d[k:k+2], e[k:k+2] = bad, bad
        fit = setup(gr, z, w, d, e, rng, 100., fl, 1, mask=mask, num=n)
        np.random.seed(case['seed'])
        fit.fit(noPlot=True, err_filename=name)
        m = fit.load_mc_sim_matrix(line=gr[0], err_filename=name)
        best, er = values(fit), errors(fit)
        rec.step()
        rec.trace()
        rec.state(run, best, er)
        rec.outcome(run)
        rec.check(m.shape == (n, len(best)), 'matrix', 'the saved realisations have shape %s' % (m.shape,))
        rec.check(len({r[0] for r in m}) == n, 'matrix', 'realisations repeat')
        lo, hi = np.percentile(m, 15.865, axis=0), np.percentile(m, 84.135, axis=0)
        rec.close(er, np.array([best-lo, hi-best]).T, 'percentile', 'errors of %s with %d realisations' % (gr, n), rtol=1e-8, atol=1e-30)
        if first is None:
            first = best, er, m
        rec.close(best, first[0], 'seed-best', 'best fit of the %s run' % run, rtol=1e-9)
        rec.close(m, first[2], 'seed', 'realisations of the %s run with the same seed' % run, rtol=1e-6)
        rec.close(er, first[1], 'seed', 'errors of the %s run with the same seed' % run, rtol=1e-4, atol=1e-8*np.abs(first[0]).reshape(-1, 1))
    # the result reloads, whatever the random state
    before = open(name, 'rb').read()
    fit = setup(gr, z, w, f, err, rng, 100., fl, 1, mask=mask, num=n)
    np.random.seed(99)
    fit.fit(noPlot=True, err_filename=name, reload_errors=True)
    rec.step()
    rec.close(errors(fit), first[1], 'reload', 'reloaded errors', rtol=1e-4, atol=1e-8*np.abs(first[0]).reshape(-1, 1))
    rec.check(open(name, 'rb').read() == before, 'reload', 'reloading changed the file')
    # resolution below, equal to and above the dispersions of the realisations
    v = first[2][:, 1]
    for res in (0., 30., fit.vel_disp*.999, fit.vel_disp, fit.vel_disp*1.001, float(np.median(v)), 500.):
        fit.instrument.instrument_resolution = res
        fit.calculate_inst_corr_vel_disp(err_filename=name)
        c = lambda x: np.sqrt(np.maximum(np.asarray(x)**2-res**2, 0.))
        rec.step()
        rec.state('res', res)
        rec.close(fit.vel_disp_inst_corr, c(fit.vel_disp), 'inst', 'corrected dispersion for resolution %s' % res, rtol=1e-9, atol=1e-3)
        lo, hi = np.percentile(c(m[:, 1]), [15.865, 84.135])
        rec.close(fit.vel_disp_inst_corr_err, [c(fit.vel_disp)-lo, hi-c(fit.vel_disp)], 'inst-err',
                  'errors of the corrected dispersion for resolution %s' % res, rtol=1e-6, atol=1e-3)
    # one best fit, whether or not errors are made
    fit = setup(gr, z, w, f, err, rng, 100., fl, 1, mask=mask, num=n)
    fit.fit(noPlot=True, noErrors=True)
    rec.close(values(fit), first[0], 'noerr', 'best fit without errors', rtol=1e-9)


def do_scatter(case, rec, tmp):
    """The realisations scatter as the errors of the data say: the formal error, and twice it for twice the errors."""
    gr, n = case['groups'], case['n']
    w, f, err, rng, fl = noisy(gr, n)
    got = []
    for k in (1., 2.):
        fit = setup(gr, 1.1, w, f, err*k, rng, 100., fl, 1, num=n)
        np.random.seed(5)
        fit.fit(noPlot=True, err_filename=os.path.join(tmp, 'e'))
        m = fit.load_mc_sim_matrix(err_filename=os.path.join(tmp, 'e'))
        rec.step()
        rec.trace()
        rec.state(k)
        rec.outcome(k)
        p = fit.lmfit_result
        # formal errors from the derivatives of the model
        from misfit.model.emission_lines_model import EmissionLinesSpectrum1DModel
        em = EmissionLinesSpectrum1DModel(names_arr=gr, cont_order=1)
        x = fit.galaxy.spec1D_trim
        good = x.spec_mask == 1.
        J = []
        names = list(p.params)
        for nm in names:
            q = [p.params.copy(), p.params.copy()]
            h = abs(p.params[nm].value)*1e-5 or 1e-12
            for s, sg in zip(q, (1, -1)):
                s[nm].set(value=p.params[nm].value+sg*h)
            J.append((em.make1DProfile(q[0], x.obswave)-em.make1DProfile(q[1], x.obswave))[good]/(2*h)/(err*k)[np.searchsorted(w, x.obswave)][good])
        J = np.array(J)
        sc = np.sqrt((J**2).sum(axis=1))
        cov = np.linalg.inv((J/sc[:, None]).dot((J/sc[:, None]).T))/np.outer(sc, sc)
        formal = np.sqrt(np.diag(cov))
        ratio = m.std(axis=0)/formal
        rec.check((ratio > .5).all() and (ratio < 1.6).all(), 'scatter', 'scatter of the realisations over the formal errors: %s' % ratio)
        rec.check((np.abs(m.mean(axis=0)-values(fit)) < formal).all(), 'scatter', 'realisations are not centred on the best fit: %s formal errors' % (
            (m.mean(axis=0)-values(fit))/formal))
        got.append(m.std(axis=0))
    rec.check((np.abs(got[1]/got[0]-2.) < .25).all(), 'scatter', 'scatter for twice the errors: %s times' % (got[1]/got[0]))


def do_table(case, rec, tmp):
    import misfit
    gr = case['groups']
    z, vel = 1.4, 90.
    lo, hi = tables.ranges('trim_wavelengths_1D.param')[gr[0]][:2]
    w, f, _ = spectrum(gr, z, vel, [3e-17], [.3, -2e-5], pad=200.)[:3]
    for cover in ('both', 'left', 'right', 'inside'):
        a, b = (lo-50. if cover in ('both', 'left') else lo+12.)*(1.+z), (hi+50. if cover in ('both', 'right') else hi-12.)*(1.+z)
        sel = (w >= a) & (w <= b)
        fit = setup(gr, z, w[sel], f[sel], np.full(sel.sum(), 2e-20), None, 100., [2e-17], 1)
        rec.step()
        rec.trace()
        rec.state(cover)
        t = fit.galaxy.spec1D_trim
        want = w[sel][(w[sel] >= lo*(1.+z)) & (w[sel] <= hi*(1.+z))]
        rec.close(t.obswave, want, 'range', 'wavelengths used for %s, data %s' % (gr[0], cover))
        fit.fit(noErrors=True, noPlot=True)
        truth_ok(rec, fit, z, vel, [3e-17], 'table', 'fit of %s with the range of the table, data %s' % (gr[0], cover))
        rec.outcome(cover)


def do_plot(case, rec, tmp):
    gr = case['groups']
    w, f, err, rng, fl = noisy(gr, 3)
    name, plot = os.path.join(tmp, 'e'), os.path.join(tmp, 'plot.png')
    res = []
    for pl in (True, False):
        fit = setup(gr, 1.1, w, f, err, rng, 100., fl, 1, num=3, maskname=case['mask'])
        np.random.seed(2)
        fit.fit(noErrors=not case['errs'], noPlot=not pl, plot_filename=plot if pl else None, err_filename=name if case['errs'] else None)
        rec.step()
        rec.trace()
        rec.state(pl)
        rec.outcome(pl, case['errs'])
        res.append((values(fit), errors(fit)))
        want = (['e'] if case['errs'] else [])+['plot.png']
        rec.check(sorted(os.listdir(tmp)) == want, 'files', 'files written: %s, expected %s' % (sorted(os.listdir(tmp)), want))
    rec.check(os.path.getsize(plot) > 5000, 'plot', 'plot file of %d bytes' % os.path.getsize(plot))
    rec.close(res[0][0], res[1][0], 'plot', 'best fit with and without a plot', rtol=1e-12)
    rec.close(res[0][1], res[1][1], 'plot', 'errors with and without a plot', rtol=1e-9)
