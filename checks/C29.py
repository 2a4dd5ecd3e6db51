import contextlib
import copy
import io
import itertools
import os
import shutil
import tempfile
import warnings
from unittest import mock
import numpy as np
from mc import mk
from checks import C08, C14, C17, C20, C28

RULE = ('roots: settings and first defect of a spectrum prepared for fitting; positions and widths of the emission; mock cubes; subsets of the output files of a 2D fit; 1D fits.  '
        'Below each every second defect (offset, PSF width, noise, parameter) is taken, and the real code runs with every diagnostic option off and on, '
        'from the same start and with the same random numbers; everything it leaves behind is compared.  A state is one run with diagnostics.')
ASSUMPTIONS = ['fits that converge (the result of a fit that gives up is compared with nothing)']
CHUNK = 1
CASE_LIMIT = 600
FILES = ['filename_log', 'filename_sampler', 'filename_bestfit_model', 'filename_plot_trace_burnin', 'filename_plot_trace', 'filename_plot_param_corner', 'filename_plot_bestfit']
SETS = [dict(), dict(cont=False), dict(given=False), dict(table=True), dict(wt='none', rows=1), dict(wt='optimal'), dict(sky=[17, 20]), dict(sky=[18], rows=1, cont=False),
        dict(edge=3), dict(dither=True), dict(dither=True, cont=False, given=False), dict(rows=5, sky=[18])]


def cases(tier):
    T = tier == 'thorough'
    out = []
    pos = C08.positions(T)
    for s in SETS:
        for d in [None]+[[k, p] for k in ('nanflux', 'mask', 'mask1', 'nan1', 'zeroerr1') for p in range(len(pos))]:
            if not T and d is not None and (d[1] % 3 or s.get('dither') and d[1]):
                continue
            out.append(dict(kind='prep', set=s, first=d, deep=T))
    for sy, dith in itertools.product((1.3, 2.5), (False, True)):
        for cen in ((5., 7.3, 9.95) if not dith else (12.65, 21.3, 30.)):
            for cont in (False, True):
                out.append(dict(kind='extent', sy=sy, dither=dith, cen=cen, sep=14. if dith else 0., cont=cont, deep=T))
    for psf, PA, z in itertools.product(('Gaussian', 'Moffat'), (0., 40.), (1.5, 2.)):
        out.append(dict(kind='cube', psf=psf, PA=PA, z=z))
    n = len(FILES)
    for k in range(0, 2**n, 8):
        out.append(dict(kind='run', sets=list(range(k, k+8)) if T else [k+(k//8*3) % 8, k+(k//8*3+5) % 8], vary='11100' if k % 16 else '10101'))
    for gr in (['Halpha'], ['OIII'], ['Halpha', 'NII'], ['OIII', 'Hbeta']):
        for errs in (False, True):
            out.append(dict(kind='oned', groups=gr, errs=errs))
    return out


@contextlib.contextmanager
def quiet():
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt
    old = mf.Figure.savefig

    def savefig(fig, *a, **kw):
        """The real thing, at a low resolution."""
        kw['dpi'] = 30
        return old(fig, *a, **kw)
    with mock.patch.object(mf.Figure, 'savefig', savefig), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'), mock.patch.object(plt, 'show', lambda *a, **k: None):
        warnings.simplefilter('ignore')
        try:
            yield
        finally:
            plt.close('all')


def attempt(f):
    with quiet():
        try:
            return ('ok', f())
        except Exception as e:
            return ('raised', '%s: %s' % (type(e).__name__, e))


def close(a, b):
    """Public attributes of two misfit objects that differ by more than rounding."""
    return [k for k in C20.diff(a, b) if k.split('.')[-1] != 'debug' and not near(lookup(a, k), lookup(b, k))]


def lookup(o, path):
    for k in path.split('.'):
        o = o.__dict__.get(k, 'missing') if hasattr(o, '__dict__') else 'missing'
    return o


def near(a, b):
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
    except (TypeError, ValueError):
        return False


def run_case(case, rec):
    tmp = tempfile.mkdtemp()
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        globals()['do_'+case['kind']](dict(case), rec, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    rec.trace()


def spoilt(case, second):
    """Spectrum of C08 with its defects."""
    import misfit
    c, wave, flux, err, f1, e1 = C08.build(case['set'])
    half = (len(wave)-1)//2
    pos = [(i, j+half-18) for i, j in C08.positions(case['deep'])]
    mask = np.ones(flux.shape)
    m1 = np.ones(len(wave))
    if c['edge']:
        m1[:c['edge']] = 0.
    for d in (case['first'], second):
        if d is None:
            continue
        i, j = pos[d[1]]
        i += 19 if c['dither'] else 0
        if d[0] == 'nanflux':
            flux[i, j] = np.nan
        elif d[0] == 'mask':
            mask[i, j] = 0.
        elif d[0] == 'mask1':
            m1[j] = 0.
        elif d[0] == 'nan1':
            f1[j] = np.nan
        elif d[0] == 'zeroerr1':
            e1[j] = 0.
    kw = {}
    if not c['table']:
        kw = dict(wave_full_range_rest=np.array([6494.6, 6634.6]), wave_line_range_rest=np.array([6534.6, 6594.6]), mask_lines_wave_range_rest=np.array([6532.6, 6596.6]))
    if c['given']:
        kw.update(spec_mask=mask)
    g = misfit.Galaxy(z=1.5, n=1., re_arcsec=.5, q=.6, delt_PA=20., dither=c['dither'])
    s = misfit.ObsSpectrum2D(wave=wave, flux=flux, flux_err=err, band='H', linenames_arr=['HA6565'], restwave_arr=np.array([6564.6]),
                             flux_ratio_arr=np.array([1.]), ypos=22.3 if c['dither'] else 3.2, no_continuum_subtraction=not c['cont'],
                             spatial_weight_type=c['wt'], **kw)
    g.set_spectrum_2D(s)
    g.set_spectrum_1D(misfit.ObsSpectrum1D(wave=wave.copy(), flux=f1, flux_err=e1, spec_mask=m1))
    return g


def do_prep(case, rec, tmp):
    pos = range(len(C08.positions(case['deep'])))
    seconds = [None]+[[k, p] for k in ('nan1', 'mask1', 'nanflux') for p in pos]
    if case['set'].get('dither') and not case['deep']:
        seconds = seconds[::5]
    for second in seconds:
        got = []
        for debug in (False, True):
            g = spoilt(case, second)
            g.debug = debug
            r = attempt(lambda: g.spec2D.fit_prep_calcs(g, C28.instrument()))
            got.append((r[0], r[1] if r[0] == 'raised' else None, g))
            if r[0] == 'ok':
                keep = copy.deepcopy(g)
                for k in (False, True):
                    attempt(lambda: g.spec2D.get_low_snr_mask(debug=k))
                    got[-1] += (np.array(g.spec2D.low_snr_row_inds), np.array(g.spec2D.mask_low_snr))
                got[-1] = got[-1][:2]+(keep,)+got[-1][3:]
        rec.step()
        rec.state(second)
        what = 'settings %s, defects %s and %s' % (case['set'], case['first'], second)
        a, b = got
        if not rec.check(a[:2] == b[:2], 'fails', 'without debug %s %s, with debug %s %s, %s' % (a[0], a[1], b[0], b[1], what)):
            continue
        if a[0] == 'raised':
            rec.outcome(a[1])
            continue
        bad = close(a[2], b[2])
        rec.check(not bad, 'prepared', 'preparing with debug changes %s: %r, without %r, %s' % (bad[:5], bad and lookup(b[2], bad[0]), bad and lookup(a[2], bad[0]), what))
        for x in (a, b):
            rec.check(np.array_equal(x[3], x[5]) and np.array_equal(x[4], x[6]), 'rows', 'low signal rows %s, with debug %s, %s' % (x[3], x[5], what))
        rec.outcome(len(a[3]), a[2].spec2D.flux.shape)


def do_extent(case, rec, tmp):
    for k, (dy, sky, fwhm, low) in enumerate(itertools.product((0., 1.2), ((), (12, 19)), (.3, .6, 1.2), ((), 'edges', 'most'))):
        if not case['deep'] and k % 3 != (k//9+k//3) % 3:
            continue
        g, s = C28.build(case, dy, C28.L0, sky, .1)
        g.maskname, g.field, g.ID = [(None, None, None), ('a_b', 'COSMOS', 7), (None, 'UDS', 12)][k % 3]
        r = attempt(lambda: s.fit_prep_calcs(g, C28.instrument()))
        if not rec.check(r[0] == 'ok', 'prepare', 'preparing %s' % (r[1],)):
            return
        n = s.flux.shape[0]
        s.low_snr_row_inds = np.array(dict(edges=[0, n-1], most=[i for i in range(n) if i != s.m0]).get(low, []), int)
        names = ['D50', 'D50_err', 'sigma_y_emis_obs', 'sigma_y_emis_obs_err', 'sigma_y_emis_int', 'sigma_y_emis_int_err']
        inst = C28.instrument(fwhm)
        got = []
        for kw in (dict(), dict(plot=True), dict(filename_plot=os.path.join(tmp, 'y.png')), dict(plot=True, filename_plot=os.path.join(tmp, 'z.png')))[:4 if case['deep'] else 3]:
            x = copy.deepcopy(s)
            keep = copy.deepcopy(s)
            np.random.seed(3)
            from misfit.general import galaxy_utils
            r = attempt(lambda: galaxy_utils.fit_emission_y_profile(x, g, inst, num_MC=5, **kw))
            got.append((r[0], r[1] if r[0] == 'raised' else None, [np.array(getattr(x, q, np.nan), float) for q in names], np.random.get_state()[1].sum()))
            for q in names:
                x.__dict__.pop(q, None)
                keep.__dict__.pop(q, None)
            bad = close(keep, x)
            rec.check(not bad, 'spectrum', 'the spectrum is changed by %s: %s' % (kw, bad[:5]))
            rec.step()
        what = 'emission %s, offset %s, sky %s, PSF %s, rows left out: %s, names %s' % (case, dy, sky, fwhm, low or 'none', (g.maskname, g.field, g.ID))
        rec.state([dy, sky, fwhm, low])
        for other, how in zip(got[1:], ('shown', 'saved', 'both')):
            ok = got[0][:2] == other[:2] and all(np.allclose(p, q, rtol=1e-9, atol=1e-12, equal_nan=True) for p, q in zip(got[0][2], other[2]))
            if not rec.check(ok, 'extent', 'extent with the plot %s: %s %s, without %s %s, %s' % (how, other[0], [list(np.ravel(v)) for v in other[2]][:3], got[0][0],
                                                                                                 [list(np.ravel(v)) for v in got[0][2]][:3], what)):
                break
        if got[0][2][0] > -99.:
            for f in ('y.png', 'z.png')[:len(got)-2]:
                p = os.path.join(tmp, f)
                rec.check(os.path.exists(p) and os.path.getsize(p) > 0, 'plot', 'plot %s not written, %s' % (f, what))
        for f in os.listdir(tmp):
            rec.check(f in ('y.png', 'z.png'), 'files', 'file %s written, %s' % (f, what))
            os.remove(os.path.join(tmp, f))
        rec.outcome(bool(got[0][2][0] > -99.))


def do_cube(case, rec, tmp):
    """Mock cubes and models with and without the debug quantities."""
    for Va, sig, n, q in itertools.product((0., 150.), (20., 90.), (1., 4.), (.4, .95)):
        c = mk.conf(nrows=7, nwave=15, nsub=1, pad=.4, psf=case['psf'], PA=case['PA'], z=case['z'], Va=Va, sigma=sig, n=n, q=q)
        got = []
        for debug in (False, True):
            g, inst = mk.galaxy(c), mk.instrument(c)
            k = mk.kinmodel(c, g)
            k.debug = debug
            r = attempt(lambda: k.make_3D_int_model(galaxy=g, instrument=inst, theta_fitting=mk.theta(c)))
            r2 = attempt(lambda: k.make_model(galaxy=g, instrument=inst, theta_fitting=mk.theta(c)))
            t = mk.theta(c)
            t[:3] *= 1.1
            r3 = attempt(lambda: k.update_3D_int_model(theta_fitting=t))
            got.append(([x[0] for x in (r, r2, r3)], [x[1] for x in (r, r2, r3)], getattr(k, 'model_cube', None), getattr(k, 'model', None)))
        rec.step(2)
        rec.state([Va, sig, n, q])
        a, b = got
        what = '%s, Va %s, sigma %s, n %s, q %s' % (case, Va, sig, n, q)
        if rec.check(a[0] == b[0] == ['ok']*3, 'cube', 'debug: %s, without: %s, %s' % (b[1], a[1], what)):
            rec.close(np.asarray(b[2]), np.asarray(a[2]), 'cube', 'cube with debug, %s' % what, rtol=1e-10)
            rec.close(np.asarray(b[3]), np.asarray(a[3]), 'model', 'model with debug, %s' % what, rtol=1e-10)
        rec.outcome(Va, sig)


def settled(f):
    r = f.mcmc_results
    out = {k: copy.deepcopy(v) for k, v in vars(r).items() if not k.startswith('_')}
    out['flatchain'] = np.array(f.sampler_dict['flatchain'])
    out['model'] = np.array(f.kinModel.model)
    out['theta'] = np.array(f.kinModel.kinProfile.theta)
    return out


def do_run(case, rec, tmp):
    """A whole fit with every subset of its output files: the same fit, and only those files."""
    f = C17.fit(case['vary'], nWalkers=10, nBurn=1, nSteps=3)
    f.galaxy.spec2D.low_snr_row_inds = np.array([0], int)
    f.galaxy.spec2D.wh_sky_fit = np.array([], int)
    base = None
    import logging
    logging.disable(logging.WARNING)
    for k in [0]+[s for s in case['sets'] if s]:
        d = os.path.join(tmp, str(k))
        os.mkdir(d)
        os.chdir(d)
        x = f.copy()
        want = []
        for i, name in enumerate(FILES):
            v = None
            if k >> i & 1:
                v = os.path.join(d, name+('.png' if 'plot' in name else '.pickle' if 'log' not in name else '.txt'))
                want.append(os.path.basename(v))
            x.mcmcOptions.setAttr(**{name: v})
        np.random.seed(11)
        with quiet():
            try:
                x.fit()
                err = None
            except Exception as e:
                err = '%s: %s' % (type(e).__name__, e)
        rec.step()
        rec.state(k)
        what = 'files %s, free %s' % (want, case['vary'])
        if not rec.check(err is None, 'run', 'fit with %s fails: %s' % (what, err)):
            continue
        got = sorted(os.listdir(d))
        rec.check(got == sorted(want) and all(os.path.getsize(os.path.join(d, n)) for n in got), 'files', 'files written %s, expected %s' % (got, sorted(want)))
        seen = settled(x)
        if base is None:
            base = seen
            alone = f.copy()
            for name in FILES:
                alone.mcmcOptions.setAttr(**{name: None})
            np.random.seed(11)
            with quiet():
                alone.run_mcmc()
                alone.analyze_results()
            steps = settled(alone)
            bad = [q for q in steps if not C20.same(steps[q], seen.get(q))]
            rec.check(not bad, 'whole', 'fit() differs from sampling and analysing in %s' % bad[:5])
        bad = sorted(q for q in set(base) | set(seen) if q not in base or q not in seen or not C20.same(base[q], seen[q]))
        rec.check(not bad, 'result', 'the fit with %s differs from the fit without in %s: %r, %r' % (what, bad[:5], bad and seen.get(bad[0]), bad and base.get(bad[0])))
        rec.outcome(len(got))
    bad = f.copy()
    bad.instrument.instrument_resolution = -1.
    d = os.path.join(tmp, 'bad')
    os.mkdir(d)
    os.chdir(d)
    for name in FILES:
        bad.mcmcOptions.setAttr(**{name: os.path.join(d, name)})
    r = attempt(bad.fit)
    rec.check(r[0] == 'raised' and not os.listdir(d), 'negative', 'a fit with negative resolution: %s, files %s' % (r, os.listdir(d)))


def do_oned(case, rec, tmp):
    gr = case['groups']
    for mask, vd, title in itertools.product((None, [5, 6, 20]), (60., 150.), (None, 'm_a_b')):
        got = []
        for plot in (False, True):
            w, fl, rng = C14.spectrum(gr, 1.1, vd, [2.e-17]*len(gr), [.3, -2e-5])
            fl = fl+2.e-20*np.sin(np.arange(len(w))*1.7)
            m = None
            if mask is not None:
                m = np.ones(len(w))
                m[[x+20 for x in mask]] = 0.
            fit = C14.setup(gr, 1.1, w, fl, np.full(len(w), 1.e-19), rng, 90., [2.e-17]*len(gr), 1, num=4, mask=m, maskname=title)
            np.random.seed(2)
            name = os.path.join(tmp, 'p.png')
            r = attempt(lambda: fit.fit(noErrors=not case['errs'], noPlot=not plot, plot_filename=name if plot else None,
                                        err_filename=os.path.join(tmp, 'e') if case['errs'] else None))
            files = sorted(os.listdir(tmp))
            for q in files:
                os.remove(os.path.join(tmp, q))
            got.append((r[0], r[1] if r[0] == 'raised' else None, files, {k: copy.deepcopy(v) for k, v in vars(fit).items() if not k.startswith('_')}))
        rec.step()
        rec.state([mask, vd, title])
        what = '%s, mask %s, dispersion %s, mask name %s' % (case, mask, vd, title)
        a, b = got
        if not rec.check(a[:2] == b[:2] == ('ok', None), 'oned', 'fit without plot %s, with plot %s, %s' % (a[:2], b[:2], what)):
            continue
        rec.check([q for q in b[2] if q != 'p.png'] == a[2] and 'p.png' in b[2], 'files', 'files %s, without plot %s, %s' % (b[2], a[2], what))
        bad = sorted(q for q in set(a[3]) | set(b[3]) if isinstance(a[3].get(q), (int, float, np.ndarray, list, str)) and not C20.same(a[3][q], b[3].get(q)))
        rec.check(not bad, 'result', 'plot changes %s: %s' % (bad, what))
        rec.outcome(len(b[2]))
