import itertools
import os
import pickle
import numpy as np
from mc import mk

RULE = ('roots: every pair of programs (fit, copied fit, model, mock, aperture models), each working on its own galaxy, with and without a shared '
        'instrument, options and settings; below each root every interleaving of the operations of the two programs is run in a fresh process and '
        'everything each program can observe is compared, after every operation, with the same program running alone.  A state is one prefix of '
        'an interleaving.')
ASSUMPTIONS = ['each fit has its own galaxy; profiles and priors are not handed to two fits explicitly']
CHUNK = 1
CASE_LIMIT = 600

PROGRAMS = dict(fit=['new', 'setup', 'sample', 'analyse', 'move'],
                short=['new', 'setup', 'analyse', 'move'],
                copy=['new', 'setup', 'copy', 'usecopy', 'move'],
                kin=['knew', 'kmake', 'kmove', 'kbad'],
                mock=['slit', 'cube', 'slit'],
                aper=['anew', 'amove', 'amove2'],
                one=['d1', 'd1again', 'r1', 'r1move'])


def orders(na, nb):
    return [tuple('A' if i in c else 'B' for i in range(na+nb)) for c in itertools.combinations(range(na+nb), na)]


def cases(tier):
    T = tier == 'thorough'
    out = []
    names = list(PROGRAMS)
    for a, b in itertools.product(names, repeat=2):
        if not T and (a > b or (a, b) == ('fit', 'fit') or 'short' in (a, b) and a != b or (a, b) == ('copy', 'copy')):
            continue
        for shared in (False, True):
            if not T and shared != ((a, b) in (('aper', 'kin'), ('aper', 'fit'), ('aper', 'one'))) and (a, b) not in (('short', 'short'), ('aper', 'aper'), ('kin', 'kin'), ('one', 'one')):
                continue
            o = orders(len(PROGRAMS[a]), len(PROGRAMS[b]))
            if T:
                parts = max(1, len(o)//20)
            else:
                parts = max(1, len(o)//12)
            for p in range(parts):
                out.append(dict(a=a, b=b, shared=shared, part=p, parts=parts))
    return out+[dict(kind='copies', what=w) for w in ORIGINALS]


ORIGINALS = ['galaxy', 'instrument', 'imager', 'options', 'kin', 'fit', 'mcmc']


CONF = dict(A=dict(Va=150., rt=.25, sigma=60., z=1.5, n=1., re=.45, q=.55, PA=35., nrows=7, nwave=25, lines=[6564.6], ratios=[1.]),
            B=dict(Va=-90., rt=.5, sigma=110., z=1.6, n=2.5, re=.7, q=.8, PA=-20., nrows=6, nwave=23, m0=2.5, lines=[5008.24, 4960.295], ratios=[1., .34]))
SHARED = {}


def shared(which):
    """Objects both programs use (made once per process)."""
    if which not in SHARED:
        if which == 'instrument':
            SHARED[which] = mk.instrument(mk.conf())
        elif which == 'options':
            SHARED[which] = mk.options(mk.conf(pad=.3))
        elif which == 'settings':
            SHARED[which] = mk.settings(mk.conf(), vary=[True, True, True, False, True], bounds=[[-400., 400.], [.01, 3.], [1., 300.], [-2., 2.], [1.49, 1.61]])
    return SHARED[which]


class Session(object):
    def __init__(self, who, share):
        self.who, self.share = who, share
        self.c = mk.conf(nsub=1, **CONF[who])
        self.inst = shared('instrument') if share else mk.instrument(mk.conf(psf='Gaussian' if who == 'A' else 'Moffat', fwhm=.6 if who == 'A' else .8,
                                                                          slit=.7 if who == 'A' else 1., res=35. if who == 'A' else 50.))
        self.out = None
        self.fit = self.kin = self.ap = self.twin = self.disp = self.mis = self.rot = None

    def theta(self, k=0):
        t = mk.theta(self.c)
        t[:3] *= 1.+.1*k
        if self.share:
            t[4] = mk.theta(mk.conf())[4]
        return t

    # -- fits
    def new(self):
        import misfit
        from misfit.fit import FitEmissionLines2D
        c = mk.conf(nsub=1, **CONF[self.who])
        model = np.asarray(mk.aper2d(c, inst=mk.instrument(c)).model)
        k = np.arange(model.size).reshape(model.shape)
        flux = model/model.max()+.02*np.cos(1.7*k**1.1)
        l0, h = c['lines'][0], (c['nwave']*c['dlam']/2.)/(1+c['z'])
        g = misfit.Galaxy(z=c['z'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'], delt_PA=c['PA'], re_mass_arcsec=c['re'], q_mass=c['q'], dither=False)
        s = misfit.ObsSpectrum2D(wave=mk.wave_grid(c), flux=flux, flux_err=np.full(model.shape, .02)*(1+.2*np.sin(k)), band='H', ypos=c['m0'], m0=c['m0'],
                                 no_continuum_subtraction=True, linenames_arr=['L%d' % i for i in range(len(c['lines']))], restwave_arr=np.array(c['lines']),
                                 flux_ratio_arr=np.array(c['ratios']), wave_full_range_rest=np.array([l0-.9*h, l0+.9*h]),
                                 wave_line_range_rest=np.array([l0-.2*h, l0+.2*h]), mask_lines_wave_range_rest=np.array([l0-.4*h, l0+.4*h]))
        g.set_spectrum_2D(s)
        kw = {}
        if self.share:
            kw = dict(kinModelOptions=shared('options'), thetaSettings=shared('settings'))
        else:
            kw = dict(thetaSettings=mk.settings(c, vary=[True, True, self.who == 'A', False, False], bounds=[[-400., 400.], [.01, 3.], [1., 300.], [-2., 2.], [1.3, 1.7]]))
        self.fit = FitEmissionLines2D(galaxy=g, instrument=self.inst, usetex=False, **kw)
        if not self.share and self.who == 'A':
            self.fit.kinModelOptions.setAttr(nSubpixels=1, pad_factor=.3)
        n = 10 if self.who == 'A' else 12
        self.fit.mcmcOptions.setAttr(nWalkers=n, nBurn=1, nSteps=2, nCPUs=1)
        if self.who == 'A':
            self.fit.mcmcOptions.setAttr(scale_param_a=2.2, runAllSteps=True)

    def setup(self):
        self.fit.setup_model()

    def sample(self):
        np.random.seed(ord(self.who))
        self.fit.run_mcmc()

    def chain(self, n):
        from checks.C18 import design
        z = design(120, n, 'normal').reshape((10, 12, n))
        m = np.asarray(self.fit.kinModel.theta_vary, bool)
        return self.theta()[m]*(1.+.02*z)

    def analyse(self):
        f = self.fit
        if f.sampler_dict is None:
            ch = self.chain(f.kinModel.n_free_param)
            f.sampler_dict = dict(chain=ch, flatchain=ch.reshape((-1, ch.shape[-1])).copy())
        f.analyze_results()

    def move(self):
        m = np.asarray(self.fit.kinModel.theta_vary, bool)
        self.fit.update_model(self.theta(1)[m])

    def copy(self):
        self.twin = self.fit.copy()

    def usecopy(self):
        """Everything done with the copy leaves the original alone."""
        t = self.twin
        t.kinModelOptions.setAttr(absvalsigma=True)
        t.mcmcOptions.setAttr(nWalkers=20)
        t.galaxy.spec2D.flux *= 3.
        t.galaxy.z, t.galaxy.q = 1.55, .3
        t.thetaSettings.theta[:] = 7.
        t.thetaPrior.theta_bounds[0] = [0., 1.]
        t.instrument.instrument_resolution = 80.
        ch = self.chain(t.kinModel.n_free_param)*1.4
        t.sampler_dict = dict(chain=ch, flatchain=ch.reshape((-1, ch.shape[-1])).copy())
        t.analyze_results()

    # -- models
    def knew(self):
        from misfit.model.kin_model import KinModel2D
        self.g = mk.galaxy(self.c)
        kw = {}
        if self.share:
            kw = dict(kinModelOptions=shared('options'), thetaSettings=shared('settings'))
        elif self.who == 'A':
            kw = dict(thetaSettings=mk.settings(self.c, vary=[True, True, True, False, False]))
        self.kin = KinModel2D(self.g, no_scale=True, **kw)
        if not kw:
            self.kin.theta[:] = self.theta()
        if not self.share and self.who == 'B':
            self.kin.kinModelOptions.setAttr(nSubpixels=1, adaptive_upsample_wave=False)

    def free(self, k):
        return self.theta(k)[np.asarray(self.kin.theta_vary, bool)]

    def kmake(self):
        self.kin.make_model(galaxy=self.g, instrument=self.inst, theta_fitting=self.free(0))

    def kmove(self):
        self.kin.update_model(theta_fitting=self.free(2))

    def kbad(self):
        try:
            self.kin.update_model(theta_fitting=self.free(2)[:-1])
        except ValueError:
            self.out = 'refused'

    # -- mocks
    def mockargs(self):
        c = self.c
        return dict(z=c['z'], ID=3, Va=c['Va'], rt=c['rt'], sigma0=c['sigma'], yshift=0., n=c['n'], re_arcsec=c['re'], q=c['q'], delt_PA=c['PA'],
                    wave=mk.wave_grid(c), instrument_name='X', pixscale=.18, instrument_resolution=35., slit_width=.72, slit_length=1., nymin=5,
                    PSF_FWHM=.6, PSF_type='Gaussian', band='H', line_primary='HA6565' if self.who == 'A' else 'OIII5008',
                    linegroup_name='Halpha' if self.who == 'A' else 'OIII', nSubpixels=1, pad_factor=.3)

    def slit(self):
        from misfit.mock.generate_basic import generate_mock_slit_obs
        self.out = np.asarray(generate_mock_slit_obs(**self.mockargs()))

    def cube(self):
        from misfit.mock.generate_basic import generate_mock_IFU_cube
        self.out = np.asarray(generate_mock_IFU_cube(**self.mockargs()))

    # -- aperture models
    def anew(self):
        self.g = mk.galaxy(self.c)
        self.ap = mk.aper2d(self.c, g=self.g, inst=self.inst, th=self.theta())

    def amove(self):
        self.ap.update_model(theta=self.theta(1))

    def amove2(self):
        self.ap.update_model(theta=self.theta(3))

    # -- 1D aperture corrections, set up, and calculated again
    def oned(self):
        self.out = dict(disp=None if self.disp is None else self.disp.disp_aper_ratio, mis=None if self.mis is None else self.mis.disp_aper_ratio,
                        rot=None if self.rot is None else self.rot.disp_aper_ratio)

    def d1(self):
        from misfit.model import AperModel1DDisp, AperModel1DDispMisalign
        self.disp = AperModel1DDisp(galaxy=mk.galaxy(self.c), instrument=self.inst, nPixels=11, extraction_width=1.5)
        self.mis = AperModel1DDispMisalign(galaxy=mk.galaxy(self.c), instrument=self.inst, nPixels=9, extraction_width=1.5)
        self.oned()

    def d1again(self):
        for m in (self.disp, self.mis):
            m.calc_aper_correction()
        self.oned()

    def r1(self):
        import misfit
        from misfit.model import AperModel1DRot
        g = mk.galaxy(self.c)
        self.rot = AperModel1DRot(galaxy=g, instrument=self.inst, nPixels=9 if self.who == 'A' else 13, theta=[2., self.c['Va'], self.c['rt']],
                                  kinProfile=misfit.KinProfileFiducial(), intensityProfile=misfit.IntensityProfileFiducial(g), pad_factor=.3)
        self.oned()

    def r1move(self):
        self.rot.theta = [3., .5*self.c['Va'], 2.*self.c['rt']]
        self.rot.calc_aper_correction()
        self.oned()

    # -- what can be seen
    def look(self):
        o = {'out': self.out}
        if self.fit is not None:
            f = self.fit
            for n in ('mcmcOptions', 'kinModelOptions', 'mcmc_results'):
                for k, v in vars(getattr(f, n)).items():
                    if not k.startswith('_'):
                        o['%s.%s' % (n, k)] = v
            for k in ('linenames_arr', 'restwave_arr', 'flux_ratio_arr', 'linegroup_name', 'theta_linked_posteriors'):
                o[k] = getattr(f, k)
            for k in ('theta', 'theta_vary', 'theta_bounds', 'theta_names'):
                o['thetaSettings.'+k] = getattr(f.thetaSettings, k)
                if f.thetaPrior is not None and k != 'theta_names':
                    o['thetaPrior.'+k] = getattr(f.thetaPrior, k)
            o['res'] = f.instrument.instrument_resolution
            for k in ('z', 'n', 're_arcsec', 'q', 'q0', 'delt_PA', 're_mass_arcsec'):
                o['galaxy.'+k] = getattr(f.galaxy, k)
            s = f.galaxy.spec2D
            for k in ('wave', 'flux', 'flux_err', 'spec_mask', 'wh_nosky', 'fitting_weight_matrix', 'restwave_arr', 'flux_ratio_arr', 'm0', 'low_snr_row_inds'):
                o['spec2D.'+k] = getattr(s, k)
            if f.sampler_dict is not None:
                o['chain'], o['flatchain'] = f.sampler_dict['chain'], f.sampler_dict['flatchain']
            o['light'] = f.intensityProfile.int(np.array([.1, .5]), np.array([0., .2]))
            if f.kinModel is not None:
                o['chisq'] = f.kinModel.model_chisq() if f.kinModel.model is not None else None
                self.model(o, 'kinModel', f.kinModel)
                if f.kinModel.bestfit is not None:
                    self.model(o, 'bestfit', f.kinModel.bestfit)
        if self.kin is not None:
            self.model(o, 'kin', self.kin)
            for k, v in vars(self.kin.kinModelOptions).items():
                o['kin.options.'+k] = v
        if self.ap is not None:
            o['ap'] = np.array(self.ap.model)
        return pickle.loads(pickle.dumps(o))

    def model(self, o, name, m):
        for k in ('theta', 'theta_vary', 'theta_names', 'n_free_param', 'model'):
            o['%s.%s' % (name, k)] = getattr(m, k)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, np.ndarray):
        try:
            x, y = np.asarray(a), np.asarray(b)
        except ValueError:
            return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
        if x.dtype.kind in 'OUS' or y.dtype.kind in 'OUS':
            return len(a) == len(b) and all(p == q if not isinstance(p, (list, tuple, np.ndarray)) else same(p, q) for p, q in zip(a, b))
        return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12*np.abs(x).max() if x.size and np.isfinite(np.abs(x).max()) else 0., equal_nan=True)
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-9, atol=0., equal_nan=True))
    return a == b


def isolated(fn):
    """Result of fn in a fresh process forked from this one, which has not used the code itself."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = (True, fn())
            except BaseException as e:
                import traceback
                res = (False, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('the process of one history died')
    ok, res = pickle.loads(data)
    if not ok:
        raise RuntimeError(res)
    return res


def warmup():
    import misfit, misfit.fit, misfit.mock.generate_basic
    from checks import C18
    # compile; with objects of its own only
    from misfit.model import AperModel1DDisp, AperModel1DDispMisalign
    for kw in (dict(), dict(psf='Moffat', lines=[5008.24, 4960.295], ratios=[1., .34])):
        c = mk.conf(nrows=5, nwave=9, nsub=1, **kw)
        mk.aper2d(c)
        AperModel1DDisp(galaxy=mk.galaxy(c), instrument=mk.instrument(c), nPixels=11)
        AperModel1DDispMisalign(galaxy=mk.galaxy(c), instrument=mk.instrument(c), nPixels=11)
        k = mk.kinmodel(c, mk.galaxy(c))
        k.make_model(galaxy=mk.galaxy(c), instrument=mk.instrument(c), theta_fitting=mk.theta(c))


def run(programs, order, share):
    ses = {}
    done = {k: 0 for k in programs}
    trail = []
    for who in order:
        if who not in ses:
            ses[who] = Session(who, share)
        getattr(ses[who], programs[who][done[who]])()
        done[who] += 1
        trail.append({k: (done[k], ses[k].look()) for k in ses})
    return trail


def original(what):
    import misfit
    from misfit.fit.fit_core import MCMC2DOptions, MCMCResults
    if what == 'imager':
        return misfit.Imager(instrument_name='X', band='H', pixscale=.06, PA=20., PSF_type='Gaussian', PSF_FWHM=.2)
    if what == 'mcmc':
        return MCMC2DOptions(nWalkers=30)
    if what == 'results':
        r = MCMCResults()
        r.bestfit_theta, r.theta_names = np.array([1., 2.]), ['a', 'b']
        return r
    ses = Session('A', False)
    if what == 'instrument':
        return ses.inst
    ses.new()
    if what == 'galaxy':
        return ses.fit.galaxy
    if what == 'options':
        return ses.fit.kinModelOptions
    if what == 'fit':
        ses.setup()
        return ses.fit
    ses.knew()
    ses.kmake()
    return ses.kin if what == 'kin' else ses.kin.aperModel


def parts_of(obj, path=(), depth=5):
    """Every public attribute (and array or list in it) that can be reached from a misfit object."""
    if depth and type(obj).__module__.split('.')[0] == 'misfit':
        for k in sorted(obj.__dict__):
            if not k.startswith('_'):
                yield path+(k,)
                for q in parts_of(obj.__dict__[k], path+(k,), depth-1):
                    yield q


def get(obj, path):
    for k in path:
        obj = obj.__dict__[k]
    return obj


def do_copies(case, rec):
    """One thing of a copy is changed (replaced, or its contents overwritten): the original is what it was, and the other way round."""
    from copy import deepcopy
    o = original(case['what'])
    if not hasattr(o, 'copy'):
        return rec.state('no copy', case['what'])
    fresh = deepcopy(o)
    rec.check(not diff(fresh, o), 'copy', 'harness: objects of kind %s cannot be compared' % case['what'])
    c = o.copy()
    rec.check(not diff(c, o), 'copy', 'the copy of %s differs from the original in %s' % (case['what'], diff(c, o)[:5]))
    for path in list(parts_of(o)):
        for how in ('replace', 'overwrite'):
            for a, b, note in (('copy', o, 'original'), ('original', None, 'copy')):
                x, twin = (o.copy(), o) if a == 'copy' else (o, o.copy())
                if a == 'original':
                    keep = get(o, path)
                v = get(x, path)
                if how == 'overwrite':
                    if isinstance(v, np.ndarray) and v.size and v.dtype.kind in 'fib' and v.flags.writeable:
                        old = v.copy()
                        v[...] = ~v if v.dtype.kind == 'b' else v+7
                    elif isinstance(v, list):
                        old = list(v)
                        v.append('spoilt')
                    else:
                        continue
                else:
                    setattr(get(x, path[:-1]), path[-1], 'spoilt')
                bad = diff(twin, fresh)
                rec.step()
                rec.check(not bad, 'copy', '%s of %s of the %s of %s also changes the %s: %s' % (how, '.'.join(path), a, case['what'], note, bad[:4]))
                if how == 'overwrite':
                    v[:] = old
                elif a == 'original':
                    setattr(get(o, path[:-1]), path[-1], keep)
                if bad:
                    return
        rec.state(path)
    rec.trace()


def diff(a, b, path=(), depth=5):
    """Public attributes in which two misfit objects differ."""
    out = []
    if type(a).__module__.split('.')[0] == 'misfit' and type(a) is type(b):
        if not depth:
            return out
        for k in sorted(set(a.__dict__) | set(b.__dict__)):
            if k.startswith('_'):
                continue
            if k not in a.__dict__ or k not in b.__dict__:
                out.append('.'.join(path+(k,)))
            else:
                out += diff(a.__dict__[k], b.__dict__[k], path+(k,), depth-1)
        return out
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        ok = isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and (
            a.dtype.kind not in 'fibc' or np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    elif isinstance(a, (int, float, str, type(None), bool, np.generic)) or isinstance(b, (int, float, str, type(None), bool, np.generic)):
        ok = type(a) is type(b) and (a == b or a != a)
    elif isinstance(a, (list, tuple)):
        ok = isinstance(b, type(a)) and len(a) == len(b) and not any(diff(x, y, ('item',), depth-1) for x, y in zip(a, b))
    elif isinstance(a, dict):
        ok = isinstance(b, dict) and set(a) == set(b) and not any(diff(a[k], b[k], ('item',), depth-1) for k in a)
    else:
        ok = True
    return out if ok else ['.'.join(path) or 'value']


def run_case(case, rec):
    if case.get('kind') == 'copies':
        return do_copies(case, rec)
    programs = dict(A=PROGRAMS[case['a']], B=PROGRAMS[case['b']])
    na, nb = len(programs['A']), len(programs['B'])
    alone = {k: [t[k][1] for t in isolated(lambda k=k: run(programs, (k,)*len(programs[k]), case['shared']))] for k in programs}
    first = {k: {} for k in programs}
    for order in orders(na, nb)[case['part']::case['parts']]:
        trail = isolated(lambda: run(programs, order, case['shared']))
        rec.step(len(order))
        rec.trace()
        told = set()
        for i, t in enumerate(trail):
            rec.state(order[:i+1])
            for who, (n, seen) in t.items():
                want = alone[who][n-1]
                bad = sorted(k for k in set(want) | set(seen) if k not in want or k not in seen or not same(want[k], seen[k]))
                rec.outcome(case['a'], case['b'], who, n)
                if bad and who not in told:
                    told.add(who)
                    rec.fail('leak', '%s after %s of %s (%s objects shared): %s differ from the same operations alone: %r, alone %r' % (
                        who, [(w, programs[w][order[:j].count(w)]) for j, w in enumerate(order[:i+1])], case, 'some' if case['shared'] else 'no',
                        bad[:6], seen.get(bad[0]), want.get(bad[0])))
