import itertools
import numpy as np
from mc import mk
from checks import C18
from checks.C18 import design, limits

RULE = ('roots: every subset of free parameters x kinematic profile (arctangent with constant dispersion; three parameter rotation curves with '
        'one or two parameter radial dispersion profiles) x effective radius x absolute-value option; below each root every sequence of up to '
        'three operations (analyse, analyse a saved copy, take another chain, refresh the model) is run.  A state is one analysed chain.')
CHUNK = 2
CASE_LIMIT = 300
OPS = ['again', 'other', 'back', 'model', 'reload']


def cases(tier):
    T = tier == 'thorough'
    out = []
    for prof, n in (('arctan', 5), ('poly1', 6), ('poly2', 7)):
        vs = [''.join(v) for v in itertools.product('01', repeat=n) if '1' in v]
        for v in vs:
            if n > 5 and not T and (v[-2:] != '01' if v.count('1') < n-2 else False) and v.count('1') > 2:
                continue
            for absval in (False, True):
                if prof == 'poly2' and absval:
                    continue
                for re in (.45, 1.3):
                    if not T and re != .45 and v.count('1') not in (1, 3):
                        continue
                    out.append(dict(prof=prof, vary=v, absval=absval, re=re, depth=3 if T else 2 if v in ('11100', '11111', '10010', '011101') and re == .45 else 1))
    return out


def radial():
    """Profiles a user may define: all their values depend on radius."""
    from misfit.model.kin_classes import VelProfile, DispProfile, KinProfile

    class Vel(VelProfile):
        def __init__(self):
            VelProfile.__init__(self)
            self.theta, self.name = np.zeros(3), 'poly'

        def vel(self, r, z):
            return self.theta[0]*r+self.theta[1]*r**2/(1.+r)+self.theta[2]*np.tanh(r)

    class Disp1(DispProfile):
        def __init__(self):
            DispProfile.__init__(self)
            self.theta, self.name = np.zeros(1), 'exp'

        def sigma(self, r, z):
            return self.theta[0]*np.exp(-r)

    class Disp2(DispProfile):
        def __init__(self):
            DispProfile.__init__(self)
            self.theta, self.name = np.zeros(2), 'core'

        def sigma(self, r, z):
            return self.theta[0]/(1.+r*self.theta[1])
    return KinProfile, Vel, Disp1, Disp2


THETA = dict(arctan=[150., .25, 60., 0., 1.5], poly1=[90., -20., 40., 70., 0., 1.5], poly2=[90., -20., 40., 70., .4, 0., 1.5])
WIDTH = dict(arctan=[60., .03, 20., .2, .001], poly1=[30., 10., 15., 20., .2, .001], poly2=[30., 10., 15., 20., .05, .2, .001])
NAMES = dict(arctan=['V_a', 'r_t', 'sigma0', 'm0_shift', 'z'], poly1=['a', 'b', 'c', 's', 'm0_shift', 'z'], poly2=['a', 'b', 'c', 's', 'q', 'm0_shift', 'z'])


def ref(prof, th, r):
    if prof == 'arctan':
        return 2./np.pi*th[0]*np.arctan(r/th[1]), th[2]+0.*th[0]
    v = th[0]*r+th[1]*r**2/(1.+r)+th[2]*np.tanh(r)
    return v, th[3]*np.exp(-r)+0.*v if prof == 'poly1' else th[3]/(1.+r*th[4])+0.*v


_FITS = {}


def fit(prof, vary, absval, re):
    key = (prof, vary, absval, re)
    if key not in _FITS:
        from misfit.model.kin_classes import Theta2DSettings
        from misfit.fit import FitEmissionLines2D
        from misfit.fit.fit_core import MCMC2DOptions, MCMCResults
        c = mk.conf(nrows=5, nwave=9, nsub=1, pad=.3, re=.5, absval=absval, upsample=prof != 'poly2', floor=prof != 'poly2')     # these need a one parameter dispersion
        shape = (5, 9)
        g = mk.prepared(c, np.ones(shape), np.full(shape, .05), np.ones(shape), np.arange(9), [1.]*5)
        g.re_mass_arcsec = re       # differs from the light
        kp, ip = mk.profiles(c, g)
        if prof != 'arctan':
            KinProfile, Vel, Disp1, Disp2 = radial()
            kp = KinProfile(theta_names=NAMES[prof], theta_names_nice=NAMES[prof], velProfile=Vel(), dispProfile=Disp1() if prof == 'poly1' else Disp2())
        n = len(THETA[prof])
        ts = Theta2DSettings(theta=np.array(THETA[prof]), theta_vary=np.array([v == '1' for v in vary]), theta_names=NAMES[prof], theta_names_nice=NAMES[prof],
                             theta_bounds=[[-1e3, 1e3]]*n)
        f = FitEmissionLines2D(galaxy=g, instrument=mk.instrument(c), kinProfile=kp, intensityProfile=ip, kinModelOptions=mk.options(c), thetaSettings=ts,
                               mcmcOptions=MCMC2DOptions(), mcmc_results=MCMCResults(), usetex=False, skip_fit_prep_calcs=True)
        f.setup_model()
        _FITS.clear()
        _FITS[key] = f
    import copy
    f = _FITS[key]
    try:
        return f.copy()
    except Exception:
        return copy.deepcopy(f)


def chain(prof, vary, which):
    m = np.array([v == '1' for v in vary])
    shape = (10, 21) if which == 0 else (12, 14)
    z = design(shape[0]*shape[1], m.sum(), 'normal').reshape(shape+(m.sum(),))
    if which:
        z = -1.3*z[:, ::-1]+.4
    c, w = np.array(THETA[prof])[m], np.array(WIDTH[prof])[m]
    names = np.array(NAMES[prof])[m]
    ch = c+z*w
    for j, nm in enumerate(names):      # dispersions of either sign occur with the absolute-value option; velocities cross zero
        if nm in ('sigma0', 's'):
            ch[::3, :, j] *= -1.
        if nm in ('V_a', 'a'):
            ch[..., j] -= 1.6*c[j] if which else .9*c[j]
        if nm in ('r_t', 'q'):
            ch[..., j] = np.abs(ch[..., j])+.05
    return ch


def verify(rec, f, ch, prof, vary, absval, re, what):
    m = np.array([v == '1' for v in vary])
    n = m.sum()
    ch = ch.copy()
    th = np.repeat(np.array(THETA[prof], float)[:, None], ch[..., 0].size, axis=1)
    i_s = {'arctan': 2, 'poly1': 3, 'poly2': 3}[prof]
    if absval and m[i_s]:
        j = m[:i_s].sum()
        ch[..., j] = np.abs(ch[..., j])
    th[m] = ch.reshape((-1, n)).T
    v1, s1 = ref(prof, th, re)
    v2, s2 = ref(prof, th, 2.2/1.676*re)
    want = np.column_stack([th[m].T, v1, v2, s1, s2])
    flat = np.asarray(f.sampler_dict['flatchain'])
    if not rec.close(flat, want, 'derived', '%s: chain with derived values' % what, rtol=1e-10, atol=1e-12):
        return
    rec.close(f.sampler_dict['chain'], ch, 'chain', '%s: walkers of the chain' % what, rtol=0)
    r = f.mcmc_results
    rec.check(list(r.theta_names) == [x for x, v in zip(NAMES[prof], m) if v]+['V_RE', 'V_22', 'sigma_RE', 'sigma_22'] and
              list(r.theta_names_nice[:n]) == list(r.theta_names[:n]) and len(r.theta_names_nice) == n+4, 'names', '%s: names %s' % (what, r.theta_names))
    limits(rec, r, flat, what)
    b = np.asarray(r.bestfit_theta)
    for i in range(n, n+4):
        C18.is_peak(rec, flat[:, i], b[i], '%s, %s' % (what, r.theta_names[i]), unimodal=False)
    opp = np.array([100.*np.mean(np.sign(b[i])*flat[:, i] < 0) for i in range(n+4)])
    rec.close(r.percent_oppsign, opp, 'opposite', '%s: percentage of samples on the other side of zero' % what, rtol=1e-9)
    rec.close(r.bestfit_theta_fitting, b[:n], 'bestfit', '%s: best-fit free parameters' % what, rtol=0)
    tb = np.array(THETA[prof])
    tb[m] = b[:n]
    rec.close(f.kinModel.bestfit.theta, tb, 'bestfit', '%s: best-fit model parameters' % what, rtol=0)
    rec.outcome(np.round(b, 5))
    return np.concatenate([b, np.ravel(r.err_theta_1sig), np.ravel(r.err_theta_2sig), r.percent_oppsign])


def run_case(case, rec):
    prof, vary, absval, re = case['prof'], case['vary'], case['absval'], case['re']
    chains = [chain(prof, vary, 0), chain(prof, vary, 1)]
    n = vary.count('1')

    def load(f, ch):
        f.sampler_dict = dict(chain=ch.copy(), flatchain=ch.reshape((-1, n)).copy())

    want = {}
    for seq in [s for k in range(case['depth']+1) for s in itertools.product(OPS, repeat=k)]:
        f = fit(prof, vary, absval, re)
        cur = 0
        load(f, chains[0])
        f.analyze_results()
        rec.step()
        for op in seq:
            if op == 'other':
                cur = 1
                load(f, chains[1])
            elif op == 'back':
                cur = 0
                load(f, chains[0])
            elif op == 'model':
                f.setup_model()
            elif op == 'reload':
                load(f, f.sampler_dict['chain'])
            f.analyze_results()
            rec.step()
        what = '%s profile, %s free, operations %s' % (prof, vary, list(seq))
        key = rec.state(seq)
        rec.trace()
        got = verify(rec, f, chains[cur], prof, vary, absval, re, what)
        if got is None:
            continue
        if cur in want:
            rec.close(got, want[cur], 'history', '%s: results of one chain depend on what was analysed before' % what, rtol=1e-9, atol=1e-12)
        else:
            want[cur] = got
