import itertools
import numpy as np
from mc import mk

RULE = ('roots: every set of free parameters x bounds settings x prior (none given, a flat prior given, a user prior) x '
        'history (first setup, settings changed and set up again). From every root all combinations of per-parameter '
        'values around the bounds (below, at, inside, at, above, not a number, infinite) are evaluated with the real '
        'probability as the sampler calls it. A state is one parameter vector, a transition one evaluation.')
CHUNK = 1
BOUNDS = [
    [[-300., 300.], [0.05, 2.], [5., 150.], [-1., 1.], [1.49, 1.51]],
    [[100., 200.], [0.25, 0.25], [0., 60.], [-0.3, 0.], [1.5, 1.52]],
    [[-np.inf, np.inf], [0.02, 5.], [-80., 80.], [-2., np.inf], [1.495, 1.505]],
]


def cases(tier):
    T = tier == 'thorough'
    out = []
    for vary in itertools.product([1, 0], repeat=5):
        if sum(vary) == 0:
            continue
        for b in range(3):
            for prior in ('auto', 'given', 'user', 'nan'):
                for hist in ('first', 'again'):
                    if not T and (prior != 'auto' and (hist == 'again' or b != sum(vary) % 3)):
                        continue
                    out.append(dict(vary=list(vary), b=b, prior=prior, hist=hist, deep=T))
    return out


def grid(lo, hi, deep):
    """values: (value, inside?)"""
    v = []
    if np.isfinite(lo):
        v += [(lo, True), (np.nextafter(lo, -np.inf), False)]
        if deep:
            v.append((lo-0.5*abs(lo)-1e-3, False))
    if np.isfinite(hi):
        v += [(hi, True), (np.nextafter(hi, np.inf), False)]
    a = lo if np.isfinite(lo) else -50.
    b = hi if np.isfinite(hi) else a+100.
    v += [(a+0.4*(b-a), True), (np.nan, False)]
    if deep:
        v += [(np.inf, hi == np.inf), (-np.inf, lo == -np.inf)]
    seen, out = set(), []
    for x in v:
        if repr(x) not in seen:
            seen.add(repr(x))
            out.append(x)
    return out


class Gauss(object):
    name = 'mine'

    def __init__(self, nan=False):
        self.name = 'mine'
        self.nan = nan

    def log_prior(self, theta_fitting=None):
        t = np.asarray(theta_fitting)
        if not np.isfinite(t).all():
            return -np.inf
        if self.nan and t[0] > 0.3:
            return np.nan
        return -0.1*float(np.sum(np.cos(t)))-2.


def run_case(case, rec):
    from misfit.fit import fit_core
    from misfit.model.kin_classes import ThetaPriorFlat
    vary = [bool(v) for v in case['vary']]
    idx = [i for i in range(5) if vary[i]]
    bounds = BOUNDS[case['b']]
    c = mk.conf(nrows=3, nwave=5, m0=1.2, dlam=5., slit=0.4, fwhm=0.4, nsub=1)
    base = mk.theta(c)
    k = np.arange(5)
    flux = np.array([1., 2., 1.4])[:, None]*np.exp(-0.5*((k-2.2)/1.1)**2)[None, :]+0.1
    err = 0.3+0.05*np.arange(15).reshape(3, 5)
    mask = np.ones((3, 5))
    mask[1, 3] = 0.
    g = mk.prepared(c, flux, err, mask, np.arange(5), [.3, .4, .3])
    inst = mk.instrument(c)
    kw = {}
    if case['prior'] == 'given':
        kw = dict(thetaPrior=ThetaPriorFlat(theta=base.copy(), theta_vary=np.array(vary), theta_bounds=[list(b) for b in bounds]))
    elif case['prior'] in ('user', 'nan'):
        kw = dict(thetaPrior=Gauss(case['prior'] == 'nan'))
    if case['hist'] == 'again':
        # a first set up with other settings, which must leave no trace
        other = [not v for v in vary]
        if not any(other):
            other = [True, False, False, False, False]
        fit = mk.fit2d(c, g, inst, vary=other, bounds=[[-1., 1.]]*5, **kw)
        fit.setup_model()
        fit.thetaSettings = mk.settings(c, vary, None, [list(b) for b in bounds])
        fit.setup_model()
    else:
        fit = mk.fit2d(c, g, inst, vary=vary, bounds=[list(b) for b in bounds], **kw)
        fit.setup_model()
    small = fit_core.make_pruned_fitEmis2D_class(fit)
    flat = case['prior'] in ('auto', 'given')
    user = kw.get('thetaPrior')

    def like(p):
        t = base.copy()
        t[idx] = p
        M = np.asarray(mk.aper2d(c, th=t).model)
        den = (mask*M*M/err**2).sum(axis=1)
        a = np.divide((mask*flux*M/err**2).sum(axis=1), den, out=np.zeros(3), where=den > 0.)
        w = np.array([.3, .4, .3])[:, None]
        return -0.5*(mask*w*((flux-a[:, None]*M)/err)**2).sum()

    offset = None
    grids = [grid(bounds[i][0], bounds[i][1], case['deep'] and len(idx) <= 3) for i in idx]
    if len(idx) >= 4 and not case['deep']:
        grids = [[x for x in gr if x[0] == x[0]] for gr in grids]
        if len(idx) == 5:
            # below, at the lower bound, above: all combinations
            grids = [[x for x in gr if not (x[1] and j % 2 and x[0] == bounds[i][1])][:4] for j, (i, gr) in enumerate(zip(idx, grids))]
    for combo in itertools.product(*grids):
        p = np.array([v for v, _ in combo])
        q = p.copy()
        with np.errstate(all='ignore'):
            got = fit_core.lnprob(q, small)
        rec.step()
        rec.state(p)
        rec.check(np.array_equal(p, q, equal_nan=True), 'parameters-changed', 'probability changed its argument %s' % p)
        if np.isnan(got):
            rec.fail('nan', 'log probability of %s is not a number' % p)
            continue
        inside = all(b for _, b in combo)
        if flat:
            pr = small.thetaPrior.log_prior(theta_fitting=p.copy())
            rec.check(pr == (0. if inside else -np.inf), 'prior', 'flat prior %r of %s, bounds %s' % (pr, p, [bounds[i] for i in idx]))
            if not inside:
                rec.check(got == -np.inf, 'outside', 'log probability %r of %s outside the bounds %s' % (
                    got, p, [bounds[i] for i in idx]))
                continue
            prior = 0.
        else:
            prior = user.log_prior(theta_fitting=p)
            if not np.isfinite(prior):
                rec.check(got == -np.inf, 'outside', 'log probability %r where the prior is %r' % (got, prior))
                continue
        if not np.isfinite(p).all():
            continue
        want = like(p)
        if not np.isfinite(want):
            rec.check(got == -np.inf, 'non-finite', 'log probability %r of %s without a finite likelihood' % (got, p))
            continue
        if not rec.check(np.isfinite(got), 'inside', 'log probability %r of %s inside the bounds %s' % (
                got, p, [bounds[i] for i in idx])):
            continue
        if offset is None:
            offset = got-prior-want       # constant of the likelihood
        rec.close(got, prior+want+offset, 'value', 'log probability of %s' % p, rtol=1e-8, atol=1e-8)
        rec.outcome(round(got, 6))
        rec.trace()
    rec.sample = dict(case=case, evaluations=rec.steps)
