import itertools
import numpy as np
from checks import C17

RULE = ('chain roots: every subset of free parameters x chain shape x shape of the distribution, and every relabelling of walkers and steps from a '
        'bounded set of permutations; linked roots: every grouping of the columns (all single groups, all pairs of disjoint or overlapping groups '
        'and "all"); peak roots: the peak finders alone.  Every chain is analysed by the real code and compared with an explicit kernel density '
        'and explicit percentiles.  A state is one analysed chain.')
CHUNK = 2
CASE_LIMIT = 300
VARY = [''.join(v) for v in itertools.product('01', repeat=5) if '1' in v]
DIST = ['normal', 'skew', 'uniform', 'edge', 'two', 'signs', 'ties', 'far', 'tail', 'cross']


def cases(tier):
    T = tier == 'thorough'
    out = [dict(kind='chain', vary=v, dist=d, shape=s) for v in VARY for d in DIST for s in ([12, 20], [10, 3], [30, 41])
           if T or s == [12, 20] or v in ('11100', '00100', '11111')]
    for v in ('11100', '11111', '01100', '10011', '00010') + (tuple(VARY) if T else ()):
        n = v.count('1')
        groups = [list(g) for k in (1, 2, 3) for g in itertools.combinations(range(n), k)]
        groups += [[j, n+k] for j in range(n) for k in range(4)] if T else [[0, n], [n-1, n+1]]
        groups = groups + [list(reversed(g)) for g in groups if len(g) == 2]
        for g in groups:
            out.append(dict(kind='linked', vary=v, groups=[g]))
        for g, h in itertools.combinations(groups, 2):
            if T or v in ('11100', '10011') and len(g)+len(h) <= 5:
                out.append(dict(kind='linked', vary=v, groups=[g, h]))
        for h in (['all'], ['ALL '], ['all', [0]], [[0], 'all']):
            out.append(dict(kind='linked', vary=v, groups=h))
        if n >= 3:
            out.append(dict(kind='linked', vary=v, groups=[[0], [1], [2]]))
            out.append(dict(kind='linked', vary=v, groups=[[0, 1], [1, 2], [2, 0]]))
    out += [dict(kind='peak', dist=d, n=n) for d in DIST for n in (30, 400)]
    return out


CENTRE = np.array([120., .6, 45., .3, 1.5])
WIDTH = np.array([20., .12, 8., .15, .002])


def quantile(u):
    from statistics import NormalDist
    inv = NormalDist().inv_cdf
    return np.array([inv(float(x)) for x in u])


def design(n, d, dist, corr=.5):
    """Deterministic d-dimensional design of n points with a given marginal shape."""
    alpha = np.sqrt(np.array([2., 3., 5., 7., 11., 13., 17., 19.]))
    u = np.array([(np.arange(1, n+1)*a+.123*(j+1)) % 1. for j, a in enumerate(alpha[:d])])
    u = np.clip(u, 1e-4, 1-1e-4)
    z = np.array([quantile(r) for r in u])
    if dist in ('normal', 'signs', 'far', 'tail'):
        if d > 1:       # some correlation
            z[1:] = corr*z[0]+np.sqrt(1-corr**2)*z[1:]
        if dist == 'tail':
            z[:, ::11] *= 4.
    elif dist == 'skew':
        z = np.exp(.6*z)-1.
    elif dist == 'uniform':
        z = (u-.5)*3.
    elif dist in ('edge', 'cross'):
        z = -np.log(u)
    elif dist == 'two':
        z = np.where(u < .75, z*.5-1., z*.4+4.)
    elif dist == 'ties':
        z = np.round(z*2)/2.
    return z.T


def chain(vary, dist, shape, corr=.5):
    m = np.array([v == '1' for v in vary])
    nw, ns = shape
    z = design(nw*ns, m.sum(), dist, corr).reshape((nw, ns, m.sum()))
    c, w = CENTRE[m].copy(), WIDTH[m].copy()
    if dist == 'signs':
        c = c*np.array([.2, -.5, 1., .3, -1.])[:len(c)]*(-1.)
    if dist == 'far':
        c = c+w*500.
    if dist == 'cross':     # peak and median on either side of zero
        c = -.5*w
    return z*w+c


def kde(data, x):
    """Gaussian kernel density with Scott's bandwidth: data (n, d), x (m, d)."""
    data, x = np.atleast_2d(np.asarray(data, float).T).T, np.atleast_2d(np.asarray(x, float).T).T
    n, d = data.shape
    f = n**(-1./(d+4))
    dm = data-data.mean(axis=0)
    cov = dm.T.dot(dm)/(n-1.)*f**2
    inv = np.linalg.inv(cov)
    out = []
    for p in x:
        e = data-p
        out.append(np.exp(-.5*np.einsum('ij,jk,ik->i', e, inv, e)).mean())
    return np.array(out)/np.sqrt(np.linalg.det(2*np.pi*cov))


def percentile(col, q):
    s = np.sort(col)
    t = q/100.*(len(s)-1)
    i = int(np.floor(t))
    j = min(i+1, len(s)-1)
    return s[i]+(t-i)*(s[j]-s[i])


def analysed(fit, ch):
    n = ch.shape[-1]
    fit.sampler_dict = dict(chain=ch.copy(), flatchain=ch.reshape((-1, n)).copy(), lnprobability=np.zeros(ch.shape[:2]),
                            flatlnprobability=np.zeros(ch.shape[0]*ch.shape[1]), nParam=n, nIter=ch.shape[1], nWalkers=ch.shape[0])
    fit.analyze_results()
    return fit.mcmc_results, np.asarray(fit.sampler_dict['flatchain'])


def limits(rec, r, flat, what):
    best = np.asarray(r.bestfit_theta)
    for name, lo, hi in (('err_theta_1sig', 15.865, 84.135), ('err_theta_2sig', 2.275, 97.725)):
        err = np.asarray(getattr(r, name))
        want = np.array([[b-percentile(flat[:, i], lo), percentile(flat[:, i], hi)-b] for i, b in enumerate(best)])
        rec.close(err, want, 'limits', '%s: %s against the percentiles of the chain about the best fit' % (what, name), rtol=1e-9, atol=1e-9*np.abs(flat).max())


def is_peak(rec, data, x, what, unimodal):
    data = np.asarray(data, float)
    if np.ptp(data) == 0.:
        rec.check(x == data[0], 'peak', '%s: best fit %r of a constant chain of %r' % (what, x, data[0]))
        return
    s = data.std()
    tol = .01*s
    at, near = kde(data, [x])[0], kde(data, [x-2*tol, x+2*tol])
    rec.check(at >= near.max()*(1-1e-6), 'peak', '%s: %.6g is not a peak of the posterior density (%.4g there, %.4g nearby)' % (what, x, at, near.max()))
    grid = np.linspace(data.min()-.2*s, data.max()+.2*s, 400)
    dens = kde(data, grid)
    inner = dens[1:-1]
    peaks = ((inner > dens[:-2]) & (inner >= dens[2:])).sum()
    if unimodal or peaks == 1:
        rec.check(at >= dens.max()*(1-1e-3), 'peak', '%s: best fit %.6g with density %.5g, but %.5g at %.6g' % (what, x, at, dens.max(), grid[dens.argmax()]))


def fixed_ok(rec, f, r, vary, what):
    m = np.array([v == '1' for v in vary])
    n = m.sum()
    rec.check(f.kinModel.bestfit is not f.kinModel, 'bestfit', '%s: the best-fit model is the working model' % what)
    th = np.asarray(f.kinModel.bestfit.theta, float)
    want = np.asarray(f.thetaSettings.theta, float).copy()
    want[m] = np.asarray(r.bestfit_theta)[:n]
    rec.close(th, want, 'fixed', '%s: parameters of the best-fit model' % what, rtol=0)
    rec.close(r.bestfit_theta_fitting, want[m], 'fixed', '%s: best-fit free parameters' % what, rtol=0)
    rec.check(len(r.theta_names) == n+4 == len(r.bestfit_theta) == len(r.theta_names_nice), 'names', '%s: names %s for %d values' % (what, r.theta_names, len(r.bestfit_theta)))
    rec.check(list(r.theta_names[:n]) == [a for a, v in zip(f.thetaSettings.theta_names, m) if v], 'names', '%s: names %s' % (what, r.theta_names))


def run_case(case, rec):
    globals()['do_'+case['kind']](dict(case), rec)


def do_chain(case, rec):
    vary, shape = case['vary'], case['shape']
    ch = chain(vary, case['dist'], shape)
    f = C17.fit(vary=vary)
    base = None
    n = ch.shape[-1]
    perms = [('as is', ch), ('walkers reversed', ch[::-1]), ('steps reversed', ch[:, ::-1]), ('walkers rotated', np.roll(ch, 5, axis=0)),
             ('walkers and steps exchanged', np.swapaxes(ch, 0, 1)), ('shuffled', ch.reshape((-1, n))[np.argsort((np.arange(ch[..., 0].size)*7.31) % 1)].reshape(ch.shape))]
    for name, c in perms:
        what = '%s chain of %s, %s' % (case['dist'], vary, name)
        r, flat = analysed(f, c)
        rec.step()
        rec.trace()
        rec.state(name)
        rec.outcome(np.round(r.bestfit_theta, 6))
        limits(rec, r, flat, what)
        fixed_ok(rec, f, r, vary, what)
        rec.close(flat[:, :n], c.reshape((-1, n)), 'chain', what+': analysed chain', rtol=0)
        b = np.asarray(r.bestfit_theta, float)
        opp = [100.*np.mean(flat[:, i]*np.sign(b[i]) < 0.) for i in range(len(b))]
        rec.close(r.percent_oppsign, opp, 'opposite', what+': percentage of samples of the opposite sign', rtol=1e-9)
        if base is None:
            base = b
            for i in range(len(b)):
                is_peak(rec, flat[:, i], b[i], '%s, %s' % (what, r.theta_names[i]), unimodal=case['dist'] in ('normal', 'far') and shape[0]*shape[1] > 100)
        else:
            # the same peak (several peaks of equal height may be exchanged by rounding)
            for i in np.argwhere(np.abs(b-base) > .01*flat.std(axis=0)).ravel():
                d = kde(flat[:, i], [base[i], b[i]])
                rec.check(abs(d[1]-d[0]) <= .002*d[0], 'relabel', '%s: best fit %s, was %s' % (what, b, base))
    rec.sample = dict(bestfit=base.tolist())


def do_linked(case, rec):
    from misfit.general import general_utils as gu
    vary, groups = case['vary'], case['groups']
    n = vary.count('1')
    probe = analysed(C17.fit(vary=vary), chain(vary, 'normal', [12, 20]))[1]
    for g in groups:        # no density of columns that depend on each other
        c = np.corrcoef(probe[:, list(g)].T+0.) if not isinstance(g, str) and len(g) > 1 else np.eye(2)
        if not np.isfinite(c).all() or np.linalg.matrix_rank(c, tol=1e-9) < len(c) or not isinstance(g, str) and (np.ptp(probe[:, list(g)], axis=0) == 0).any():
            rec.state('degenerate')
            rec.trace()
            return
    for dist, corr in (('normal', .5), ('normal', -.4), ('skew', .5)):
        ch = chain(vary, dist, [12, 20], corr if n < 4 else abs(corr))
        plain = C17.fit(vary=vary)
        r0, flat0 = analysed(plain, ch)
        b0 = np.array(r0.bestfit_theta, float)
        f = C17.fit(vary=vary)
        f.theta_linked_posteriors = groups
        what = '%s chain of %s linked as %s' % (dist, vary, groups)
        r, flat = analysed(f, ch)
        rec.step(2)
        rec.trace()
        rec.state(dist, corr)
        limits(rec, r, flat, what)
        fixed_ok(rec, f, r, vary, what)
        b = np.array(r.bestfit_theta, float)
        rec.outcome(np.round(b, 6))
        idx = [list(range(n)) if isinstance(g, str) else list(g) for g in groups]
        used = set(i for g in idx for i in g)
        for i in range(len(b)):
            if i not in used:
                rec.check(b[i] == b0[i], 'unlinked', '%s: best fit of unlinked column %d changed from %r to %r' % (what, i, b0[i], b[i]))
        for k, g in enumerate(idx):
            g = [i for i in g]
            later = set(i for h in idx[k+1:] for i in h)
            if any(i in later for i in g):
                continue
            s = flat[:, g].std(axis=0)
            tol = .02*s
            at = kde(flat[:, g], [b[g]])[0]
            for j in range(len(g)):
                for sgn in (-1, 1):
                    p = b[g].copy()
                    p[j] += sgn*tol[j]
                    near = kde(flat[:, g], [p])[0]
                    rec.check(at >= near*(1-1e-6), 'joint', '%s: %s of columns %s is not a peak of their joint density (%.5g, %.5g at %s)' % (what, b[g], g, at, near, p))
            top = kde(flat[:, g], flat[:, g]).max()
            if dist == 'normal':
                rec.check(at >= top*(1-1e-3), 'joint', '%s: density %.5g at %s, but %.5g at a sample' % (what, at, b[g], top))


def do_peak(case, rec):
    from misfit.general import general_utils as gu
    n = case['n']
    z = design(n, 4, case['dist'])*np.array([3., .2, 40., 1.])+np.array([1., -2., 300., 0.])
    init = np.median(z, axis=0)
    got = np.asarray(gu.find_peak_gaussian_KDE(z, init), float)
    for i in range(4):
        is_peak(rec, z[:, i], got[i], '%s column %d' % (case['dist'], i), unimodal=case['dist'] in ('normal', 'far') and n > 100)
        one = np.ravel(gu.find_peak_gaussian_KDE(z[:, i], init[i]))
        also = np.ravel(gu.find_peak_gaussian_KDE(z[:, i:i+1], init[i:i+1]))
        rec.check(one.shape == (1,) and also.shape == (1,), 'single', 'peak of one column is %s' % (one,))
        tol = .01*z[:, i].std()
        rec.check(abs(one[0]-got[i]) <= tol and abs(also[0]-got[i]) <= tol, 'single', 'peak of column %d alone %s, among others %s' % (i, one, got[i]))
        rec.step(3)
        rec.trace()
        rec.state(i)
        rec.outcome(round(got[i], 6))
    for k in (1, 2, 3):
        for g in itertools.permutations(range(4), k):
            g = list(g)
            p = np.asarray(gu.find_peak_gaussian_KDE_multiD(z, g, got[g]), float)
            rec.step()
            rec.trace()
            rec.state(g)
            rec.check(p.shape == (k,), 'joint', 'joint peak has shape %s' % (p.shape,))
            at = kde(z[:, g], [p])[0]
            start = kde(z[:, g], [got[g]])[0]
            rec.check(at >= start*(1-1e-9), 'joint', '%s columns %s: density %.5g at the peak, %.5g at the start' % (case['dist'], g, at, start))
            s = z[:, g].std(axis=0)
            for j in range(k):
                for sgn in (-1, 1):
                    q = p.copy()
                    q[j] += sgn*(.02*s[j])
                    near = kde(z[:, g], [q])[0]
                    rec.check(at >= near*(1-1e-6), 'joint', '%s columns %s: %s is not a peak (%.6g, %.6g at %s)' % (case['dist'], g, p, at, near, q))
