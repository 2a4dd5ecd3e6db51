import itertools
import numpy as np
from mc import mk
from checks.C01 import prod

RULE = ('roots: model configurations x sets of free parameters x row weight patterns. From every root all masks built '
        'from a four-pattern row alphabet are visited; in each the real likelihood (as the sampler calls it, on the '
        'reduced copy of the fit, and on the fit itself) is evaluated for all parameter sets and its differences and '
        'chi squared are compared with the explicit sum. The values hidden behind the mask and zero weights are then '
        'replaced, and must not matter. A state is one (mask, weights, parameters), a transition one evaluation.')
CHUNK = 2

PARS = [dict(), dict(Va=-70., rt=0.6), dict(sigma=15.), dict(m0_shift=0.6, Va=40.), dict(z=1.4985), dict(sigma=0., Va=0.)]
VARY = [(1, 1, 1, 1, 1), (1, 1, 1, 0, 0), (0, 0, 1, 0, 1), (1, 0, 0, 1, 0), (0, 1, 0, 0, 0)]
ROWS = [[1, 1, 1, 1, 1], [0, 1, 1, 1, 0], [1, 1, 0, 1, 1], [0, 0, 0, 0, 0]]


def cases(tier):
    T = tier == 'thorough'
    cfgs = [dict(), dict(psf='Moffat', fwhm=0.5, q=0.9), dict(absval=True, nsub=1, lines=[6564.6, 6551.], ratios=[1., .3])]
    wts = [[.25, .25, .25, .25], [.7, 0., .1, .2], [0., 1., 0., 0.], [.5, .3, .2, 0.]]
    if T:
        return list(prod(cfg=[dict(cfg=x) for x in cfgs], vary=range(len(VARY)), wt=[dict(wt=w) for w in wts],
                         first=[0, 1, 2, 3], sky=[dict(sky=s) for s in ([], [2], [0, 4])], pars=[6]))
    out = list(prod(cfg=[dict(cfg=x) for x in cfgs[:1]], vary=range(len(VARY)), wt=[dict(wt=w) for w in wts],
                    first=[0, 1, 2, 3], sky=[dict(sky=[])], pars=[3]))
    out += list(prod(cfg=[dict(cfg=x) for x in cfgs], vary=[0, 2], wt=[dict(wt=w) for w in wts[1:3]],
                     first=[0, 1, 2, 3], sky=[dict(sky=s) for s in ([2], [0, 4])], pars=[3]))
    return out


def run_case(case, rec):
    from misfit.fit import fit_core
    c = mk.conf(**dict(case['cfg'], nrows=4, nwave=5, m0=1.4, dlam=5., slit=0.5, fwhm=0.5))
    vary = [bool(v) for v in VARY[case['vary']]]
    idx = [i for i in range(5) if vary[i]]
    base = mk.theta(c)
    pars = []
    for p in PARS[:case['pars']]:
        t = base.copy()
        q = mk.theta(dict(c, **p))
        t[idx] = q[idx]
        pars.append(t)
    start = pars[-1].copy()
    raw = [np.asarray(mk.aper2d(c, th=p).model) for p in pars]
    k = np.arange(5)
    flux = 20.*np.array(raw[0])*np.array([1., .8, 1.3, .6])[:, None]/raw[0].max() + np.sin(1.+3.*k)[None, :]*0.7
    err = 0.6+0.3*np.cos(np.arange(20).reshape(4, 5))
    nosky = [i for i in range(5) if i not in case['sky']]
    wt = np.array(case['wt'])
    for tail in itertools.product(range(4), repeat=3):
        mask = np.array([ROWS[i] for i in (case['first'],)+tail], dtype=float)
        got = {}
        for variant in range(3):
            f, e = flux.copy(), err.copy()
            hid = mask == 0.
            if variant == 1:
                f[hid] = np.resize([-99., 1.e12, -1.e9, 0.], hid.sum())
                e[hid] = np.resize([-99., 1.e-8, 1.e9], hid.sum())
            if variant == 2:
                hid = hid | (wt == 0.)[:, None]
                f[hid] = np.resize([1.e5, -99., -1.e4, 0.], hid.sum())
                e[hid] = np.resize([7., .01, 1.e4], hid.sum())
            g = mk.prepared(c, f, e, mask.copy(), nosky, wt)
            inst = mk.instrument(c)
            fit = mk.fit2d(c, g, inst, vary=vary, start=start)
            fit.setup_model()
            small = fit_core.make_pruned_fitEmis2D_class(fit)
            for who in ((fit, small) if variant == 0 else (small,)):
                ll, nfree = [], len(idx)
                for j, p in enumerate(pars):
                    if who is small:
                        ll.append(fit_core.lnlike(p[idx].copy(), who))
                    else:
                        who.update_model(theta_fitting=p[idx].copy())
                        ll.append(who.kinModel.model_llike())
                    rec.step()
                    rec.state(mask, variant, j)
                    use = np.zeros((4, 5), dtype=bool)
                    use[:, nosky] = mask[:, nosky] > 0.
                    M = raw[j]
                    num, den = (use*f*M/e**2).sum(axis=1), (use*M*M/e**2).sum(axis=1)
                    amp = np.divide(num, den, out=np.zeros(4), where=den > 0.)
                    res2 = np.where(mask > 0., ((f-amp[:, None]*M)/e)**2, 0.)
                    # rows without a usable column away from sky have no defined amplitude: not compared
                    if ((mask.sum(axis=1) > 0) & ~use.any(axis=1) & (wt > 0.)).any():
                        ll[-1] = None
                        continue
                    chi = (res2*wt[:, None]).sum()
                    got.setdefault(j, chi)
                    if variant == 0:
                        km = who.kinModel
                        npix = int(mask.sum())
                        rec.close(km.model_chisq(), chi, 'chi-squared', 'chi squared, mask %s' % mask.tolist(), rtol=1e-8, atol=1e-9)
                        if npix > nfree:
                            rec.close(km.model_redchisq(), chi/(npix-nfree), 'reduced-chi-squared', 'reduced chi squared',
                                      rtol=1e-8, atol=1e-9)
                            if not ((mask.sum(axis=1) > 0) & ~use.any(axis=1)).any():
                                rec.close(km.model_redchisq_no_weight(), res2.sum()/(npix-nfree), 'reduced-chi-squared',
                                          'unweighted reduced chi squared', rtol=1e-8, atol=1e-9)
                    if j and ll[0] is not None and ll[j] is not None:
                        # the data behind the mask and zero weights must not enter: same chi for every variant
                        rec.close(ll[j]-ll[0], -0.5*(got[j]-got[0]), 'likelihood',
                                  'log likelihood difference of sets %d and 0, variant %d, mask %s' % (j, variant, mask.tolist()),
                                  rtol=1e-7, atol=1e-7)
                rec.outcome(np.round([x for x in ll if x is not None], 6))
        rec.trace()
    rec.sample = dict(case=case, traces=rec.traces)
