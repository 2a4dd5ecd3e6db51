import itertools
import numpy as np
from mc import mk
from checks.C01 import prod

RULE = ('roots: model configurations x data patterns x error patterns. From every root all sky subsets of the columns '
        'are visited, each with all masks of a row (one row per mask, in two orders), by building or updating the '
        'real fitting model; every row of the scaled model must be the unscaled model times the amplitude minimising '
        'the weighted squared residual over its usable columns. A state is one (configuration, data, sky set, row '
        'masks, parameters), a transition one scaling.')
CHUNK = 2
NCOL = 4


def cases(tier):
    T = tier == 'thorough'
    ncol = 5 if T else 4
    cfg = [dict(), dict(psf='Moffat', fwhm=0.5, dither=1.2, sigma=3.), dict(q=1., sigma=30., fwhm=0.4, PA=80.),
           dict(re=0.1, fwhm=0., sigma=20., nsub=1), dict(lines=[6564.6, 6560.], ratios=[1., .4], re=1.5)]
    return list(prod(cfg=[dict(cfg=x) for x in cfg], data=['line', 'signed', 'zero', 'model', 'negative', 'row'],
                     err=['flat', 'ramp', 'mixed', 'tiny', 'huge'], ncol=[ncol], order=[0, 1],
                     second=[dict(second=x) for x in ([None, dict(Va=-60., sigma=80.), dict(sigma=0.)] if T
                                                  else [None, dict(Va=-60., sigma=80.)])]))


def data(kind, shape, M):
    r, k = np.indices(shape)
    if kind == 'line':
        return 3.*np.exp(-0.5*((k-1.3)/1.)**2)*(1.+0.1*r)
    if kind == 'signed':
        return (-1.)**(r+k)*(1.+0.3*k+0.05*r)
    if kind == 'zero':
        return np.zeros(shape)
    if kind == 'model':
        return 2.5*M
    if kind == 'negative':
        return -1.7*np.abs(np.sin(1.+r+2.*k))
    return np.where(r % 3 == 0, 0., 1.e3*(1.+k))


def errors(kind, shape):
    r, k = np.indices(shape)
    if kind == 'flat':
        return np.ones(shape)
    if kind == 'ramp':
        return 0.5+0.4*k+0.02*r
    if kind == 'mixed':
        return np.where((r+k) % 2 == 0, 0.1, 3.)
    if kind == 'tiny':
        return 1.e-18*(1.+k)
    return 1.e12*(1.+r)


def run_case(case, rec):
    ncol = case['ncol']
    masks = list(itertools.product([1., 0.], repeat=ncol))
    if case['order']:
        masks = masks[::-1]
    nrows = len(masks)
    mask = np.array(masks)
    c = mk.conf(**dict(case['cfg'], nrows=nrows, nwave=ncol, m0=nrows/2., dlam=4., pixscale=0.18*16/nrows if nrows < 20 else 0.1))
    inst = mk.instrument(c)
    pars = [mk.theta(c)]
    if case['second']:
        pars.append(mk.theta(dict(c, **case['second'])))
    raw = [np.asarray(mk.aper2d(c, th=p).model) for p in pars]
    flux, err = data(case['data'], mask.shape, raw[0]), errors(case['err'], mask.shape)
    for sky in itertools.product([0, 1], repeat=ncol):
        nosky = [k for k in range(ncol) if not sky[k]]
        for variant in ('clean', 'dirty', 'times7'):
            f, e = flux.copy(), err.copy()
            if variant == 'dirty':          # masked pixels hold fill values or anything else
                f[mask == 0.] = np.resize([-99., 1.e7, -3.e4], int((mask == 0.).sum()))
                e[mask == 0.] = np.resize([-99., 1.e-6, 1.e5], int((mask == 0.).sum()))
                f[:, [k for k in range(ncol) if sky[k]]] = 1.e6
            elif variant == 'times7':
                f = f*7.
            g = mk.prepared(c, f, e, mask.copy(), nosky, np.ones(nrows)/nrows)
            km = mk.kinmodel(c, g, start=pars[0], no_scale=False)
            for j, p in enumerate(pars):
                if j == 0:
                    km.make_model(galaxy=g, instrument=inst, theta_fitting=p)
                else:
                    km.update_model(theta_fitting=p)
                rec.step()
                rec.state(sky, variant, j)
                M = raw[j]
                m = np.asarray(km.model)
                if not rec.check(np.isfinite(m).all(), 'non-finite', 'scaled model not finite, sky %s %s' % (sky, variant)):
                    continue
                use = (mask > 0.) & ~np.array(sky, dtype=bool)
                num = np.where(use, f*M/e**2, 0.).sum(axis=1)
                den = np.where(use, M*M/e**2, 0.).sum(axis=1)
                # rows with no usable pixel are only required to be finite
                rows = use.any(axis=1)
                amp = np.divide(num, den, out=np.zeros(nrows), where=den > 0.)
                w = amp[:, None]*M
                scale = np.abs(w).max(axis=1, keepdims=True)
                bad = rows[:, None] & (np.abs(m-w) > 1e-9*scale)
                if bad.any():
                    i, k = np.argwhere(bad)[0]
                    rec.fail('amplitude', 'row with mask %s, sky columns %s, %s: model %r, expected %r' % (
                        mask[i].tolist(), list(sky), variant, float(m[i, k]), float(w[i, k])))
                if not nosky:
                    rec.check((m == 0.).all(), 'no-signal', 'rows without any usable column are not zero')
                rec.outcome(np.round(amp, 8))
            rec.check(np.array_equal(g.spec2D.flux, f) and np.array_equal(g.spec2D.flux_err, e)
                      and np.array_equal(g.spec2D.spec_mask, mask), 'data-changed', 'scaling changed the data')
        rec.trace()
    rec.sample = dict(case=case, traces=rec.traces)
