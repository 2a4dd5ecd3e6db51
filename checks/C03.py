import itertools
import numpy as np
from mc import mk
from checks.C01 import prod

RULE = ('roots: option settings x first parameter set x second parameter set. From every root all sequences of operations '
        'up to the stated length are executed on the real objects (build, update with each parameter set of the '
        'alphabet, caller overwriting its array afterwards, on either of two models that share galaxy and instrument, '
        'and on the fitting model). A state is the history of the objects, a transition one operation; after each one '
        'every model is compared with a freshly built model of its current parameters, and the inputs with copies.')
CHUNK = 4

A = dict(Va=120., rt=0.2, sigma=50., m0_shift=0., z=1.5)
ALPH = [A, dict(A, sigma=3.), dict(A, sigma=0.), dict(A, sigma=-35.), dict(A, Va=-80., rt=0.5), dict(A, z=1.497),
        dict(A, m0_shift=0.7), dict(A, sigma=3., m0_shift=-0.4, z=1.503), dict(A, Va=0.)]


def cases(tier):
    T = tier == 'thorough'
    out = []
    opts = [dict(), dict(upsample=False), dict(floor=False), dict(absval=True), dict(upsample=False, floor=False),
            dict(pos_shift=True, nsub=2), dict(spec_type='velocity', dlam=60.), dict(rebin=False, nsub=2),
            dict(gen=True), dict(factor=5., lines=[6564.6, 6549.9], ratios=[1., .3])]
    n = len(ALPH)
    for o in opts:
        d = dict(nrows=4, m0=1.4, nwave=7, dlam=5., slit=0.4, fwhm=0.4)
        if o.get('pos_shift'):
            d['slit'] = 0.7
        d.update(o)
        d.setdefault('nsub', 1)
        for i in range(n):
            if T:
                for j in range(n):
                    out.append(dict(kind='aper', cfg=d, prefix=[i, j], depth=4))
                    out.append(dict(kind='kin', cfg=d, prefix=[i, j], depth=4))
                    out.append(dict(kind='pair', cfg=d, prefix=[i, j], depth=3))
            else:
                ps = 'pos_shift' in o
                out.append(dict(kind='aper', cfg=d, prefix=[i], depth=2 if ps else 3))
                out.append(dict(kind='kin', cfg=d, prefix=[i], depth=2 if ps else 3, nvary=1 if ps else 2))
                if not ps:
                    out.append(dict(kind='pair', cfg=d, prefix=[i], depth=2 if i < 4 else 1))
    return out


def th(p):
    return np.array([p['Va'], p['rt'], p['sigma'], p['m0_shift'], p['z']])


def inputs(g, inst):
    s = g.spec2D
    return [s.wave.copy(), None if s.flux is None else np.array(s.flux), None if s.flux_err is None else np.array(s.flux_err),
            np.array(s.restwave_arr), np.array(s.flux_ratio_arr), s.m0, g.q, g.delt_PA, g.n, g.re_arcsec, g.z, inst.slit_width,
            inst.pixscale, inst.instrument_resolution, inst.PSF.PSF_FWHM]


def same(a, b):
    return all((x is None and y is None) or (x is not None and y is not None and np.array_equal(x, y)) for x, y in zip(a, b))


def run_case(case, rec):
    c = mk.conf(**case['cfg'])
    fresh = {}

    def want(i):
        if i not in fresh:
            fresh[i] = np.asarray(mk.aper2d(c, th=th(ALPH[i])).model)
            if c['pos_shift'] and i == 0:
                pass
        return fresh[i]

    def cmp(m, i, hist, key):
        w = want(i)
        rec.close(m, w, key, 'model after %s' % (hist,), rtol=1e-9, atol=1e-10*np.abs(w).max())

    n = len(ALPH)
    depth = case['depth']
    kind = case['kind']
    pre = case['prefix']
    if c['pos_shift']:
        depth = min(depth, 3)
    if kind == 'aper':
        if c['pos_shift']:
            depth = min(depth, 3)
        for tail in itertools.product(range(n), repeat=depth-len(pre)):
            seq = list(pre)+list(tail)
            g, inst = mk.galaxy(c), mk.instrument(c)
            keep = inputs(g, inst)
            arr = th(ALPH[seq[0]])
            a = mk.aper2d(c, g, inst, th=arr)
            first = np.array(a.model)
            old = a.model
            rec.step()
            for k, i in enumerate(seq[1:]):
                new = th(ALPH[i])
                a.update_model(theta=new)
                rec.step()
                if k >= len(seq)-2:
                    cmp(a.model, i, seq[:k+2], 'history')
                rec.check(np.array_equal(new, th(ALPH[i])), 'parameters-changed', 'parameter array after %s' % seq[:k+2])
                rec.state(seq[:k+2])
                new[:] = -7.        # the caller reuses its array: must not matter after the update
                if k == len(seq)-3 and k >= 0:
                    pass
            rec.check(np.array_equal(arr, th(ALPH[seq[0]])), 'parameters-changed', 'initial parameter array after %s' % seq)
            rec.check(np.array_equal(old, first), 'old-model-changed', 'model array handed out before %s' % seq)
            rec.check(same(keep, inputs(g, inst)), 'inputs-changed', 'galaxy or instrument changed by %s' % seq)
            cmp(first, seq[0], seq[:1], 'history')
            rec.trace()
    elif kind == 'kin':
        varies = [(True, True, True, False, False), (False, False, True, True, True), (True,)*5]
        for vary in varies[-case.get('nvary', 3):]:
            idx = [i for i, v in enumerate(vary) if v]
            for tail in itertools.product(range(n), repeat=depth-len(pre)):
                seq = list(pre)+list(tail)
                if vary != varies[-1] and len(set(seq)) == 1:
                    continue
                # fixed parameters keep those of set 0
                g, inst = mk.galaxy(c), mk.instrument(c)
                keep = inputs(g, inst)
                km = mk.kinmodel(c, g, vary=vary)
                base = mk.theta(c)
                for k, i in enumerate(seq):
                    t = th(ALPH[i])
                    p = t[idx].copy()
                    if k % 2 == 0:
                        km.make_model(galaxy=g, instrument=inst, theta_fitting=p)
                    else:
                        km.update_model(theta_fitting=p)
                    rec.step()
                    rec.state(vary, seq[:k+1])
                    full = base.copy()
                    full[idx] = t[idx]
                    rec.check(np.array_equal(p, t[idx]), 'parameters-changed', 'fitting parameters after %s' % seq[:k+1])
                    rec.check(np.array_equal(km.theta, full), 'theta', 'theta %s after %s' % (km.theta, seq[:k+1]))
                    p[:] = 1e3
                    if k == len(seq)-1 or k == 0:
                        key = tuple(full)
                        if key not in fresh:
                            fresh[key] = np.asarray(mk.aper2d(c, th=full.copy()).model)
                        if c['rebin']:
                            rec.close(km.model, fresh[key], 'history-fitting-model', 'fitting model after %s' % seq[:k+1],
                                      rtol=1e-9, atol=1e-10*np.abs(fresh[key]).max())
                rec.check(same(keep, inputs(g, inst)), 'inputs-changed', 'galaxy or instrument changed by %s' % seq)
                rec.trace()
    else:
        # two models sharing galaxy and instrument (different profiles objects, different slit offset)
        ops = [(w, i) for w in (0, 1) for i in range(n)]
        c2 = dict(c, xc=0.15, nsub=c['nsub']+1)
        for tail in itertools.product(ops, repeat=depth):
            g, inst = mk.galaxy(c), mk.instrument(c)
            a = mk.aper2d(c, g, inst, th=th(ALPH[pre[0]]))
            snap_a = np.array(a.model)
            b = mk.aper2d(c2, g, inst, th=th(ALPH[pre[-1]]))
            cur = [pre[0], pre[-1]]
            keep = inputs(g, inst)
            models = [a, b]
            rec.check(np.array_equal(snap_a, a.model), 'other-model-changed', 'building a second model')
            for k, (w, i) in enumerate(tail):
                before = np.array(models[1-w].model)
                models[w].update_model(theta=th(ALPH[i]))
                cur[w] = i
                rec.step()
                rec.state(tail[:k+1])
                rec.check(np.array_equal(before, models[1-w].model), 'other-model-changed', 'updating one of two models %s' % (tail[:k+1],))
                if k == len(tail)-1:
                    key = (w, i)
                    if key not in fresh:
                        fresh[key] = np.asarray(mk.aper2d([c, c2][w], th=th(ALPH[i])).model)
                    rec.close(models[w].model, fresh[key], 'history-shared', 'model sharing its instrument after %s' % (tail,),
                              rtol=1e-9, atol=1e-10*np.abs(fresh[key]).max())
            rec.check(same(keep, inputs(g, inst)), 'inputs-changed', 'galaxy or instrument changed by %s' % (tail,))
            rec.trace()
    rec.outcome([np.round(fresh[k], 6) for k in sorted(fresh, key=repr)])
    rec.sample = dict(case=case, traces=rec.traces)
