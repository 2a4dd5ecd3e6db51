import numpy as np
from mc import mk
from checks.C01 import prod

RULE = ('roots: products of geometry, profile, spectral and instrument settings. From every root the orbit under the '
        'symmetry generators (half turn, mirror, slit reversal, line reversal, whole row moves, equivalent offsets, '
        'face-on velocity changes, dispersion sign) is explored to closure or the stated depth; a state is a '
        'configuration, a transition one generator, checked on the real models of both ends.')
CHUNK = 8
ROWS = 9


def cases(tier):
    T = tier == 'thorough'
    out = []
    sp = [dict(spec_type='wave', nwave=11, dlam=3.), dict(spec_type='velocity', dlam=60., nwave=11),
          dict(nwave=12, dlam=3., lamc=0.5)]
    out += prod(kind=['orbit'], deep=[T], q=[0.1, 0.5, 1.0] if not T else [0.1, 0.19, 0.5, 0.8, 1.0],
                PA=[0., 25., 90., -140.] if not T else [0., 25., 45., 90., 120., -140., -45.], xc=[0., 0.25],
                nsub=[1, 2] if not T else [1, 2, 3], sigma=[50., 3., 0.] if not T else [50., 3., 0., -30.], sp=sp,
                psf=[dict(), dict(psf='Moffat', fwhm=0.45, dither=0.9)] + ([dict(fwhm=0.)] if T else []),
                n=[1., 4.] if T else [1.], intensity=['fiducial', 'scale'] if T else ['fiducial'],
                m0=[4., 3.3] if T else [4.], nrows=[ROWS], lamc=[0.])
    out += prod(kind=['row'], q=[0.3, 1.0], PA=[0., 50., 200.], xc=[0., 0.2], nsub=[1, 2], sigma=[50., 3.], re=[0.07],
                rt=[0.1], psf=[dict(fwhm=0.35), dict(psf='Moffat', fwhm=0.3, dither=0.4), dict(fwhm=0.)],
                nrows=[31], m0=[15., 14.4] if T else [14.4], nwave=[7], dlam=[4.], m0_shift=[0., 0.3])
    return out


def model(c):
    return np.asarray(mk.aper2d(c).model)


def generators(c):
    """(name, new configuration, map of the model)"""
    ident = lambda m: m
    g = []
    if c['PA'] + 180. <= 400.:
        g.append(('half-turn', dict(c, PA=c['PA']+180., Va=-c['Va']), ident))
    if c['PA'] - 180. >= -400.:
        g.append(('half-turn-back', dict(c, PA=c['PA']-180., Va=-c['Va']), ident))
    g.append(('mirror', dict(c, PA=-c['PA'], xc=-c['xc']), ident))
    centre = (c['nrows']-1)/2.
    g.append(('slit-reversal', dict(c, PA=-c['PA'], Va=-c['Va'], m0=2.*centre-c['m0'], m0_shift=-c['m0_shift']),
              lambda m: m[::-1]))
    if c['lamc'] == 0.:
        g.append(('line-reversal', dict(c, Va=-c['Va']), lambda m: m[:, ::-1]))
    g.append(('offset', dict(c, m0=c['m0']-0.5, m0_shift=c['m0_shift']+0.5), ident))
    if c['q'] == 1.:
        g.append(('face-on', dict(c, Va=c['Va']*3.+7.), ident))
    if c['absval']:
        g.append(('dispersion-sign', dict(c, sigma=-c['sigma']), ident))
    return g


def run_case(case, rec):
    case = dict(case)
    kind = case.pop('kind')
    deep = case.pop('deep', False)
    c = mk.conf(**case)
    models = {}

    def get(d):
        key = repr(sorted(d.items()))
        if key not in models:
            models[key] = model(d)
            rec.state(key)
        return models[key]

    if kind == 'orbit':
        starts = [c, dict(c, absval=True)]
        depth = 3 if deep else 2
        for s in starts:
            front, seen = [s], set()
            for level in range(depth):
                nxt = []
                for d in front:
                    m = get(d)
                    for name, e, f in generators(d):
                        key = (repr(sorted(d.items())), name)
                        if key in seen:
                            continue
                        seen.add(key)
                        if abs(e['m0_shift']) > 0.6 or abs(e['Va']) > 3000.:
                            continue
                        me = get(e)
                        rec.step()
                        rec.close(me, f(m), 'symmetry-' + name, name, rtol=1e-8, atol=1e-9*np.abs(m).max())
                        nxt.append(e)
                uniq = {repr(sorted(d.items())): d for d in nxt}
                front = list(uniq.values())
        # no rotation, middle of the slit: symmetric in rows
        d = dict(c, Va=0., xc=0.)
        if c['m0'] == (c['nrows']-1)/2.:
            m = get(d)
            rec.step()
            rec.close(m, m[::-1], 'symmetric-rows', 'rows of a centred galaxy without rotation', rtol=1e-8,
                      atol=1e-9*np.abs(m).max())
        if c['q'] == 1.:
            rec.step()
            a, b = get(dict(c, Va=0.)), get(c)
            rec.close(b, a, 'face-on', 'face-on galaxy with and without rotation', rtol=1e-8,
                      atol=1e-9*np.abs(a).max())
    else:
        base = get(c)
        front = [(c, 0)]
        for step in (1, 2, 4):
            for sgn in (1, -1):
                for how in ('m0', 'm0_shift'):
                    e = dict(c)
                    e[how] = e[how]+sgn*step
                    m = get(e)
                    rec.step()
                    want = np.roll(base, sgn*step, axis=0)
                    k = 5
                    rec.close(m[k:-k], want[k:-k], 'row-move', 'galaxy moved by %d rows with %s' % (sgn*step, how),
                              rtol=1e-6, atol=1e-7*np.abs(base).max())
    rec.trace(len(models))
    rec.outcome(np.round(list(models.values())[0], 6))
    rec.sample = dict(case=case, configurations=len(models))
