import itertools
import numpy as np
from mc import mk, ref2d

RULE = ('roots: full products of bounded alphabets of geometry, profile, spectral and instrument settings plus a '
        'two-level full factorial over all factors; every model pixel of every root is compared with the direct sum. '
        'A state is one configuration (its model array), a transition one model evaluation.')
ASSUMPTIONS = ['uniform wavelength grids', 'Gaussian/Moffat PSF, rectangular slit',
               'no combination of effective (illumination dependent) instrument resolution, which the code rejects']
CHUNK = 40
D3 = dict(lines=[5008.24, 4960.295], ratios=[1., 0.34])
SII = dict(lines=[6732.67, 6718.29, 6700.], ratios=[1., 0.5, 0.25])


def prod(**kw):
    ks = sorted(kw)
    for vs in itertools.product(*[kw[k] for k in ks]):
        d = {}
        for k, v in zip(ks, vs):
            if isinstance(v, dict):
                d.update(v)
            else:
                d[k] = v
        yield d


def cases(tier):
    T = tier == 'thorough'
    out = []
    out += prod(q=[0.12, 0.19, 0.55, 1.0] if T else [0.12, 0.55, 1.0],
                PA=[-90., -60., -45., 0., 30., 45., 90., 120., 180.] if T else [-60., 0., 30., 90., 130.],
                xc=[0., 0.22, -0.31], m0=[3., 1.5] if not T else [0., 1.5, 3., 6.], m0_shift=[0., 0.4, -1.3],
                nsub=[1, 2, 3] if T else [1, 2], nwave=[9], dlam=[3.0])
    out += prod(n=[0.5, 1., 2.5, 4.], re=[0.15, 0.5], q0=[0.1, 0.19, 0.3], Va=[0., 120., -250.], rt=[0.05, 0.6],
                sigma=[-40., 50., 120.] if T else [-40., 50.], intensity=['fiducial', 'scale'],
                nwave=[9], dlam=[3.0], absval=[False, True] if T else [False])
    out += prod(spec=[dict(spec_type='wave'), dict(spec_type='velocity', dlam=60.), dict(spec_type='velocity', dlam=25., nwave=16)],
                lines=[{}, D3, SII], z=[0.3, 2.1], res=[0., 20., 70.], sigma=[0., 2., 9., 33., -3.],
                mode=[dict(upsample=True, floor=True), dict(upsample=True, floor=False), dict(upsample=False, floor=True),
                      dict(upsample=False, floor=False), dict(upsample=True, floor=True, factor=5.)],
                nrows=[5], nsub=[1], m0=[2.], Va=[90.])
    out += prod(psf=[dict(psf='Gaussian'), dict(psf='Moffat', beta=2.5), dict(psf='Moffat', beta=4.)], fwhm=[0., 0.35, 0.8],
                dither=[None, 0.5], pixscale=[0.18, 0.11], slit=[0.4, 0.75, 1.3], pad=[0.5, 1.0, 0.2], gen=[False, True],
                rebin=[True, False], nwave=[9], dlam=[3.0], nrows=[6])
    two = dict(q=[0.4, 0.9], PA=[20., -100.], xc=[0., 0.3], ms=[dict(m0_shift=0., z=1.5), dict(m0_shift=0.7, z=0.8)],
               n=[1., 3.], Va=[200., -80.], s=[dict(sigma=50.), dict(sigma=4.), dict(sigma=-25., absval=True)],
               lines=[{}, D3], psf=[dict(), dict(psf='Moffat', fwhm=0.45, dither=0.3)],
               nsub=[1, 2], sp=[dict(nwave=11, dlam=3.), dict(nwave=10, dlam=4., res=60.)])
    if T:
        two.update(nrows=[5, 8], intensity=['fiducial', 'scale'])
    out += prod(**two)
    out += prod(pos_shift=[True], xc=[0., 0.2], PA=[0., 40., 100.], q=[0.4, 0.8], Va=[0., 100.], sigma=[3., 40.],
                m0_shift=[0., 0.5], nsub=[2, 3] if T else [2], fwhm=[0.4, 0.72], nwave=[11], dlam=[3.0])
    # centre of the galaxy just outside the slit
    out += prod(pos_shift=[True], xc=[.37, -.41], PA=[0., 40., 100.] if T else [0., 100.], q=[.4], Va=[100.], sigma=[40.], m0_shift=[0., .5] if T else [.5],
                nsub=[2, 3] if T else [2], re=[.08, .15], fwhm=[.2, .4], nwave=[11], dlam=[3.])
    seen, res = set(), []
    for d in out:
        c = mk.conf(**d)
        key = repr(sorted(c.items()))
        if key not in seen:
            seen.add(key)
            res.append(c)
    return res


def gauss_fit(x, y):
    from scipy.optimize import least_squares
    best = None
    for w in (0.1, 0.3, 1.0):
        r = least_squares(lambda p: (p[1]*np.exp(-(x-p[0])**2/(2.*(p[2]/ref2d.SIG)**2))-y)/y.max(),
                          [x[y.argmax()], y.max(), w], x_scale=[0.1, max(y.max(), 1e-300), 0.3], xtol=1e-14, ftol=1e-14, gtol=1e-14)
        if best is None or r.cost < best.cost:
            best = r
    return best.x


def position_shift(c):
    """Velocity offset per padded row from the illumination of the slit."""
    g = ref2d.grid(c)
    zz, yy, xx = np.meshgrid(g['z'], g['y'], g['x'], indexing='ij')
    I = ref2d.light(c, xx, yy, zz)[0].sum(axis=0)
    conv = ref2d.conv_same(I, ref2d.kernel(c, g['dx'], g['dy']))
    conv *= I.sum()/conv.sum()
    ins = slice(g['px'], g['px']+g['nx'])
    out = np.zeros(len(g['y']))
    margin = np.inf
    h = 0.5*c['slit']
    for k in range(len(out)):
        mu, A, fw = gauss_fit(g['x'][ins], conv[k, ins])
        if mu-.5*fw < -h or mu+.5*fw > h:
            mu = min(max(mu, -h), h)
        out[k] = mu
    # instrument FWHM per slit width of displacement
    return out*(c['res']*ref2d.SIG)/c['slit']


def run_case(c, rec):
    a = mk.aper2d(c)
    rec.step()
    got = np.asarray(a.model)
    wave = mk.wave_grid(c)
    wants = []
    ax, ay = ref2d.ambiguous(c)
    for edge in itertools.product(([1, 0] if ax else [1]), ([1, 0] if ay else [1])):
        ce = dict(c, edge=edge)
        wants.append(ref2d.model(ce, wave, vshift=position_shift(ce) if c['pos_shift'] else None))
    rtol, rel = (1e-3, 1e-4) if c['pos_shift'] else (1e-7, 1e-9)
    rec.state(c)
    rec.outcome(np.round(got/np.abs(got).max(), 6))
    rec.trace()
    want = min(wants, key=lambda w: np.abs(w-got).max() if w.shape == got.shape else np.inf)
    rec.close(got, want, 'pixels', '2D model', rtol=rtol, atol=rel*np.abs(want).max())
    if c['xc'] == 0. and c['rebin']:
        # the same model through the fitting model, with some parameters free (started elsewhere)
        vary = [(True, True, True, False, False), (False, True, True, True, True), (True,)*5][
            int(round(10.*(c['re'] + c['fwhm'] + c['q']))) % 3]
        g = mk.galaxy(c)
        km = mk.kinmodel(c, g, vary=vary, start=[11., 0.3, 77., 0.15, 0.9])
        th = mk.theta(c)
        km.make_model(galaxy=g, instrument=mk.instrument(c), theta_fitting=th[np.array(vary)])
        rec.step()
        rec.trace()
        rec.close(km.model, want, 'pixels-fitting-model', 'model of KinModel2D', rtol=rtol,
                  atol=rel*np.abs(want).max())
    rec.sample = dict(case=c, model_row=got[got.shape[0]//2].tolist())
