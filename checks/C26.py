import itertools
import numpy as np
from mc import mk, ref2d
from checks.C01 import prod as product_of

RULE = ('slit and cube roots: every combination of the mock settings, compared with explicit sums over the cells of the galaxy; shape roots: every '
        'number of rows x pixel scale; flux roots: every pair of kinematic parameters of one galaxy; history roots: every sequence of operations '
        '(make and update slit and cube models, make mocks of other galaxies) on one model and one instrument.  A state is one mock or one history.')
CHUNK = 2
CASE_LIMIT = 300
LINES = {'HA6565': ('Halpha', [6564.6], [1.]), 'OIII5008': ('OIII', [5008.24, 4960.295], [1., .33]), 'SII6733': ('SII', None, None)}
OPS = ['slit', 'cube', 'move', 'move3', 'other', 'othercube']


def base(**kw):
    d = dict(nrows=6, nwave=9, dlam=4., m0=2.5, gen=True, nsub=1, pad=.5, slit=.72, res=0.)
    d.update(kw)
    return d


def prod(**kw):
    return product_of(**{k: v if isinstance(v, list) else [v] for k, v in kw.items()})


def grid(T):
    out = []
    out += prod(**{k: v for k, v in base(nrows=0).items() if k not in ('nrows', 'm0')}, rows=[dict(nrows=6, m0=2.5), dict(nrows=7, m0=3.)],
                q=[.12, .55, 1.], PA=[-60., 0., 30., 90.] if T else [0., 30., 100.], sub=[dict(nsub=1), dict(nsub=2)], m0_shift=[0., .4])
    out += prod(**{k: v for k, v in base().items() if k not in ('res', 'slit', 'pad', 'nsub')}, n=[.5, 1., 4.], re=[.3, .7], psf=['Gaussian', 'Moffat'],
                fwhm=[.4, .9], pad=[.5, 1.], res=[0., 60.], slit=[.4, .75], nsub=[2 if T else 1])
    out += prod(**{k: v for k, v in base().items() if k not in ('nwave', 'dlam')}, sigma=[2., 9., 60.], Va=[0., 200., -80.], rt=[.1, .6],
                spec=[dict(nwave=9, dlam=4.), dict(nwave=16, dlam=3.), dict(spec_type='velocity', nwave=9, dlam=90.), dict(spec_type='velocity', nwave=12, dlam=30.)],
                intensity=['fiducial', 'scale'])
    out += prod(**{k: v for k, v in base().items()}, lines=['D'], z=[.7, 2.2], PA=[20., -70.], sigma=[5., 80.])
    seen, res = set(), []
    for d in out:
        if d.get('lines') == 'D':
            d = dict(d, lines=[5008.24, 4960.295], ratios=[1., .34])
        c = mk.conf(**d)
        key = repr(sorted(c.items()))
        if key not in seen:
            seen.add(key)
            res.append(c)
    return res


def cases(tier):
    T = tier == 'thorough'
    out = []
    for c in grid(T):
        out.append(dict(kind='slit', c=c))
        if c['slit'] != .4 and c['res'] == 0.:
            out.append(dict(kind='cube', c=c))
    for p in (.18, .1799, .2, .1, .25, .11, .13, .3):
        for rest in (0., .3, .9):
            out.append(dict(kind='shape', pix=p, rest=rest, n=range(3, 40 if T else 26)[0], m=40 if T else 26))
    for q, PA, n in itertools.product((.3, .8), (0., 50., 90.), (1., 2.5)):
        out.append(dict(kind='flux', q=q, PA=PA, n=n))
    d = 4 if T else 3
    for first in itertools.product(OPS, repeat=1 if not T else 2):
        for gen in (True, False):
            for sub in (1, 2):
                out.append(dict(kind='history', first=list(first), depth=d, gen=gen, nsub=sub))
    return out


def tables(c):
    """Wavelengths and ratios as the shipped tables have them for the first line of the configuration."""
    from mc import tables as t
    name = 'OIII' if len(c['lines']) > 1 else 'Halpha'
    names = t.groups()[name]
    l = t.lines()
    return name, names, [l[n][0] for n in names], [l[n][1] for n in names]


def args(c, **kw):
    name, names, rest, ratios = tables(c)
    c['lines'], c['ratios'] = rest, ratios
    import misfit
    d = dict(z=c['z'], ID=7, Va=c['Va'], rt=c['rt'], sigma0=c['sigma'], yshift=c['m0_shift'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'],
             delt_PA=c['PA'], wave=mk.wave_grid(c), instrument_name='X', pixscale=c['pixscale'], instrument_resolution=c['res'], slit_width=c['slit'],
             slit_length=c['pixscale']*c['nrows'], nymin=1, PSF_FWHM=c['fwhm'], PSF_type=c['psf'], band='H', line_primary=names[0], linegroup_name=name,
             spec_type=c['spec_type'], nSubpixels=c['nsub'], pad_factor=c['pad'])
    if c['intensity'] != 'fiducial':
        from misfit.model.kin_classes import IntensityProfileSersicExpScale
        d['intensityProfile'] = IntensityProfileSersicExpScale(misfit.Galaxy(n=1., q0=.3, re_arcsec=.1))
    d.update(kw)
    return d


def candidates(c, fn):
    ax, ay = ref2d.ambiguous(c)
    return [fn(dict(c, edge=e)) for e in itertools.product(([1, 0] if ax else [1]), ([1, 0] if ay else [1]))]


def nearest(got, wants):
    return min(wants, key=lambda w: np.abs(w-got).max() if w.shape == got.shape else np.inf)


def ref_cube(c):
    """Flux per wavelength and whole pixel of a field as wide as it is long."""
    c = dict(c, slit=c['nrows']*c['pixscale'])
    wave = mk.wave_grid(c)
    sl, g, w = ref2d.model(c, wave, raw=True)
    n, s = c['nrows'], c['nsub']
    out = sl.reshape(len(w), n, s, n, s).sum(axis=(2, 4))
    return out.reshape(len(wave), len(w)//len(wave), n, n).mean(axis=1)


def run_case(case, rec):
    globals()['do_'+case['kind']](dict(case), rec)


def do_slit(case, rec):
    from misfit.mock.generate_basic import generate_mock_slit_obs, generate_mock_basis
    c = case['c']
    a = args(c)
    got = np.asarray(generate_mock_slit_obs(**a))
    rec.step()
    rec.state(c)
    rec.trace()
    wave = mk.wave_grid(c)
    want = nearest(got, candidates(c, lambda d: ref2d.model(d, wave)))
    rec.close(got, want, 'slit', 'mock slit observation', rtol=1e-7, atol=1e-9*np.abs(want).max())
    rec.outcome(np.round(got/np.abs(got).max(), 6))
    again = np.asarray(generate_mock_slit_obs(**args(c)))
    rec.close(again, got, 'repeat', 'the same mock again', rtol=0)
    # the forward model of the same galaxy
    direct = np.asarray(mk.aper2d(c).model)
    rec.close(got, direct, 'forward', 'mock against the model of the galaxy', rtol=1e-7, atol=1e-9*np.abs(want).max())
    km, g, inst = generate_mock_basis(**args(c))
    rec.step(3)
    rec.check((g.z, g.n, g.re_arcsec, g.q, g.q0, g.delt_PA) == (c['z'], c['n'], c['re'], c['q'], c['q0'], c['PA']) and tuple(g.spec2D.shape) == (c['nrows'], c['nwave'])
              and g.spec2D.m0 == c['m0'], 'galaxy', 'mock galaxy does not hold the requested values')
    rec.check((inst.pixscale, inst.slit_width, inst.instrument_resolution) == (c['pixscale'], c['slit'], c['res']), 'instrument', 'mock instrument does not hold the requested values')


def do_cube(case, rec):
    from misfit.mock.generate_basic import generate_mock_slit_obs, generate_mock_IFU_cube
    c = case['c']
    got = np.asarray(generate_mock_IFU_cube(**args(c)))
    rec.step()
    rec.state(c)
    rec.trace()
    wide = dict(c, slit=c['nrows']*c['pixscale'])
    want = nearest(got, candidates(wide, ref_cube))
    if not rec.close(got, want, 'cube', 'mock data cube', rtol=1e-7, atol=1e-9*np.abs(want).max()):
        return
    rec.outcome(np.round(got/np.abs(got).max(), 6))
    dx = c['pixscale']/c['nsub']
    slit = np.asarray(generate_mock_slit_obs(**args(wide)))
    rec.close(got.sum(axis=2).T*dx, slit, 'cube-slit', 'cube summed across the slit against a slit of that width', rtol=1e-6, atol=1e-8*slit.max())
    # the width of the slit does not matter to the cube
    narrow = np.asarray(generate_mock_IFU_cube(**args(dict(c, slit=.31))))
    rec.close(narrow, got, 'cube-width', 'cube of an instrument with another slit', rtol=1e-12, atol=0.)
    out = generate_mock_IFU_cube(debug=True, **args(c))
    rec.step(3)
    rec.check(len(out) == 4, 'debug', 'debug output has %d parts' % len(out))
    rec.close(out[0], got, 'debug', 'cube with debug output', rtol=1e-12)
    n = c['nrows']
    rec.check(all(np.shape(o) == (n, n, n) for o in out[1:]), 'debug', 'debug output has shapes %s' % [np.shape(o) for o in out])
    g = ref2d.grid(wide)
    ins = (slice(None), slice(g['py'], g['py']+g['ny']), slice(g['px'], g['px']+g['nx']))
    zz, yy, xx = np.meshgrid(g['z'], g['y'], g['x'], indexing='ij')
    I, V = ref2d.light(wide, xx, yy, zz)
    s = c['nsub']
    wantI = I[ins].reshape(n, s, n, s, n, s).sum(axis=(1, 3, 5))
    rec.close(out[1], wantI, 'debug', 'intensity of the debug output', rtol=1e-7, atol=1e-9*wantI.max())


def do_shape(case, rec):
    from misfit.mock.generate_basic import generate_mock_basis
    c = mk.conf(**base())
    for n in range(case['n'], case['m']):
        for how in ('length', 'nymin'):
            a = args(c, pixscale=case['pix'])
            if how == 'length':
                a.update(slit_length=(n-1+case['rest'])*case['pix'] if case['rest'] else n*case['pix'], nymin=1)
            else:
                a.update(slit_length=.01, nymin=n)
            km, g, inst = generate_mock_basis(**a)
            rec.step()
            rec.state(n, how)
            rec.trace()
            rec.outcome(n)
            rec.check(tuple(g.spec2D.shape) == (n, c['nwave']) and g.spec2D.m0 == n/2.-.5 and g.spec2D.ypos == n/2.-.5, 'shape',
                      'slit of %r arcsec (at least %d pixels of %s): shape %s centred on %s, expected %d rows' % (
                          a['slit_length'], a['nymin'], case['pix'], g.spec2D.shape, g.spec2D.m0, n))


def do_flux(case, rec):
    from misfit.mock.generate_basic import generate_mock_slit_obs, generate_mock_IFU_cube
    tot = None
    for Va, rt, sigma in itertools.product((0., 90., -160.), (.1, .8), (12., 50., 100.)):
        c = mk.conf(**base(nwave=61, dlam=2.5, q=case['q'], PA=case['PA'], n=case['n'], Va=Va, rt=rt, sigma=sigma))
        cube = np.asarray(generate_mock_IFU_cube(**args(c)))
        slit = np.asarray(generate_mock_slit_obs(**args(c)))
        t = np.array([cube.sum(), slit.sum()])
        rec.step(2)
        rec.state(Va, rt, sigma)
        rec.trace()
        rec.outcome(np.round(t, 6))
        if tot is None:
            tot = t
        # the slit also loses light by velocity: only its cube conserves the total; the PSF is applied before
        rec.close(t, tot, 'flux', 'total flux of cube and slit with Va=%s, rt=%s, sigma=%s' % (Va, rt, sigma), rtol=2e-3)
        rec.check((cube >= -1e-9*cube.max()).all(), 'flux', 'negative flux')


def seen(o):
    """Public settings of an instrument or galaxy."""
    out = {}
    for k, v in vars(o).items():
        if k.startswith('_') or k in ('PSF', 'LSF', 'spec2D', 'spec1D', 'pstamp'):
            continue
        if v is None or isinstance(v, (int, float, str, bool, np.ndarray, list, tuple)):
            out[k] = np.array(v).tolist() if not isinstance(v, (str, type(None))) else v
    if hasattr(o, 'PSF'):
        out['PSF'] = {k: v for k, v in vars(o.PSF).items() if isinstance(v, (int, float, str)) and not k.startswith('_')}
    return out


def do_history(case, rec):
    import misfit
    from misfit.model.kin_model import KinModel2D
    from misfit.mock.generate_basic import generate_mock_slit_obs, generate_mock_IFU_cube
    c = mk.conf(**base(nrows=5, m0=2., nsub=case['nsub'], gen=case['gen'], slit=.5, sigma=40.))
    thetas = [mk.theta(c), mk.theta(dict(c, Va=-70., sigma=80., rt=.5, m0_shift=.3, z=1.503))]

    def fresh(op, k):
        ck = dict(c, Va=thetas[k][0], rt=thetas[k][1], sigma=thetas[k][2], m0_shift=thetas[k][3], z=thetas[k][4])
        wave = mk.wave_grid(c)
        ck = dict(ck)
        if op == 'slit':
            return candidates(ck, lambda d: ref2d.model(d, wave))
        full = dict(ck, slit=ck['nrows']*ck['pixscale'])

        def f(d):
            sl, g, w = ref2d.model(d, wave, raw=True)
            n, s = d['nrows'], d['nsub']
            return sl.reshape(len(wave), len(w)//len(wave), n, s, n, s).sum(axis=(3, 5)).mean(axis=1)
        return candidates(full, f)
    want = {(op, k): fresh(op, k) for op in ('slit', 'cube') for k in (0, 1)}
    oc = mk.conf(**base(nrows=6, n=2.5, q=.8, PA=-20., Va=77.))
    oslit, ocube = np.asarray(generate_mock_slit_obs(**args(dict(oc)))), np.asarray(generate_mock_IFU_cube(**args(dict(oc))))
    for tail in itertools.product(OPS, repeat=case['depth']-len(case['first'])):
        seq = case['first']+list(tail)
        g, inst = mk.galaxy(c), mk.instrument(c)
        kp, ip = mk.profiles(c, g)
        km = KinModel2D(galaxy=g, thetaSettings=mk.settings(c), kinProfile=kp, intensityProfile=ip, kinModelOptions=mk.options(c), no_scale=True)
        bi, bg = seen(inst), seen(g)
        k, have2, have3, bad = 0, False, False, False
        for i, op in enumerate(seq):
            if op == 'slit' or (op == 'move' and not have2):
                km.make_model(galaxy=g, instrument=inst, theta_fitting=thetas[k])
                have2 = True
                res, key = km.model, ('slit', k)
            elif op == 'cube' or (op == 'move3' and not have3):
                km.make_3D_int_model(galaxy=g, instrument=inst, theta_fitting=thetas[k])
                have3 = True
                res, key = km.model_cube, ('cube', k)
            elif op == 'move':
                k = 1-k
                km.update_model(theta_fitting=thetas[k])
                res, key = km.model, ('slit', k)
            elif op == 'move3':
                k = 1-k
                km.update_3D_int_model(theta_fitting=thetas[k])
                res, key = km.model_cube, ('cube', k)
            elif op == 'other':
                res, key = np.asarray(generate_mock_slit_obs(**args(dict(oc)))), None
                rec.close(res, oslit, 'other', 'mock of another galaxy after %s' % seq[:i+1], rtol=1e-12)
            else:
                res, key = np.asarray(generate_mock_IFU_cube(**args(dict(oc)))), None
                rec.close(res, ocube, 'other', 'cube of another galaxy after %s' % seq[:i+1], rtol=1e-12)
            rec.step()
            rec.state(seq[:i+1])
            if key:
                w = nearest(np.asarray(res), want[key])
                bad = not rec.close(res, w, 'history', '%s after %s' % (key[0], seq[:i+1]), rtol=1e-7, atol=1e-9*np.abs(w).max())
            rec.check(seen(inst) == bi, 'instrument-changed', 'instrument changed by %s: %s' % (seq[:i+1], {a: (bi[a], seen(inst).get(a)) for a in bi if seen(inst).get(a) != bi[a]}))
            rec.check(seen(g) == bg, 'galaxy-changed', 'galaxy changed by %s' % seq[:i+1])
            if bad:
                break
        rec.trace()
        rec.outcome(tuple(seq))
