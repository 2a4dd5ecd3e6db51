import itertools
import numpy as np

RULE = ('kernel roots: every profile name, width, beta and dither of the alphabet; below each every pair of coordinate arrays (lengths 1 to 6, uniform, '
        'uneven, reversed, off centre, very different lengths); history roots: every sequence of changes (width, beta, dither, temporary width, stored '
        'kernel, copies, other instruments) on one instrument.  A state is one kernel.')
CHUNK = 2
NAMES = {'Gaussian': 'G', 'gaussian': 'G', ' GAUSSIAN ': 'G', 'Moffat': 'M', 'moffat': 'M', ' MOFFAT': 'M', 'Airy': 'G'}
OPS = ['fwhm', 'beta', 'dither', 'nodither', 'temp', 'store', 'copy', 'other']


def cases(tier):
    T = tier == 'thorough'
    out = []
    for name in NAMES:
        for fwhm in (.05, .3, .6, .9, 1.7):
            for beta in ((1.5, 2.5, 4.765, 8.) if NAMES[name] == 'M' else (2.5,)):
                for d in (None, .3, 2.7, 0.):
                    out.append(dict(kind='kernel', name=name, fwhm=fwhm, beta=beta, dither=d, n=7 if T else 5))
    for name in ('Gaussian', 'Moffat'):
        for first in itertools.product(OPS, repeat=2 if T else 1):
            out.append(dict(kind='history', name=name, first=list(first), depth=6 if T else 4))
    out.append(dict(kind='make'))
    return out


def warmup():
    make('Gaussian', .5, 2.5, 1.).PSF.generate_conv_stamp(np.zeros(1), np.zeros(1))
    make('Moffat', .5, 2.5, 1.).PSF.generate_conv_stamp(np.zeros(1), np.zeros(1))


def make(name, fwhm, beta, dither, imager=False):
    import misfit
    kw = dict(PSF_type=name, PSF_FWHM=fwhm, yspace_dither_arc=dither, pixscale=.18)
    if beta is not None:
        kw['PSF_beta'] = beta
    return misfit.Imager(**kw) if imager else misfit.Spectrograph(slit_width=.7, **kw)


def single(kind, fwhm, beta, x, y):
    r2 = x*x+y*y
    if kind == 'G':
        return 2.**(-r2/(fwhm/2.)**2)
    return (1.+(2.**(1./beta)-1.)*r2/(fwhm/2.)**2)**-beta


def want(kind, fwhm, beta, dither, x, y):
    """Relative to the peak of the positive image; slit position first."""
    X, Y = np.meshgrid(np.asarray(x, float), np.asarray(y, float))
    k = single(kind, fwhm, beta, X, Y)
    if dither is not None:
        k = k-.5*(single(kind, fwhm, beta, X, Y-dither)+single(kind, fwhm, beta, X, Y+dither))
    return k


def grids(n):
    out = []
    for k in range(1, n+1):
        out.append((np.arange(k)-(k-1)/2.)*.18)
    out += [np.array([-.7, -.1, 0., .02, .9]), np.array([.5, .2, -.1, -.4]), np.arange(6)*.3+.11, np.array([-2.7, 0., 2.7]), np.array([0.]),
            (np.arange(31)-15)*.09, np.array([-4.1, 3.])]
    return out


def run_case(case, rec):
    globals()['do_'+case['kind']](dict(case), rec)


def do_kernel(case, rec):
    kind = NAMES[case['name']]
    a = (kind, case['fwhm'], case['beta'], case['dither'])
    for imager in (False, True):
        psf = make(case['name'], case['fwhm'], case['beta'], case['dither'], imager).PSF
        base = make(case['name'], case['fwhm'], case['beta'], None, imager).PSF.generate_conv_stamp(np.zeros(1), np.zeros(1))[0, 0]
        if not rec.check(np.isfinite(base) and base > 0., 'peak', 'kernel at its centre is %s' % base):
            return
        for x, y in itertools.product(grids(case['n']), repeat=2):
            bx, by = x.copy(), y.copy()
            k = psf.generate_conv_stamp(x, y)
            rec.step()
            rec.state(x.tolist(), y.tolist(), imager)
            rec.trace()
            rec.check((x == bx).all() and (y == by).all(), 'input', 'coordinates changed')
            w = want(*a, x, y)
            rec.outcome(np.round(w, 6))
            if not rec.close(np.asarray(k)/base, w, 'kernel', '%s kernel, FWHM %s, beta %s, dither %s at x=%s, y=%s' % (case['name'], case['fwhm'], case['beta'], case['dither'], x, y), rtol=1e-8, atol=1e-12):
                return
        # width: half the peak at half the full width, in every direction
        if case['dither'] is None:
            for t in np.linspace(0., 2.*np.pi, 13):
                v = psf.generate_conv_stamp(np.array([case['fwhm']/2.*np.cos(t)]), np.array([case['fwhm']/2.*np.sin(t)]))[0, 0]
                rec.close(v/base, .5, 'width', 'half width of %s' % (a,), rtol=1e-9)


def do_make(case, rec):
    import misfit
    from misfit.instrument import PSFGaussian, PSFMoffat
    for name, kind in NAMES.items():
        for cls in (misfit.Spectrograph, misfit.Imager):
            i = cls(PSF_type=name, PSF_FWHM=.6)
            rec.step()
            rec.state(name, cls.__name__)
            rec.trace()
            rec.outcome(kind)
            rec.check(isinstance(i.PSF, PSFMoffat) == (kind == 'M') and isinstance(i.PSF, PSFGaussian) == (kind == 'G') and i.PSF.PSF_FWHM == .6
                      and i.PSF.yspace_dither_arc is None, 'make', 'instrument with %r has %s' % (name, vars(i.PSF)))
            if kind == 'M':
                rec.check(i.PSF.PSF_beta == 2.5, 'make', 'default beta %s' % i.PSF.PSF_beta)
                j = cls(PSF_type=name, PSF_FWHM=.6, PSF_beta=3.5)
                rec.check(j.PSF.PSF_beta == 3.5 and i.PSF.PSF_beta == 2.5, 'make', 'beta %s' % j.PSF.PSF_beta)
    for cls, kind in ((PSFGaussian, 'G'), (PSFMoffat, 'M')):
        p = cls(PSF_FWHM=.4)
        p.setAttr(PSF_FWHM=.7, yspace_dither_arc=1.1, nonsense=3)
        x, y = np.array([0., .2]), np.array([-.1, .3, 1.1])
        k = p.generate_conv_stamp(x, y)
        base = cls(PSF_FWHM=.7).generate_conv_stamp(np.zeros(1), np.zeros(1))[0, 0]
        rec.close(k/base, want(kind, .7, 2.5, 1.1, x, y), 'set', 'kernel after setAttr', rtol=1e-9)


def do_history(case, rec):
    kind = NAMES[case['name']]
    x, y = np.array([-.4, 0., .3]), np.array([-1., -.2, 0., .7])
    for tail in itertools.product(OPS, repeat=case['depth']-len(case['first'])):
        seq = case['first']+list(tail)
        inst = make(case['name'], .6, 2.5, None)
        s = dict(fwhm=.6, beta=2.5, dither=None)
        stored = None
        twins = []
        for i, op in enumerate(seq):
            if op == 'fwhm':
                s['fwhm'] = inst.PSF.PSF_FWHM = .9 if s['fwhm'] == .6 else .6
            elif op == 'beta':
                s['beta'] = 4. if s['beta'] == 2.5 else 2.5
                inst.PSF.PSF_beta = s['beta']
            elif op == 'dither':
                s['dither'] = inst.PSF.yspace_dither_arc = 1.2
            elif op == 'nodither':
                s['dither'] = inst.PSF.yspace_dither_arc = None
            elif op == 'temp':
                k = inst.PSF.generate_conv_stamp(x, y, PSF_FWHM=.33)
                b = make(case['name'], .33, s['beta'], None).PSF.generate_conv_stamp(np.zeros(1), np.zeros(1))[0, 0]
                rec.close(k/b, want(kind, .33, s['beta'], s['dither'], x, y), 'temp', 'kernel of a width given for once after %s' % seq[:i+1], rtol=1e-9, atol=1e-13)
            elif op == 'store':
                stored = np.full((1, 2, 2), float(i))
                inst.PSF.set_conv_stamp(stored)
            elif op == 'copy':
                twins.append((inst, dict(s), stored))
                inst = inst.copy()
            else:
                o = make('Moffat' if kind == 'G' else 'Gaussian', 1.3, 6., .5)
                o.PSF.set_conv_stamp(np.zeros(3))
                o.PSF.generate_conv_stamp(x, y)
            rec.step()
            rec.state(seq[:i+1])
            for inst_, s_, st in twins+[(inst, s, stored)]:
                k = inst_.PSF.generate_conv_stamp(x, y)
                b = make(case['name'], s_['fwhm'], s_['beta'], None).PSF.generate_conv_stamp(np.zeros(1), np.zeros(1))[0, 0]
                rec.close(k/b, want(kind, s_['fwhm'], s_['beta'], s_['dither'], x, y), 'history', 'kernel after %s' % seq[:i+1], rtol=1e-9, atol=1e-13)
                rec.check((st is None and inst_.PSF._conv_stamp is None) or (st is not None and np.array_equal(inst_.PSF._conv_stamp, st)), 'stored', 'stored kernel after %s' % seq[:i+1])
        rec.trace()
        rec.outcome(s['fwhm'], s['beta'], s['dither'])
