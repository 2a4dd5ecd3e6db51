import itertools
import os
import re as regex
import shutil
import tempfile
import warnings
import numpy as np
from mc import mk
from checks import C14, C19, C25
from checks.C20 import same

RULE = ('roots: best-fit plots for every set of low signal rows of a five row spectrum, every set of sky columns of a six column spectrum, images, offsets '
        'and angles; corner and trace plots for every subset of free parameters and every linked pair; 1D plots for every line set, mask and error setting.  '
        'The figures are intercepted when saved and every artist in them compared with the fit.  A state is one figure.')
CHUNK = 1
CASE_LIMIT = 400


def cases(tier):
    T = tier == 'thorough'
    out = []
    rows = [[i for i in range(5) if k >> i & 1] for k in range(32)]
    cols = [[i for i in range(6) if k >> i & 1] for k in range(64)]
    for i in range(0, 32, 4):
        for model in (True, False):
            out.append(dict(kind='best', rows=rows[i:i+4], cols=cols if T else [[], [0, 2], [3]], model=model, shift=.7 if i % 8 else -.4, PA=35.))
    for i in range(0, 64, 4):
        out.append(dict(kind='best', rows=[[], [0, 4]], cols=cols[i:i+4], model=i % 8 == 0, shift=0., PA=-100.))
    for PA in range(0, 181, 30):
        out.append(dict(kind='best', rows=[[1]], cols=[[4]], model=True, shift=1.2, PA=float(PA)))
    for shift, m0, PA in itertools.product((0., .6, -.8), (3., 2.), (0., 50.)):
        out.append(dict(kind='stamp', shift=shift, m0=m0, slit=PA))
    for v in [''.join(x) for x in itertools.product('01', repeat=5) if '1' in x]:
        n = v.count('1')
        for usetex in (False, True):
            out.append(dict(kind='corner', vary=v, usetex=usetex, linked=None))
        pairs = [[i, j] for i in range(n) for j in range(n) if i < j]
        for p in pairs if v[0] == '1' else pairs[:1]:
            if T or v in ('11111', '11100', '10110', '11010', '01110'):
                out.append(dict(kind='corner', vary=v, usetex=False, linked=[p]))
        out.append(dict(kind='trace', vary=v))
    for gr in (['Halpha'], ['OIII'], ['Halpha', 'NII'], ['OIII', 'Hbeta']):
        for errs in (False, True):
            out.append(dict(kind='oned', groups=gr, errs=errs))
    return out


class Capture(object):
    """Collects the figures saved (writes an empty file in place of the image) and counts those left open."""
    def __enter__(self):
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt
        self.mf, self.plt, self.old = mf, plt, mf.Figure.savefig
        self.figs, self.open = [], list(plt.get_fignums())

        def savefig(fig, fname, *a, **kw):
            self.figs.append((fig, fname))
            open(fname, 'w').close()
        mf.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.mf.Figure.savefig = self.old
        self.left = [n for n in self.plt.get_fignums() if n not in self.open]
        self.plt.close('all')


def run_case(case, rec):
    import logging
    logging.disable(logging.WARNING)
    d = tempfile.mkdtemp()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            globals()['do_'+case['kind']](dict(case), rec, d)
    finally:
        shutil.rmtree(d)
    rec.trace()
    rec.sample = dict(case=case, traces=rec.traces)


def runs(v):
    out = []
    for i in sorted(v):
        if out and out[-1][1] == i-1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return out


def level(ax, horizontal):
    """Positions of full-width straight lines, with their colours."""
    import matplotlib.colors as mc
    out = []
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        a, b = (y, x) if horizontal else (x, y)
        if len(a) == 2 and a[0] == a[1] and b[0] != b[1] and abs(b[0]) < 1e-12:
            out.append((mc.to_hex(l.get_color()), float(a[0])))
    return out


def simple(nrows, nwave, cols, rows, shift, PA, m0, model, fwhm=.6):
    import misfit
    c = mk.conf(nrows=nrows, nwave=nwave, nsub=1, pad=.3, PA=PA, m0=m0, m0_shift=shift, fwhm=fwhm)
    flux = np.add.outer(np.arange(nrows)**2*.7, np.sin(np.arange(nwave)*1.3)*3.)
    for j in cols:
        flux[:, j] *= 50.
    sky = [j for j in cols]
    g = mk.prepared(c, flux.copy(), np.full(flux.shape, .3), np.ones(flux.shape), [j for j in range(nwave) if j not in sky], [1.]*nrows)
    g.spec2D.low_snr_row_inds = np.array(rows, dtype=int)
    g.spec2D.wh_sky_fit = np.array(cols, dtype=int)
    f = mk.fit2d(c, g, mk.instrument(c), vary=[True, True, True, False, False], skip_fit_prep_calcs=True)
    if model:
        f.setup_model()

        class Best(object):
            theta = np.array([1., 2., 3., shift, 1.5])
        f.kinModel.bestfit = Best()
        f.kinModel.model = flux*.9+np.cos(np.arange(nwave))
    f.mcmcOptions.filename_plot_bestfit = None
    return c, f, flux


def strip(f):
    """State of a fit that a plot may not change."""
    d = {k: v for k, v in vars(f).items() if k not in ('kinModel', 'thetaPrior')}
    if f.kinModel is not None:
        d['model'] = getattr(f.kinModel, 'model', None)
        d['theta'] = np.array(f.kinModel.kinProfile.theta, copy=True)
    return d


def do_best(case, rec, d):
    import copy
    from misfit.plot import plot_bestfit_model
    for rows, cols in itertools.product(case['rows'], case['cols']):
        nr, nw = 5, 6
        m0 = 2.
        c, f, flux = simple(nr, nw, cols, rows, case['shift'], case['PA'], m0, case['model'])
        what = 'low rows %s, sky columns %s, model %s, offset %s, angle %s' % (rows, cols, case['model'], case['shift'], case['PA'])
        before = copy.deepcopy(strip(f))
        name = os.path.join(d, 'best.png')
        with Capture() as cap:
            plot_bestfit_model(f, fileout=name, usetex=False)
        rec.step()
        rec.state([rows, cols])
        diff = same(before, strip(f))
        rec.check(not diff, 'changed', 'the plot changed the fit: %s, %s' % (diff, what))
        if not rec.check(len(cap.figs) == 1 and cap.figs[0][1] == name and not cap.left, 'file', '%d figures saved, %d left open, %s' % (
                len(cap.figs), len(cap.left), what)):
            continue
        axes = cap.figs[0][0].axes
        if not rec.check(len(axes) == (5 if case['model'] else 3), 'panels', '%d panels, %s' % (len(axes), what)):
            continue
        shift = case['shift'] if case['model'] else 0.
        a = np.hypot(c['re'], c['fwhm']/2.)*abs(np.cos(np.deg2rad(case['PA'])))/c['pixscale']
        centre = m0+shift
        edges = []
        for lo, hi in runs(rows):
            if lo > 0:
                edges.append(lo-.5)
            if hi < nr-1:
                edges.append(hi+.5)
        vedges = []
        for lo, hi in runs(cols):
            if lo > 0:
                vedges.append(lo-.5)
            if hi < nw-1:
                vedges.append(hi+.5)
        want = [flux]
        if case['model']:
            want += [f.kinModel.model, flux-f.kinModel.model]
        nosky = [j for j in range(nw) if j not in cols]
        lim = (flux[:, nosky].min(), flux[:, nosky].max()) if nosky else (flux.min(), flux.max())
        for ax, im in zip(axes[2:], want):
            if not rec.check(len(ax.images) == 1, 'image', '%d images in a panel, %s' % (len(ax.images), what)):
                continue
            shown = ax.images[0]
            rec.close(np.asarray(shown.get_array(), float), im, 'image', 'image drawn, %s' % what, rtol=1e-12, atol=1e-12)
            rec.close(shown.get_extent(), [-.5, nw-.5, -.5, nr-.5], 'image', 'extent of the image, %s' % what)
            rec.close([shown.norm.vmin, shown.norm.vmax], lim, 'scale', 'brightness scale, %s' % what, rtol=1e-9)
            h = level(ax, True)
            rec.close(sorted(y for k, y in h if k == '#ffa500'), sorted([centre-a, centre, centre+a]), 'rows', 'centre and effective radius, %s' % what,
                      rtol=1e-9)
            got = sorted(y for k, y in h if k == '#ffff00')
            rec.check(got == sorted(edges), 'low-rows', 'lines at %s, expected at %s, %s' % (got, sorted(edges), what))
            got = sorted(x for k, x in level(ax, False))
            rec.check(got == sorted(vedges), 'sky', 'lines at columns %s, expected %s, %s' % (got, sorted(vedges), what))
            boxes = []
            for p in ax.patches:
                v = np.asarray(p.get_path().vertices)
                boxes.append([float(v[:, 0].min()), float(v[:, 0].max()), float(v[:, 1].min()), float(v[:, 1].max())])
            wantb = [[-.5, nw-.5, lo-.5, hi+.5] for lo, hi in runs(rows)]+[[lo-.5, hi+.5, -.5, nr-.5] for lo, hi in runs(cols)]
            rec.check(sorted(boxes) == sorted(wantb), 'hatch', 'hatched regions %s, expected %s, %s' % (sorted(boxes), sorted(wantb), what))
        rec.outcome([edges, vedges])


def do_stamp(case, rec, d):
    """The galaxy of the image sits on the row of the spectrum where the model puts it."""
    import misfit
    from misfit.plot import plot_bestfit_model
    for imgpa, yoff, n in itertools.product((0., 30.), (0., .4), (13, 9)):
        c, f, flux = simple(n, 9, [], [], case['shift'], 20., case['m0']+n//2-3, True)
        cen = (34., 27.)
        im = 7.*C25.blob((61, 61), cen, 20., 3.2, 1.8)+1.e-4
        g = C25.galaxy((61, 61), cen, cen, 20., case['slit'], imgpa, im)
        for k in ('RA', 'DEC', 'sersicRA', 'sersicDEC', 'sersicPA', 'pstamp', 'maskname', 'ID', 'field'):
            setattr(f.galaxy, k, getattr(g, k))
        f.galaxy.spec2D.slit_PA = case['slit']
        f.galaxy.spec2D.yoffset = yoff
        f.instrument.conv_sigma = .2
        f.instrument_img = misfit.Imager(PSF_type='Gaussian', PSF_FWHM=.15, pixscale=.06, band='F160W')
        with Capture() as cap:
            plot_bestfit_model(f, fileout=os.path.join(d, 'b.png'), usetex=False)
        rec.step()
        rec.state([imgpa, yoff, n])
        what = 'row %s, offset %s, slit at %s, image at %s, %d rows' % (case['m0'], case['shift'], case['slit'], imgpa, n)
        if not rec.check(len(cap.figs) == 1 and len(cap.figs[0][0].axes) == 5, 'panels', 'panels missing, %s' % what):
            continue
        ax = cap.figs[0][0].axes
        row = c['m0']+case['shift']
        for a, unit in ((ax[0], .18/.06), (ax[1], 1.)):
            lo, hi = a.get_ylim()
            ell = [p for p in a.patches if type(p).__name__ == 'Ellipse']
            if rec.check(len(ell) == 1, 'stamp', '%d ellipses, %s' % (len(ell), what)):
                y = float(np.ravel(ell[0].center)[1])
                rec.close([(y-lo)/unit-.5, (hi-lo)/unit], [row, n], 'stamp', 'row of the galaxy and rows shown, %s' % what, rtol=1e-6, atol=1e-6)
        rec.outcome([row, n])


def chained(case, which=0):
    f = C19.fit('arctan', case['vary'], False, .45)
    f.galaxy.re_mass_arcsec = .8
    ch = C19.chain('arctan', case['vary'], which)
    n = ch.shape[0]*ch.shape[1]
    f.sampler_dict = dict(chain=ch, flatchain=ch.reshape(n, -1), nWalkers=ch.shape[0], flatlnprobability=np.zeros(n), lnprobability=np.zeros(ch.shape[:2]))
    f.galaxy.spec2D.low_snr_row_inds = []
    return f, ch


def do_corner(case, rec, d):
    import copy
    import contextlib
    import io
    from misfit.plot import plot_param_corner
    names = [x for x, v in zip(['V_a', 'r_t', 'sigma0', 'm0_shift', 'z'], case['vary']) if v == '1']
    for which in (0, 1):
        f, ch = chained(case, which)
        f.theta_linked_posteriors = None
        with contextlib.redirect_stdout(io.StringIO()):
            f.analyze_results()
        f.theta_linked_posteriors = case['linked']
        before = copy.deepcopy(strip(f))
        what = 'free %s, linked %s' % (names, case['linked'])
        name = os.path.join(d, 'c.png')
        np.random.seed(5)
        with Capture() as cap:
            plot_param_corner(f, fileout=name, usetex=case['usetex'])
        rec.step()
        rec.state(which)
        diff = same(before, strip(f))
        rec.check(not diff, 'changed', 'the plot changed the fit: %s, %s' % (diff, what))
        if not rec.check(len(cap.figs) == 1 and cap.figs[0][1] == name and not cap.left, 'file', '%d figures saved, %d left open, %s' % (
                len(cap.figs), len(cap.left), what)):
            continue
        fig = cap.figs[0][0]
        k = len(names)+2
        axes = fig.axes
        if not rec.check(len(axes) == k*k, 'panels', '%d panels for %d parameters, %s' % (len(axes), k, what)):
            continue
        flat = np.asarray(f.sampler_dict['flatchain'])
        r = f.mcmc_results
        nice = list(r.theta_names_nice)
        best, e1, e2 = np.asarray(r.bestfit_theta), np.asarray(r.err_theta_1sig), np.asarray(r.err_theta_2sig)
        for i in range(k):
            ax = axes[i*k+i]
            x = flat[:, i]
            xs = [float(np.asarray(l.get_xdata())[0]) for l in ax.lines if len(l.get_xdata()) == 2]
            ok = any(abs(v-best[i]) <= 1e-9*max(1., abs(best[i])) for v in xs)
            rec.check(ok, 'best', 'best value %s of %s not drawn (lines at %s), %s' % (best[i], nice[i], xs, what))
            if x.max() > x.min():
                for q in (.02275, .15865, .84135, .97725):
                    v = np.percentile(x, 100.*q)
                    rec.check(any(abs(v-y) <= 1e-6*np.ptp(x) for y in xs), 'quantile', 'quantile %s of %s, %s, not drawn (lines at %s), %s' % (
                        q, nice[i], v, xs, what))
                vx = np.concatenate([np.asarray(p.get_path().vertices)[:, 0] for p in ax.patches])
                rec.close([vx.min(), vx.max()], [x.min(), x.max()], 'histogram', 'range of the histogram of %s, %s' % (nice[i], what), rtol=1e-9)
            title = ax.get_title()
            num = [float(v) for v in regex.findall(r'[-+]?\d+\.\d+', title[len(nice[i]):])]
            want = [best[i], -e1[i][0], e1[i][1]]
            rec.check(title.startswith(nice[i]) and len(num) == 3 and all(abs(a-b) <= .00501 for a, b in zip(num, want)), 'title',
                      'title %r, best value and errors %s, %s' % (title, want, what))
            rec.check(axes[(k-1)*k+i].get_xlabel() == nice[i], 'label', 'label %r below %s, %s' % (axes[(k-1)*k+i].get_xlabel(), nice[i], what))
        text = [t.get_text() for a in axes for t in a.texts]
        found = {}
        for t in text:
            num = [float(v) for v in regex.findall(r'\d+\.\d+', t.replace('V(R_E)', ''))]
            if t.startswith(('sigma=', r'$\sigma=')):
                found['sigma'] = (t, num)
            elif t.startswith(('V(RE)', '$V(R_E)')):
                found['V2' if 'opp' in t else 'V1'] = (t, num)
        allnames = list(r.theta_names)
        rec.check(('sigma' in found) == ('sigma0' in names), 'text', 'dispersion quoted: %s, %s' % ('sigma' in found, what))
        jv = len(names)
        items = [('V1', jv, e1), ('V2', jv, e2)]
        if 'sigma0' in names:
            items.append(('sigma', names.index('sigma0'), e1))
        for key, j, e in items:
            if not rec.check(key in found, 'text', 'no %s quoted in %s, %s' % (key, text, what)):
                continue
            t, num = found[key]
            lo, up = e[j]
            # order of the two errors depends on the markup
            pair = [up, lo] if case['usetex'] else [lo, up]
            rec.check(len(num) >= 3 and abs(num[0]-abs(best[j])) < .00501 and abs(num[1]-pair[0]) < .00501 and abs(num[2]-pair[1]) < .00501, 'text',
                      '%r for %s with errors %s, %s' % (t, best[j], (lo, up), what))
            if key != 'sigma':
                disp = np.sign(best[j]-lo) != np.sign(best[j]+up)
                rec.check(('disp' in t) == disp and ('rot' in t) == (not disp), 'text', '%r for %s with errors %s, %s' % (t, best[j], (lo, up), what))
            if key == 'V2':
                rec.check(abs(num[-1]-r.percent_oppsign[jv]) < .000501, 'text', '%r, percentage %s, %s' % (t, r.percent_oppsign[jv], what))
        if case['linked'] is not None and names[case['linked'][0][0]] == 'V_a':
            i, j = case['linked'][0]
            curves = [np.array([l.get_xdata(), l.get_ydata()], float) for l in axes[j*k+i].lines if len(l.get_xdata()) > 20]
            if rec.check(len(curves) == 2, 'linked', '%d curves of constant velocity, %s' % (len(curves), what)):
                th = dict(zip(['V_a', 'r_t', 'sigma0', 'm0_shift', 'z'], C19.THETA['arctan']))
                th.update(zip(names, best))
                for cv, rr, v in zip(curves, (.8, .8*2.2/1.676), best[len(names):]):
                    rt = cv[1] if names[j] == 'r_t' else th['r_t']
                    rec.close(2./np.pi*cv[0]*np.arctan(rr/rt), v+0.*cv[0], 'linked', 'velocity along the curve, %s' % what, rtol=1e-6)
                    rec.close([cv[1].min(), cv[1].max()], axes[j*k+i].get_ylim(), 'linked', 'curve over the panel, %s' % what, rtol=1e-6)
        rec.outcome([len(text), which])


def do_trace(case, rec, d):
    from misfit.plot.plot_trace import plot_trace
    names = [x for x, v in zip(['V_a', 'r_t', 'sigma0', 'm0_shift', 'z'], case['vary']) if v == '1']
    for which, seed in itertools.product((0, 1), (1, 2, 3)):
        f, ch = chained(case, which)
        s = dict(chain=ch.copy(), nWalkers=ch.shape[0], flatchain=ch.reshape(-1, ch.shape[-1]).copy())
        np.random.seed(seed)
        name = os.path.join(d, 't.png')
        with Capture() as cap:
            plot_trace(s, f, fileout=name, usetex=False)
        rec.step()
        rec.state([which, seed])
        what = 'free %s' % names
        rec.check(np.array_equal(s['chain'], ch), 'changed', 'the plot changed the chain, %s' % what)
        if not rec.check(len(cap.figs) == 1 and cap.figs[0][1] == name and not cap.left, 'file', 'figures saved %d, %s' % (len(cap.figs), what)):
            continue
        axes = cap.figs[0][0].axes
        if not rec.check(len(axes) == len(names), 'panels', '%d panels, %s' % (len(axes), what)):
            continue
        for i, ax in enumerate(axes):
            rec.check(ax.get_ylabel() == names[i], 'label', 'label %r of %s' % (ax.get_ylabel(), names[i]))
            drawn = set(tuple(np.asarray(l.get_ydata(), float)) for l in ax.lines)
            want = set(tuple(ch[w, :, i]) for w in range(ch.shape[0]))
            rec.check(drawn == want, 'trace', '%d of %d chains of %s drawn, %d other lines, %s' % (
                len(drawn & want), len(want), names[i], len(drawn-want), what))
            rec.check(all(np.array_equal(l.get_xdata(), np.arange(ch.shape[1])) for l in ax.lines), 'trace', 'steps of %s, %s' % (names[i], what))
        rec.outcome([which, seed])


def do_oned(case, rec, d):
    import matplotlib.colors as mc
    gr = case['groups']
    from mc import tables
    for mask, title in itertools.product((None, [5, 6, 20], 'line'), (None, 'm_a_b')):
        w, f, rng = C14.spectrum(gr, 1.1, 90., [2.e-17]*len(gr), [.3, -2e-5])
        f = f+2.e-20*np.sin(np.arange(len(w))*1.7)
        m = None
        if mask is not None:
            m = np.ones(len(w))
            m[[40, 41] if mask == 'line' else [x+20 for x in mask]] = 0.
        err = np.full(len(w), 1.e-19)
        fit = C14.setup(gr, 1.1, w, f, err, rng, 90., [2.e-17]*len(gr), 1, num=3, mask=m, maskname=title)
        name = os.path.join(d, 'o.png')
        np.random.seed(2)
        import contextlib
        import io
        with Capture() as cap, contextlib.redirect_stdout(io.StringIO()):
            fit.fit(noErrors=not case['errs'], noPlot=False, plot_filename=name, err_filename=os.path.join(d, 'e') if case['errs'] else None)
        rec.step()
        rec.state([mask, title])
        what = '%s, mask %s, title %s, errors %s' % (gr, mask, title, case['errs'])
        if not rec.check(len(cap.figs) == 1 and cap.figs[0][1] == name and not cap.left, 'file', '%d figures, %s' % (len(cap.figs), what)):
            continue
        ax = cap.figs[0][0].axes[0]
        lam = [t[0] for s in gr for t in tables.group(s)]
        v = sorted(x for k, x in level(ax, False))
        rec.close(v, sorted([x*2.1 for x in lam]+[x*(1.+fit.z) for x in lam]), 'lines', 'positions of the lines, %s' % what, rtol=1e-9)
        tr = fit.galaxy.spec1D_trim
        model = [l for l in ax.lines if len(l.get_xdata()) == len(tr.wave) and mc.same_color(l.get_color(), 'blue')]
        if rec.check(len(model) == 1, 'model', '%d models drawn, %s' % (len(model), what)):
            rec.close(np.asarray(model[0].get_xdata(), float), tr.wave, 'model', 'wavelengths of the model, %s' % what, rtol=1e-12)
            sig = np.abs(fit.vel_disp)
            want = sum(c*1e-18*tr.wave**i for i, c in enumerate(fit.cont_coeff))
            cont = want.copy()
            for s, fl in zip(gr, fit.flux_arr):
                for w0, rr in tables.group(s):
                    want = want+C14.gauss(tr.wave, w0*(1.+fit.z), sig, fl*rr)
            rec.close(np.asarray(model[0].get_ydata(), float), want, 'model', 'model drawn, %s' % what, rtol=1e-6, atol=1e-24)
            green = [l for l in ax.lines if len(l.get_xdata()) == len(tr.wave) and mc.same_color(l.get_color(), 'green')]
            rec.check(len(green) == 1 and np.allclose(green[0].get_ydata(), cont, rtol=1e-9, atol=0.), 'model', 'continuum drawn, %s' % what)
        red = [l for l in ax.lines if len(l.get_xdata()) == len(tr.wave) and mc.same_color(l.get_color(), 'red')]
        lo, hi = ax.get_xlim()
        rec.check(lo <= tr.wave.min() and hi >= tr.wave.max(), 'range', 'wavelengths %s to %s shown of %s to %s, %s' % (lo, hi, tr.wave.min(), tr.wave.max(), what))
        lo, hi = ax.get_ylim()
        rec.check(lo <= fit.final_model.min() and hi >= fit.final_model.max(), 'range', 'flux %s to %s shown, model from %s to %s, %s' % (
            lo, hi, fit.final_model.min(), fit.final_model.max(), what))
        rec.check(len(red) == (3 if case['errs'] else 0), 'errors', '%d realisations drawn, %s' % (len(red), what))
        for col, sel in (('k', tr.spec_mask == 1.), ('grey', tr.spec_mask == 0.)):
            pts = [l for l in ax.lines if l.get_marker() == 'o' and mc.same_color(l.get_color(), col)]
            x = np.concatenate([np.asarray(l.get_xdata(), float) for l in pts]) if pts else np.zeros(0)
            y = np.concatenate([np.asarray(l.get_ydata(), float) for l in pts]) if pts else np.zeros(0)
            rec.check(np.array_equal(x, tr.wave[sel]) and np.array_equal(y, tr.flux[sel]), 'points', '%d points drawn in %s, expected %d, %s' % (
                len(x), col, sel.sum(), what))
        text = [t.get_text() for t in ax.texts]
        wantn = [[fit.z]+([fit.z_err[0], fit.z_err[1]] if case['errs'] else []), [fit.vel_disp]+([fit.vel_disp_err[0], fit.vel_disp_err[1]] if case['errs'] else [])]
        for ww in wantn:
            ok = any(len(n) == len(ww) and all(abs(abs(a)-abs(b)) <= .000501 for a, b in zip(n, ww)) for n in (
                [float(v) for v in regex.findall(r'\d+\.\d+', t)] for t in text))
            rec.check(ok, 'text', 'texts %s, values %s, %s' % (text, ww, what))
        t = ax.get_title()
        rec.check(('m' in t if title else t.startswith('F')) and '3 ' in t and t.endswith('+'.join(gr)), 'title', 'title %r, %s' % (t, what))
        rec.outcome([mask, len(v)])
