import itertools
import os
import shutil
import tempfile
import numpy as np
from mc import mk, refprep, tables
from checks import C08, C14
from checks.C13 import gauss

RULE = ('roots: every table entry (through the package readers), altered copies of the tables (all row orders of the first rows), every line group with '
        'every subset of explicitly given {lines, wavelengths, ratios} and container type for spectra, 1D lines, 1D and 2D fits (given to the fit, the '
        'spectrum, both or neither), and every subset of explicitly given ranges with every container and parameter file.  A state is one resolved set.')
CHUNK = 2
GROUPS = ['Halpha', 'Hbeta', 'OIII', 'NII', 'SII', 'OII']
# vacuum wavelengths, Angstrom (NIST / SDSS line list)
PHYS = {'HA6565': 6564.61, 'HB4863': 4862.68, 'OIII5008': 5008.24, 'OIII4960': 4960.295, 'NII6550': 6549.85, 'NII6585': 6585.27,
        'SII6718': 6718.29, 'SII6733': 6732.67, 'OII3727': 3727.09, 'OII3730': 3729.88}
MEMBERS = {'Halpha': {'HA6565'}, 'Hbeta': {'HB4863'}, 'OIII': {'OIII5008', 'OIII4960'}, 'NII': {'NII6550', 'NII6585'},
           'SII': {'SII6718', 'SII6733'}, 'OII': {'OII3727', 'OII3730'}}
RANGED = {'Halpha': 'HA6565', 'Hbeta': 'HB4863', 'OIII': 'OIII5008'}
FULL, LINE, MASK = 'full_range_restwave_2D.param', 'line_range_restwave_2D.param', 'mask_lines_range_restwave_2D.param'
SKY = {'K': 2., 'H': 3., 'J': 3., 'Y': 3.}
BAD = ['', 'halpha', 'HALPHA', 'Ha', 'OIII ', 'HA6565,', 'name', None, 'OIII5008,OIII4960', 'Halpha,NII', 7]


def cases(tier):
    T = tier == 'thorough'
    out = [dict(kind='tables'), dict(kind='bad'), dict(kind='sky')]
    for f in ('line_names_cat.dat', 'line_wavelengths_ratios.dat', FULL, LINE, MASK, 'band_sky_cutoff_mosfire.dat', 'trim_wavelengths_1D.param'):
        out.append(dict(kind='order', file=f, n=5 if T else 4))
    for g in GROUPS:
        for box in ('list', 'array', 'tuple'):
            out.append(dict(kind='spectrum', group=g, box=box))
            out.append(dict(kind='line1d', group=g, box=box))
    for given in itertools.product((False, True), repeat=3):
        for box in ('list', 'array', 'tuple'):
            out.append(dict(kind='ranges', given=given, box=box))
    for g in GROUPS:
        out.append(dict(kind='norange', group=g))
    for g in GROUPS:
        for where in itertools.product(('fit', 'spec', 'both', None), repeat=3):
            if not T and where.count('both') > 1:
                continue
            out.append(dict(kind='fit2d', group=g, where=where))
    for g in GROUPS:
        for other in GROUPS:
            if g != other:
                out.append(dict(kind='override', group=g, other=other))
    for gs in (['Halpha'], ['OIII'], ['Halpha', 'NII'], ['OIII', 'Hbeta']) if not T else C14.SETS:
        for sub in itertools.product((False, True), repeat=2):
            out.append(dict(kind='fit1d', groups=gs, given=sub))
    return out


def warmup():
    c = mk.conf()
    mk.aper2d(c)


def box(kind, v):
    return {'list': list, 'tuple': tuple, 'array': np.array}[kind](v)


def run_case(case, rec):
    globals()['do_'+case['kind']](dict(case), rec)
    rec.trace()
    rec.sample = dict(case=case, traces=rec.traces)


def path(name):
    import misfit.general.io as io
    return io.get_param_filename(name)


def do_tables(case, rec):
    import misfit.general.io as io
    names, waves = path('line_names_cat.dat'), path('line_wavelengths_ratios.dat')
    rec.check(os.path.realpath(names) == os.path.realpath(tables.path('line_names_cat.dat')), 'path', 'tables read from %s' % names)
    groups, lines = tables.groups(), tables.lines()
    rec.check(set(groups) >= set(GROUPS), 'group', 'groups %s' % sorted(groups))
    for g in groups:
        got = list(io.read_line_names(names, name=g))
        rec.step()
        rec.state(g)
        rec.check(got == groups[g], 'group', 'group %s: %s, in the table %s' % (g, got, groups[g]))
        if g in MEMBERS:
            rec.check(set(got) == MEMBERS[g], 'group', 'group %s: %s, physically %s' % (g, got, MEMBERS[g]))
        r = [io.read_line_ratio(waves, linename=n) for n in got]
        rec.check(max(r) == 1. and min(r) > 0., 'ratio', 'flux ratios %s of %s' % (r, g))
        for n in got:
            w, a = io.read_restwave(waves, linename=n), io.read_line_ratio(waves, linename=n)
            rec.step()
            rec.state(n)
            rec.outcome([float(w), float(a)])
            rec.check(w == lines[n][0] and a == lines[n][1], 'line', 'line %s: %s, %s, in the table %s' % (n, w, a, lines[n]))
            if n in PHYS:
                rec.check(abs(w-PHYS[n]) < .1, 'line', 'line %s at %s, physically %s' % (n, w, PHYS[n]))
    for n in RANGED.values():
        f, l, m = [np.array(io.read_wave_range(path(x), linename=n)) for x in (FULL, LINE, MASK)]
        rec.step()
        rec.state(n+' ranges')
        rec.outcome([f, l, m])
        for x, v in ((FULL, f), (LINE, l), (MASK, m)):
            rec.check(tuple(v) == tables.ranges(x)[n], 'range', '%s of %s: %s, in the table %s' % (x, n, v, tables.ranges(x)[n]))
        rec.check(l[0] < PHYS[n] < l[1], 'range', 'line range %s does not hold %s' % (l, n))
        rec.check(m[0] <= l[0] and l[1] <= m[1], 'range', 'masking range %s within the line range %s of %s' % (m, l, n))
        rec.check(f[0] < m[0] and m[1] < f[1], 'range', 'no continuum in %s around %s of %s' % (f, m, n))
    trims = tables.ranges('trim_wavelengths_1D.param')
    for n in trims:
        v = io.read_wave_range(path('trim_wavelengths_1D.param'), linename=n)
        rec.step()
        rec.state(n+' trim')
        rec.check(tuple(v) == trims[n], 'range', '1D range %s: %s, in the table %s' % (n, v, trims[n]))
        for l in (groups[n] if n in groups else [n]):
            if n in groups or l in PHYS:
                rec.check(v[0] < PHYS[l] < v[1], 'range', '1D range %s of %s does not hold %s' % (v, n, l))


def raises(f):
    try:
        f()
    except (ValueError, KeyError, TypeError, AttributeError, IndexError):
        return True
    return False


def do_bad(case, rec):
    import misfit
    import misfit.general.io as io
    from misfit.model import emission_lines_model as em
    for b in BAD:
        calls = [('group', lambda: io.read_line_names(path('line_names_cat.dat'), name=b)),
                 ('wavelength', lambda: io.read_restwave(path('line_wavelengths_ratios.dat'), linename=b)),
                 ('ratio', lambda: io.read_line_ratio(path('line_wavelengths_ratios.dat'), linename=b)),
                 ('1D line', lambda: em.EmissionLines1DModel(name=b)),
                 ('1D line of a list', lambda: em.EmissionLines1DModel(linenames_arr=['HA6565', b])),
                 ('2D spectrum', lambda: misfit.ObsSpectrum2D(linegroup_name=b).initialize_lineset()),
                 ('2D spectrum line', lambda: misfit.ObsSpectrum2D(linenames_arr=[b]).initialize_lineset()),
                 ('2D spectrum lines', lambda: misfit.ObsSpectrum2D(linenames_arr=['HA6565', b]).initialize_lineset()),
                 ('1D fit', lambda: fit1d([b])), ('1D fit', lambda: fit1d(['Halpha', b])),
                 ('2D fit', lambda: fit2d(dict(linegroup_name=b), {})),
                 ('2D fit line', lambda: fit2d(dict(linenames_arr=[b]), {}))]
        calls += [(f, lambda f=f: io.read_wave_range(path(f), linename=b)) for f in (FULL, LINE, MASK)]
        if b not in ('HA6565',):
            calls.append(('sky', lambda: io.read_skyline_band_cutoff(path('band_sky_cutoff_mosfire.dat'), band=b)))
        for what, f in calls:
            rec.step()
            rec.state([what, b])
            rec.check(raises(f), 'unknown', '%s accepts the unknown line %r' % (what, b))


def do_sky(case, rec):
    import misfit
    for b, v in SKY.items():
        for given in (None, 1.7, 0.):
            s = misfit.ObsSpectrum2D(band=b, band_cutoff=given)
            s.initialize_skylevels()
            rec.step()
            rec.state([b, given])
            rec.check(s.band_cutoff == (v if given is None else given), 'sky', 'sky cutoff %s in band %s, given %s' % (s.band_cutoff, b, given))
    for b in ('', 'k', 'L', None, 'KH', 'band'):
        rec.step()
        rec.state(b)
        rec.check(raises(lambda: misfit.ObsSpectrum2D(band=b).initialize_skylevels()), 'unknown', 'sky cutoff for unknown band %r' % b)


def do_order(case, rec):
    """Values belong to the name in their row wherever the row is, and files given explicitly are the ones read."""
    import misfit
    import misfit.general.io as io
    d = tempfile.mkdtemp()
    try:
        text = [l.rstrip('\n') for l in open(path(case['file']))]
        head, body = text[0], [l.split() for l in text[1:] if l.strip() and l[0] != '#']
        n = min(case['n'], len(body))
        for perm in itertools.permutations(range(n)):
            new = [list(body[i]) for i in perm]+[list(r) for r in body[n:]]
            for i, r in enumerate(new):
                for j in range(1, len(r)):
                    try:
                        r[j] = '%.4f' % (float(r[j])*(1.+.001*(i+1)*j))
                    except ValueError:
                        pass
            f = os.path.join(d, 'p'+''.join(map(str, perm)))
            open(f, 'w').write('\n'.join([head]+['  '.join(r) for r in new])+'\n')
            rec.state(perm)
            for r in new:
                rec.step()
                if case['file'] == 'line_names_cat.dat':
                    s = misfit.ObsSpectrum2D(linegroup_name=r[0], linenames_param_filename=f)
                    s.initialize_lineset()
                    got, want = [list(io.read_line_names(f, name=r[0])), list(s.linenames_arr)], [r[1].split(',')]*2
                elif case['file'] == 'line_wavelengths_ratios.dat':
                    s = misfit.ObsSpectrum2D(linenames_arr=[r[0]], restwave_param_filename=f)
                    s.initialize_lineset()
                    got = [io.read_restwave(f, linename=r[0]), io.read_line_ratio(f, linename=r[0]), s.restwave_arr[0], s.flux_ratio_arr[0]]
                    want = [float(r[1]), float(r[2])]*2
                elif case['file'].startswith('band'):
                    s = misfit.ObsSpectrum2D(band=r[0], band_cutoff_param_filename=f)
                    s.initialize_skylevels()
                    got, want = [io.read_skyline_band_cutoff(f, band=r[0])[0], s.band_cutoff], [float(r[1])]*2
                else:
                    got, want = list(io.read_wave_range(f, linename=r[0])), [float(r[1]), float(r[2])]
                rec.check(got == want, 'order', '%s of %s: %s, in the table %s' % (r[0], case['file'], got, want))
                rec.outcome([perm, str(got)])
    finally:
        shutil.rmtree(d)


def expected(group, lines=None, waves=None, ratios=None):
    lines = tables.groups()[group] if lines is None else lines
    t = tables.lines()
    return (list(lines), [t[l][0] for l in lines] if waves is None else list(waves),
            [t[l][1] for l in lines] if ratios is None else list(ratios))


def own(group):
    """Explicit settings that differ from the tables (reversed lines, shifted wavelengths, other ratios)."""
    l = list(tables.groups()[group])[::-1]
    t = tables.lines()
    return l, [t[x][0]+1.5 for x in l], [.25+.5*i for i in range(len(l))]


def compare(rec, key, obj, want, what):
    got = [list(obj.linenames_arr), [float(x) for x in obj.restwave_arr], [float(x) for x in obj.flux_ratio_arr]]
    rec.outcome(str(got))
    rec.check(got[0] == want[0], key, '%s: lines %s, expected %s' % (what, got[0], want[0]))
    rec.check(got[1] == want[1], key, '%s: wavelengths %s, expected %s' % (what, got[1], want[1]))
    rec.check(got[2] == want[2], key, '%s: flux ratios %s, expected %s' % (what, got[2], want[2]))


def do_spectrum(case, rec):
    import misfit
    g = case['group']
    l, w, r = own(g)
    for sub in itertools.product((False, True), repeat=3):
        for named in (True, False):
            if not named and not sub[0]:
                continue
            kw = {}
            if named:
                kw['linegroup_name'] = g
            for on, k, v in zip(sub, ('linenames_arr', 'restwave_arr', 'flux_ratio_arr'), (l, w, r)):
                if on:
                    kw[k] = box(case['box'], v)
            want = expected(g, *[v if on else None for on, v in zip(sub, (l, w, r))])
            for late in (False, True):
                s = misfit.ObsSpectrum2D(**({} if late else kw))
                if late:
                    s.setAttr(**kw)
                s.initialize_lineset()
                rec.step()
                rec.state([sub, named, late])
                compare(rec, 'spectrum', s, want, '2D spectrum, %s given as %s' % (sorted(kw), case['box']))
                s.initialize_lineset()
                compare(rec, 'spectrum', s, want, '2D spectrum resolved twice, %s' % sorted(kw))


def do_line1d(case, rec):
    from misfit.model import emission_lines_model as em
    g = case['group']
    l, w, r = own(g)
    for sub in itertools.product((False, True), repeat=3):
        for named in (True, False):
            if not named and not sub[0]:
                continue
            kw = {}
            if named:
                kw['name'] = g
            for on, k, v in zip(sub, ('linenames_arr', 'restwave_arr', 'flux_ratio_arr'), (l, w, r)):
                if on:
                    kw[k] = box(case['box'], v)
            want = expected(g, *[v if on else None for on, v in zip(sub, (l, w, r))])
            m = em.EmissionLines1DModel(**kw)
            rec.step()
            rec.state([sub, named])
            compare(rec, 'line1d', m, want, '1D line, %s given as %s' % (sorted(kw), case['box']))
            x = np.arange(min(want[1])-60., max(want[1])+60., .7)*2.
            m.make1DProfile(x, 1., 90., 2.e-17)
            rec.close(m.profile, sum(gauss(x, a*2., 90., 2.e-17*b) for a, b in zip(want[1], want[2])), 'line1d',
                      'profile of the 1D line with %s' % sorted(kw), rtol=1e-9, atol=1e-24)


def do_ranges(case, rec):
    """Explicit ranges are used where given, the tables elsewhere."""
    import misfit
    c, wave, flux, err, f1, e1 = C08.build(dict(table=True))
    own_r = [[6464.6, 6664.6], [6549., 6580.], [6540., 6590.]]
    tab = [tables.ranges(f)['HA6565'] for f in (FULL, LINE, MASK)]
    keys = ['wave_full_range_rest', 'wave_line_range_rest', 'mask_lines_wave_range_rest']
    d = tempfile.mkdtemp()
    try:
        for files in itertools.product((False, True), repeat=3):
            kw, use = {}, []
            for i, k in enumerate(keys):
                use.append(own_r[i] if case['given'][i] else tab[i])
                if case['given'][i]:
                    kw[k] = box(case['box'], own_r[i])
                if files[i]:
                    f = os.path.join(d, k)
                    alt = [tab[i][0]-7., tab[i][1]+6.]
                    open(f, 'w').write('# linename wave_l wave_u\nOTHER 1. 2.\nHA6565 %s %s\n' % tuple(alt))
                    kw[k+'_param_filename'] = f
                    if not case['given'][i]:
                        use[i] = alt
            g = misfit.Galaxy(z=C08.Z, n=1., re_arcsec=.5, q=.6, delt_PA=20., dither=False)
            s = misfit.ObsSpectrum2D(wave=wave.copy(), flux=flux.copy(), flux_err=err.copy(), band='H', ypos=3., linegroup_name='Halpha', **kw)
            g.set_spectrum_1D(misfit.ObsSpectrum1D(wave=wave.copy(), flux=f1.copy(), flux_err=e1.copy(), band='H'))
            g.set_spectrum_2D(s)
            s.fit_prep_calcs(g, mk.instrument(mk.conf()))
            rec.step()
            rec.state(files)
            w = refprep.prepare(wave, flux, err, C08.Z, use[0], use[1], use[2], 3., 2., None, None, (f1, e1, None), cont=True)
            what = 'given %s, files for %s' % ([k for k in keys if k in kw], [k for k, on in zip(keys, files) if on])
            rec.outcome(np.round(s.cont_model, 9))
            if len(s.wave) == len(w['wave']):
                rec.close(s.wave, w['wave'], 'ranges', 'wavelengths fitted with %s' % what, rtol=0.)
                rec.close(s.cont_model, w['cont'], 'ranges', 'continuum with %s' % what, rtol=1e-9, atol=1e-5*np.abs(flux).max())
            else:
                rec.fail('ranges', '%d columns from %s to %s, expected %d from %s to %s, with %s' % (
                    len(s.wave), s.wave[0], s.wave[-1], len(w['wave']), w['wave'][0], w['wave'][-1], what))
    finally:
        shutil.rmtree(d)


def do_norange(case, rec):
    """A line without tabulated 2D range is reported, not prepared with the range of another line."""
    import misfit
    g = case['group']
    c, wave, flux, err, f1, e1 = C08.build(dict(table=True))
    for given in itertools.product((False, True), repeat=3):
        l0 = tables.group(g)[0][0]
        wv = wave*l0/6564.6
        kw = {}
        for on, k, h in zip(given, ('wave_full_range_rest', 'wave_line_range_rest', 'mask_lines_wave_range_rest'), (100., 16., 25.)):
            if on:
                kw[k] = [l0-h, l0+h]
        gal = misfit.Galaxy(z=C08.Z, n=1., re_arcsec=.5, q=.6, delt_PA=20., dither=False)
        s = misfit.ObsSpectrum2D(wave=wv, flux=flux.copy(), flux_err=err.copy(), band='H', ypos=3., linegroup_name=g, **kw)
        gal.set_spectrum_1D(misfit.ObsSpectrum1D(wave=wv.copy(), flux=f1.copy(), flux_err=e1.copy(), band='H'))
        gal.set_spectrum_2D(s)
        rec.step()
        rec.state(given)
        bad = raises(lambda: s.fit_prep_calcs(gal, mk.instrument(mk.conf())))
        ok = g in RANGED or all(given)
        rec.check(bad == (not ok), 'norange', '%s with ranges %s given: %s' % (g, given, 'reported' if bad else 'prepared'))
        if ok and not bad:
            r = kw.get('wave_line_range_rest') or tables.ranges(LINE)[RANGED[g]]
            inside = wv[(wv >= r[0]*(1.+C08.Z)) & (wv <= r[1]*(1.+C08.Z))]
            rec.check(len(s.wave) == len(inside) and np.array_equal(s.wave, inside), 'norange', 'wavelengths %s to %s fitted, range %s' % (
                s.wave[0], s.wave[-1], r))


def fit2d(fitkw, speckw, group=None):
    import misfit
    from misfit.fit import FitEmissionLines2D
    from misfit.fit.fit_core import MCMC2DOptions, MCMCResults
    lam = tables.group(group)[0][0] if group else 6564.6
    c = mk.conf(lines=[lam], nwave=21, dlam=20. if group in ('OIII', None) else 12.)
    shape = (c['nrows'], c['nwave'])
    g = misfit.Galaxy(z=c['z'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'], delt_PA=c['PA'], re_mass_arcsec=c['re'], q_mass=c['q'])
    s = misfit.ObsSpectrum2D(wave=mk.wave_grid(c), flux=np.zeros(shape), flux_err=np.ones(shape), band='H', m0=c['m0'], **speckw)
    g.set_spectrum_2D(s)
    s.spec_mask = np.ones(shape)
    s.wh_nosky, s.wh_sky, s.wh_sky_fit = np.arange(c['nwave']), np.array([], dtype=int), []
    s.fitting_weight_profile = np.ones(c['nrows'])
    s.fitting_weight_matrix = np.ones(shape)
    s.dlam = c['dlam']
    s.lam0 = lam*(1.+c['z'])
    s.prepared_for_fitting = True
    kp, ip = mk.profiles(c, g)
    f = FitEmissionLines2D(galaxy=g, instrument=mk.instrument(c), kinProfile=kp, intensityProfile=ip, kinModelOptions=mk.options(c),
                           thetaSettings=mk.settings(c), mcmcOptions=MCMC2DOptions(), mcmc_results=MCMCResults(), usetex=False, **fitkw)
    return c, f


def image(c, f):
    from misfit.model import AperModel2D
    m = AperModel2D(galaxy=f.galaxy, instrument=f.instrument, theta=mk.theta(c), kinProfile=f.kinProfile, intensityProfile=f.intensityProfile,
                    nSubpixels=2, pad_factor=c['pad'], rebin_output=True, spec_type='wave')
    return np.array(m.model)


def do_fit2d(case, rec):
    g = case['group']
    o = own(g)
    keys = ('linenames_arr', 'restwave_arr', 'flux_ratio_arr')
    for gw in ('fit', 'spec', 'both', None):
        if gw is None and case['where'][0] is None:
            continue
        fk, sk = {}, {}
        if gw in ('fit', 'both'):
            fk['linegroup_name'] = g
        if gw in ('spec', 'both'):
            sk['linegroup_name'] = g
        for w, k, v in zip(case['where'], keys, o):
            v = v if k == 'linenames_arr' else np.array(v)
            if w in ('fit', 'both'):
                fk[k] = v
            if w in ('spec', 'both'):
                # the fit comes first where the two differ
                sk[k] = v if w == 'spec' or k == 'linenames_arr' else v*.9
        want = expected(g, *[v if w is not None else None for w, v in zip(case['where'], o)])
        what = '2D fit with %s, spectrum with %s' % (sorted(fk), sorted(sk))
        try:
            c, f = fit2d(fk, sk, g)
        except ValueError as e:
            rec.fail('fit2d', '%s: %s' % (what, e))
            continue
        rec.step()
        rec.state([gw])
        compare(rec, 'fit2d', f, want, what)
        compare(rec, 'fit2d', f.galaxy.spec2D, want, what+' (spectrum)')
        if gw != 'both':
            im = image(c, f)
            c2, f2 = fit2d(dict(zip(keys, [want[0], np.array(want[1]), np.array(want[2])])), {}, g)
            rec.close(im, image(c2, f2), 'fit2d', 'model image, %s' % what, rtol=1e-9)
            rec.check(np.abs(im).max() > 0., 'fit2d', 'no light in the model image, %s' % what)


def do_override(case, rec):
    """Lines set for the fit replace those of the spectrum together with their wavelengths and ratios."""
    g, h = case['group'], case['other']
    gl = tables.groups()[g]
    for waves, ratios, how in itertools.product((False, True), (False, True), ('explicit', 'group', 'resolved')):
        sk = {}
        l, w, r = own(h)
        if how == 'explicit':
            sk = dict(linenames_arr=l, restwave_arr=np.array(w), flux_ratio_arr=np.array(r))
        elif how == 'group':
            sk = dict(linegroup_name=h)
        else:
            e = expected(h)
            sk = dict(linegroup_name=h, linenames_arr=e[0], restwave_arr=np.array(e[1]), flux_ratio_arr=np.array(e[2]))
        fk = dict(linenames_arr=list(gl))
        x = own(g)
        if waves:
            fk['restwave_arr'] = np.array(x[1])
        if ratios:
            fk['flux_ratio_arr'] = np.array(x[2])
        c, f = fit2d(fk, sk, g)
        rec.step()
        rec.state([waves, ratios, how])
        want = expected(g, gl, x[1] if waves else None, x[2] if ratios else None)
        what = 'lines of %s set for the fit, those of %s (%s) for the spectrum' % (g, h, how)
        compare(rec, 'override', f, want, what)
        compare(rec, 'override', f.galaxy.spec2D, want, what+' (spectrum)')


def fit1d(groups, shift=None, **kw):
    gs = [g for g in groups if g in tables.groups()] or ['Halpha']
    w, f, rng = C14.spectrum(gs, 1.5, 90., [1.e-16]*len(gs), [.2])
    return C14.setup(groups, 1.5, w, f, np.full(len(w), 1e-19), rng, 90., [1.e-16]*len(groups), 0, **kw)


def do_fit1d(case, rec):
    """The lines and wavelengths given are those fitted."""
    gs = case['groups']
    lines = [list(tables.groups()[g]) for g in gs]
    if case['given'][0]:
        lines = [l[::-1] for l in lines]
    t = tables.lines()
    for shift in (0., 1.5, -2.) if case['given'][1] else (0.,):
        waves = [[t[x][0]+shift for x in l] for l in lines]
        lam = [x for l in waves for x in l]
        rng = [min(lam)-60., max(lam)+60.]
        z = 1.5
        w = np.arange((rng[0]-20.)*(1.+z), (rng[1]+20.)*(1.+z), 1.6)
        f = .2e-18*np.ones(len(w))
        for i, l in enumerate(lines):
            for x, v in zip(l, waves[i]):
                f = f+gauss(w, v*(1.+z), 90., 1.e-16*(1.+.3*i)*t[x][1])
        kw = {}
        if case['given'][0]:
            kw['linenames_arr'] = lines
        if case['given'][1]:
            kw['restwave_arr'] = waves
        fit = C14.setup(gs, z, w, f, np.full(len(w), 1e-19), rng, 80., [1.1e-16*(1.+.3*i) for i in range(len(gs))], 0, **kw)
        fit.fit(noErrors=True, noPlot=True)
        rec.step()
        rec.state(shift)
        what = '%s with %s given, wavelengths moved by %s' % (gs, sorted(kw), shift)
        rec.check([list(l) for l in fit.linenames_arr] == lines, 'fit1d', 'lines %s, expected %s, %s' % (fit.linenames_arr, lines, what))
        rec.close(np.concatenate([np.ravel(x) for x in fit.restwave_arr]), np.concatenate(waves), 'fit1d', 'wavelengths, %s' % what, rtol=1e-12)
        rec.close([fit.z, fit.vel_disp], [z, np.hypot(90., 0.) if fit.vel_disp > 85. else np.sqrt(90.**2-35.**2)], 'fit1d',
                  'redshift and dispersion, %s' % what, rtol=2e-5)
        rec.close(fit.flux_arr, [1.e-16*(1.+.3*i) for i in range(len(gs))], 'fit1d', 'fluxes, %s' % what, rtol=1e-4)
        rec.outcome(np.round([fit.z, fit.vel_disp], 6))
