import itertools
import numpy as np
from mc import refprep
from checks.C01 import prod

RULE = ('roots: settings (continuum or not, dithered or not, masks and weights given or not, line ranges given or from '
        'the tables, row weighting, row brightness pattern, sky columns) x first defect. From every root all second '
        'defects (kind x position, in the 2D or the 1D spectrum) are added, the real preparation is run and every '
        'array compared with an independent reference, then run again. A state is one set of defects and settings.')
CHUNK = 2
Z = 1.5
L0 = 6564.6*(1+Z)
KINDS2 = ['nanflux', 'infflux', 'nanerr', 'zeroerr', 'zeroweight', 'mask', 'huge']
KINDS1 = ['mask1', 'nan1', 'zeroerr1']


def cases(tier):
    T = tier == 'thorough'
    sets = [dict(), dict(cont=False), dict(given=False), dict(table=True), dict(wt='none', rows=1), dict(wt='optimal', rows=2),
            dict(sky=[17, 20]), dict(sky=[18], rows=1, cont=False), dict(rows=4, given=False, cont=False), dict(edge=3),
            dict(edge=1, table=True), dict(dither=True), dict(dither=True, cont=False, given=False), dict(rows=5, sky=[18])]
    out = []
    for s in sets:
        pos = positions(T)
        d1 = [None]+[[k, p] for k in KINDS2+KINDS1 for p in range(len(pos))]
        slow = s.get('dither') or s.get('table')
        for d in d1:
            if slow and not T and d is not None and d[1] % 3:
                continue
            out.append(dict(set=s, first=d, deep=T))
    return out


def positions(T):
    # (row, column): line core, line flank, masked zone, left and right continuum, outside the full range
    p = [(3, 18), (2, 16), (4, 22), (3, 9), (1, 27), (5, 1)]
    if T:
        p += [(0, 18), (6, 19), (2, 35), (3, 14)]
    return p


def build(s):
    c = dict(cont=True, given=True, table=False, wt='up-edges', rows=0, sky=[], edge=0, dither=False)
    c.update(s)
    step = 10. if not c['table'] else 20.
    half = 32 if c['edge'] else 18
    k = np.arange(2*half+1)-half
    wave = L0+1.7+k*step
    n = 7 if not c['dither'] else 45
    r = np.arange(n)
    cen = 3.2 if not c['dither'] else 22.3
    prof = [np.exp(-0.5*((r-cen)/1.3)**2), np.exp(-0.5*((r-cen-1.)/0.8)**2), np.exp(-0.5*((r-cen)/3.)**2),
            np.array([3., 3., 3., .01, 4., 4., 4.]) if n == 7 else np.ones(n), np.full(n, 1.e-6),
            np.array([-2., -1., .02, .1, 2., 3., 3.]) if n == 7 else np.ones(n)][c['rows']]
    if c['dither']:
        prof = 3.*prof-1.5*np.exp(-0.5*((r-cen+14.)/1.3)**2)-1.5*np.exp(-0.5*((r-cen-14.)/1.3)**2)
    line = np.exp(-0.5*((wave-L0)/(1.6*step))**2)
    noise = 0.013*np.cos(3.1*r[:, None]+1.7*k[None, :]**2)
    flux = 4.*prof[:, None]*line[None, :]+noise
    err = (0.3+0.01*np.cos(r[:, None]+k[None, :]))
    for j in c['sky']:
        err[:, j] *= 6.
    if c['cont']:
        flux = flux+0.4+0.002*(wave-L0)[None, :]+0.05*r[:, None]
    f1 = 0.7*line+0.5+0.002*(wave-L0)+0.01*np.sin(k)
    e1 = 0.5+0.02*np.cos(k)
    return c, wave, flux, err, f1, e1


def run_case(case, rec):
    import misfit
    c, wave, flux0, err0, f10, e10 = build(case['set'])
    half = (len(wave)-1)//2
    pos = [(i, j+half-18) for i, j in positions(case['deep'])]
    seconds = [None]+[[k, p] for k in KINDS2+KINDS1 for p in range(len(pos))]
    if not case['deep']:
        i = 0 if case['first'] is None else KINDS2.index(case['first'][0]) if case['first'][0] in KINDS2 else 7
        if c['dither'] or c['table']:
            seconds = seconds[:1] + seconds[1+(i % 4)::4]
        elif case['first'] is not None:
            seconds = seconds[:1]+seconds[1+(i+case['first'][1]) % 6::6]
    shift = 19 if c['dither'] else 0
    for second in seconds:
        flux, err, f1, e1 = flux0.copy(), err0.copy(), f10.copy(), e10.copy()
        given = c['given']
        mask = np.ones(flux.shape) if given else None
        weight = np.full(flux.shape, 2.) if given else None
        m1 = np.ones(len(wave)) if given else None
        if c['edge']:
            m1 = np.ones(len(wave)) if m1 is None else m1
            m1[:c['edge']] = 0.
            m1[-1] = 0.
        for d in (case['first'], second):
            if d is None:
                continue
            kind, (i, j) = d[0], pos[d[1]]
            i += shift
            if kind == 'nanflux':
                flux[i, j] = np.nan
            elif kind == 'infflux':
                flux[i, j] = -np.inf
            elif kind == 'nanerr':
                err[i, j] = np.nan
            elif kind == 'zeroerr':
                err[i, j] = 0.
            elif kind == 'zeroweight':
                if weight is None:
                    weight = np.ones(flux.shape)
                weight[i, j] = 0.
            elif kind == 'mask':
                if mask is None:
                    mask = np.ones(flux.shape)
                mask[i, j] = 0.
            elif kind == 'huge':
                if mask is None:
                    mask = np.ones(flux.shape)
                mask[i, j] = 0.
                flux[i, j] = 3.e4
            elif kind == 'mask1':
                if m1 is None:
                    m1 = np.ones(len(wave))
                m1[j] = 0.
            elif kind == 'nan1':
                f1[j] = np.nan
            elif kind == 'zeroerr1':
                e1[j] = 0.
        if c['table']:
            rng = {}
            full, line, lmask = (6454.60, 6674.60), (6555.60, 6573.60), (6533.60, 6599.60)
            names = dict(linegroup_name='Halpha')
        else:
            full, line, lmask = [np.array([6564.6-x/2.5, 6564.6+x/2.5]) for x in (140., 32., 60.)]
            rng = dict(wave_full_range_rest=full.copy(), wave_line_range_rest=line.copy(), mask_lines_wave_range_rest=lmask.copy())
            names = dict(linenames_arr=['HA6565'], restwave_arr=np.array([6564.6]), flux_ratio_arr=np.array([1.]))
        n = flux.shape[0]
        g = misfit.Galaxy(z=Z, n=1., re_arcsec=0.5, q=0.6, delt_PA=20., dither=c['dither'])
        kw = dict(rng)
        kw.update(names)
        args = [wave.copy(), flux.copy(), err.copy(), None if mask is None else mask.copy(), None if weight is None else weight.copy()]
        s2 = misfit.ObsSpectrum2D(wave=args[0], flux=args[1], flux_err=args[2], spec_mask=args[3], spec_weight=args[4], band='H',
                                  ypos=3. if n == 7 else 22., weighting_type=c['wt'], no_continuum_subtraction=not c['cont'], **kw)
        args1 = [wave.copy(), f1.copy(), e1.copy(), None if m1 is None else m1.copy()]
        if c['cont']:
            g.set_spectrum_1D(misfit.ObsSpectrum1D(wave=args1[0], flux=args1[1], flux_err=args1[2], spec_mask=args1[3], band='H'))
            profile = 10.+np.arange(n)
            g.spec1D.extraction_spatial_profile = profile
        g.set_spectrum_2D(s2)
        inst = misfit.Spectrograph(instrument_name='X', band='H', pixscale=0.18, slit_width=0.7, slit_length=5., PSF_type='Gaussian',
                                   PSF_FWHM=0.6, instrument_resolution=35.)
        what = '%s, defects %s and %s' % (case['set'], case['first'], second)
        s2.fit_prep_calcs(g, inst)
        rec.step()
        rec.state(second)
        w = refprep.prepare(wave, flux, err, Z, full, line, lmask, 3., 2., mask, weight, (f1, e1, m1), cont=c['cont'])
        if w['margin'] < 1e-4 or w['skymargin'] < 1e-9:
            rec.notes['skipped_ties'] = rec.notes.get('skipped_ties', 0)+1
            continue
        lo, hi = s2.full_l_ind, s2.full_r_ind
        ncol = len(w['wave'])
        if not c['dither']:
            rec.check(s2.flux.shape[0] == n and lo == 0, 'rows', '%d of %d rows kept, %s' % (s2.flux.shape[0], n, what))
        else:
            rec.check(0 <= lo < hi <= n and hi-lo == s2.flux.shape[0], 'rows', 'rows %s to %s of %d, %d kept, %s' % (
                lo, hi, n, s2.flux.shape[0], what))
            rec.check(abs(lo+s2.m0-22) <= 1 and abs(hi-lo-14) <= 2, 'rows', 'rows %s to %s kept around %s, %s' % (lo, hi, s2.m0, what))
        rows = slice(lo, lo+s2.flux.shape[0])
        scale = np.nanmax(np.abs(flux0))
        if c['cont']:
            got = g.spec1D.extraction_spatial_profile
            rec.check(np.array_equal(got, profile[rows]), 'profile', 'extraction profile of rows %s to %s is %s, %s' % (lo, hi, got, what))
        for name, key, tol in (('spec_mask', 'mask', 0.), ('mask_qual', 'qual', 0.), ('mask_sky', 'sky', 0.),
                               ('mask_low_snr', 'lowmask', 0.), ('spec_weight', 'weight', 0.), ('flux_err', 'err', 0.),
                               ('flux_incl_cont', 'incl', 0.), ('cont_model', 'cont', 1e-5*scale), ('flux', 'flux', 1e-5*scale)):
            got = getattr(s2, name)
            rec.close(got, w[key][rows], name, '%s: %s' % (name, what), rtol=1e-12, atol=tol)
        rec.close(s2.wave, w['wave'], 'wave', 'wave: %s' % what, rtol=0.)
        rec.close(s2.obswave, w['wave'], 'wave', 'observed wavelengths: %s' % what, rtol=0.)
        rec.close(s2.restwave, w['wave']/(1+Z), 'wave', 'rest wavelengths: %s' % what, rtol=1e-14)
        fw = np.asarray(s2.fitting_weight_matrix)
        if rec.check(fw.shape == s2.flux.shape, 'weights', 'fitting weights have shape %s, flux %s' % (fw.shape, s2.flux.shape)):
            rec.check(np.isfinite(fw).all() and (fw >= 0.).all(), 'weights', 'fitting weights %s, %s' % (fw[:, 0], what))
        rec.check(list(s2.wh_sky) == list(w['wh_sky']) and list(s2.wh_nosky) == [j for j in range(ncol) if j not in w['wh_sky']],
                  'sky-columns', 'sky columns %s, expected %s, %s' % (list(s2.wh_sky), list(w['wh_sky']), what))
        if not c['dither']:
            rec.check(list(s2.low_snr_row_inds) == w['low'], 'low-rows', 'low rows %s, expected %s, %s' % (
                list(s2.low_snr_row_inds), w['low'], what))
        rec.check(abs(s2.median_flux_error-w['median']) <= 1e-9*w['median'], 'median', 'median error %r, expected %r' % (
            s2.median_flux_error, w['median']))
        rec.outcome(np.round(s2.flux*s2.spec_mask, 8))
        same = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, [wave, flux, err, mask, weight]) if b is not None)
        if c['cont']:
            same &= all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args1, [wave, f1, e1, m1]) if b is not None)
        rec.check(same, 'input-changed', 'preparation changed the arrays it was given, %s' % what)
        # preparing again changes nothing
        before = {k: np.array(v) for k, v in s2.__dict__.items() if isinstance(v, (np.ndarray, float, int)) and not isinstance(v, bool)}
        s2.fit_prep_calcs(g, inst)
        rec.step()
        changed = [k for k in before if not np.array_equal(before[k], np.array(s2.__dict__[k]), equal_nan=before[k].dtype.kind == 'f')]
        rec.check(not changed, 'again', 'preparing again changed %s, %s' % (changed, what))
        if c['cont']:
            got = g.spec1D.extraction_spatial_profile
            rec.check(np.array_equal(got, profile[rows]), 'again', 'extraction profile became %s by preparing again, %s' % (got, what))
        rec.check(g.spec2D is s2, 'again', 'galaxy does not hold the prepared spectrum')
        rec.trace()
    rec.sample = dict(case=case, traces=rec.traces)
