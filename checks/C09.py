import itertools
import numpy as np
from mc import refprep
from checks.C01 import prod

RULE = ('roots: continuum shape x brightness of the hidden data x sky columns x line strength x 1D mask over column '
        'groups (all subsets of six groups, three on each side of the line). From every root one spectrum holds a row '
        'for every subset of the groups masked in 2D (and rows with missing data); continuum subtraction of the real '
        'code is compared per row with the explicit weighted line. A state is one (1D mask, row mask, setting).')
CHUNK = 2
Z = 1.5
L0 = 6564.6*(1+Z)
GROUPS = [[2, 3, 4, 5], [6, 7], [8, 9], [22, 23, 24], [25, 26, 27], [28, 29]]


def cases(tier):
    T = tier == 'thorough'
    subsets = list(itertools.product([0, 1], repeat=6))
    out = []
    for cont in ('linear', 'noisy', 'curved', 'none'):
        for sky in ([], [0], [1, 4], [0, 1, 2], [3, 4, 5]):
            for hidden in (False, True):
                for m1 in subsets:
                    if not T and (sum(m1) > 3 and sum(m1) < 6 and m1[:3] != (1, 1, 1) and m1[3:] != (1, 1, 1)):
                        continue
                    if not T and hidden != (cont in ('noisy', 'none')):
                        continue
                    if not T and sky and sum(m1) > 2 and cont != 'noisy':
                        continue
                    out.append(dict(cont=cont, sky=sky, hidden=hidden, m1=list(m1), deep=T))
    for m1 in subsets[::1 if T else 5]:
        out.append(dict(cont='noisy', sky=[], hidden=True, m1=list(m1), off=True, deep=T))
    return out


def run_case(case, rec):
    import misfit
    subsets = list(itertools.product([0, 1], repeat=6))
    if not case['deep']:
        i = sum(v << k for k, v in enumerate(case['m1']))
        subsets = subsets[i % 4::4]+[(0,)*6, (1,)*6]
    k = np.arange(33)
    wave = L0+(k-16)*10.+2.3
    n = len(subsets)
    r = np.arange(n)
    line = np.exp(-0.5*((wave-L0)/15.)**2)*((np.abs(wave-L0) < 60))
    slope = 0.004
    base = dict(linear=lambda: 1.+0.1*r[:, None]+slope*(wave-L0)[None, :],
                noisy=lambda: 1.+slope*(wave-L0)[None, :]+0.3*np.cos(2.1*r[:, None]*k[None, :]+k**2),
                curved=lambda: 0.5+1e-5*((wave-L0)**2)[None, :]*(1+0.1*r[:, None]),
                none=lambda: np.zeros((n, 33)))[case['cont']]()
    err = 0.2+0.05*np.sin(1.3*r[:, None]+k[None, :])
    flux = base+3.*line[None, :]*np.cos(r)[:, None]
    mask = np.ones((n, 33))
    for i, s in enumerate(subsets):
        for gi, on in enumerate(s):
            if on:
                mask[i, GROUPS[gi]] = 0.
    f1 = dict(linear=0.7+slope*(wave-L0), noisy=0.5+slope*(wave-L0)+0.2*np.sin(k**2), curved=0.3+1e-5*(wave-L0-50.)**2,
              none=0.*wave)[case['cont']]+2.*line
    e1 = 0.3+0.1*np.cos(k)
    m1 = np.ones(33)
    for gi, on in enumerate(case['m1']):
        if on:
            m1[GROUPS[gi]] = 0.
    cut = 3.*np.median(np.sqrt(((err*mask*m1)**2).sum(axis=0)))
    for gi in case['sky']:
        e1[GROUPS[gi]] = 1.5*max(cut, 1.)
        f1[GROUPS[gi]] += 40.*np.cos(np.array(GROUPS[gi]))*(case['cont'] == 'noisy')
    if case['hidden']:
        # masked data and everything outside the full range may be anything
        for a, m in ((flux, mask*m1), (f1, m1)):
            hid = np.where(np.broadcast_to(m, a.shape) == 0.)
            a[hid] = np.resize([np.nan, 1.e5, -4.e4, np.inf, 0.], len(hid[0]))
        hid = np.where(mask*m1 == 0.)
        err[hid] = np.resize([np.nan, 1.e-4, 1.e4, 0.], len(hid[0]))
        flux[:, [0, 32]] = 777.
        f1[[0, 32]] = -500.
    full, line_r, lmask = [np.array([6564.6-x/2.5, 6564.6+x/2.5]) for x in (140., 32., 61.)]
    g = misfit.Galaxy(z=Z, n=1., re_arcsec=0.5, q=0.6, delt_PA=20., dither=False)
    g.set_spectrum_1D(misfit.ObsSpectrum1D(wave=wave.copy(), flux=f1.copy(), flux_err=e1.copy(), spec_mask=m1.copy(), band='H'))
    s2 = misfit.ObsSpectrum2D(wave=wave.copy(), flux=flux.copy(), flux_err=err.copy(), spec_mask=mask.copy(),
                              spec_weight=np.ones((n, 33)), band='H', ypos=3., linenames_arr=['HA6565'],
                              restwave_arr=np.array([6564.6]), flux_ratio_arr=np.array([1.]), wave_full_range_rest=full,
                              wave_line_range_rest=line_r, mask_lines_wave_range_rest=lmask)
    g.set_spectrum_2D(s2)
    s2.initialize_lineset()
    s2.initialize_skylevels()
    s2.initialize_derived_variables(g)
    off = bool(case.get('off'))
    s2.subtract_continuum(g, no_cont_subtraction=off)
    rec.step(n)
    w = refprep.prepare(wave, flux, err, Z, full, line_r, lmask, 3., 2., mask, np.ones((n, 33)), (f1, e1, m1), cont=not off)
    W = w['full']
    # tolerance of the iterative fit in the code under test: relative to the scale of the usable data
    sc = 1.+40.*(case['cont'] == 'noisy')*bool(case['sky'])
    tol = 2e-5*sc
    rec.check(np.array_equal(s2.flux_incl_cont, W['incl'], equal_nan=True), 'unsubtracted', 'unsubtracted flux not kept')
    rec.close(np.asarray(s2.flux)+np.asarray(s2.cont_model), s2.flux_incl_cont, 'sum', 'flux plus continuum', rtol=1e-12, atol=1e-9)
    rec.close(s2.wave, W['wave'], 'wave', 'wavelengths', rtol=0.)
    got = np.asarray(s2.cont_model)
    if rec.check(got.shape == W['cont'].shape, 'shape', 'continuum has shape %s' % (got.shape,)):
        if off:
            rec.check((got == 0.).all(), 'off', 'continuum recorded although subtraction is off')
        else:
            d = w['defined']
            rec.close(got[d], W['cont'][d], 'continuum', 'continuum of rows with masks %s' % [subsets[i] for i in np.where(d)[0]][:4],
                      rtol=1e-7, atol=tol)
            if d.any():
                x = W['wave']
                a = (got[d][:, -1]-got[d][:, 0])/(x[-1]-x[0])
                rec.close(a, np.full(d.sum(), w['slope']), 'slope', 'slope of every row', rtol=1e-6, atol=tol/250.)
            if case['cont'] == 'linear' and w['slope'] != 0.:
                good = d[:, None] & (W['mask'] > 0.)
                inside = (wave >= full[0]*2.5) & (wave <= full[1]*2.5)
                pure = (3.*line[None, :]*np.cos(r)[:, None])[:, inside]
                rec.check(np.abs(np.where(good, np.asarray(s2.flux)-pure, 0.)).max() < tol, 'exact', 'linear continuum left a residual')
    for i in range(n):
        rec.state(case['m1'], subsets[i], w['slope'])
    rec.trace(int(w['defined'].sum()))
    rec.outcome(np.round(w['full']['cont'][w['defined']], 6))
    rec.sample = dict(case=case, slope=w['slope'])
