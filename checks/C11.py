import itertools
import numpy as np

RULE = ('roots: weighting type x number of rows x brightness profile x masked pixel pattern. From every root the weights are '
        'calculated for every subset of low signal rows (2^n), and, for the row levels, for every assignment of four levels to '
        'the rows; each is compared with the stated weights. A state is one (brightness, low rows, type).')
CHUNK = 1
NCOL = 6


def cases(tier):
    T = tier == 'thorough'
    out = []
    for wt in ('up-edges', 'none'):
        for n in range(1, 12 if T else 10):
            for prof in range(3):
                for mask in range(4):
                    out.append(dict(wt=wt, n=n, prof=prof, mask=mask))
    for n in range(1, 8 if T else 7):
        for mask in range(4):
            for p in range(4):
                out.append(dict(wt='levels', n=n, mask=mask, part=p))
    for n in ((5, 7, 8) if not T else range(5, 11)):
        for mu in np.arange(1., n-1.+1e-9, 0.7):
            for sig in (0.9, 1.6) if not T else (0.9, 1.2, 1.6, 2.2):
                for mask in range(4):
                    out.append(dict(wt='optimal', n=n, mu=float(mu), sig=sig, mask=mask))
    return out


def spec(wt, sums, mask, n):
    """Spectrum whose usable pixels of row i sum to sums[i]."""
    import misfit
    k = np.arange(NCOL)
    shape = np.array([0.5, 1., -0.25, 0.75, 0., 0.])
    err = 0.5+0.25*((np.arange(n)[:, None]+k[None, :]) % 3)
    sky = np.ones((n, NCOL))
    sky[:, 4] = 0.                      # sky column: not counted
    if mask == 1:
        sky[0, 0] = 0.
    elif mask == 2:
        sky[n//2, :2] = 0.
        sky[-1, 3] = 0.
    elif mask == 3:
        sky[n-1, :] = 0.                # row without any usable pixel
    tot = (sky*shape).sum(axis=1)
    with np.errstate(all='ignore'):
        flux = sums[:, None]*shape[None, :]/np.where(tot != 0., tot, 1.)[:, None]
    flux[sky == 0.] = 70.*np.cos(np.arange(int((sky == 0.).sum())))
    s = misfit.ObsSpectrum2D(flux=flux.copy(), flux_err=err.copy(), spec_mask=np.ones((n, NCOL)), band='H',
                             wave=16000.+k, weighting_type=wt)
    s.flux_incl_cont = flux.copy()
    s.mask_sky, s.mask_qual = sky.copy(), np.ones((n, NCOL))
    with np.errstate(all='ignore'):
        snr = np.abs((flux*sky).sum(axis=1)/np.sqrt(((err*sky)**2).sum(axis=1)))
    return s, flux, err, sky, snr


def judge(s, want, rec, what, rtol=1e-9, atol=0.):
    n = len(want)
    rec.step()
    rec.trace()
    w = np.asarray(s.fitting_weight_profile, dtype=float)
    if not rec.check(w.shape == (n,), 'shape', 'weights %s of %d rows, %s' % (w.shape, n, what)):
        return
    rec.check(np.isfinite(w).all() and (w >= 0.).all(), 'range', 'weights %s, %s' % (w, what))
    rec.check(abs(w.sum()-1.) < 1e-9 or (w == 0.).all(), 'sum', 'weights sum to %r, %s' % (w.sum(), what))
    rec.close(w, want, 'weights', 'weights, %s' % what, rtol=rtol, atol=atol)
    m = np.asarray(s.fitting_weight_matrix)
    rec.check(m.shape == s.flux.shape and np.array_equal(m, np.tile(w[:, None], (1, s.flux.shape[1]))), 'matrix',
              'the weight matrix does not hold the weights of its rows, %s' % what)
    rec.outcome(np.round(want, 9))


def expected(wt, snr, low):
    n = len(snr)
    if wt == 'none':
        return np.full(n, 1./n)
    w = np.zeros(n)
    for i in range(n):
        if i not in low:
            w[i] = 1./snr[i]
    return w/w.sum() if w.sum() > 0. else w


def run_case(case, rec):
    n, mask = case['n'], case['mask']
    r = np.arange(n)
    if case['wt'] in ('up-edges', 'none'):
        sums = [10.*np.exp(-0.5*((r-0.45*n)/(0.3*n))**2), np.where(r % 2, -3.-r, 5.+r), 4.*np.ones(n)][case['prof']]
        for low in itertools.product([0, 1], repeat=n):
            s, flux, err, sky, snr = spec(case['wt'], sums, mask, n)
            low = [i for i in range(n) if low[i]]
            if mask == 3 and n-1 not in low:
                continue            # a row without usable pixels always has low signal
            s.low_snr_row_inds = np.array(low, dtype=int)
            s.calculate_fit_weights()
            rec.state(low)
            judge(s, expected(case['wt'], snr, low), rec, '%s, row S/N %s, low rows %s' % (case['wt'], np.round(snr, 3), low))
            rec.check(np.array_equal(s.flux, flux) and np.array_equal(s.flux_err, err) and np.array_equal(s.mask_sky, sky),
                      'input-changed', 'weights changed the spectrum')
    elif case['wt'] == 'levels':
        from mc import refprep
        for i, pat in enumerate(itertools.product([0.5, 3., 9., -40.], repeat=n)):
            if i % 4 != case['part']:
                continue
            for wt in ('up-edges', 'none'):
                s, flux, err, sky, snr = spec(wt, np.array(pat), mask, n)
                s.row_snr_cut = 1.7
                if np.nanmin(np.abs(snr-1.7)) < 1e-6:
                    continue
                s.get_low_snr_mask()
                s.calculate_fit_weights()
                low = refprep.low_rows(snr, 1.7)
                rec.state(wt, pat)
                judge(s, expected(wt, snr, low), rec, '%s, row S/N %s, low rows %s' % (wt, np.round(snr, 3), low))
    else:
        g = 30.*np.exp(-0.5*((r-case['mu'])/case['sig'])**2)
        for low in itertools.product([0, 1], repeat=n):
            if mask in (1, 2) and sum(low) not in (0, 1, n):
                continue
            s, flux, err, sky, snr = spec('optimal', np.where(r % 2, -g, g), mask, n)
            s.flux = flux-7.            # the line flux is not what is weighted
            low = [i for i in range(n) if low[i]]
            s.low_snr_row_inds = np.array(low, dtype=int)
            s.calculate_fit_weights()
            want = g.copy()
            want[low] = 0.
            if want.sum() > 0.:
                want /= want.sum()
            rec.state(low)
            judge(s, want, rec, 'optimal, brightness %s, low rows %s' % (np.round(g, 3), low), rtol=1e-5, atol=1e-7)
    rec.sample = dict(case=case, traces=rec.traces)
