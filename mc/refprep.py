"""Independent reference of the preparation of a 2D spectrum (masks, continuum, trimming, sky and low signal rows)."""
import numpy as np

FILL = -99.


def line_fit(x, y, e, use, slope=None):
    """Weighted straight line a + b x (explicit sums about the weighted mean)."""
    w = np.where(use, 1., 0.)/np.where(use, e, 1.)**2
    yy = np.where(use, y, 0.)
    s = w.sum()
    if s == 0.:
        return None
    xm, ym = (w*x).sum()/s, (w*yy).sum()/s
    if slope is None:
        slope = (w*(x-xm)*(yy-ym)).sum()/(w*(x-xm)**2).sum()
    return slope, ym-slope*xm


def edge_mask(m, n):
    m = np.array(m, dtype=float)
    good = [i for i in range(len(m)) if m[i] == 1]
    if good:
        lo, hi = good[0], good[-1]
        for i in range(len(m)):
            if lo > 0 and lo <= i < lo+n:
                m[i] = 0.
            if hi < len(m)-1 and hi-n < i <= hi:
                m[i] = 0.
    return m


def missing(flux, err, mask=None, weight=None):
    m = np.ones(np.shape(flux)) if mask is None else np.array(mask, dtype=float)
    anyerr = (np.abs(np.nan_to_num(err, nan=0., posinf=1., neginf=1.)) > 0.).any()
    bad = ~np.isfinite(flux) | ~np.isfinite(err)
    if anyerr:
        bad |= (err == 0.)
    if weight is not None:
        bad |= (weight == 0.)
    m[bad] = 0.
    return m


def low_rows(snr, cut):
    """Set of low signal rows from the row signal to noise (nan counts as low)."""
    n = len(snr)
    high = [bool(s >= cut) for s in snr]
    runs, i = [], 0
    while i < n:
        if high[i]:
            j = i
            while j < n and high[j]:
                j += 1
            runs.append((i, j))
            i = j
        else:
            i += 1
    if len(runs) > 1:
        for a, b in runs:
            if b-a <= 2:
                for k in range(a, b):
                    high[k] = False
    low = [k for k in range(n) if not high[k]]
    if low and len(low) < n:
        if high[0] and 2*low[0] < n:
            low = list(range(low[0]))+low
        last = low[-1]
        if any(high[k] for k in range(last+1, n)) and 2*last > n:
            low = low+list(range(last+1, n))
    return sorted(low)


def snr_rows(flux, err, mask):
    with np.errstate(all='ignore'):
        return np.abs(np.sum(flux*mask, axis=1)/np.sqrt(np.sum((err*mask)**2, axis=1)))


def prepare(wave, flux, err, z, full, line, lmask, cutoff, snr_cut, mask=None, weight=None, one=None, cont=True, nedge=10):
    """Returns a dict of the expected arrays before spatial trimming.  one = (flux, err, mask) of the 1D spectrum."""
    r = {}
    wt = np.ones(flux.shape) if weight is None else np.array(weight, dtype=float)
    m = missing(flux, err, mask, wt)
    if cont:
        f1, e1, m1 = one
        m1 = edge_mask(missing(f1, e1, m1), nedge)
        m[:, m1 == 0.] = 0.
    f, e = flux.copy(), err.copy()
    f[~np.isfinite(f) & (m == 0.)] = FILL
    e[(~np.isfinite(e) | (e == 0.)) & (m == 0.)] = FILL
    col = np.sqrt(((e*m)**2).sum(axis=0))
    r['median'] = np.median(col)
    fr, lm, lr = [np.array(v)*(1.+z) for v in (full, lmask, line)]
    inside = (wave >= fr[0]) & (wave <= fr[1])
    left, right = inside & (wave < lm[0]), inside & (wave > lm[1])
    r['slope'] = None
    cm = np.zeros(f.shape)
    r['defined'] = np.ones(f.shape[0], dtype=bool)
    if cont:
        with np.errstate(all='ignore'):
            sky = np.abs(e1*m1) >= cutoff*r['median']
        use = (m1 > 0.) & ~sky
        both = (use & left).any() and (use & right).any()
        sel = left | right
        fit = line_fit(wave, f1, e1, use & sel & np.isfinite(f1) & np.isfinite(e1), None if both else 0.)
        a = fit[0] if fit is not None else 0.
        b1 = fit[1] if fit is not None else 0.
        r['slope'] = a
        r['fit1d'] = fit is not None
        for i in range(f.shape[0]):
            fi = line_fit(wave, f[i], e[i], sel & (m[i] > 0.), a)
            r['defined'][i] = fi is not None
            cm[i] = a*wave + (fi[1] if fi is not None else b1)
    r['incl'] = f
    r['cont'] = cm
    r['flux'] = f-cm
    r['full'] = dict(incl=f[:, inside], cont=cm[:, inside], flux=(f-cm)[:, inside], mask=m[:, inside], wave=wave[inside],
                     err=e[:, inside])
    k = inside & (wave >= lr[0]) & (wave <= lr[1])
    for key in ('incl', 'cont', 'flux'):
        r[key] = r[key][:, k]
    r['wave'] = wave[k]
    r['err'], r['qual'], r['weight'] = e[:, k], m[:, k], wt[:, k]
    col = np.sqrt(((r['err']*r['qual'])**2).sum(axis=0))
    r['skymargin'] = np.abs(col-cutoff*r['median']).min()/(cutoff*r['median']) if r['median'] > 0 else 1.
    sky = col >= cutoff*r['median']
    r['wh_sky'] = np.where(sky)[0]
    r['sky'] = r['qual'].copy()
    r['sky'][:, sky] = 0.
    snr = snr_rows(r['flux'], r['err'], r['sky'])
    fin = snr[np.isfinite(snr)]
    r['snr'] = snr
    r['margin'] = np.abs(fin-snr_cut).min() if len(fin) else 1.
    low = low_rows(snr, snr_cut)
    r['low'] = low
    r['lowmask'] = r['qual'].copy()
    r['lowmask'][low, :] = 0.
    r['mask'] = r['qual']*r['lowmask']
    return r
