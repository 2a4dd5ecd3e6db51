import itertools
import numpy as np
from mc import refprep

RULE = ('low signal rows: every pattern of high and low rows up to n rows (several realisations of the pattern: signs, '
        'exactly at the cut, masked rows, bright pixels hidden by the mask or in a sky column), and every assignment of five '
        'signal levels to few rows; sky columns: every assignment of six column kinds to m columns. Each pattern goes through the '
        'real selection and is compared with the documented rule. A state is one pattern, a trace one comparison.')
CHUNK = 1
REAL = ['plain', 'negative', 'exact', 'masked', 'hidden', 'sky', 'mixed']


def cases(tier):
    T = tier == 'thorough'
    out = []
    for real in REAL:
        for cut in (2., 5.) if not T else (0.5, 2., 5.):
            for n in range(1, 15 if T else 13):
                parts = 8 if n >= 10 else 1
                for p in range(parts):
                    out.append(dict(kind='rows', real=real, cut=cut, n=n, part=p, parts=parts))
    for n in range(1, 8 if T else 6):
        parts = 5 if n >= 5 else 1
        for cut in (2., 3.):
            for p in range(parts):
                out.append(dict(kind='levels', cut=cut, n=n, part=p, parts=parts))
    for m in range(1, 7 if T else 6):
        parts = 6 if m >= 5 else 1
        for med in (2., 0.75):
            for rows in (1, 4):
                for p in range(parts):
                    out.append(dict(kind='sky', m=m, med=med, rows=rows, part=p, parts=parts))
    for k in range(0, 11 if T else 9):
        out.append(dict(kind='runs', n=k))
    return out


def spectrum(flux, err, qual, cut=2., cutoff=3., med=1.):
    import misfit
    s = misfit.ObsSpectrum2D(flux=flux, flux_err=err, spec_mask=qual.copy(), spec_weight=np.ones(flux.shape),
                             wave=np.arange(flux.shape[1])*1.+16000., band='H', band_cutoff=cutoff, row_snr_cut=cut)
    s.median_flux_error = med
    return s


def rows_case(case, rec, levels, ncol=4):
    """levels: signal to noise of every row as a multiple of the cut (None: no usable pixel)."""
    n, cut = len(levels), case['cut']
    real = case.get('real', 'plain')
    # 4 usable pixels of error 1: the row error is 2, row flux = 2*snr
    flux, err, qual = np.zeros((n, ncol+2)), np.ones((n, ncol+2)), np.ones((n, ncol+2))
    err[:, ncol:] = 1.
    qual[:, ncol] = 0.
    for i, l in enumerate(levels):
        s = 0. if l is None else l*cut
        # uneven in the columns, with the sum exactly 2*s
        flux[i, :4] = [s, s, s*0.5, -s*0.5]
        if real == 'negative' or (real == 'mixed' and i % 2):
            flux[i, :4] *= -1.
        if l is None:
            qual[i, :] = 0.
            flux[i, :] = 1.e4
    if real == 'hidden':
        # a masked column may hold anything
        flux[:, ncol] = np.where(np.arange(n) % 2, 5.e3, -7.e2)
        err[:, ncol] = 1.e3
    # last column: a sky line, never counted
    sky = np.zeros(n)
    err[:, ncol+1] = 1.e3
    flux[:, ncol+1] = 1.e4*np.cos(np.arange(n)) if real in ('sky', 'mixed') else 0.
    s = spectrum(flux.copy(), err.copy(), qual, cut=cut, med=2.*np.sqrt(n))
    q0 = qual.copy()
    s.get_skyline_mask(full=True)
    s.get_low_snr_mask()
    want_sky = qual.copy()
    if (qual[:, ncol+1] > 0.).any():
        want_sky[:, ncol+1] = 0.
        wsky = [ncol+1]
    else:
        wsky = []
    snr = refprep.snr_rows(flux, err, want_sky)
    low = refprep.low_rows(snr, cut)
    rec.step()
    rec.trace()
    rec.state(real, levels, cut)
    rec.outcome(low)
    what = 'rows %s x cut (%s)' % (levels, real)
    rec.check(list(s.wh_sky) == wsky, 'sky', 'sky columns %s, expected %s, for %s' % (list(s.wh_sky), wsky, what))
    rec.check(sorted(int(i) for i in s.low_snr_row_inds) == low, 'low-rows', 'low rows %s, expected %s, for %s' % (
        [int(i) for i in s.low_snr_row_inds], low, what))
    wm = q0.copy()
    wm[low] = 0.
    rec.check(np.array_equal(s.mask_low_snr, wm), 'low-mask', 'mask of low rows is wrong for %s' % what)
    rec.check(np.array_equal(s.mask_sky, want_sky), 'sky-mask', 'mask with sky columns is wrong for %s' % what)
    rec.check(np.array_equal(s.flux, flux) and np.array_equal(s.flux_err, err) and np.array_equal(s.spec_mask, q0),
              'input-changed', 'the selection changed its input for %s' % what)


def run_case(case, rec):
    if case['kind'] == 'rows':
        hi = dict(exact=1., plain=1.5, negative=3., masked=4., hidden=2., sky=1.25, mixed=1.)[case['real']]
        lo = dict(exact=0.96875, plain=0.5, negative=0.9375, masked=None, hidden=0., sky=0.5, mixed=0.75)[case['real']]
        for i, pat in enumerate(itertools.product([0, 1], repeat=case['n'])):
            if i % case['parts'] == case['part']:
                rows_case(case, rec, [hi if v else lo for v in pat])
    elif case['kind'] == 'levels':
        for i, pat in enumerate(itertools.product([None, 0., 0.9375, 1., 2.], repeat=case['n'])):
            if i % case['parts'] == case['part']:
                rows_case(case, rec, list(pat))
    elif case['kind'] == 'sky':
        # kinds of column: quiet, just below, exactly at, above the cut, all masked, bright but masked except a quiet pixel
        m, med, n = case['m'], case['med'], case['rows']
        cut = 3.*med
        e0 = cut/np.sqrt(n)
        for i, pat in enumerate(itertools.product(range(6), repeat=m)):
            if i % case['parts'] != case['part']:
                continue
            err, qual = np.zeros((n, m)), np.ones((n, m))
            for j, k in enumerate(pat):
                err[:, j] = e0*[0.25, 0.96875, 1., 4., 8., 8.][k]
                if k == 4:
                    qual[:, j] = 0.
                if k == 5:
                    qual[:, j] = 0.
                    if n > 1:
                        qual[0, j] = 1.
                        err[0, j] = 0.25*cut
            flux = np.cos(np.arange(n*m)).reshape(n, m)
            s = spectrum(flux.copy(), err.copy(), qual, cutoff=3., med=med)
            s.get_skyline_mask(full=True)
            want = [j for j, k in enumerate(pat) if k in (2, 3)]
            rec.step()
            rec.trace()
            rec.state(pat)
            rec.outcome(want)
            what = 'columns %s, %d rows' % (pat, n)
            rec.check(list(s.wh_sky) == want, 'sky', 'sky columns %s, expected %s, for %s' % (list(s.wh_sky), want, what))
            rec.check(list(s.wh_nosky) == [j for j in range(m) if j not in want], 'nosky', 'other columns %s for %s' % (
                list(s.wh_nosky), what))
            w = qual.copy()
            w[:, want] = 0.
            rec.check(np.array_equal(s.mask_sky, w) and np.array_equal(s.mask_qual, qual) and np.array_equal(s.spec_mask, qual),
                      'sky-mask', 'masks are wrong for %s' % what)
    else:
        from misfit.general import general_utils as gu
        for pat in itertools.product([0, 1], repeat=case['n']):
            idx = np.where(np.array(pat, dtype=int) == 1)[0]
            got = [[int(v) for v in r] for r in gu.wh_continuous(idx)]
            runs = [[i for i, _ in g] for on, g in itertools.groupby(enumerate(pat), key=lambda t: t[1]) if on]
            rec.step()
            rec.trace()
            rec.state(pat)
            rec.check(got == runs, 'runs', 'runs of %s: %s' % (idx, got))
        rec.outcome(case['n'])
    rec.sample = dict(case=case)
