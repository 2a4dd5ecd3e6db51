import itertools
import numpy as np
from mc import refprep

RULE = ('trimming: every pair of range ends on, between and beyond the pixels of a small non-uniform grid, as observed or rest '
        'frame range of any sequence type, 1D and 2D, in place or copying, with and without weights and continuum arrays; edge masks: '
        'every mask of n pixels x every edge width; missing data: every assignment of flux, error, weight and mask kinds to the '
        'pixels. Results are compared with explicit rules. A state is one input.')
CHUNK = 1


def cases(tier):
    T = tier == 'thorough'
    out = []
    for z in (1., 0.5, 0.):
        for typ in ('list', 'tuple', 'array'):
            for frame in ('obs', 'rest'):
                out.append(dict(kind='trim1', z=z, typ=typ, frame=frame, n=9 if T else 6))
                for inplace in (True, False):
                    for weight in (True, False):
                        for cont in (True, False):
                            out.append(dict(kind='trim2', z=z, typ=typ, frame=frame, inplace=inplace, weight=weight,
                                            cont=cont, n=8 if T else 5))
    out += [dict(kind='tables', z=z, line=l) for z in (0.7, 1.5, 2.3) for l in ('HA6565', 'HB4863', 'OIII5008', 'Halpha', 'Hbeta', 'OIII')]
    for n in range(1, 14 if T else 12):
        out.append(dict(kind='edge', n=n))
    for wt in (True, False):
        for mk in (True, False):
            for n in ((1, 2, 3) if T else (1, 2)):
                parts = 16 if n == 3 else 4 if n == 2 else 1
                for p in range(parts):
                    out.append(dict(kind='missing', weight=wt, mask=mk, n=n, part=p, parts=parts))
    for n in range(1, 6):
        out.append(dict(kind='col', n=n))
    for n in ((1, 2, 3) if not T else (1, 2, 3, 4)):
        out.append(dict(kind='fill', n=n))
    return out


def grid(n):
    # multiples of 6: exact after division by 1.5 or 2
    return 6.*(2000.+np.cumsum([0, 3, 1, 2, 1, 4, 1, 1, 2][:n]))


def ends(w):
    e = [w[0]-60., w[0]-3.]
    for i, x in enumerate(w):
        e.append(x)
        e.append(x+3. if i < len(w)-1 else x+6.)
    return e


def conv(r, typ):
    return dict(list=list, tuple=tuple, array=np.array)[typ](r)


def run_case(case, rec):
    import misfit
    from misfit.general import galaxy_utils as gu
    kind = case['kind']
    if kind in ('trim1', 'trim2'):
        z, n = case['z'], case['n']
        w = grid(n)
        g = misfit.Galaxy(z=z, n=1., re_arcsec=0.5, q=0.6, delt_PA=20., dither=False)
        base = np.arange(n)*1.
        for lo, hi in itertools.product(ends(w), repeat=2):
            keep = np.where((w >= lo) & (w <= hi))[0]
            rng = (lo/(1.+z), hi/(1.+z)) if case['frame'] == 'rest' else (lo, hi)
            rng = conv(rng, case['typ'])
            kw = {('trim_restwave_range' if case['frame'] == 'rest' else 'trim_obswave_range'): rng}
            what = '%s range %s on %s (z=%s)' % (case['frame'], rng, w, z)
            rec.step()
            rec.trace()
            rec.state(lo, hi)
            rec.outcome(keep)
            if kind == 'trim1':
                s = misfit.ObsSpectrum1D(wave=w.copy(), flux=base+.5, flux_err=base+100., spec_mask=(base % 2), band='H')
                g.set_spectrum_1D(s)
                t = s.trim_spectrum_wavelength(g, **kw)
                names = ('wave', 'flux', 'flux_err', 'spec_mask')
                two = False
            else:
                b2 = base[None, :]+10.*np.arange(3)[:, None]
                s = misfit.ObsSpectrum2D(wave=w.copy(), flux=b2+.5, flux_err=b2+100., spec_mask=(b2 % 2), band='H',
                                         spec_weight=b2+1000. if case['weight'] else None)
                if case['cont']:
                    s.flux_incl_cont, s.cont_model = b2+7., b2-7.
                g.set_spectrum_2D(s)
                names = ('wave', 'flux', 'flux_err', 'spec_mask')
                if case['weight']:
                    names += ('spec_weight',)
                if case['cont']:
                    names += ('flux_incl_cont', 'cont_model')
                two = True
            before = {k: np.array(getattr(s, k)) for k in names}
            rest = np.array(s.restwave)
            if two:
                t = s.trim_spectrum_wavelength(g, inplace=case['inplace'], **kw)
                if len(keep) == 0:
                    rec.check(t.wave is None or len(t.wave) == 0, 'empty', 'pixels kept of an empty selection: %s, %s' % (t.wave, what))
                    continue
                if case['inplace']:
                    rec.check(t is s, 'in-place', 'in place trimming returned another spectrum')
            elif len(keep) == 0:
                rec.check(t.wave is None or len(t.wave) == 0, 'empty', 'pixels kept of an empty selection: %s, %s' % (t.wave, what))
                continue
            for k in names:
                want = before[k][..., keep]
                got = getattr(t, k)
                if rec.check(got is not None, k, '%s lost by trimming, %s' % (k, what)):
                    rec.close(got, want, k, '%s after trimming, %s' % (k, what), rtol=0.)
            for k, v in (('trim_restwave_range', np.array([lo, hi])/(1.+z)), ('trim_obswave_range', np.array([lo, hi]))):
                if (two or case['frame'] in k or 'obs' in k) and rec.check(getattr(t, k) is not None, 'range', '%s not recorded, %s' % (k, what)):
                    rec.close(np.asarray(getattr(t, k), float), v, 'range', '%s recorded, %s' % (k, what), rtol=1e-12)
            rec.close(t.restwave, w[keep]/(1.+z), 'restwave', 'rest wavelengths, %s' % what, rtol=1e-14)
            rec.close(t.obswave, w[keep], 'obswave', 'observed wavelengths, %s' % what, rtol=1e-14)
            if not two or not case['inplace']:
                ok = all(np.array_equal(getattr(s, k), before[k]) for k in names) and np.array_equal(s.restwave, rest)
                for k in names:
                    if getattr(t, k) is not None:
                        np.asarray(getattr(t, k))[...] = -1.
                ok &= all(np.array_equal(getattr(s, k), before[k]) for k in names)
                rec.check(ok, 'copy', 'the copying trim changed, or shares memory with, its input, %s' % what)
    elif kind == 'tables':
        from astropy.io import ascii
        import os
        tab = ascii.read(os.path.join(os.path.dirname(misfit.__file__), 'lib', 'trim_wavelengths_1D.param'), format='commented_header')
        row = tab[list(tab['linename']).index(case['line'])]
        z = case['z']
        w = np.arange(float(row['wave_l'])-50., float(row['wave_u'])+50., 3.3)*(1.+z)
        g = misfit.Galaxy(z=z, n=1., re_arcsec=0.5, q=0.6, delt_PA=20., dither=False)
        s = misfit.ObsSpectrum1D(wave=w.copy(), flux=w+1., flux_err=w+2., band='H')
        g.set_spectrum_1D(s)
        t = s.trim_spectrum_wavelength(g, linename=case['line'])
        keep = (w >= row['wave_l']*(1.+z)) & (w <= row['wave_u']*(1.+z))
        rec.step()
        rec.trace()
        rec.state(0)
        rec.close(t.wave, w[keep], 'wave', 'wavelengths trimmed for %s' % case['line'], rtol=0.)
        rec.close(t.flux, w[keep]+1., 'flux', 'flux trimmed for %s' % case['line'], rtol=0.)
        if case['line'] in ('HA6565', 'HB4863', 'OIII5008'):
            tab = ascii.read(os.path.join(os.path.dirname(misfit.__file__), 'lib', 'line_range_restwave_2D.param'), format='commented_header')
            row = tab[list(tab['linename']).index(case['line'])]
            s = misfit.ObsSpectrum2D(wave=w.copy(), flux=np.array([w, w+1.]), flux_err=np.array([w, w+2.]), band='H')
            g.set_spectrum_2D(s)
            t = s.trim_spectrum_wavelength(g, linename=case['line'])
            keep = (w >= row['wave_l']*(1.+z)) & (w <= row['wave_u']*(1.+z))
            rec.close(t.wave, w[keep], 'wave', '2D wavelengths trimmed for %s' % case['line'], rtol=0.)
            rec.close(t.flux, np.array([w, w+1.])[:, keep], 'flux', '2D flux trimmed for %s' % case['line'], rtol=0.)
    elif kind == 'edge':
        n = case['n']
        for m in itertools.product([0., 1.], repeat=n):
            m = np.array(m)
            for k in range(0, min(n+2, 7)):
                s = misfit.ObsSpectrum1D(wave=np.arange(n)+5., flux=np.arange(n)*1., flux_err=np.ones(n), spec_mask=m.copy(), num_mask_edge=k)
                given = s.spec_mask
                s.mask_edges()
                rec.step()
                rec.trace()
                rec.state(m, k)
                want = refprep.edge_mask(m, k)
                rec.outcome(want)
                rec.check(np.array_equal(s.spec_mask, want), 'edge', 'mask %s with %d edge pixels becomes %s, expected %s' % (
                    m, k, s.spec_mask, want))
                rec.check(np.array_equal(given, m), 'input-changed', 'edge masking changed the mask it was given')
    elif kind == 'missing':
        fl, er = [1., np.nan, np.inf, -np.inf, 0.], [2., 0., np.nan, np.inf]
        wt = [1., 0., 3.] if case['weight'] else [None]
        mk = [1., 0.] if case['mask'] else [None]
        alphabet = list(itertools.product(fl, er, wt, mk))
        for i, pix in enumerate(itertools.product(alphabet, repeat=case['n'])):
            if i % case['parts'] != case['part']:
                continue
            f, e = np.array([p[0] for p in pix]), np.array([p[1] for p in pix])
            w = np.array([p[2] for p in pix]) if case['weight'] else None
            m = np.array([p[3] for p in pix]) if case['mask'] else None
            args = [None if a is None else a.copy() for a in (f, e, w, m)]
            want = refprep.missing(f, e, m, w)
            for two in (False, True):
                a = [x if x is None or not two else x[None, :] for x in args]
                got = gu.spec_mask_missing(spec=a[0], spec_err=a[1], spec_weight=a[2], spec_mask=a[3])
                rec.step()
                rec.trace()
                rec.check(np.array_equal(np.ravel(got), want), 'missing', 'flux %s error %s weight %s mask %s gives mask %s, expected %s' % (
                    f, e, w, m, got, want))
                same = all(x is None or np.array_equal(x, y, equal_nan=True) for x, y in zip(args, (f, e, w, m)))
                rec.check(same, 'input-changed', 'masking changed its input')
            rec.state(f, e, w if w is not None else 0, m if m is not None else 0)
            rec.outcome(want)
    elif kind == 'col':
        n = case['n']
        for m1 in itertools.product([0., 1.], repeat=n):
            for m2 in itertools.product([0., 1.], repeat=min(2*n, 8)):
                a = np.resize(np.array(m2), (2, n))
                got = gu.mask_spec2D_from_1D(mask2D=a.copy(), mask1D=np.array(m1))
                want = a*np.array(m1)[None, :]
                rec.step()
                rec.trace()
                rec.state(m1, m2)
                rec.check(np.array_equal(got, want), 'col', '2D mask %s with 1D mask %s gives %s' % (a, m1, got))
                rec.outcome(want)
    else:
        vals = [1.5, 0., np.nan, np.inf, -np.inf, -3.]
        for pix in itertools.product(itertools.product(vals, [0., 1.]), repeat=case['n']):
            f, m = np.array([p[0] for p in pix]), np.array([p[1] for p in pix])
            for zero, full in itertools.product([False, True], repeat=2):
                given = f.copy()
                got = gu.spec_nan_masking(flux=given, spec_mask=m.copy(), fill_value=-99., mask_zero=zero, mask_all_masked=full)
                want = f.copy()
                for i in range(len(f)):
                    if m[i] == 0. and (full or not np.isfinite(f[i]) or (zero and f[i] == 0.)):
                        want[i] = -99.
                rec.step()
                rec.trace()
                rec.check(np.array_equal(got, want, equal_nan=True), 'fill', 'filling %s with mask %s (%s, %s) gives %s' % (
                    f, m, zero, full, got))
                rec.check(np.array_equal(given, f, equal_nan=True), 'input-changed', 'filling changed its input')
            rec.state(f, m)
            rec.outcome(want)
    rec.sample = dict(case=case, traces=rec.traces)
