import itertools
import os
import shutil
import tempfile
import numpy as np
from mc import mk

RULE = ('bin roots: every pixel grid (number, width) x width of the new bins; below each every number and quarter-pixel position of the new bins, each '
        'with every unit image and with mixed images.  Image roots: stamp shape x galaxy position x slit angle; below each the angles of image and galaxy, '
        'the smoothing and the two profiles, against the analytic image.  Plot roots: rotated or not, smoothed, resampled, ellipse, size and row of the '
        'galaxy; below each slit offset, angles and positions; every artist drawn is compared with its place.  A state is one image or profile.')
CHUNK = 1


def cases(tier):
    T = tier == 'thorough'
    out = []
    for n in range(2, 8 if T else 6):
        for w in (1., .5, .7):
            for wn in (.25, .5, .75, 1., 1.25, 1.5, 2., 2.5, 3., 7.):
                out.append(dict(kind='bins', n=n, w=w, wn=wn, m=5 if T else 4))
    for ny, nx in itertools.product((2, 3, 5), repeat=2):
        out.append(dict(kind='bins2d', ny=ny, nx=nx))
    for shape in ((41, 41), (40, 40), (41, 36), (36, 43)):
        for off in ((0., 0.), (3., -2.), (-4.5, 1.25)):
            for slit in (0., 30., 90., 135., -60.) if not T else range(-180, 181, 15):
                out.append(dict(kind='image', shape=shape, off=off, slit=float(slit)))
    for rotate, convolve, down in itertools.product((True, False), repeat=3):
        if convolve and not rotate:
            continue
        for galfit in (True, False):
            for n in (None, 15, 24):
                for m0 in (None, 7., 5.6):
                    if down and m0 is None and n == 24 and not T:
                        continue
                    out.append(dict(kind='plot', rotate=rotate, convolve=convolve, down=down, galfit=galfit, n=n, m0=m0, deep=T))
    out.append(dict(kind='own'))
    return out


def run_case(case, rec):
    globals()['do_'+case['kind']](dict(case), rec)
    rec.trace()
    rec.sample = dict(case=case, traces=rec.traces)


def overlap(x, w, xn, wn):
    """Share of every new bin (rows) covered by every old pixel."""
    o = np.zeros((len(xn), len(x)))
    for i in range(len(xn)):
        for j in range(len(x)):
            o[i, j] = max(0., min(x[j]+w/2., xn[i]+wn/2.)-max(x[j]-w/2., xn[i]-wn/2.))/wn
    return o


def do_bins(case, rec):
    from misfit.plot.plot_image_slit import box_integrate
    n, w, wn = case['n'], case['w'], case['wn']*case['w']
    x = np.arange(n)*w
    images = list(np.eye(n))+[np.arange(n)+1., (-1.)**np.arange(n)*(1.+np.arange(n)), np.ones(n)*1e-18]
    for m in range(2, case['m']+1):
        for k in range(-4*(case['m']+1)-8, 4*n+13, 2 if case['wn'] >= 7. else 1):
            xn = k*w/4.+np.arange(m)*wn
            o = overlap(x, w, xn, wn)
            for y in images:
                y0, x0, xn0 = y.copy(), x.copy(), xn.copy()
                got = box_integrate(x, y, xn)
                rec.step()
                want = o.dot(y)
                rec.close(got, want, 'bins', '%s on %d pixels of %s into %d bins of %s from %s' % (y, n, w, m, wn, xn[0]), rtol=1e-9,
                          atol=1e-12*np.abs(y).max())
                if y.min() >= 0.:
                    rec.check(np.min(got) >= -1e-12*y.max(), 'negative', 'bin of %s for %s' % (np.min(got), y))
                rec.check(np.array_equal(y, y0) and np.array_equal(x, x0) and np.array_equal(xn, xn0), 'input', 'resampling changed its input')
            rec.state([m, k])
            rec.outcome(np.round(want, 9))


def do_bins2d(case, rec):
    from misfit.plot.plot_image_slit import box_integrate_pstamp
    ny, nx = case['ny'], case['nx']
    images = [np.add.outer(np.arange(ny)*3., np.arange(nx)+1.), np.multiply.outer((-1.)**np.arange(ny), 2.+np.arange(nx))]
    for i, j in itertools.product(range(ny), range(nx)):
        e = np.zeros((ny, nx))
        e[i, j] = 1.
        images.append(e)
    y, x = np.arange(ny)-1., np.arange(nx)*.5
    for my, mx, wy, wx, sy, sx in itertools.product((2, 3), (2, 4), (1., 1.5), (.5, .75, 1.25), (-1.5, -.8, 0.), (-.6, 0., .3)):
        yn, xn = sy+np.arange(my)*wy, sx+np.arange(mx)*wx
        oy, ox = overlap(y, 1., yn, wy), overlap(x, .5, xn, wx)
        rec.state([my, mx, wy, wx, sy, sx])
        for im in images:
            got = box_integrate_pstamp(im, x, y, xn, yn)
            rec.step()
            rec.close(got, oy.dot(im).dot(ox.T), 'bins2d', 'image of %d x %d into %d x %d' % (ny, nx, my, mx), rtol=1e-9, atol=1e-12)
        rec.outcome(np.round(got, 9))


def rot(th):
    """Counter clockwise, degrees."""
    t = np.deg2rad(th)
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


def blob(shape, cen, pa, a, b, extra=0.):
    """Elliptical Gaussian of unit flux; pa from +y counter clockwise, dispersions a (major) and b in pixels, smoothed by extra."""
    r = rot(pa)
    major, minor = r.dot([0., 1.]), r.dot([1., 0.])
    cov = a*a*np.outer(major, major)+b*b*np.outer(minor, minor)+extra**2*np.eye(2)
    inv = np.linalg.inv(cov)
    X, Y = np.meshgrid(np.arange(shape[1])-cen[0], np.arange(shape[0])-cen[1])
    q = inv[0, 0]*X*X+2.*inv[0, 1]*X*Y+inv[1, 1]*Y*Y
    return np.exp(-.5*q)/(2.*np.pi*np.sqrt(np.linalg.det(cov)))


def galaxy(shape, cen, sci, pa, slit, imgpa, im, yoff=0., imscale=.06, spec1=False, **kw):
    """Galaxy with its light at pixel cen (x, y) and its catalogue position at pixel sci."""
    import misfit
    from astropy.io import fits
    from astropy.wcs import WCS
    h = fits.Header()
    h['NAXIS'] = 2
    h['NAXIS1'], h['NAXIS2'] = shape[1], shape[0]
    h['CTYPE1'], h['CTYPE2'] = 'RA---TAN', 'DEC--TAN'
    h['CRPIX1'], h['CRPIX2'] = 3.5, 8.
    h['CRVAL1'], h['CRVAL2'] = 150.1, 2.2
    s = imscale/3600.
    t = np.deg2rad(imgpa)
    h['CD1_1'], h['CD1_2'], h['CD2_1'], h['CD2_2'] = -s*np.cos(t), s*np.sin(t), s*np.sin(t), s*np.cos(t)
    w = WCS(h)
    ra, dec = w.wcs_pix2world(cen[0], cen[1], 0)
    ra1, dec1 = w.wcs_pix2world(sci[0], sci[1], 0)
    g = misfit.Galaxy(z=1.5, n=1., re_arcsec=.4, q=.6, field='F', ID=3, RA=float(ra1), DEC=float(dec1), sersicRA=float(ra), sersicDEC=float(dec),
                      sersicPA=pa, delt_PA=20., **kw)
    g.pstamp = misfit.Pstamp(pstamp=im, pstamp_hdr=h, img_PA=imgpa)
    sp = misfit.ObsSpectrum2D(wave=np.arange(10.), flux=np.zeros((15, 10)), flux_err=np.ones((15, 10)), slit_PA=slit, yoffset=yoff)
    if spec1:
        g.spec1D = misfit.ObsSpectrum1D(slit_PA=slit)
    else:
        g.spec2D = sp
    return g


def moments(im):
    Y, X = np.mgrid[:im.shape[0], :im.shape[1]]
    f = im.sum()
    return f, (im*X).sum()/f, (im*Y).sum()/f


def turn(p, c, th):
    return tuple(rot(th).dot(np.array(p)-np.array(c))+np.array(c))


def do_image(case, rec):
    import misfit
    from misfit.plot import plot_utils as pu
    shape = tuple(case['shape'])
    mid = ((shape[1]-1)/2., (shape[0]-1)/2.)
    cen = (mid[0]+case['off'][0], mid[1]+case['off'][1])
    for imgpa, pa, (a, b) in itertools.product((0., 25., -90.), (0., 40., -75.), ((3.2, 1.8), (2.2, 2.2))):
        im = 7.*blob(shape, cen, pa, a, b)
        on = case['slit']-imgpa
        new = turn(cen, mid, -on)
        for spec1 in (False, True):
            g = galaxy(shape, cen, cen, pa, case['slit'], imgpa, im.copy(), spec1=spec1)
            got = pu.rotate_pstamp(g)
            rec.step()
            rec.state([imgpa, pa, a, spec1])
            what = 'stamp %s, galaxy at %s with axis at %s, slit at %s, image at %s' % (shape, cen, pa, case['slit'], imgpa)
            want = 7.*blob(shape, new, pa-on, a, b)
            rec.close(got, want, 'rotate', 'rotated stamp, %s' % what, rtol=0., atol=2e-3*want.max())
            rec.check(np.array_equal(g.pstamp.pstamp, im), 'input', 'rotation changed the stamp')
            x, y = pu.rot_object_center(cen[0], cen[1], np.array(mid), -np.deg2rad(on))
            rec.close([float(np.ravel(x)[0]), float(np.ravel(y)[0])], new, 'centre', 'centre of the galaxy after rotation, %s' % what, rtol=1e-9, atol=1e-9)
            f, mx, my = moments(got)
            rec.close([mx, my], new, 'centroid', 'centre of light after rotation, %s' % what, rtol=0., atol=.03)
            rec.outcome(np.round([mx, my], 3))
            # another object near the corner may leave the frame
            g = galaxy(shape, cen, cen, pa, case['slit'], imgpa, im+5.*blob(shape, (3., 2.), 0., 1.8, 1.8), spec1=spec1)
            both = pu.rotate_pstamp(g)
            for psf, dither in (('Gaussian', None), ('Gaussian', 1.), ('Moffat', None)):
                inst = misfit.Spectrograph(PSF_type=psf, PSF_FWHM=.6, PSF_beta=4.765 if psf == 'Moffat' else 2.5, pixscale=.18, slit_width=.7,
                                           slit_length=5., yspace_dither_arc=dither)
                got = pu.convolve_rot_gal(galaxy=g, instrument=inst, instrument_img=misfit.Imager(PSF_type='Gaussian', PSF_FWHM=.15, pixscale=.06), conv_sigma=.12)
                rec.step()
                rec.state([imgpa, pa, a, spec1, psf, dither])
                rec.close([got.sum()], [both.sum()], 'frame-flux', 'flux in the frame after smoothing with %s dithered by %s, %s' % (psf, dither, what), rtol=1e-9)
            g = galaxy(shape, cen, cen, pa, case['slit'], imgpa, im.copy(), spec1=spec1)
            for psf, sig in itertools.product(('Gaussian', 'Moffat'), (.09, .15)):
                for dither in (None, 1.):
                    if (spec1 or imgpa == -90.) and dither:
                        continue
                    inst = misfit.Spectrograph(PSF_type=psf, PSF_FWHM=.6, PSF_beta=4.765 if psf == 'Moffat' else 2.5, pixscale=.18, slit_width=.7,
                                               slit_length=5., yspace_dither_arc=dither)
                    before = sorted((k, str(v)) for k, v in vars(inst.PSF).items())
                    img = misfit.Imager(PSF_type='Gaussian', PSF_FWHM=.15, pixscale=.06)
                    got = pu.convolve_rot_gal(galaxy=g, instrument=inst, instrument_img=img, conv_sigma=sig)
                    rec.step()
                    w2 = '%s by %s dithered by %s, %s' % (psf, sig, dither, what)
                    f, mx, my = moments(got)
                    rec.close([f], [7.], 'flux', 'flux after smoothing with %s' % w2, rtol=2e-3)
                    rec.close([mx, my], new, 'centroid', 'centre of light after smoothing with %s' % w2, rtol=0., atol=.15 if psf == 'Moffat' else .04)
                    if psf == 'Gaussian':
                        want = 7.*blob(shape, new, pa-on, a, b, sig/.06)
                        rec.close(got, want, 'convolve', 'smoothed with %s' % w2, rtol=0., atol=3e-3*want.max())
                    rec.check(np.array_equal(g.pstamp.pstamp, im), 'input', 'smoothing changed the stamp')
                    rec.check(before == sorted((k, str(v)) for k, v in vars(inst.PSF).items()), 'input', 'smoothing changed the PSF')


def lines(ax, color):
    import matplotlib.colors as mc
    return [np.array([l.get_xdata(), l.get_ydata()], float) for l in ax.lines if mc.same_color(l.get_color(), color)]


def do_plot(case, rec):
    import misfit
    import matplotlib.pyplot as plt
    from misfit.plot.plot_image_slit import plot_image_slit
    shape = (61, 61)
    mid = (30., 30.)
    for off, sci, (slit, imgpa, pa), yoff in itertools.product(((0., 0.), (4., -3.)), ((0., 0.), (2., 5.)),
                                                              ((0., 0., 20.), (40., 0., -30.), (-110., 25., 70.)) if not case['deep'] else
                                                              itertools.product((0., 40., -110., 90.), (0., 25., -60.), (20., -30., 70., 90.)), (0., .5)):
        cen = (mid[0]+off[0], mid[1]+off[1])
        cat = (cen[0]+sci[0], cen[1]+sci[1])
        im = 7.*blob(shape, cen, pa, 3.2, 1.8)+1.e-4*np.cos(np.arange(61)[:, None]*1.3+np.arange(61)[None, :]**2)
        g = galaxy(shape, cen, cat, pa, slit, imgpa, im.copy(), yoff=yoff)
        inst = misfit.Spectrograph(PSF_type='Gaussian', PSF_FWHM=.4, pixscale=.18, slit_width=.7, slit_length=5.)
        img = misfit.Imager(PSF_type='Gaussian', PSF_FWHM=.15, pixscale=.06, band='F160W')
        fig, ax = plt.subplots(1)
        try:
            check_plot(case, rec, plt, plot_image_slit, ax, g, inst, img, im, cen, cat, slit, imgpa, pa, yoff, mid)
        finally:
            plt.close(fig)


def check_plot(case, rec, plt, plot_image_slit, ax, g, inst, img, im, cen, cat, slit, imgpa, pa, yoff, mid):
    plot_image_slit(galaxy=g, instrument=inst, instrument_img=img, m0=case['m0'], rotate=case['rotate'], convolve=case['convolve'],
                    n_spatial_pixels=case['n'], downsample=case['down'], ax=ax, show_galfit=case['galfit'],
                    conv_sigma=.12 if case['n'] else None)
    rec.step()
    rec.state([cen, cat, slit, imgpa, pa, yoff])
    what = '%s, light at %s, position %s, slit %s, image %s, axis %s, offset %s' % (
        {k: case[k] for k in ('rotate', 'convolve', 'down', 'galfit', 'n', 'm0')}, cen, cat, slit, imgpa, pa, yoff)
    on = slit-imgpa
    th = -on if case['rotate'] else 0.
    gal, sci, axis, slitang = turn(cen, mid, th), turn(cat, mid, th), pa+th, (0. if case['rotate'] else on)
    if not case['galfit']:
        gal = sci
    true = turn(cen, mid, th)
    sc = 1./.06
    if case['down']:
        n = int(np.floor(61*.06/.18))
        to = ((n-1)/2., (n-1)/2. if case['m0'] is None else case['m0'])
        shift = gal
        gal, sci, true = [tuple((np.array(p)-shift)*.06/.18+to) for p in (gal, sci, true)]
        sc = 1./.18
    # image in place
    data = np.array(ax.images[0].get_array(), float)
    base = 1.5*10.**ax.images[0].norm.vmin
    light = 10.**data-base
    cut = np.where(light > .02*np.nanmax(light), light, 0.)
    lo, hi = ax.get_xlim(), ax.get_ylim()
    inside = all(2.*sc*.06*1. < true[i] < light.shape[1-i]-1-2.*sc*.06 for i in (0, 1))
    if inside and np.isfinite(base):
        f, mx, my = moments(cut)
        rec.close([mx, my], true, 'plot-image', 'centre of light drawn, %s' % what, rtol=0., atol=.12)
        rec.outcome(np.round([mx, my], 2))
    ext = ax.images[0].get_extent()
    rec.close(ext, [-.5, light.shape[1]-.5, -.5, light.shape[0]-.5], 'plot-image', 'extent of the image, %s' % what)
    # range shown
    size = (2. if case['n'] is None else case['n']*.18)*sc
    ybot = gal[1]-size/2. if case['m0'] is None else gal[1]-(case['m0']+.5)*.18*sc
    rec.close([lo[0], lo[1], hi[0], hi[1]], [gal[0]-size/2., gal[0]+size/2., ybot, ybot+size], 'plot-range', 'range shown, %s' % what, rtol=1e-6, atol=1e-6)
    # brightness scale from the median of the part shown
    # slit
    r = lines(ax, 'green')
    if rec.check(len(r) == 1 and r[0].shape == (2, 5), 'plot-slit', '%d slits drawn, %s' % (len(r), what)):
        p = r[0]
        corners = p[:, :4].T
        mid_s = corners.mean(axis=0)
        want = np.array(sci)+rot(slitang).dot([0., -yoff*sc])
        rec.close(mid_s, want, 'plot-slit', 'centre of the slit, %s' % what, rtol=1e-6, atol=1e-5)
        rec.check(np.allclose(p[:, 0], p[:, 4]), 'plot-slit', 'open slit, %s' % what)
        local = rot(-slitang).dot((corners-mid_s).T).T
        rec.close(sorted(np.abs(local[:, 0])), [.35*sc]*4, 'plot-slit', 'width of the slit, %s' % what, rtol=1e-6)
        area = .5*abs(sum(local[i, 0]*local[(i+1) % 4, 1]-local[(i+1) % 4, 0]*local[i, 1] for i in range(4)))
        rec.close([area], [.7*(5.-.7*np.tan(np.deg2rad(3.78)))*sc**2], 'plot-slit', 'area of the slit, %s' % what, rtol=1e-6)
        rec.close(sorted(local[:, 1])[::3], [-2.5*sc, 2.5*sc], 'plot-slit', 'length of the slit, %s' % what, rtol=1e-6)
    # galaxy
    cyan, red = lines(ax, 'cyan'), lines(ax, 'red')
    ell = [p for p in ax.patches if type(p).__name__ == 'Ellipse']+[p for p in ax.artists if type(p).__name__ == 'Ellipse']
    if not case['galfit']:
        rec.check(not cyan and not red and not ell, 'plot-ellipse', 'ellipse drawn though not asked for, %s' % what)
        return
    a, b = .4, .24
    if case['convolve']:
        h = .4/2.
        a, b = np.hypot(a, h), np.hypot(b, h)
    a, b = a*sc, b*sc
    if rec.check(len(cyan) == 1 and len(red) == 1 and len(ell) == 1, 'plot-ellipse', '%d major, %d minor axes, %d ellipses, %s' % (
            len(cyan), len(red), len(ell), what)):
        for l, v, name in ((cyan[0], rot(axis).dot([0., a]), 'major'), (red[0], rot(axis).dot([b, 0.]), 'minor')):
            rec.close(l.mean(axis=1), gal, 'plot-ellipse', 'centre of the %s axis, %s' % (name, what), rtol=1e-6, atol=1e-5)
            d = (l[:, 1]-l[:, 0])/2.
            rec.check(np.allclose(d, v, atol=1e-5) or np.allclose(d, -v, atol=1e-5), 'plot-ellipse', '%s axis %s, expected %s, %s' % (name, d, v, what))
        e = ell[0]
        rec.close(list(np.ravel(e.center)), gal, 'plot-ellipse', 'centre of the ellipse, %s' % what, rtol=1e-6, atol=1e-5)
        # the curve itself
        pts = e.get_patch_transform().transform(e.get_path().vertices)-np.ravel(gal)
        loc = rot(-axis).dot(pts.T)
        rec.close([np.abs(loc[1]).max(), np.abs(loc[0]).max()], [a, b], 'plot-ellipse', 'axes of the ellipse, %s' % what, rtol=.02)


def do_own(case, rec):
    """Figures of its own: saved under the name given, with and without ellipse and text."""
    import misfit
    import matplotlib.pyplot as plt
    from misfit.plot.plot_image_slit import plot_image_slit
    d = tempfile.mkdtemp()
    try:
        for rotate, galfit, verbose, down, maskname in itertools.product((True, False), (True, False), (True, False), (True, False), (None, 'm_x')):
            im = 7.*blob((41, 41), (20., 20.), 20., 3.2, 1.8)+1.e-3
            g = galaxy((41, 41), (20., 20.), (20., 20.), 20., 30., 0., im.copy(), maskname=maskname)
            inst = misfit.Spectrograph(PSF_type='Gaussian', PSF_FWHM=.4, pixscale=.18, slit_width=.7, slit_length=5.)
            img = misfit.Imager(PSF_type='Gaussian', PSF_FWHM=.15, pixscale=.06, band='F160W')
            f = os.path.join(d, '%d.png' % rec.steps)
            import contextlib
            import io
            n = len(plt.get_fignums())
            with contextlib.redirect_stdout(io.StringIO()):
                plot_image_slit(galaxy=g, instrument=inst, instrument_img=img, rotate=rotate, downsample=down, show_galfit=galfit, verbose=verbose,
                                saveToFile=True, fileout=f, m0=5.)
            rec.step()
            rec.state([rotate, galfit, verbose, down, maskname])
            rec.check(os.path.exists(f) and len(os.listdir(d)) == 1, 'file', 'files written: %s' % os.listdir(d))
            rec.check(len(plt.get_fignums()) == n, 'file', 'figure left open')
            rec.check(np.array_equal(g.pstamp.pstamp, im), 'input', 'plot changed the stamp')
            if os.path.exists(f):
                os.remove(f)
    finally:
        shutil.rmtree(d)
