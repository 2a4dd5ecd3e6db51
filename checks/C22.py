import itertools
import numpy as np
from mc import mk

RULE = ('roots: every value of the first angle (or axis ratio) of the lattice; below it every value of the other angles, axis ratios and lengths, '
        'including all special angles, half turns and boundaries; offset roots also run every sequence of up to three updates of the angles of one '
        'galaxy.  A state is one argument tuple.')
CHUNK = 1
ANG = sorted({15.*k for k in range(-24, 25)} | {7.3, -7.3, 44.9, 89.99, -89.99, 90.01, 133.7, 179.5, -211.3, .001})
QS = [.05, .19, .1900001, .2, .35, .5, .707, .9, .99, 1.]


def cases(tier):
    T = tier == 'thorough'
    out = []
    step = 5. if T else 15.
    for k in np.arange(-360., 360.1, step):
        out.append(dict(kind='offset', a=float(k), fine=T))
        out.append(dict(kind='transform', PA=float(k), fine=T))
    for k in ANG:
        out.append(dict(kind='project', PA=k))
        out.append(dict(kind='image', PA=k))
    for q0 in (0., .1, .19, .3):
        out.append(dict(kind='incl', q0=q0, fine=T))
    out.append(dict(kind='header'))
    out.append(dict(kind='sky', fine=T))
    out += [dict(kind='updates', first=i) for i in range(6)]
    out += [dict(kind='model', PA=a) for a in (-100., -90., -35., 0., 35., 90., 180.)]
    out.append(dict(kind='runs', n=11 if T else 9))
    return out


def run_case(case, rec):
    globals()['do_'+case['kind']](dict(case), rec)


def galaxy(s, slit, img, gen=False):
    import misfit
    g = misfit.Galaxy(z=1.5, n=1., re_arcsec=.4, q=.5, sersicPA=s, generate_model=gen)
    c = mk.conf()
    g.set_spectrum_2D(misfit.ObsSpectrum2D(wave=mk.wave_grid(c), flux=np.zeros((5, c['nwave'])), flux_err=np.ones((5, c['nwave'])), band='H', slit_PA=slit))
    g.set_pstamp(misfit.Pstamp(img_PA=img))
    return g


def folded(d):
    """Angle between two lines, in (-90, 90]."""
    return 90.-(90.-d) % 180.


def same_line(a, b, tol=1e-7):
    return abs((a-b+90.) % 180.-90.) < tol


def do_offset(case, rec):
    a = case['a']
    others = ANG if case['fine'] else ANG[::3]+[90., -90., 0.]
    for slit, img in itertools.product(others, (0., 33., -90., 180., 270.5)):
        g = galaxy(a, slit, img)
        g.calculate_slit_object_delta_PA()
        want = folded(a-slit+img)
        rec.step()
        rec.state(a, slit, img)
        rec.trace()
        rec.outcome(round(g.delt_PA, 3))
        what = 'major axis %s, slit %s, image %s: offset %r, expected %s' % (a, slit, img, g.delt_PA, want)
        rec.check(same_line(g.delt_PA, want) and abs(g.delt_PA) <= 90.+1e-9 and g.delt_PA_abs == abs(g.delt_PA), 'offset', what)
        rec.check((g.sersicPA, g.spec2D.slit_PA, g.pstamp.img_PA) == (a, slit, img), 'offset', 'input angles changed: '+what)
        for turn in itertools.product((0., 180., -180.), repeat=3):
            h = galaxy(a+turn[0], slit+turn[1], img+turn[2])
            h.calculate_slit_object_delta_PA()
            rec.step()
            if not rec.check(same_line(h.delt_PA, g.delt_PA), 'half-turn', 'offset %s becomes %s after half turns %s (%s)' % (g.delt_PA, h.delt_PA, turn, what)):
                break


def do_updates(case, rec):
    moves = [('s', 40.), ('s', -130.), ('slit', 75.), ('slit', -20.), ('img', 90.), ('delt', 12.)]
    for rest in itertools.product(range(6), repeat=2):
        seq = [case['first']]+list(rest)
        for gen in (False, True):
            g = galaxy(10., 25., 5., gen)
            v = dict(s=10., slit=25., img=5.)
            g.delt_PA = 12.
            if gen:
                want = 12.
            for i in seq:
                k, x = moves[i]
                if k == 's':
                    g.sersicPA = v['s'] = x
                elif k == 'slit':
                    g.spec2D.slit_PA = v['slit'] = x
                elif k == 'img':
                    g.pstamp.img_PA = v['img'] = x
                else:
                    g.delt_PA = x
                g.calculate_slit_object_delta_PA()
                rec.step()
                want = 12. if gen else folded(v['s']-v['slit']+v['img'])
                if not rec.check(same_line(g.delt_PA, want) and g.delt_PA_abs == abs(g.delt_PA), 'updates', 'offset %s after %s, expected %s' % (g.delt_PA, seq, want)):
                    return
            rec.state(seq, gen)
            rec.trace()
            rec.outcome(round(want, 3))


def do_incl(case, rec):
    from misfit.general import general_utils as utils
    from misfit.model import kin_functions as kfuncs
    q0 = case['q0']
    qs = sorted(set([q0, 1.]+QS+list(np.linspace(0., 1., 401 if case['fine'] else 101))))
    last = None
    for q in qs:
        s = kfuncs.sin_i(q, q0=q0)
        rec.step()
        rec.state(q)
        rec.trace()
        if q <= q0:
            rec.check(s == 1. or abs(s-1.) < 1e-12, 'incl', 'axis ratio %s below %s is not edge-on: sin i = %s' % (q, q0, s))
            if q < q0:
                continue
        i = utils.inclination_angle(q, q0=q0)
        rec.outcome(round(float(i), 6))
        # the projected axis ratio of a spheroid of thickness q0 seen at inclination i
        rec.close(np.sqrt(np.cos(i)**2+(q0*np.sin(i))**2), q, 'incl', 'projected axis ratio at the inclination of %s (q0=%s)' % (q, q0), rtol=1e-9, atol=1e-9)
        rec.check(-1e-12 <= i <= np.pi/2.+1e-12, 'incl', 'inclination %s out of range' % i)
        rec.close(np.sin(i), s, 'incl', 'sine of the inclination of %s' % q, rtol=0., atol=1e-7)
        rec.check(last is None or i <= last+1e-9, 'incl', 'inclination grows with the axis ratio at %s' % q)
        last = i


def do_project(case, rec):
    from misfit.general import general_utils as utils
    PA = case['PA']
    t = np.radians(PA)
    for re, q in itertools.product((.05, .35, 1., 4.2), QS):
        rec.step(5)
        rec.state(re, q)
        rec.trace()
        tol = dict(rtol=1e-9, atol=1e-12)
        rec.close(utils.x_proj_major(re, PA, q), abs(re*np.sin(t)), 'project', 'major axis %s at %s across the slit' % (re, PA), **tol)
        rec.close(utils.y_proj_major(re, PA), abs(re*np.cos(t)), 'project', 'major axis %s at %s along the slit' % (re, PA), **tol)
        if abs(np.cos(t)) > 1e-9:
            rec.close(utils.r_unproj_major(utils.y_proj_major(re, PA), PA, q), re, 'project', 'major axis %s at %s projected and back' % (re, PA), **tol)
            y = utils.y_proj_major(re, PA)
            rec.check(utils.r_unproj_major(-y, PA, q) == utils.r_unproj_major(y, PA, q), 'project', 'negative position')
        # distance to the isophote along and across the slit
        for f, (dx, dy) in ((utils.y_proj_phys, (0., 1.)), (utils.x_proj_phys, (1., 0.))):
            r = f(re, PA, q)
            # rotate the point into the frame of the ellipse: on its edge
            a = -dx*r*np.sin(t)+dy*r*np.cos(t)
            b = dx*r*np.cos(t)+dy*r*np.sin(t)
            rec.close((a/re)**2+(b/(q*re))**2, 1., 'ellipse', '%s(%s, %s, %s)=%s is on the ellipse' % (f.__name__, re, PA, q, r), rtol=1e-8)
            rec.outcome(round(float(r), 8))
        for w in (.2, .7, 1.5, 20.):
            y = utils.y_proj_major_inslit(re, PA, slit_width_arcsec=w)
            # walk along the major axis to the end of the axis or the edge of the slit
            L = re if abs(re*np.sin(t)) <= w/2. else abs(w/2./np.sin(t))
            rec.close(y, abs(L*np.cos(t)), 'inslit', 'major axis %s at %s inside a slit of %s' % (re, PA, w), **tol)
            rec.step()


def do_transform(case, rec):
    from misfit.model import kin_functions as kfuncs
    PA = case['PA']
    t = np.radians(PA)
    g = np.array(list(itertools.product((-1.3, 0., .4, 2.), repeat=3)))
    x, y, z = g.T
    for i in np.radians(np.arange(0., 90.1, 5. if case['fine'] else 15.)):
        X, Y, Z = kfuncs.transform_int_3d(x, y, z, PA, i)
        rec.step()
        rec.state(PA, i)
        rec.trace()
        what = 'position angle %s, inclination %s' % (PA, np.degrees(i))
        tol = dict(rtol=0, atol=1e-12)
        rec.close(X**2+Y**2+Z**2, x**2+y**2+z**2, 'length', what, rtol=0, atol=1e-11)
        # vectors: orthonormal, right-handed
        M = np.array([np.array(kfuncs.transform_int_3d(*e, PA, i)) for e in np.eye(3)]).T
        rec.close(M.dot(M.T), np.eye(3), 'rotation', what, **tol)
        rec.close(np.linalg.det(M), 1., 'rotation', 'handedness: '+what, rtol=1e-12)
        rec.close(M.dot(g.T), np.array([X, Y, Z]), 'rotation', 'linear: '+what, rtol=0, atol=1e-11)
        # the major axis, counterclockwise from the slit, becomes the intrinsic y axis
        rec.close(kfuncs.transform_int_3d(-np.sin(t), np.cos(t), 0., PA, i), [0., 1., 0.], 'major', what, **tol)
        # the line of sight tilts towards the minor axis
        rec.close(kfuncs.transform_int_3d(0., 0., 1., PA, i), [np.sin(i), 0., np.cos(i)], 'tilt', what, **tol)
        # a circle in the plane of the galaxy is seen as an ellipse of axis ratio cos i along the major axis
        p = np.linspace(0., 2.*np.pi, 13)
        sky = M.T.dot(np.array([np.cos(p), np.sin(p), 0.*p]))
        a = -sky[0]*np.sin(t)+sky[1]*np.cos(t)
        b = sky[0]*np.cos(t)+sky[1]*np.sin(t)
        rec.close(a, np.sin(p), 'ellipse', 'along the major axis: '+what, rtol=0, atol=1e-12)
        rec.close(b, np.cos(i)*np.cos(p), 'ellipse', 'along the minor axis: '+what, rtol=0, atol=1e-12)
        rec.outcome(np.round(M, 9))
        if abs(i) < 1e-12 and PA % 360. == 0.:
            rec.close([X, Y, Z], [x, y, z], 'identity', what, **tol)


def do_model(case, rec):
    """The geometry the 2D model uses is that of the helpers."""
    for q, q0 in itertools.product((.1, .19, .4, .8, 1.), (.1, .19)):
        c = mk.conf(PA=case['PA'], q=q, q0=q0, nrows=4, nwave=5, m0=1.5, nsub=1, pad=.5)
        m = mk.aper2d(c)
        s = 1. if q < q0 else np.sqrt((1-q*q)/(1-q0*q0))
        i = np.arcsin(min(s, 1.))
        x, y, z = (np.asarray(getattr(m, k)) for k in ('x_arr_full', 'y_arr_full', 'z_arr_full'))
        t = np.radians(case['PA'])
        xp, yp = x*np.cos(t)+y*np.sin(t), -x*np.sin(t)+y*np.cos(t)
        rec.step()
        rec.state(case['PA'], q, q0)
        rec.trace()
        rec.outcome(round(i, 9))
        rec.close(m.sini, s, 'model', 'sin i of the model', rtol=1e-12)
        rec.close(m.xint, np.cos(i)*xp+np.sin(i)*z, 'model', 'galaxy plane x', rtol=0, atol=1e-7)
        rec.close(m.yint, yp, 'model', 'galaxy plane y', rtol=0, atol=1e-9)
        rec.close(m.zint, -np.sin(i)*xp+np.cos(i)*z, 'model', 'galaxy plane z', rtol=0, atol=1e-7)


def do_image(case, rec):
    from misfit.plot import plot_utils as pu
    PA = case['PA']
    t = np.radians(PA)
    pts = [[0., 0.], [3., 1.], [-2., 5.], [.5, -4.]]
    for x0, y0 in itertools.product((0., 2., -1.5), repeat=2):
        want = np.array([[x0+np.cos(t)*(a-x0)-np.sin(t)*(b-y0), y0+np.sin(t)*(a-x0)+np.cos(t)*(b-y0)] for a, b in pts])
        rec.step(3)
        rec.state(PA, x0, y0)
        rec.trace()
        rec.outcome(np.round(want, 6))
        xs, ys = pu.rot_corner_coords(pts, t, x0=x0, y0=y0)
        rec.close(np.array([xs, ys]).T, want, 'turn', 'corners turned by %s around %s' % (PA, (x0, y0)), rtol=0, atol=1e-11)
        for p, w in zip(pts, want):
            rec.close(pu.rot_coord_angle(p, t, x0=x0, y0=y0), w, 'turn', '%s turned by %s around %s' % (p, PA, (x0, y0)), rtol=0, atol=1e-11)
            rec.close(pu.rot_object_center(p[0], p[1], (x0, y0), t), w, 'turn', 'object %s turned by %s around %s' % (p, PA, (x0, y0)), rtol=0, atol=1e-11)
    for v in (float(PA), np.float64(PA)):
        for f, w in ((pu.y_sign_pos_angle, np.cos(t)), (pu.x_sign_pos_angle, np.sin(t))):
            w = 0. if abs(w) < 1e-12 else np.sign(w)
            rec.step()
            rec.check(f(v) == w, 'sign', '%s(%r) = %s, expected %s' % (f.__name__, v, f(v), w))


def do_header(case, rec):
    from misfit.plot import plot_utils as pu
    from astropy.wcs import WCS
    rec.check(pu.pstamp_position_angle({}) == 0., 'header', 'no orientation in the header')
    for PA in np.arange(-180., 181., 7.5):
        for scale in (1.7e-5, 1.):
            t = np.radians(PA)
            ct, st = np.cos(t), np.sin(t)
            ct, st = (0. if abs(v) < 1e-12 else v for v in (ct, st))
            h = {'CD1_1': -scale*ct, 'CD1_2': scale*st, 'CD2_1': scale*st, 'CD2_2': scale*ct}
            if st == 0.:
                del h['CD1_2'], h['CD2_1']
            if ct == 0.:
                del h['CD1_1'], h['CD2_2']
            got = pu.pstamp_position_angle(h)
            rec.step()
            rec.state(PA, scale)
            rec.trace()
            rec.outcome(round(float(got), 3))
            rec.check(abs((got-PA+180.) % 360.-180.) < 1e-7, 'header', 'y axis at position angle %s: %s' % (PA, got))


def do_sky(case, rec):
    from misfit.plot import plot_utils as pu
    from astropy.coordinates import SkyCoord
    import astropy.units as u
    n = 12 if case['fine'] else 6
    for ra, dec in itertools.product((0., 10., 150., 359.9), (-60., 0., 34., 80.)):
        for k in range(n):
            for r in (.3/3600., .01, 3.):
                a = SkyCoord(ra*u.deg, dec*u.deg)
                b = a.directional_offset_by((k*360./n+3.)*u.deg, r*u.deg)
                got = pu.pos_angle(a, b)
                rec.step()
                rec.state(ra, dec, k, r)
                rec.trace()
                want = (k*360./n+3.)
                rec.outcome(k, r)
                rec.check(abs((got-want+180.) % 360.-180.) < 1e-5, 'sky', 'position angle from %s to %s: %s, expected %s' % (a, b, got, want))
                rec.close(pu.pos_angle(a, b, units='radians'), np.radians(got), 'sky', 'radians', rtol=1e-12)
    try:
        pu.pos_angle(a, b, units='turns')
        rec.fail('sky', 'unknown units are accepted')
    except ValueError:
        pass


def do_runs(case, rec):
    """Splitting any set of indices into runs."""
    from misfit.general import general_utils as utils
    for bits in itertools.product((0, 1), repeat=case['n']):
        idx = [i for i, b in enumerate(bits) if b]
        want = [[i for i, _ in grp] for k, grp in itertools.groupby(enumerate(bits), key=lambda p: p[1]) if k]
        for arg in (idx, np.array(idx, dtype=int)):
            got = [[int(i) for i in a] for a in utils.wh_continuous(arg)]
            rec.step()
            rec.check(got == want, 'runs', 'runs of %s: %s' % (idx, got))
        rec.state(bits)
        rec.trace()
        rec.outcome(len(want))
