"""Independent direct-sum implementation of the 2D forward model (plain numpy, no misfit import)."""
import numpy as np

C = 299792.458
SIG = 2.*np.sqrt(2.*np.log(2.))


def sini(q, q0):
    return 1. if q < q0 else np.sqrt((1.-q*q)/(1.-q0*q0))


def ambiguous(c):
    """The kernel edge falls on a grid point: rounding may include or exclude it."""
    g = grid(c)
    return [abs(c['fwhm']/d - round(c['fwhm']/d)) < 1e-9 and c['fwhm'] > 0. for d in (g['dx'], g['dy'])]


def kernel(c, dx, dy):
    ex, ey = c.get('edge', (1, 1))
    nx = int(np.floor(c['fwhm']/dx + (1e-9 if ex else -1e-9)))
    ny = int(np.floor(c['fwhm']/dy + (1e-9 if ey else -1e-9)))
    nx, ny = max(nx, 0), max(ny, 0)
    k = np.zeros((2*ny+1, 2*nx+1))

    def f(x, y):
        if c['psf'] == 'Moffat':
            a = c['fwhm']/(2.*np.sqrt(2.**(1./c['beta'])-1.))
            return (c['beta']-1.)/(np.pi*a*a)*(1.+(x*x+y*y)/a**2)**(-c['beta'])
        return np.exp(-(x*x+y*y)/(2.*(c['fwhm']/SIG)**2))
    for j in range(-ny, ny+1):
        for i in range(-nx, nx+1):
            k[j+ny, i+nx] = f(i*dx, j*dy)
            if c['dither'] is not None:
                k[j+ny, i+nx] -= .5*(f(i*dx, j*dy+c['dither'])+f(i*dx, j*dy-c['dither']))
    return k


def conv_same(cube, k):
    """Direct 2D convolution over the last two axes, centred kernel, zero outside."""
    ny, nx = k.shape[0]//2, k.shape[1]//2
    Y, X = cube.shape[-2:]
    out = np.zeros_like(cube)
    for j in range(-ny, ny+1):
        for i in range(-nx, nx+1):
            y0, y1 = max(0, j), min(Y, Y+j)
            x0, x1 = max(0, i), min(X, X+i)
            if y0 < y1 and x0 < x1:
                out[..., y0:y1, x0:x1] += k[j+ny, i+nx]*cube[..., y0-j:y1-j, x0-i:x1-i]
    return out


def sigma_rules(c, dlam, lam0):
    """(upsample threshold or None, floor or None) in km/s."""
    unit = dlam/lam0*C if c['spec_type'] == 'wave' else dlam
    if c['upsample']:
        return unit/2.35, (0.75*unit/c['factor']/2.35 if c['floor'] else None)
    return None, (unit/2.35 if c['floor'] else None)


def grid(c):
    d = dict()
    dy = c['pixscale']/c['nsub']
    ny = c['nrows']*c['nsub']
    nx = int(np.ceil(c['slit']/dy - 1e-9))
    dx = c['slit']/nx
    py, px = int(np.round(c['fwhm']*c['pad']/dy)), int(np.round(c['fwhm']*c['pad']/dx))
    x = (np.arange(nx+2*px) - (nx+2*px-1)/2.)*dx - c['xc']
    z = (np.arange(ny) - (ny-1)/2.)*dy
    # whole pixel j is centred on j*pixscale
    y = (np.arange(ny+2*py) - py + .5)*dy - .5*c['pixscale'] - (c['m0']+c['m0_shift'])*c['pixscale']
    d.update(dy=dy, dx=dx, ny=ny, nx=nx, py=py, px=px, x=x, y=y, z=z)
    return d


def light(c, x, y, z):
    """Intensity and velocity-direction factor at slit coordinates x (across), y (along), z (line of sight)."""
    s = sini(c['q'], c['q0'])
    ci = np.sqrt(max(0., 1.-s*s))
    if s == 1.:
        ci = np.cos(np.arcsin(1.))
    a = np.deg2rad(c['PA'])
    xp, yp = x*np.cos(a)+y*np.sin(a), -x*np.sin(a)+y*np.cos(a)
    X, Z = xp*ci+z*s, -xp*s+z*ci
    R = np.sqrt(X*X+yp*yp)
    b = 2.*c['n']-0.324
    z0 = c['q0']*c['re']/(1. if c['intensity'] == 'fiducial' else 1.676)
    I = np.exp(-b*((R/c['re'])**(1./c['n'])-1.))*np.exp(-np.abs(Z)/z0)
    with np.errstate(invalid='ignore', divide='ignore'):
        cosphi = np.where(R == 0., 0., yp/np.where(R == 0., 1., R))
    V = 2./np.pi*c['Va']*np.arctan(R/c['rt'])*cosphi*s
    return I, V


def spectral_setup(c, wave):
    lam0 = c['lines'][0]*(1.+c['z']) if c['spec_type'] == 'wave' else 1.
    dlam = np.mean(np.diff(wave))
    up, floor = sigma_rules(c, dlam, lam0)
    sig = c['sigma']
    n = 1
    w = wave
    if up is not None and abs(sig) < up:
        n = int(round(c['factor']))
        w = (wave[:, None] + ((np.arange(n)-(n-1)/2.)/n*dlam)[None, :]).ravel()
    if c['absval']:
        sig = abs(sig)
    if floor is not None and abs(sig) < floor:
        sig = floor
    return w, n, sig, lam0, dlam/n


def model(c, wave, vshift=None, raw=False):
    g = grid(c)
    Y, X = g['y'], g['x']
    w, nup, sig, lam0, dw = spectral_setup(c, wave)
    zz, yy, xx = np.meshgrid(g['z'], Y, X, indexing='ij')
    I, V = light(c, xx, yy, zz)
    if vshift is not None:
        V = V + np.asarray(vshift)[None, :, None]
    cube = np.zeros((len(w), len(Y), len(X)))
    lines = list(zip(c['lines'], c['ratios'])) if c['spec_type'] == 'wave' else [(None, 1.)]
    for rest, ratio in lines:
        if rest is None:
            mu, s = V, sig
        else:
            L = rest*(1.+c['z'])
            mu, s = L*(1.+V/C), L*sig/C
        if s != 0.:
            for k in range(len(w)):
                cube[k] += ratio*np.sum(I*np.exp(-(w[k]-mu)**2/(2.*s*s))/(s*np.sqrt(2.*np.pi)), axis=0)*g['dy']
        else:
            idx = np.argmin(np.abs(mu[..., None]-w), axis=-1)
            for k in range(len(w)):
                cube[k] += ratio*np.sum(I*(idx == k), axis=0)*g['dy']/dw
    if c['fwhm'] > 0.:
        conv = conv_same(cube, kernel(c, g['dx'], g['dy']))
        conv *= cube.sum()/conv.sum()
    else:
        conv = cube
    sl = conv[:, g['py']:g['py']+g['ny'], g['px']:g['px']+g['nx']]
    if raw:
        return sl, g, w
    out = sl.sum(axis=2)*g['dx']
    if c['rebin']:
        out = out.reshape(len(w), c['nrows'], c['nsub']).sum(axis=2)
    sres = c['res']/C*lam0 if c['spec_type'] == 'wave' else c['res']
    if sres > 0.:
        # odd kernel sampled on the grid, as long as the grid
        m = (len(w)-1)//2 if len(w) % 2 else (len(w)-2)//2
        off = np.arange(-m, m+1)
        ker = np.exp(-(off*dw)**2/(2.*sres**2))
        tot = out.sum()
        new = np.zeros_like(out)
        for o, kv in zip(off, ker):
            a, b = max(0, o), min(len(w), len(w)+o)
            if a < b:
                new[a:b] += kv*out[a-o:b-o]
        out = new*tot/new.sum()
    if nup > 1:
        out = out.reshape(len(wave), nup, out.shape[1]).mean(axis=1)
    return out.T
