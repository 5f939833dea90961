"""Inputs for metacal and an independent construction of its images."""
import numpy as np
import galsim
import ngmix

STEP = 0.01


def make_obs(rng, n=21, npsf=15, wcs=None, off=(0., 0.), zero=False,
             noise=True, meta=None):
    """a small galaxy with a psf, on a general transform"""
    if wcs is None:
        wcs = (0.26, 0.01, -0.02, 0.25)
    jw = galsim.JacobianWCS(*wcs)
    psf = galsim.Moffat(beta=3.0, half_light_radius=0.45).shear(
        g1=0.02, g2=-0.03)
    gal = galsim.Convolve(
        galsim.Gaussian(half_light_radius=0.5, flux=10).shear(g1=.1, g2=.05)
        .shift(*off), psf)
    pim = psf.drawImage(nx=npsf, ny=npsf, wcs=jw).array.astype('f8')
    pim += rng.normal(scale=1e-5, size=pim.shape)
    im = gal.drawImage(nx=n, ny=n, wcs=jw).array.astype('f8')
    im += rng.normal(scale=0.01, size=im.shape)
    dudcol, dudrow, dvdcol, dvdrow = wcs
    kw = dict(dudcol=dudcol, dudrow=dudrow, dvdcol=dvdcol, dvdrow=dvdrow)
    wt = np.full(im.shape, 1e4) * rng.uniform(0.5, 2.0, size=im.shape)
    if zero:
        wt[2, 3] = 0.0
        wt[5, :] = 0.0
        if zero == 'tiny':
            # next to nothing is not nothing
            wt[4, 2:9] *= 4. ** -20
    pobs = ngmix.Observation(
        pim, weight=np.full(pim.shape, 1e10),
        jacobian=ngmix.Jacobian(row=(npsf - 1) / 2 + 0.2,
                                col=(npsf - 1) / 2 - 0.1, **kw),
        meta={'p': 1})
    return ngmix.Observation(
        im, weight=wt, psf=pobs,
        jacobian=ngmix.Jacobian(row=(n - 1) / 2 + off[1] / .25,
                                col=(n - 1) / 2 + off[0] / .26, **kw),
        noise=rng.normal(scale=0.01, size=im.shape) if noise else None,
        meta=meta or {'m': 1})


def nest(kind, rng, **kw):
    if kind == 'obs':
        return make_obs(rng, **kw)
    if kind == 'list':
        ol = ngmix.ObsList()
        ol.append(make_obs(rng, **kw))
        ol.append(make_obs(rng, n=17, wcs=(0.2, 0., 0., 0.2), **kw))
        return ol
    mb = ngmix.MultiBandObsList()
    for b, wcs in enumerate(((0.26, 0.01, -0.02, 0.25), (-.2, .03, .01, .22))):
        ol = ngmix.ObsList()
        for e in range(2 - b):
            ol.append(make_obs(rng, n=19 + 2 * b, wcs=wcs, **kw))
        mb.append(ol)
    return mb


def flat(obs):
    if isinstance(obs, ngmix.Observation):
        return [obs]
    if isinstance(obs, ngmix.ObsList):
        return list(obs)
    return [o for ol in obs for o in ol]


def shape(obs):
    if isinstance(obs, ngmix.Observation):
        return 'obs'
    if isinstance(obs, ngmix.ObsList):
        return ['list', len(obs)]
    return ['mb'] + [len(x) for x in obs]


def jacpars(j):
    return (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol)


def snapshot(obs):
    """everything observable of the input"""
    out = [shape(obs)]
    for o in flat(obs):
        for x in [o] + ([o.psf] if o.has_psf() else []):
            out.append((x.image.tobytes(), x.weight.tobytes(),
                        x.image.shape, jacpars(x.jacobian),
                        sorted(str(k) for k in x.meta),
                        x.noise.tobytes() if x.has_noise() else None,
                        x.gmix.get_full_pars().tobytes() if x.has_gmix()
                        else None, x.pixels.tobytes()
                        if x.pixels is not None else None,
                        x.has_psf(), x.has_bmask(), x.has_ormask(),
                        sorted(k for k in vars(x))))
    return out


class Ref(object):
    """metacal images from their definition, with galsim"""

    def __init__(self, obs, image=None):
        w = obs.jacobian.get_galsim_wcs()
        pw = obs.psf.jacobian.get_galsim_wcs()
        self.wcs, self.pwcs = w, pw
        im = np.array(obs.image if image is None else image)
        self.shape = im.shape
        self.pim = np.array(obs.psf.image)
        ii = galsim.InterpolatedImage(galsim.Image(im, wcs=w),
                                      x_interpolant='lanczos15')
        self.psf = galsim.InterpolatedImage(galsim.Image(self.pim, wcs=pw),
                                            x_interpolant='lanczos15')
        self.nopsf = galsim.Convolve(ii, galsim.Deconvolve(self.psf))
        self.pixel = w.toWorld(galsim.Pixel(scale=1))
        self.psf_nopix = galsim.Convolve(self.psf,
                                         galsim.Deconvolve(self.pixel))

    def dilated(self, step, psfshear=(0, 0)):
        p = self.psf_nopix.dilate(1 + 2 * abs(step))
        if psfshear != (0, 0):
            p = p.shear(g1=psfshear[0] * step, g2=psfshear[1] * step)
        return galsim.Convolve(p, self.pixel)

    def image(self, target, shear, step):
        g = self.nopsf
        if tuple(shear) != (0, 0):
            g = g.shear(g1=shear[0] * step, g2=shear[1] * step)
        im = galsim.Convolve(g, target)
        return im.drawImage(nx=self.shape[1], ny=self.shape[0], wcs=self.wcs,
                            dtype=float, method='no_pixel').array

    def psf_image(self, target):
        return target.drawImage(nx=self.pim.shape[1], ny=self.pim.shape[0],
                                wcs=self.pwcs, method='no_pixel',
                                dtype=float).array

    def gauss_sigma(self):
        """the round gaussian just smaller than the psf in Fourier space"""
        dk = self.psf.stepk / 4.0
        k = self.psf.drawKImage(scale=dk).real.array
        n = k.shape[0]
        kx, ky = np.meshgrid(np.arange(-n / 2, n / 2),
                             np.arange(-n / 2, n / 2))
        ksq = ((kx ** 2 + ky ** 2) * dk ** 2)[k < 1e-2 * self.psf.flux].min()
        return np.sqrt(-2 * np.log(3e-3) / ksq)
