"""C29: the same scene on other pixel grids and in other sky coordinates."""
import copy
import random

import galsim
import numpy as np
import ngmix
from ngmix import priors
from ngmix.fitting import (Fitter, CoellipFitter, PSFFluxFitter, GalsimFitter,
                           GalsimPSFFluxFitter)
from ngmix.gaussmom import GaussMom
from ngmix.prepsfmom import KSigmaMom, PGaussMom
from ngmix.admom import AdmomFitter
from ngmix.em import EMFitter
from ngmix.gexceptions import FFTRangeError

from . import tlc, gmref
from .c06 import raw
from .report import shard

# dvdrow, dvdcol, dudrow, dudcol
JACS = [[[1, 4], [1, 50], [-1, 40], [27, 100]],
        [[1, 1], [0, 1], [0, 1], [1, 1]],
        [[-1, 50], [13, 50], [1, 4], [1, 40]],
        [[1, 5], [1, 20], [-1, 25], [-11, 50]],
        [[-3, 10], [1, 50], [3, 100], [7, 25]],
        [[1, 2], [1, 4], [1, 8], [3, 4]]]
# powers of two
UNITS = [-22, -16, -8], [10, 20]
OFFS = [[[1, 5], [-3, 10]], [[0, 1], [0, 1]], [[-1, 2], [1, 4]],
        [[2, 5], [1, 10]]]


def q(x):
    return x[0] / x[1]


def mat(m):
    return np.array([q(x) for x in m]).reshape(2, 2)


class Frame:
    """what the specification says about one way of looking at the scene"""

    def __init__(self, rec):
        for k in ('tr', 'flr', 'flc', 'turned', 'scaled', 'moved'):
            setattr(self, k, rec[k])
        self.jac = mat(rec['jac'])
        self.off = np.array([q(x) for x in rec['off']])
        self.sky = mat(rec['sky'])
        self.sh = np.array([q(x) for x in rec['sh']])
        self.k2 = q(rec['k2'])
        # in the unit of the sky the specification tells
        unit = 2. ** rec['pow']
        self.jac, self.sky, self.sh = (
            x * unit for x in (self.jac, self.sky, self.sh))
        self.k2 *= unit ** 2
        self.shape = mat(rec['shape'])
        self.k = np.sqrt(self.k2)
        self.text = 'tr=%s flr=%s flc=%s sky=%s shift=%s' % (
            self.tr, self.flr, self.flc, self.sky.ravel().tolist(),
            self.sh.tolist())

    def pixels(self, im):
        if self.tr:
            im = im.T
        if self.flr:
            im = im[::-1]
        if self.flc:
            im = im[:, ::-1]
        return im.copy()

    def offset(self, off):
        """of something which does not move with the centre"""
        off = np.array(off, dtype='f8')
        if self.tr:
            off = off[::-1]
        return off * [-1 if self.flr else 1, -1 if self.flc else 1]

    def jacobian(self, shape, off):
        return ngmix.Jacobian(
            row=(shape[0] - 1) / 2 + off[0], col=(shape[1] - 1) / 2 + off[1],
            dvdrow=self.jac[0, 0], dvdcol=self.jac[0, 1],
            dudrow=self.jac[1, 0], dudcol=self.jac[1, 1])

    def cen(self, c):
        return self.sky @ np.asarray(c) + self.sh

    def gmix(self, p, move=True):
        """p: components (p, v, u, vv, vu, uu)"""
        out = []
        for f, v, u, vv, vu, uu in np.reshape(p, (-1, 6)):
            c = self.sky @ [v, u] + (self.sh if move else 0)
            m = self.sky @ [[vv, vu], [vu, uu]] @ self.sky.T
            out += [f, c[0], c[1], m[0, 0], m[0, 1], m[1, 1]]
        return np.array(out)

    def pars(self, p, order='vu', kind='T'):
        """centre, shape, size, rest"""
        p = np.array(p, dtype='f8')
        c = p[:2] if order == 'vu' else p[1::-1]
        c = self.cen(c)
        p[:2] = c if order == 'vu' else c[::-1]
        p[2:4] = self.shape @ p[2:4]
        p[4] *= self.k2 if kind == 'T' else self.k
        return p

    def jac_pars(self, n, order='vu', kind='T', nsize=1):
        j = np.eye(n)
        a = self.sky if order == 'vu' else self.sky[::-1, ::-1]
        j[:2, :2] = a
        j[2:4, 2:4] = self.shape
        for i in range(nsize):
            j[4 + i, 4 + i] = self.k2 if kind == 'T' else self.k
        return j

    def jac_sums(self):
        """v, u, M1, M2, T, flux"""
        j = np.zeros((6, 6))
        j[:2, :2] = self.sky
        j[2:4, 2:4] = self.shape * self.k2
        j[4, 4] = self.k2
        j[5, 5] = 1
        return j


class Scene:
    """a scene and its observation in any frame"""

    def __init__(self, rng, gen, start, square, smooth=False):
        j = start.jac
        pix = np.sqrt(abs(np.linalg.det(j)))
        self.pix = pix
        nr = rng.randint(23, 28)
        nc = nr if square else rng.randint(23, 28)
        pd = rng.randint(17, 22)
        self.shape, self.pshape = (nr, nc), (pd, pd if square else pd - 1)
        self.poff = gen.uniform(-.4, .4, size=2)
        self.cen = gen.uniform(-.6, .6, size=2) * pix
        self.g = gen.uniform(-.35, .35, size=2)
        self.T = (gen.uniform(1.8, 2.5) * pix) ** 2 * 2
        self.flux = gen.uniform(50, 200)
        e1, e2 = self.g * 2 / (1 + (self.g ** 2).sum())
        self.obj = np.array([self.flux, *self.cen, self.T / 2 * (1 - e1),
                             self.T / 2 * e2, self.T / 2 * (1 + e1)])
        tp = (gen.uniform(1.3, 1.6) * pix) ** 2 * 2
        p1, p2 = gen.uniform(-.08, .08, size=2)
        self.psf = np.array([1., 0, 0, tp / 2 * (1 - p1), tp / 2 * p2,
                             tp / 2 * (1 + p1)])
        if rng.random() < .5:
            self.psf = np.concatenate([
                self.psf * [.7, 1, 1, 1, 1, 1],
                self.psf * [.3, 1, 1, 1.7, 1.7, 1.7]])
        # evaluated in the first frame: nothing of ngmix is used
        conv = []
        for f in self.psf.reshape(-1, 6):
            conv.append([self.obj[0] * f[0] / self.psf[::6].sum()]
                        + list(self.obj[1:3]) + list(self.obj[3:] + f[3:]))
        self.conv = np.array(conv).ravel()
        im = gmref.evaluate(conv, *self.where(start, self.shape, start.off),
                            area=pix ** 2)
        s2n = gen.uniform(60, 200)
        noise = np.sqrt((im ** 2).sum()) / s2n
        var = noise ** 2 * (gen.uniform(.6, 1.4, size=im.shape)
                            if not smooth else 1.)
        self.im = im + gen.normal(size=im.shape) * np.sqrt(var)
        self.wt = 1 / (var * np.ones(im.shape))
        if not smooth:
            for _ in range(rng.randint(1, 5)):
                r, c = rng.randrange(nr), rng.randrange(nc)
                self.wt[r, c] = 0
        self.pim = gmref.evaluate(
            self.psf.reshape(-1, 6), *self.where(start, self.pshape,
                                                 self.poff), area=pix ** 2)
        self.noise = noise
        self.nim = gen.normal(size=im.shape) * np.sqrt(var)
        self.bmask = gen.randint(0, 3, size=im.shape).astype('i4')

    @staticmethod
    def where(fr, shape, off):
        rr, cc = np.mgrid[0:shape[0], 0:shape[1]]
        rr = rr - (shape[0] - 1) / 2 - off[0]
        cc = cc - (shape[1] - 1) / 2 - off[1]
        return (fr.jac[0, 0] * rr + fr.jac[0, 1] * cc,
                fr.jac[1, 0] * rr + fr.jac[1, 1] * cc)

    def obs(self, fr, gmix=True):
        im, wt = fr.pixels(self.im), fr.pixels(self.wt)
        pim = fr.pixels(self.pim)
        psf = ngmix.Observation(
            pim, weight=np.full(pim.shape, 1e6),
            jacobian=fr.jacobian(pim.shape, fr.offset(self.poff)))
        if gmix:
            psf.set_gmix(ngmix.GMix(pars=fr.gmix(self.psf, move=False)))
        return ngmix.Observation(
            im, weight=wt, jacobian=fr.jacobian(im.shape, fr.off), psf=psf,
            noise=fr.pixels(self.nim), bmask=fr.pixels(self.bmask))


class Diff:
    """what does not follow the specification"""

    def __init__(self):
        self.bad = []

    def near(self, name, got, want, tol):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.bad.append('%s has shape %r, not %r' % (
                name, got.shape, want.shape))
            return
        with np.errstate(all='ignore'):
            d = np.abs(got - want)
            ok = (d <= tol) | (np.isnan(got) & np.isnan(want)) | (got == want)
        if not np.all(ok):
            self.bad.append('%s is %r, not %r' % (
                name, np.round(got, 10).tolist() if got.size < 50
                else 'off by up to %g' % np.nanmax(d),
                np.round(want, 10).tolist() if want.size < 50
                else 'the same within %g' % np.max(tol)))

    def rel(self, name, got, want, rel):
        self.near(name, got, want, rel * np.max(np.abs(want)))

    def cov(self, name, got, want, rel):
        d = np.sqrt(np.abs(np.diag(want)))
        self.near(name, got, want, rel * np.outer(d, d))


# every measurement: (scene, frame, obs) -> result of which `compare` knows
# what follows from the first frame

def pixelwise(d, sc, f0, f1, o0, o1, rng):
    """evaluating a given mixture"""
    p0 = sc.conv * np.tile([1.05, 1, 1, 1.1, 1.1, 1.1], len(sc.conv) // 6)
    g0, g1 = ngmix.GMix(pars=p0), ngmix.GMix(pars=f1.gmix(p0))
    for fast in (True, False):
        # the fast exponential only has so many digits
        rel = 2e-4 if fast else 1e-9
        i0 = g0.make_image(o0.image.shape, jacobian=o0.jacobian, fast_exp=fast)
        i1 = g1.make_image(o1.image.shape, jacobian=o1.jacobian,
                           fast_exp=fast)
        d.near('image (fast %s)' % fast, i1, f1.pixels(i0),
               rel * abs(i1) + 4e-6 * i0.max() * fast + 1e-12 * i0.max())
    d.rel('s2n', o1.get_s2n(), o0.get_s2n(), 1e-9)
    l0 = g0.get_loglike(o0, more=True)
    l1 = g1.get_loglike(o1, more=True)
    for n in ('loglike', 's2n_numer', 's2n_denom', 'npix'):
        d.rel(n, l1[n], l0[n], 2e-4)
    fd0, fd1 = np.zeros(o0.image.size), np.zeros(o1.image.size)
    g0.fill_fdiff(o0, fd0)
    g1.fill_fdiff(o1, fd1)
    fd0, fd1 = fd0[:o0.pixels.size], fd1[:o1.pixels.size]
    m0 = np.zeros(sc.shape)
    m0[o0.weight > 0] = fd0
    m1 = f1.pixels(m0)
    d.near('residuals', fd1, m1[o1.weight > 0], 1e-3 + 1e-4 * abs(fd1))
    ap = rng.uniform(2, 6) * sc.pix
    for kw in ('fwhm', 'sigma', 'T'):
        n = 2 if kw == 'T' else 1
        d.rel('flux in an aperture (%s)' % kw,
              g1.get_gaussap_flux(**{kw: (ap * f1.k) ** n}),
              g0.get_gaussap_flux(**{kw: ap ** n}), 1e-9)
    d.near('centre of the mixture', g1.get_cen(), f1.cen(g0.get_cen()),
           1e-9 * sc.pix * f1.k)
    d.rel('T of the mixture', g1.get_T(), g0.get_T() * f1.k2, 1e-9)
    e0, e1 = g0.get_e1e2T(), g1.get_e1e2T()
    d.near('e of the mixture', e1[:2], f1.shape @ e0[:2], 1e-9)
    h0, h1 = g0.get_g1g2T(), g1.get_g1g2T()
    d.near('g of the mixture', h1[:2], f1.shape @ h0[:2], 1e-9)
    ps0, ps1 = (o.psf.gmix for o in (o0, o1))
    d.near('convolved mixture', g1.convolve(ps1).get_full_pars().reshape(-1, 6),
           f1.gmix(g0.convolve(ps0).get_full_pars()).reshape(-1, 6),
           1e-9 * np.array([sc.flux, *[sc.pix * f1.k] * 2,
                            *[sc.T * f1.k2] * 3]))
    w0 = ngmix.GMix(pars=sc.conv)
    w1 = ngmix.GMix(pars=f1.gmix(sc.conv))
    s0 = w0.get_weighted_moments(o0)
    s1 = w1.get_weighted_moments(o1)
    for n in ('flags', 'T', 's2n'):
        if n == 'T':
            d.rel(n, s1[n], s0[n] * f1.k2, 1e-3)
        else:
            d.rel('weighted ' + n, s1[n], s0[n], 1e-3)
    d.near('weighted e', s1['e'], f1.shape @ s0['e'], 1e-3)


def gaussmom(d, sc, f0, f1, o0, o1, rng):
    fw = rng.uniform(4, 7) * sc.pix
    r0 = GaussMom(fw).go(o0)
    r1 = GaussMom(fw * f1.k).go(o1)
    moments(d, f1, r0, r1, 3e-4)


def moments(d, f1, r0, r1, rel, lo=0):
    if r0['flags'] or r1['flags']:
        d.near('flags', r1['flags'], r0['flags'], 0)
        return
    # before the psf there is no centroid
    j = f1.jac_sums()[lo:, lo:]
    c0, c1 = r0['sums_cov'][lo:, lo:], r1['sums_cov'][lo:, lo:]
    want = j @ c0 @ j.T
    d.cov('sums_cov', c1, want, rel)
    s0, s1 = r0['sums'][lo:], r1['sums'][lo:]
    d.near('sums', s1, j @ s0,
           rel * (abs(j) @ abs(s0)) + 1e-3 * np.sqrt(np.diag(want)))
    d.rel('T', r1['T'], r0['T'] * f1.k2, rel * 5)
    d.rel('T_err', r1['T_err'], r0['T_err'] * f1.k2, rel * 5)
    d.rel('flux', r1['flux'], r0['flux'], rel * 5)
    d.rel('flux_err', r1['flux_err'], r0['flux_err'], rel * 5)
    d.rel('s2n', r1['s2n'], r0['s2n'], rel * 5)
    d.near('e', r1['e'], f1.shape @ r0['e'], rel * 5)
    shapes_err(d, f1, r0, r1, rel * 10)


def shapes_err(d, f1, r0, r1, rel):
    """the errors of the two components; how they vary together is not told"""
    if not f1.turned:
        d.rel('e_err', r1['e_err'], r0['e_err'], rel)
        d.cov('e_cov', r1['e_cov'], f1.shape @ r0['e_cov'] @ f1.shape.T, rel)


def prepsf(kind):
    def meas(d, sc, f0, f1, o0, o1, rng):
        cls = {'ksigma': KSigmaMom, 'pgauss': PGaussMom}[kind]
        # wide enough for the longest side of a pixel
        fw = rng.uniform(9, 11) * np.linalg.norm(f0.jac, 2) / 2
        kw = dict(pad_factor=rng.choice([2, 4]))
        if rng.random() < .4:
            kw['fwhm_smooth'] = fw / 2
        k1 = dict(kw)
        if 'fwhm_smooth' in kw:
            k1['fwhm_smooth'] *= f1.k
        try:
            r0 = cls(fw, **kw).go(o0)
            r1 = cls(fw * f1.k, **k1).go(o1)
        except FFTRangeError:
            # the grid is refused, now and then for what is left of one pixel
            return
        moments(d, f1, r0, r1, 1e-3, 2)
    return meas


def admom(d, sc, f0, f1, o0, o1, rng):
    kw = dict(maxiter=1000, etol=1e-9, Ttol=1e-9, cenonly=rng.random() < .2)
    # a distance on the sky
    s = rng.choice([5., 3.]) * sc.pix
    p0 = sc.conv[:6] * [1, 1, 1, 1.1, 1.1, 1.1]
    g0, g1 = ngmix.GMix(pars=p0), ngmix.GMix(pars=f1.gmix(p0))
    r0 = AdmomFitter(shiftmax=s, **kw).go(o0, g0)
    r1 = AdmomFitter(shiftmax=s * f1.k, **kw).go(o1, g1)
    d.near('flags', r1['flags'], r0['flags'], 0)
    if r0['flags'] or r1['flags']:
        return
    T0 = r0['T']
    d.near('centre', r1['pars'][:2], f1.cen(r0['pars'][:2]),
           3e-4 * np.sqrt(T0) * f1.k)
    d.rel('T', r1['T'], T0 * f1.k2, 2e-3)
    d.rel('T_err', r1['T_err'], r0['T_err'] * f1.k2, 5e-3)
    d.near('e', r1['e'], f1.shape @ r0['e'], 1e-3)
    shapes_err(d, f1, r0, r1, 1e-2)
    d.rel('flux', r1['flux'], r0['flux'], 1e-3)
    d.rel('flux_err', r1['flux_err'], r0['flux_err'], 2e-3)
    d.rel('s2n', r1['s2n'], r0['s2n'], 2e-3)
    d.rel('rho4', r1['rho4'], r0['rho4'], 2e-3)
    i0, i1 = r0.get_gmix().get_full_pars(), r1.get_gmix().get_full_pars()
    d.near('mixture', i1, f1.gmix(i0), 3e-3 * np.abs(f1.gmix(i0)).max())
    d.near('image', r1.make_image(), f1.pixels(r0.make_image()),
           4e-3 * r0.make_image().max())


def prior_for(model, sc, fr, rng):
    k = fr.k
    c = fr.cen([0., 0.])
    cen = priors.CenPrior(c[0], c[1], sc.pix * k, sc.pix * k, rng=rng)
    g = priors.GPriorBA(.3, rng=rng)
    T = priors.LogNormal(sc.T * fr.k2, .5 * sc.T * fr.k2, rng=rng)
    F = priors.LogNormal(sc.flux, .5 * sc.flux, rng=rng)
    if model == 'bdf':
        return ngmix.joint_prior.PriorBDFSep(
            cen, g, T, priors.Normal(.5, .1, rng=rng), F)
    return ngmix.joint_prior.PriorSimpleSep(cen, g, T, F)


def fit_close(d, f1, r0, r1, order='vu', kind='T', nsize=1, ctol=.08, tol=.03):
    d.near('flags', r1['flags'], r0['flags'], 0)
    if r0['flags'] or r1['flags']:
        return
    n = len(r0['pars'])
    j = f1.jac_pars(n, order, kind, nsize)
    cov = j @ r0['pars_cov'] @ j.T
    err = np.sqrt(np.diag(cov))
    want = f1.pars(r0['pars'], order, kind)
    if nsize > 1:
        want[4:4 + nsize] = r0['pars'][4:4 + nsize] * f1.k2
    d.near('pars', r1['pars'], want, tol * err)
    d.cov('pars_cov', r1['pars_cov'], cov, ctol)
    for n in ('s2n', 's2n_w'):
        if n in r0:
            d.rel(n, r1[n], r0[n], 2e-3)
    for n in ('dof', 'npix'):
        if n in r0:
            d.near(n, r1[n], r0[n], 0)
    if 'flux' in r0:
        d.near('flux', r1['flux'], r0['flux'], tol * err[-1])
        d.rel('flux_err', r1['flux_err'], r0['flux_err'], ctol)
    if 'T' in r0:
        d.near('T', r1['T'], r0['T'] * f1.k2, tol * err[4])
    if 'g' in r0:
        d.near('g', r1['g'], f1.shape @ r0['g'], tol * err[2])
    if 'lnprob' in r0:
        # the prior adds what does not depend on the parameters
        d.near('log likelihood', r1['lnprob'] - r1['lnp0'],
               r0['lnprob'] - r0['lnp0'], 5e-2)


def constant(prior, p):
    return 0. if prior is None else float(prior.get_lnprob_scalar(p))


def lm(model):
    def meas(d, sc, f0, f1, o0, o1, rng):
        gen = np.random.RandomState(rng.randrange(2 ** 31))
        p0 = np.array([*(sc.cen + .1 * sc.pix), *(sc.g + .03), sc.T * 1.1,
                       sc.flux * .9])
        if model == 'bdf':
            p0 = np.concatenate([p0[:5], [.5], p0[5:]])
        with_prior = model == 'bdf' or rng.random() < .4
        pr = [prior_for(model, sc, f, gen) if with_prior else None
              for f in (f0, f1)]
        p1 = f1.pars(p0)
        a, b = o0, o1
        if rng.random() < .3:
            # several bands
            a, b = ngmix.MultiBandObsList(), ngmix.MultiBandObsList()
            for m, o in ((a, o0), (b, o1)):
                ol = ngmix.ObsList()
                ol.append(o)
                m.append(ol)
        r0 = Fitter(model, prior=pr[0]).go(a, p0)
        r1 = Fitter(model, prior=pr[1]).go(b, p1)
        d.near('log likelihood at the guess',
               r1.calc_lnprob(p1) - constant(pr[1], p1),
               r0.calc_lnprob(p0) - constant(pr[0], p0), 2e-2)
        if r0['flags'] == 0 == r1['flags']:
            r0['lnp0'] = constant(pr[0], r0['pars'])
            r1['lnp0'] = constant(pr[1], r1['pars'])
        fit_close(d, f1, r0, r1)
        if r0['flags'] == 0 == r1['flags']:
            d.near('image', r1.make_image(), f1.pixels(r0.make_image()),
                   3e-3 * r0.make_image().max())
    return meas


def coellip(d, sc, f0, f1, o0, o1, rng):
    ng = len(sc.psf) // 6
    o0, o1 = copy.copy(o0), copy.copy(o1)
    t = [sc.T * .8, sc.T * 1.6][:ng]
    fl = [sc.flux * .6, sc.flux * .4][:ng]
    p0 = np.array([*sc.cen, *sc.g, *t, *fl])
    p1 = f1.pars(p0)
    p1[4:4 + ng] = p0[4:4 + ng] * f1.k2
    r0 = CoellipFitter(ng).go(o0, p0)
    r1 = CoellipFitter(ng).go(o1, p1)
    w = p0.copy()
    w[:] = f1.pars(p0)
    w[4:4 + ng] = p0[4:4 + ng] * f1.k2
    d.near('log likelihood at the guess', r1.calc_lnprob(w),
           r0.calc_lnprob(p0), 2e-2)
    if ng > 1 or r0['flags'] or r1['flags']:
        # two nearly alike: there is not one best fit
        return
    r0['lnp0'] = r1['lnp0'] = 0.
    fit_close(d, f1, r0, r1, nsize=ng)


def template(d, sc, f0, f1, o0, o1, rng):
    o0, o1 = copy.deepcopy(o0), copy.deepcopy(o1)
    for kw in (dict(), dict(do_psf=True)):
        r0, r1 = PSFFluxFitter(**kw).go(o0), PSFFluxFitter(**kw).go(o1)
        for n in ('flux', 'flux_err', 'chi2per', 'dof', 'flags', 's2n_w'):
            if n in r0:
                d.rel(n, r1[n], r0[n], 1e-3)


def gs_template(d, sc, f0, f1, o0, o1, rng):
    r0, r1 = GalsimPSFFluxFitter().go(o0), GalsimPSFFluxFitter().go(o1)
    d.near('flags', r1['flags'], r0['flags'], 0)
    d.near('flux', r1['flux'], r0['flux'], .01 * r0['flux_err'] + 1e-3
           * abs(r0['flux']))
    d.rel('flux_err', r1['flux_err'], r0['flux_err'], 2e-3)


def gs_fit(d, sc, f0, f1, o0, o1, rng):
    model = rng.choice(['gauss', 'exp'])
    p0 = np.array([*sc.cen[::-1], *sc.g, np.sqrt(sc.T / 2) * 1.17,
                   sc.flux])
    p1 = f1.pars(p0, 'uv', 'r')
    r0 = GalsimFitter(model).go(o0, p0)
    r1 = GalsimFitter(model).go(o1, p1)
    if r0['flags'] == 0 == r1['flags']:
        r0['lnp0'] = r1['lnp0'] = 0.
        # the grid of modes, and how many of them there are, is not the same in
        # every frame: one factor for all errors is not told
        j = f1.jac_pars(6, 'uv', 'r')
        fac = np.median(np.diag(r1['pars_cov'])
                        / np.diag(j @ r0['pars_cov'] @ j.T))
        if not 1 / 4 < fac < 4:
            d.bad.append('errors are %g times what they were' % fac ** .5)
        r1 = dict(r1)
        r1['pars_cov'] = r1['pars_cov'] / fac
        r1['flux_err'] = r1['flux_err'] / fac ** .5
    fit_close(d, f1, r0, r1, 'uv', 'r', ctol=.1, tol=.2)


def em(d, sc, f0, f1, o0, o1, rng):
    sky = 0.1 * o0.image.max() + max(0, -o0.image.min())
    a, b = copy.deepcopy(o0), copy.deepcopy(o1)
    a.image = o0.image + sky
    b.image = o1.image + sky
    p0 = sc.conv * np.tile([1, 1, 1, 1.1, 1.1, 1.1], len(sc.conv) // 6)
    g0, g1 = ngmix.GMix(pars=p0), ngmix.GMix(pars=f1.gmix(p0))
    kw = dict(maxiter=rng.choice([3, 40]), tol=1e-9)
    r0 = EMFitter(**kw).go(a, g0, sky=sky)
    r1 = EMFitter(**kw).go(b, g1, sky=sky)
    d.near('numiter', r1['numiter'], r0['numiter'], 1)
    if r0['numiter'] != r1['numiter'] or not r0.has_gmix():
        return
    q0, q1 = r0.get_gmix().get_full_pars(), r1.get_gmix().get_full_pars()
    w = f1.gmix(q0)
    for i in range(6):
        d.near('mixture column %d' % i, q1[i::6], w[i::6], 5e-3 * (
            np.abs(w[3::6]).max() if i > 2 else np.sqrt(
                np.abs(w[3::6]).max()) if i > 0 else abs(w[0::6]).max()))
    d.rel('sky', r1['sky'], r0['sky'], 1e-3)


PAIRS = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}


def metacal(d, sc, f0, f1, o0, o1, rng):
    psf = rng.choice(['gauss', 'fitgauss', 'dilate', 'given'])
    if psf in ('gauss', 'dilate') and f1.turned:
        # the size is looked for along the axes
        psf = 'given'
    types = ['noshear', '1p', '1m', '2p', '2m']
    out = []
    for f, o in ((f0, o0), (f1, o1)):
        p = psf
        if psf == 'given':
            p = galsim.Gaussian(fwhm=5.5 * sc.pix * f.k)
        out.append(ngmix.metacal.get_all_metacal(
            o, psf=p, fixnoise=False, types=list(types),
            rng=np.random.RandomState(5)))
    tol = 8e-2 if psf == 'gauss' else 3e-3
    for t in types:
        if t == 'noshear':
            t1 = t
        else:
            s = f1.shape @ PAIRS[t]
            t1 = [n for n in PAIRS if np.allclose(PAIRS[n], s)]
            if not t1:
                # sheared in a direction which is not one of the types
                continue
            t1 = t1[0]
        i0, i1 = out[0][t].image, out[1][t1].image
        m = i0.max()
        d.near('%s as %s (psf %s)' % (t, t1, psf), i1, f1.pixels(i0), tol * m)
        p0, p1 = out[0][t].psf.image, out[1][t1].psf.image
        d.near('psf of %s as %s (psf %s)' % (t, t1, psf), p1, f1.pixels(p0),
               tol * p0.max())
        d.near('weight of %s' % t, out[1][t1].weight,
               f1.pixels(out[0][t].weight), 0)


def kobs(d, sc, f0, f1, o0, o1, rng):
    k0 = ngmix.observation.make_kobs(o0)[0][0]
    k1 = ngmix.observation.make_kobs(o1)[0][0]
    if k0.kimage.scale != k1.kimage.scale or (
            k0.kimage.array.shape != k1.kimage.array.shape):
        # another grid
        return
    d.rel('kimage', k1.kimage.array, k0.kimage.array, 2e-4)
    d.rel('psf kimage', k1.psf.kimage.array, k0.psf.kimage.array, 2e-4)
    d.rel('weight', k1.weight.array, k0.weight.array, 1e-9)


def always(f):
    return True


def still(f):
    """measured about the centre of the transform"""
    return not f['moved']


def unturned(f):
    return not f['turned']


def fitted(f):
    # the errors are inverted from numbers which may not be too far apart, and
    # there is a least radius
    return f['pow'] >= -8


def guessed(f):
    # guesses for the centre are within a tenth of what the sky is measured in
    return not f['pow']


def relabelled(f):
    return not f['moved'] and not f['pow'] and f['sky'] == [[1, 1], [0, 1], [0, 1], [1, 1]]


def warm():
    rng, gen = random.Random(1), np.random.RandomState(1)
    fr = Frame(dict(tr=False, flr=False, flc=False, turned=False,
                    scaled=False, moved=False, pow=0, jac=JACS[0], off=OFFS[0],
                    sky=[[1, 1], [0, 1], [0, 1], [1, 1]],
                    sh=[[0, 1], [0, 1]], k2=[1, 1],
                    shape=[[1, 1], [0, 1], [0, 1], [1, 1]]))
    for name, func, square, opt in KINDS:
        sc = Scene(rng, gen, fr, square, smooth=True)
        try:
            func(Diff(), sc, fr, fr, sc.obs(fr), sc.obs(fr), rng)
        except Exception:
            # told where it is checked
            pass


KINDS = [('evaluation', pixelwise, False, {}),
         ('GaussMom', gaussmom, False, dict(ok=still)),
         ('KSigmaMom', prepsf('ksigma'), True, dict(ok=still)),
         ('PGaussMom', prepsf('pgauss'), True, dict(ok=still)),
         ('AdmomFitter', admom, False, {}),
         ('Fitter gauss', lm('gauss'), False, dict(ok=fitted)),
         ('Fitter exp', lm('exp'), False, dict(ok=fitted)),
         ('Fitter bdf', lm('bdf'), False, dict(ok=fitted)),
         ('CoellipFitter', coellip, False, dict(ok=fitted)),
         ('PSFFluxFitter', template, False, dict(ok=still)),
         ('GalsimPSFFluxFitter', gs_template, False, dict(ok=still)),
         # on a square grid of modes, which does not turn
         ('GalsimFitter', gs_fit, False,
          dict(ok=lambda f: unturned(f) and fitted(f))),
         ('EMFitter', em, False, {}),
         ('get_all_metacal', metacal, False, dict(ok=guessed)),
         ('make_kobs', kobs, False, dict(ok=relabelled))]
SMOOTH = ('KSigmaMom', 'PGaussMom', 'EMFitter', 'get_all_metacal')


def one(chk, item, i):
    start, rec, ki = item
    name, func, square, opt = KINDS[ki]
    rng = random.Random(chk.seed * 1000003 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    f0, f1 = Frame(start), Frame(rec)
    sc = Scene(rng, gen, f0, square, smooth=name in SMOOTH)
    o0, o1 = sc.obs(f0), sc.obs(f1)
    d = Diff()
    try:
        func(d, sc, f0, f1, o0, o1, rng)
    except Exception as err:
        d.bad.append('failed with %r' % err)
    chk.trace(1, 2)
    chk.comparisons += 1
    if i < 3:
        chk.sample({'measurement': name, 'frame': f1.text})
    for b in d.bad[:4]:
        chk.violation('%s seen with %s: %s' % (name, f1.text, b))


def check(chk):
    rng = random.Random(chk.seed)
    n = chk.budget(3, 8)
    starts = [(rng.choice(JACS), rng.choice(OFFS)) for _ in range(n)]
    scales = [[1, 2], [3, 1], [2, 1], [1, 3]]
    shifts = [[[1, 2], [-1, 4]], [[-2, 5], [1, 5]], [[0, 1], [3, 10]]]
    jobs = []
    for k, (j, o) in enumerate(starts):
        jobs.append(('SkyFrame', dict(
            constants=dict(
                Jac0=j, Off0=o, Units=raw([rng.choice(u) for u in UNITS]), Scales=raw(rng.sample(scales, 2)),
                Shifts=raw([rng.choice(shifts)]),
                MaxOps=chk.budget(4, 6), NR=rng.choice([2, 3]),
                NC=rng.choice([1, 2, 3])),
            invariants=['SamePlaces', 'Relabelled', 'Similar', 'RoundStays',
                        'AreaScales'], view='View', emit='Emit')))
    res = tlc.parallel(jobs)
    warm()
    items = []
    per = chk.budget(40, 250)
    for (j, o), r in zip(starts, res):
        chk.tlc(r, 'SkyFrame')
        start = dict(tr=False, flr=False, flc=False, turned=False,
                     scaled=False, moved=False, pow=0, jac=j, off=o,
                     sky=[[1, 1], [0, 1], [0, 1], [1, 1]],
                     sh=[[0, 1], [0, 1]], k2=[1, 1],
                     shape=[[1, 1], [0, 1], [0, 1], [1, 1]])
        seen = {}
        for x in r.records:
            seen[str([x[k] for k in sorted(x) if k != 'act'])] = x
        frames = [seen[k] for k in sorted(seen)]
        for ki, (name, func, square, opt) in enumerate(KINDS):
            can = [f for f in frames if opt.get('ok', always)(f)]
            items += [(start, f, ki) for f in rng.sample(
                can, min(per, len(can)))]
    shard(chk, lambda item, i: one(chk, item, i), items)
