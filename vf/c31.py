"""C31: data without noise give back the truth they were made from."""
import copy
import random

import galsim
import numpy as np
import ngmix
from ngmix import priors
from ngmix.admom import AdmomFitter
from ngmix.em.em import (EMFitter, EMFitterFixCen, EMFitterFixCov,
                         EMFitterFluxOnly)
from ngmix.fitting import (Fitter, CoellipFitter, PSFFluxFitter, GalsimFitter,
                           GalsimSpergelFitter, GalsimMoffatFitter)
from ngmix.gaussmom import GaussMom
from ngmix.prepsfmom import PGaussMom
from ngmix.gexceptions import FFTRangeError, BootPSFFailure
from ngmix.flags import LM_SINGULAR_MATRIX
from ngmix.runners import Runner, PSFRunner
from ngmix.bootstrap import Bootstrapper
from ngmix.metacal import MetacalBootstrapper
from ngmix.guessers import (
    TFluxGuesser, TPSFFluxGuesser, TFluxAndPriorGuesser,
    TPSFFluxAndPriorGuesser, SimplePSFGuesser, GMixPSFGuesser,
    CoellipPSFGuesser, BDFGuesser, ParsGuesser)

from . import tlc, gmref
from .c06 import raw
from .c29 import Diff
from .report import shard

UNIT = 8        # covariances are in units of a pixel^2 / UNIT


def q(x):
    return x[0] / x[1]


def radd(a, b):
    return [a[0] * b[1] + b[0] * a[1], a[1] * b[1]]


def shape_of(cov):
    vv, vu, uu = cov
    return np.array([uu - vv, 2 * vu]) / (uu + vv), uu + vv


def g_of(e):
    m = np.hypot(*e)
    return e * (1 / (1 + np.sqrt(max(0, 1 - m ** 2))))


def aligned(rng, gen):
    """offset from the middle of a stamp; some fall on pixels"""
    off = gen.uniform(-1, 1, size=2)
    for k in range(2):
        if rng.random() < .4:
            off[k] = rng.choice([0., 0., 0., .5, 1., -1.])
    return off


class Truth:
    """numbers behind the names of a scene of the specification"""

    def __init__(self, sc, rng, gen):
        self.sc = sc
        self.gen = gen
        pix = rng.choice([.2, .263, 1.])
        th = gen.uniform(0, 2 * np.pi)
        a = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        kind = rng.choice(['any', 'any', 'any', 'shear'])
        if sc['square']:
            a, kind = np.eye(2), 'any'
            if rng.random() < .3:
                a = np.array([[0., 1], [1, 0]])
        if kind == 'shear':
            a = a @ np.array([[1.05, .06], [.06, .955]])
        if rng.random() < .4:
            a = a @ np.diag([1., -1.])
        self.jac = a * pix
        self.pix = np.sqrt(abs(np.linalg.det(self.jac)))
        u = self.pix ** 2 / UNIT
        self.unit = u
        self.cen = (np.zeros(2) if sc['smooth'] or sc['profile'] == 'star' else
                    gen.uniform(-.5, .5, size=2) * self.pix)
        nb = len(sc['epochs'])
        self.flux = gen.uniform(20, 300, size=nb)
        self.fracdev = gen.uniform(.2, .8)
        self.logratio = gen.uniform(-.3, .3)
        self.obj = [(q(c['f']), [q(x) * u for x in c['s']],
                     [q(x) * self.pix / UNIT for x in c['at']])
                    for c in sc['obj']]
        self.psf = [(q(c['f']), np.array([q(x) * u for x in c['s']]))
                    for c in sc['psf']]
        self.off = aligned(rng, gen)
        self.nu = gen.uniform(.4, 1.5)
        self.beta = gen.uniform(2.2, 3.5)

    def comps(self, band):
        """the source before the psf"""
        F, (c0, c1) = self.flux[band], self.cen
        prof = self.sc['profile']
        if prof == 'star':
            return [(F, c0, c1, 0., 0., 0.)]
        if prof == 'gauss':
            return [(F * f, c0 + at[0], c1 + at[1], *s)
                    for f, s, at in self.obj]
        gm = ngmix.GMixModel(self.pars(prof)[:-len(self.flux)].tolist()
                             + [F], prof)
        return [tuple(x) for x in gm.get_full_pars().reshape(-1, 6)]

    def pars(self, prof, s=None, cen=None):
        e, T = shape_of(self.obj[0][1] if s is None else s)
        p = [*(self.cen if cen is None else cen), *g_of(e), T]
        p += {'bdf': [self.fracdev], 'bd': [self.logratio, self.fracdev]}.get(
            prof, [])
        return np.array(p + list(self.flux))

    def where(self, shape, off):
        rr, cc = np.mgrid[0:shape[0], 0:shape[1]]
        rr = rr - (shape[0] - 1) / 2 - off[0]
        cc = cc - (shape[1] - 1) / 2 - off[1]
        return (self.jac[0, 0] * rr + self.jac[0, 1] * cc,
                self.jac[1, 0] * rr + self.jac[1, 1] * cc)

    def jacobian(self, shape, off):
        return ngmix.Jacobian(
            row=(shape[0] - 1) / 2 + off[0], col=(shape[1] - 1) / 2 + off[1],
            dvdrow=self.jac[0, 0], dvdcol=self.jac[0, 1],
            dudrow=self.jac[1, 0], dudcol=self.jac[1, 1])

    def epoch(self, band, rng):
        gen, sc = self.gen, self.sc
        n = 41 if sc['smooth'] else rng.randint(36, 42)
        m = n if sc['smooth'] or sc['square'] else rng.randint(36, 42)
        # metacal shears about the middle of each stamp
        off = aligned(rng, gen)
        if sc['smooth']:
            off = self.off
        big = 1. if sc['same'] else gen.uniform(.85, 1.2)
        psf = [(f, s * big) for f, s in self.psf]
        area = self.pix ** 2
        if sc['draw'] == 'galsim':
            im = self.drawn((n, m), off, psf, band)
        else:
            conv = [(F * f, v, w, a + s[0], b + s[1], c + s[2])
                    for F, v, w, a, b, c in self.comps(band)
                    for f, s in (psf or [(1., np.zeros(3))])]
            im = gmref.evaluate(conv, *self.where((n, m), off), area=area)
        err = im.max() / gen.uniform(2000, 5000)
        var = err ** 2 * (1. if sc['smooth']
                          else gen.uniform(.5, 2, size=im.shape))
        wt = 1 / (var * np.ones(im.shape))
        if not sc['smooth'] and sc['draw'] != 'galsim':
            for _ in range(rng.choice([0, 2, 5, 25])):
                r, c = rng.randrange(n), rng.randrange(m)
                if rng.random() < .3:
                    # where the source is
                    r, c = n // 2 + rng.randint(-5, 5), m // 2 + rng.randint(-5, 5)
                wt[r, c] = 0
                im[r, c] = rng.choice([0., 1., -3.]) * im.max()
        pobs = None
        if psf:
            pn = 31 if sc['smooth'] else rng.randint(27, 31)
            # metacal takes the psf to be in the middle
            poff = np.zeros(2) if sc['smooth'] else aligned(rng, gen)
            pim = gmref.evaluate(
                [(f, 0, 0, *s) for f, s in psf],
                *self.where((pn, pn), poff), area=area)
            pobs = ngmix.Observation(
                pim, weight=np.full(pim.shape, (3000 / pim.max()) ** 2),
                jacobian=self.jacobian(pim.shape, poff))
        obs = ngmix.Observation(im, weight=wt, psf=pobs,
                                jacobian=self.jacobian(im.shape, off))
        return obs, psf

    def drawn(self, shape, off, psf, band):
        prof = self.sc['profile']
        F = self.flux[band]
        _, s, at = self.obj[0]
        e, T = shape_of(s)
        g = g_of(e)
        self.r50 = r = np.sqrt(T / 2) * 1.1
        o = {'gauss': lambda: galsim.Gaussian(half_light_radius=r, flux=F),
             'exp': lambda: galsim.Exponential(half_light_radius=r, flux=F),
             'dev': lambda: galsim.DeVaucouleurs(half_light_radius=r, flux=F),
             'spergel': lambda: galsim.Spergel(
                 nu=self.nu, half_light_radius=r, flux=F),
             'moffat': lambda: galsim.Moffat(
                 beta=self.beta, half_light_radius=r, flux=F)}[prof]()
        o = o.shear(g1=g[0], g2=g[1]).shift(self.cen[1], self.cen[0])
        if psf:
            f, p = psf[0]
            e, T = shape_of(p)
            o = galsim.Convolve(o, galsim.Gaussian(
                sigma=np.sqrt(T / 2) * (1 - (e ** 2).sum()) ** .25).shear(
                    e1=e[0], e2=e[1]))
        wcs = galsim.JacobianWCS(self.jac[1, 1], self.jac[1, 0],
                                 self.jac[0, 1], self.jac[0, 0])
        return o.drawImage(nx=shape[1], ny=shape[0], wcs=wcs,
                           method='no_pixel', offset=(off[1], off[0]),
                           dtype=float).array

    def galsim_pars(self):
        g = g_of(shape_of(self.obj[0][1])[0])
        p = [*self.cen[::-1], *g, self.r50]
        p += {'spergel': [self.nu], 'moffat': [self.beta]}.get(
            self.sc['profile'], [])
        return np.array(p + list(self.flux))

    def data(self, rng, single):
        mb = ngmix.MultiBandObsList()
        self.psfs = []
        for b, n in enumerate(self.sc['epochs']):
            ol, pl = ngmix.ObsList(), []
            for _ in range(n):
                o, p = self.epoch(b, rng)
                ol.append(o)
                pl.append(p)
            mb.append(ol)
            self.psfs.append(pl)
        if single == 'list':
            return mb[0]
        if len(mb) == 1 and (single or rng.random() < .8):
            return mb[0][0] if len(mb[0]) == 1 else mb[0]
        return mb


def each(obs):
    return [o for ol in ngmix.observation.get_mb_obs(obs) for o in ol]


def psf_runner(how, n, rng, psft):
    ntry = 5
    if how == 'gauss':
        f, g = Fitter('gauss'), SimplePSFGuesser(rng=rng)
    elif how == 'admom':
        f = AdmomFitter(rng=rng, etol=1e-7, Ttol=1e-6, maxiter=1000)
        g = GMixPSFGuesser(rng=rng, ngauss=1)
    elif how == 'coellip':
        f, g = CoellipFitter(n), CoellipPSFGuesser(rng=rng, ngauss=n)
    else:
        f = EMFitter(maxiter=20000, tol=1e-9)
        g = GMixPSFGuesser(rng=rng, ngauss=n)
    return PSFRunner(fitter=f, guesser=g, ntry=ntry)


def wide_prior(t, gen, nb, prof):
    c = priors.CenPrior(0, 0, 3 * t.pix, 3 * t.pix, rng=gen)
    g = priors.GPriorBA(.5, rng=gen)
    T0 = shape_of(t.obj[0][1])[1]
    T = priors.FlatPrior(T0 / 20, T0 * 20, rng=gen)
    F = [priors.FlatPrior(f / 30, f * 30, rng=gen) for f in t.flux]
    F = F if nb > 1 else F[0]
    if prof == 'bdf':
        return ngmix.joint_prior.PriorBDFSep(
            c, g, T, priors.Normal(.5, .3, rng=gen), F)
    if prof == 'bd':
        return ngmix.joint_prior.PriorBDSep(
            c, g, T, priors.Normal(0., .5, rng=gen),
            priors.Normal(.5, .3, rng=gen), F)
    return ngmix.joint_prior.PriorSimpleSep(c, g, T, F)


class Guess:
    """of a known starting point"""

    def __init__(self, guess):
        self.guess = guess

    def __call__(self, obs=None, nrand=1):
        return copy.deepcopy(self.guess)


def wanted(t, rec, obs):
    """components of the specification in numbers, and their common centre"""
    x = rec['res']
    cs = []
    for c in x['comps']:
        div = q(c['div'])
        s = np.array([q(y) for y in c['s']]) * t.unit / div
        at = np.array([q(y) for y in c['at']]) * t.pix / UNIT / np.sqrt(div)
        if c['psf']:
            # the target, as it is in the data
            p = AdmomFitter(rng=np.random.RandomState(3), etol=1e-7,
                            Ttol=1e-6).go(obs.psf, t.pix ** 2 * 6)
            T, (e1, e2) = p['T'], p['e']
            s = s + np.array([T * (1 - e1), T * e2, T * (1 + e1)]) / 2
        cs.append((q(c['f']), s, at))
    cen = t.cen
    if rec['data']['psf'] == 'target':
        # sheared about the middle of the stamp
        mid = np.array(obs.jacobian.get_vu((obs.image.shape[0] - 1) / 2,
                                           (obs.image.shape[1] - 1) / 2))
        gm = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1),
              'noshear': (0, 0)}[rec['trail'][0][1]]
        gm = np.array(gm) * t.step
        a = np.array([[1 - gm[0], gm[1]], [gm[1], 1 + gm[0]]]) / np.sqrt(
            1 - (gm ** 2).sum())
        cen = a @ (cen - mid) + mid
    return cs, cen


class EMGuess:
    """near the truth; what is held has to be right"""

    def __init__(self, t, rec, rng, gen):
        self.t, self.rec, self.rng, self.gen = t, rec, rng, gen

    def __call__(self, obs):
        t, held = self.t, self.rec['res']['held']
        cs, cen = wanted(t, self.rec, obs)
        comps = []
        for f, s, at in cs:
            if 'at' not in held:
                at = at + self.gen.uniform(-.05, .05, size=2) * t.pix
            if 's' not in held:
                s = s * self.rng.uniform(.9, 1.2)
            comps.append((f * t.flux[0] * self.rng.uniform(.7, 1.3),
                          *(cen + at), *s))
        return ngmix.GMix(pars=np.ravel(comps))


class NoPsf:
    def __init__(self, fitter):
        self.fitter = fitter

    def go(self, obs):
        return self.fitter.go(obs, no_psf=True)


def runner(m, t, sc, rec, rng, gen, known):
    """(runner, uses the psf's mixture for its guess)"""
    x = rec['res']
    nb = len(sc['epochs'])
    prof = sc['profile']
    ntry = 5
    if sc['obj']:
        T0 = shape_of(t.obj[0][1])[1] * rng.uniform(.8, 1.25)
        F0 = t.flux * rng.uniform(.8, 1.25)
        F0 = F0 if nb > 1 or rng.random() < .5 else F0[0]
    if m == 'lm':
        prior = None
        if prof in ('bdf', 'bd') or rng.random() < .3:
            prior = wide_prior(t, gen, nb, prof)
        if prof == 'bd':
            g = ngmix.guessers.BDGuesser(T0, F0, prior)
        elif prof == 'bdf':
            g = BDFGuesser(T0, F0, prior)
        else:
            kinds = ['TFlux', 'Pars']
            kinds += ['TPSFFlux'] * 2 if known else []
            if prior is not None:
                kinds = ['TFluxAndPrior'] + kinds[2:]
            k = rng.choice(kinds)
            if k == 'TFlux':
                g = TFluxGuesser(gen, T0, F0, prior=prior)
            elif k == 'Pars':
                g = ParsGuesser(gen, t.pars(prof) * [.9] * 1, prior=prior)
            elif k == 'TFluxAndPrior':
                g = TFluxAndPriorGuesser(gen, T0, F0, prior)
            elif prior is None:
                g = TPSFFluxGuesser(gen, T0)
            else:
                g = TPSFFluxAndPriorGuesser(gen, T0, prior)
        return Runner(Fitter(prof, prior=prior), guesser=g, ntry=ntry)
    if m == 'coellip':
        n = len(t.obj)
        e, _ = shape_of(t.obj[0][1])
        p = [*(t.cen + .05 * t.pix), *(g_of(e) * .8)]
        p += [shape_of(s)[1] * 1.1 for f, s, at in t.obj]
        p += [f * t.flux[0] * .9 for f, s, at in t.obj]
        return Runner(CoellipFitter(n), guesser=Guess(np.array(p)), ntry=1)
    if m[:2] == 'em':
        k = {'em': EMFitter, 'emcen': EMFitterFixCen, 'emcov': EMFitterFixCov,
             'emflux': EMFitterFluxOnly}[m]
        return Runner(k(maxiter=20000, tol=1e-9), guesser=EMGuess(
            t, rec, rng, gen), ntry=1)
    if m == 'admom':
        a = AdmomFitter(rng=gen, etol=1e-7, Ttol=1e-6, maxiter=2000)
        if rng.random() < .5:
            return Runner(a, guesser=Guess(T0), ntry=1)
        return Runner(a, guesser=Guess(ngmix.GMixModel(
            [*t.cen, 0., 0., T0 * 1.5, 1.], 'gauss')), ntry=1)
    if m in ('gaussmom', 'pgauss'):
        # T of the weight is twice its variance
        fw = np.sqrt(q(x['w']) * t.unit) * 2 * np.sqrt(2 * np.log(2))
        if m == 'gaussmom':
            return Runner(GaussMom(fw))
        f = PGaussMom(fw, pad_factor=rng.choice([4, 5]))
        return Runner(f) if t.psf else NoPsf(f)
    if m == 'template':
        return Runner(PSFFluxFitter(do_psf=True))
    if m == 'galsim':
        p = [*(t.cen[::-1] + .05 * t.pix), *(g_of(shape_of(t.obj[0][1])[0])
                                             * .8)]
        r = np.sqrt(T0 / 2) * 1.1
        if prof == 'spergel':
            p += [r, t.nu * 1.1] + list(t.flux * .9)
            f = GalsimSpergelFitter()
        elif prof == 'moffat':
            p += [r, t.beta * 1.05] + list(t.flux * .9)
            f = GalsimMoffatFitter()
        else:
            p += [r] + list(t.flux * .9)
            f = GalsimFitter(prof)
        return Runner(f, guesser=Guess(np.array(p)), ntry=1)
    raise ValueError(m)


def whole(cs):
    """flux, centre and moments of all components together"""
    cs = np.array(cs)
    f = cs[:, 0]
    c = (f[:, None] * cs[:, 1:3]).sum(axis=0) / f.sum()
    x = cs[:, 1:3] - c
    xx = np.array([x[:, 0] ** 2, x[:, 0] * x[:, 1], x[:, 1] ** 2]).T
    s = (f[:, None] * (cs[:, 3:] + xx)).sum(axis=0) / f.sum()
    return np.array([f.sum(), *c, *s])


def compare(d, t, sc, rec, r, obs, tol):
    """what is reported against what the specification says"""
    x = rec['res']
    m = x['measure']
    nb = len(sc['epochs'])
    sheared = rec['data']['psf'] == 'target'
    flags = r['flags']
    if m[:2] == 'em' and flags and r['message'] == 'maxit':
        # slow to part what overlaps
        return
    if flags == LM_SINGULAR_MATRIX and np.min(np.abs(r['pars'])) < 1e-7:
        # a parameter of zero has no step of its own
        return
    if flags != 0:
        d.bad.append('%s is flagged: %r' % (m, r.get('message', flags)))
        return
    each_obs = each(obs)
    cs, cen = wanted(t, rec, each_obs[0])
    F = t.flux
    if m in ('lm', 'coellip'):
        e, T = shape_of(cs[0][1])
        g = g_of(e)
    if m == 'lm':
        want = t.pars(sc['profile'], s=cs[0][1], cen=cen)
        err = np.concatenate([[t.pix] * 2, [.5] * 2, [T], np.ones(
            len(want) - 5 - nb), F]) * tol
        if sc['profile'] in ('bd', 'bdf'):
            # nearly degenerate; the prior is not flat
            err = err + 3 * r['pars_err']
        if sc['profile'] == 'bd':
            # one size with another ratio of sizes: flux and shape are told
            err[4:7] = np.inf
            err[7:] *= 3
        d.near('pars', r['pars'], want, err)
        k = slice(len(want) - nb, None)
        d.near('flux', r['flux'], want[k] if nb > 1 else want[-1],
               err[k] if nb > 1 else err[-1])
        d.near('T', r['T'], want[4], err[4])
        d.near('g', r['g'], want[2:4], err[2:4])
        for b in range(nb):
            gm = r.get_gmix(band=b)
            d.near('flux of the mixture', gm.get_flux(), F[b],
                   err[k][b] * 1.1)
            d.near('centre of the mixture', gm.get_cen(), cen, tol * t.pix)
        fisher(d, t, sc, r, obs, sheared)
    elif m == 'coellip':
        n = len(cs)
        d.near('centre', r['pars'][:2], cen, tol * t.pix)
        d.near('g', r['pars'][2:4], g, tol)
        got = sorted(zip(r['pars'][4:4 + n], r['pars'][4 + n:]))
        want = sorted((shape_of(s)[1], f * F[0]) for f, s, at in cs)
        d.near('sizes', [y[0] for y in got], [y[0] for y in want],
               20 * tol * n * want[0][0])
        d.near('fluxes', [y[1] for y in got], [y[1] for y in want],
               20 * tol * n * F[0])
        d.near('flux of the mixture', r.get_gmix().get_flux(), F[0],
               2 * tol * F[0])
    elif m == 'galsim':
        w = t.galsim_pars()
        err = np.concatenate([[t.pix] * 2, [1.] * 2, w[4:]]) * tol
        if sc['profile'] in ('spergel', 'moffat', 'dev'):
            err = err * 5
        d.near('pars', r['pars'], w, err)
        d.near('flux', r['flux'], F if nb > 1 else F[0],
               err[-nb:] if nb > 1 else err[-1])
    elif m[:2] == 'em':
        tol = tol * (1 if len(cs) == 1 else 2)
        gm = r.get_gmix().get_full_pars().reshape(-1, 6)
        if len(gm) != len(cs):
            d.bad.append('%d components' % len(gm))
            return
        gms = [np.array([p[0] / F[0], *(p[1:3] - cen), *p[3:]]) for p in gm]
        w = [np.array([f, *at, *s]) for f, s, at in cs]
        if len(cs) > 1:
            # slow to part what overlaps
            gms, w = [whole(gms)], [whole(w)]
        for p, y in zip(gms, w):
            size = np.sqrt(y[3] + y[5])
            d.near('flux', p[0], y[0], tol)
            d.near('centre', p[1:3], y[1:3], 2 * tol * size)
            d.near('covariance', p[3:], y[3:], 3 * tol * size ** 2)
        o = each_obs[0]
        im = r.get_convolved_gmix().make_image(
            o.image.shape, jacobian=o.jacobian)
        k = o.weight > 0
        d.near('image', im[k], o.image[k], 3 * tol * o.image[k].max())
    elif m == 'admom':
        e, T = shape_of(cs[0][1])
        d.near('T', r['T'], T, tol * T)
        d.near('e', r['e'], e, tol)
        d.near('e1, e2', [r['e1'], r['e2']], e, tol)
        d.near('flux', r['flux'], F[0] * q(x['part']), tol * F[0])
        d.near('centre', r['pars'][:2], cen, tol * t.pix)
        d.near('rho4', r['rho4'], 2., 4 * tol)
    elif m in ('gaussmom', 'pgauss'):
        if x['weighed']:
            h = [np.sqrt(q(y['height'][0]) / q(y['height'][1]))
                 for y in x['weighed']]
            s = [np.array([q(z) for z in y['num']]) * t.unit * q(y['mul'])
                 for y in x['weighed']]
        else:
            w = q(x['w']) * t.unit
            h, s = [], []
            for f, c, at in cs:
                a = np.array([[c[0], c[1]], [c[1], c[2]]])
                b = np.linalg.inv(np.linalg.inv(a) + np.eye(2) / w)
                s.append(np.array([b[0, 0], b[0, 1], b[1, 1]]))
                h.append(w / np.sqrt(np.linalg.det(a + np.eye(2) * w)))
        p = np.array([f * k for (f, c, at), k in zip(cs, h)])
        s = (p[:, None] * np.array(s)).sum(axis=0) / p.sum()
        e, T = shape_of(s)
        # centred objects only
        d.near('flux', r['flux'], p.sum() * F[0], tol * F[0])
        d.near('T', r['T'], T, 2 * tol * T)
        d.near('e', r['e'], e, 2 * tol)
        d.near('e1, e2', [r['e1'], r['e2']], e, 2 * tol)
    elif m == 'template':
        d.near('flux', r['flux'], F[0], tol * F[0])
    if m in ('lm', 'coellip') and not sheared:
        for k, o in enumerate(each_obs):
            b = [b for b, n in enumerate(sc['epochs']) for _ in range(n)][k]
            ep = k - sum(sc['epochs'][:b])
            im = r.make_image(band=b, obsnum=ep)
            w = o.weight > 0
            d.near('image', im[w], o.image[w], 3 * tol * o.image[w].max())


def fisher(d, t, sc, r, obs, sheared):
    """errors of a fit without prior are those of the linear problem"""
    if sheared or sc['profile'] != 'gauss' or r.prior is not None:
        return
    p0 = np.array(r['pars'])
    nb = len(sc['epochs'])

    def model(p):
        out = []
        for b, ol in enumerate(ngmix.observation.get_mb_obs(obs)):
            for o, psf in zip(ol, t.psfs[b]):
                g = p[2:4]
                e = 2 * g / (1 + (g ** 2).sum())
                T = p[4]
                s = np.array([1 - e[0], e[1], 1 + e[0]]) * T / 2
                cs = [(p[5 + b] * f, p[0], p[1], *(s + ps))
                      for f, ps in (psf or [(1., np.zeros(3))])]
                rr, cc = np.mgrid[0:o.image.shape[0], 0:o.image.shape[1]]
                v, u = o.jacobian(rr, cc)
                m = gmref.evaluate(cs, v, u, area=t.pix ** 2)
                out.append((m * np.sqrt(o.weight)).ravel())
        return np.concatenate(out)
    step = np.array([1e-3 * t.pix] * 2 + [1e-4] * 2 + [1e-4 * p0[4]]
                    + [1e-4 * f for f in p0[5:]])
    j = np.array([(model(p0 + h) - model(p0 - h)) / (2 * s) for h, s in zip(
        np.diag(step), step)])
    want = np.linalg.inv(j @ j.T)
    # without noise the scaling by chi^2 leaves nothing of it
    # steps are relative: nothing is told of what is (next to) zero, and a
    # shape of zero spoils the rest
    if np.abs(p0[2:4]).min() < 1e-3:
        return
    k = np.abs(p0) > 1e-2 * np.array([t.pix] * 2 + [1.] * 2 + [
        t.pix ** 2] + [1.] * nb)
    k = np.ix_(k, k)
    d.cov('pars_cov0', r['pars_cov0'][k], want[k], 2e-2)
    d.near('s2n', r['s2n'], np.sqrt((model(p0) ** 2).sum()),
           1e-2 * np.sqrt((model(p0) ** 2).sum()))


def one(chk, rec, i):
    rng = random.Random(chk.seed * 1000003 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    sc = rec['sc']
    t = Truth(sc, rng, gen)
    t.step = q(rec['step'])
    trail = rec['trail']
    m = rec['res']['measure']
    obs = t.data(rng, 'list' if m == 'template' else m in (
        'admom', 'gaussmom', 'pgauss') or m[:2] == 'em')
    text = '%r of %r seen through %d gaussians, epochs %r' % (
        trail, sc['profile'], len(sc['psf']), sc['epochs'])
    prun, n = None, len(sc['psf'])
    mcal = [x for x in trail if x[0] == 'metacal']
    tol = 3e-3
    for x in trail:
        if x[0] == 'metacal':
            n = 1
            tol = 1e-2
        if x[0] == 'psf':
            if x[1] == 'given':
                for o, p in zip(each(obs), sum(t.psfs, [])):
                    o.psf.set_gmix(ngmix.GMix(pars=np.ravel(
                        [(f, 0., 0., *s) for f, s in p])))
            else:
                prun = psf_runner(x[1], n, gen, t)
                if x[1] == 'em':
                    tol = max(tol, 1e-2)
    known = any(x[0] == 'psf' for x in trail)
    d = Diff()
    try:
        run = runner(m, t, sc, rec, rng, gen, known)
        if mcal:
            typ, how = mcal[0][1:]
            types = sorted({typ, 'noshear'} | {rng.choice(
                ['1p', '1m', '2p', '2m'])})
            kw = dict(types=types, psf=how, step=t.step, rng=gen,
                      fixnoise=False)
            if prun is not None or rng.random() < .5:
                rd, od = MetacalBootstrapper(
                    runner=run, psf_runner=prun, **kw).go(obs)
                r, obs = rd[typ], od[typ]
            else:
                kw['rng'] = gen
                obs = ngmix.metacal.get_all_metacal(obs, **kw)[typ]
                r = run.go(obs=obs)
        elif prun is not None and rng.random() < .7:
            r = Bootstrapper(runner=run, psf_runner=prun).go(obs)
        else:
            if prun is not None:
                prun.go(obs=obs)
                if any(o.psf.meta['result']['flags'] for o in each(obs)):
                    raise BootPSFFailure('psf')
            r = run.go(obs=obs)
        compare(d, t, sc, rec, r, obs, tol)
        if d.bad and m in ('lm', 'coellip', 'galsim'):
            # it may have been led astray by its guess
            d.bad = []
            w = np.array(r['pars'])
            s = [q(y) * t.unit / q(rec['res']['comps'][0]['div'])
                 for y in rec['res']['comps'][0]['s']]
            if m == 'coellip':
                w[:4] = t.pars('gauss', s=s)[:4]
                w[4:] = [q(y) * t.unit for c in rec['res']['comps'] for y in
                         [radd(c['s'][0], c['s'][2])]] + [
                    f * t.flux[0] for f, *_ in t.obj]
            else:
                w[:] = t.pars(sc['profile'], s=s) if m == 'lm' else (
                    t.galsim_pars())
            run.guesser = Guess(w * 1.02 + .001)
            compare(d, t, sc, rec, run.go(obs=obs), obs, tol)
    except FFTRangeError:
        # the grid is refused, now and then for what is left of one pixel
        pass
    except BootPSFFailure:
        # slow to part two; a parameter of zero has no step of its own
        if not (n > 1 and ['psf', 'em'] in trail) and not all(
                o.psf.meta['result']['flags'] in (0, LM_SINGULAR_MATRIX)
                for o in each(obs)):
            raise
    chk.trace(1, len(trail))
    chk.comparisons += 1
    if i < 3:
        chk.sample(dict(trail=trail, scene=sc))
    for b in d.bad[:4]:
        chk.violation('%s: %s' % (text, b), rec=rec)


def cov(rng, lo, hi, e):
    h = rng.randint(lo, hi)
    k = int(h * e)
    a = rng.randint(-k, k)
    b = rng.choice([-1, 1]) * rng.randint(0, max(1, 2 * k // 3))
    return [[h - a, 1], [b, 1], [h + a, 1]]


def scene(rng):
    draw = 'galsim' if rng.random() < .15 else 'pixels'
    smooth = draw == 'pixels' and rng.random() < .5
    prof = rng.choice(['gauss'] * 5 + ['exp', 'exp', 'dev', 'turb', 'bdf',
                                       'bd', 'star'])
    if draw == 'galsim':
        prof = rng.choice(['gauss', 'exp', 'exp', 'dev', 'spergel', 'moffat'])
    epochs = rng.choice([[1], [1], [1], [2], [1, 1], [2, 1], [1, 1, 2]])
    if smooth:
        epochs = rng.choice([[1], [1], [1], [2], [1, 1]])
    zero = [[0, 1], [0, 1]]
    n = 1
    if prof == 'gauss' and draw == 'pixels':
        n = rng.choice([1, 1, 1, 2, 2, 3])
    if n == 1:
        obj = [dict(f=[1, 1], s=cov(rng, 16, 28, .35), at=zero)]
    else:
        f = {2: [[2, 5], [3, 5]], 3: [[1, 2], [1, 4], [1, 4]]}[n]
        if rng.random() < .5:
            # apart
            at = [[[0, 1], [-26, 1]], [[10, 1], [24, 1]],
                  [[-24, 1], [20, 1]]]
            obj = [dict(f=f[k], s=cov(rng, 12, 20, .3), at=at[k])
                   for k in range(n)]
        else:
            n, f = 2, [[2, 5], [3, 5]]
            s = cov(rng, 9, 12, .3)
            obj = [dict(f=f[k], s=[[x[0] * m, 1] for x in s], at=zero)
                   for k, m in ((0, 1), (1, 5))]
    if prof == 'star':
        obj = [dict(f=[1, 1], s=[[0, 1]] * 3, at=zero)]
    psf = []
    if prof == 'star' or draw == 'galsim' or rng.random() < .85:
        s = cov(rng, 14, 20, .25)
        psf = [dict(f=[1, 1], s=s)]
        if draw == 'pixels' and rng.random() < .35:
            psf = [dict(f=[3, 5], s=s),
                   dict(f=[2, 5], s=[[x[0] * 3, 1] for x in s])]
    elif prof in ('exp', 'dev', 'turb', 'bdf', 'bd'):
        # not sampled without a psf
        psf = [dict(f=[1, 1], s=cov(rng, 14, 20, .25))]
    if not psf:
        # as well sampled
        obj = [dict(o, s=[[x[0] + a, 1] for x, a in zip(o['s'], (9, 0, 9))])
               for o in obj]
        if n > 1 and obj[0]['at'] == obj[1]['at']:
            obj = obj[1:]
            obj[0]['f'] = [1, 1]
    return dict(profile=prof, draw=draw, obj=obj, psf=psf, epochs=epochs,
                smooth=smooth, same=sum(epochs) == 1 or rng.random() < .5,
                square=draw == 'galsim' or smooth)


def check(chk):
    rng = random.Random(chk.seed)
    jobs, steps = [], []
    for k in range(chk.budget(8, 24)):
        scs = [scene(rng) for _ in range(chk.budget(9, 16))]
        step = rng.choice([[1, 100], [1, 50], [1, 40]])
        jobs.append(('Recover', dict(
            constants=dict(Scenes=raw(scs), Step=step, MaxWeight=raw(
                [[rng.randint(30, 60), 1]])),
            invariants=['BareIgnoresPsf', 'SizesAdd', 'FluxKept', 'Undone',
                        'Smaller', 'PartSeen'], emit='Emit')))
        steps.append(step)
    recs = []
    for r, s in zip(tlc.parallel(jobs), steps):
        chk.tlc(r, 'Recover')
        for x in r.records:
            x['step'] = s
        recs += r.records
    warm(chk)
    n = chk.budget(700, 8000)
    if len(recs) > n:
        # every kind of pipeline comes
        by = {}
        for x in recs:
            key = str([x['trail'], x['sc']['profile']])
            by.setdefault(key, []).append(x)
        for k in by:
            rng.shuffle(by[k])
        keys = sorted(by)
        rng.shuffle(keys)
        out = []
        while len(out) < n:
            keys = [k for k in keys if by[k]]
            for k in keys:
                out.append(by[k].pop())
        recs = out[:n]
    shard(chk, lambda rec, i: one(chk, rec, i), recs)


def warm(chk):
    gm = ngmix.GMixModel([0., 0, .1, 0, 4, 1], 'gauss')
    j = ngmix.DiagonalJacobian(row=10, col=10, scale=1)
    im = gm.make_image((21, 21), jacobian=j)
    p = ngmix.Observation(im, weight=im * 0 + 1e6, jacobian=j)
    o = ngmix.Observation(im, weight=im * 0 + 1e6, jacobian=j, psf=p)
    gen = np.random.RandomState(1)
    for f in (lambda: PSFRunner(Fitter('gauss'), SimplePSFGuesser(
                  rng=gen)).go(o),
              lambda: Fitter('gauss').go(o, [0, 0, 0, 0, 1., 1.]),
              lambda: AdmomFitter(rng=gen).go(p, gm),
              lambda: EMFitter().go(p, gm), lambda: GaussMom(3.).go(o),
              lambda: PGaussMom(5.).go(o), lambda: PSFFluxFitter().go(o),
              lambda: ngmix.metacal.get_all_metacal(o, psf='gauss',
                                                    rng=gen)):
        try:
            f()
        except Exception:
            # told where it is checked
            pass
