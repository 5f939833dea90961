"""C19, fits of analytic profiles in Fourier space."""
import random

import galsim
import numpy as np
import ngmix
from ngmix.fitting import (
    GalsimFitModel, GalsimSpergelFitModel, GalsimMoffatFitModel,
    GalsimFitter, GalsimSpergelFitter, GalsimMoffatFitter)
from ngmix.gexceptions import GMixRangeError

from . import term, vterm, c21
from .c05 import q, vec
from .c06 import raw
from .replay import Driver, replay
from .report import shard

MODELS = ['exp', 'spergel', 'gauss', 'moffat', 'dev']
KDIMS = [[6, 6], [4, 8], [7, 5], [2, 4]]
KWTS = [[1], [4, 0, 1, 9], [2, -1, 3, 1, 0], [1, 2]]


def points(rng):
    fl = [vec(10, 3, 7), vec((5, 2), 20, 1), vec(1, 2, (3, 2))]
    rng.shuffle(fl)
    a = dict(cen=vec(0, 0), g=vec((1, 5), (-1, 10)), r50=q(1), nu=q(1, 2),
             beta=q(5, 2), fl=fl[0])
    b = dict(cen=vec((1, 2), (-1, 4)), g=vec(0, (3, 10)), r50=q(3, 2),
             nu=q(-1, 4), beta=q(7, 2), fl=fl[1])
    c = dict(cen=vec((-1, 4), (1, 8)), g=vec(0, 0), r50=q(3, 4), nu=q(2),
             beta=q(3), fl=fl[2])
    good = [a, b, c]
    rng.shuffle(good)
    return good + [
        dict(b, g=rng.choice([vec((3, 5), (4, 5)), vec(1, (1, 5)),
                              vec(-2, 0), vec(0, -1), vec((-4, 5), (3, 5))])),
        dict(a, fl=vec(-500, 3, 7)), dict(c, r50=q(900)),
        dict(a, r50=q(-1), nu=q(5), beta=q(1, 2)),
        dict(c, r50=q(1, 100000), nu=q(-9, 10), beta=q(1))]


def layout(rng):
    psf = rng.choice([[True], [False], [True, False]])
    return [[dict(dims=rng.choice(KDIMS), wt=rng.choice(KWTS),
                  psf=rng.choice(psf))
             for _ in range(rng.choice([1, 1, 2]))]
            for _ in range(rng.choice([1, 1, 2, 3]))]


def jobs(chk, rng):
    out = []
    for k in range(chk.budget(10, 40)):
        lays = []
        for _ in range(3):
            x = layout(rng)
            if x not in lays:
                lays.append(x)
        from .c19 import CENS, BAS, POOL1
        pri = [[], [rng.choice(CENS), rng.choice(BAS), rng.randrange(18)]]
        out.append(('GalsimLayout', dict(constants=dict(
            Models={MODELS[k % 5]}, Layouts=raw(lays), Pts=points(rng),
            Priors=raw(pri), Pool1=c21.pool(POOL1)),
            invariants=['PriorFirst', 'TwicePerMode', 'FluxLast'],
            emit='Emit')))
    return out


def kim(arr, dk):
    ny, nx = arr.shape
    b = galsim.BoundsI(-(nx // 2), -(nx // 2) + nx - 1,
                       -(ny // 2), -(ny // 2) + ny - 1)
    return galsim.Image(np.array(arr), bounds=b, scale=dk)


def profile(model, p):
    # p: c1, c2, g1, g2, r50, [extra], flux
    cls = dict(exp=galsim.Exponential, dev=galsim.DeVaucouleurs,
               gauss=galsim.Gaussian, spergel=galsim.Spergel,
               moffat=galsim.Moffat)[model]
    a = [] if len(p) == 6 else [p[5]]
    return cls(*a, half_light_radius=p[4], flux=p[-1]).shear(
        galsim.Shear(g1=p[2], g2=p[3])).shift(p[0], p[1])


def values(gal, dims, dk):
    ny, nx = dims
    return np.array([[gal.kValue(x * dk, y * dk)
                      for x in range(-(nx // 2), -(nx // 2) + nx)]
                     for y in range(-(ny // 2), -(ny // 2) + ny)])


class Case(object):
    def __init__(self, rec, gen):
        self.inp, self.out = rec['inp'], rec['out']
        self.rec = rec
        self.obs = ngmix.observation.KMultiBandObsList()
        self.dks, self.psfs, self.data = {}, {}, {}
        # a weight counts whatever its size
        self.unit = {}
        base = gen.choice([1., 1., 4. ** -20, 4. ** 10])
        for b, eps in enumerate(self.inp['lay']):
            ol = ngmix.observation.KObsList()
            for e, ep in enumerate(eps):
                dims = ep['dims']
                dk = gen.uniform(.2, .6)
                self.dks[b, e] = dk
                d = gen.normal(size=dims) * 3 + 1j * gen.normal(size=dims)
                self.data[b, e] = d
                psf = None
                if ep['psf']:
                    p = gen.normal(size=dims) + 1j * gen.normal(size=dims)
                    self.psfs[b, e] = p
                    psf = ngmix.observation.KObservation(kim(p, dk))
                n = dims[0] * dims[1]
                w = np.array([ep['wt'][k % len(ep['wt'])] for k in range(n)],
                             dtype='f8').reshape(dims)
                u = base * gen.choice([1., 1., 1., 4. ** -15], size=dims)
                self.unit[b, e] = u
                w = w * u
                ol.append(ngmix.observation.KObservation(kim(d, dk), weight=kim(w, dk),
                                             psf=psf))
            self.obs.append(ol)
        self.low = np.sqrt(base)
        self.cache = {}

    def ok(self, k):
        pt = self.out['pts'][k]
        return pt['exists'] and pt['prior']

    def full(self, k):
        return np.array([term.qf(x) for x in self.out['pts'][k]['full']])

    def model(self, k, b, e, rnd=False):
        p = [term.qf(x) for x in self.out['pts'][k]['band'][b]]
        if rnd:
            p[2] = p[3] = 0.0
        v = values(profile(self.inp['model'], p),
                   self.inp['lay'][b][e]['dims'], self.dks[b, e])
        if (b, e) in self.psfs:
            v = v * self.psfs[b, e]
        return v

    def residuals(self, k):
        if k in self.cache:
            return self.cache[k]
        grid, res, size = {}, [], []
        for e in self.out['entries']:
            if e[0] == 'prior':
                continue
            part, b, ep, x = e
            key = b - 1, ep - 1
            if key not in grid:
                grid[key] = self.model(k, *key).ravel()
            d = grid[key][x - 1] - self.data[key].ravel()[x - 1]
            w = self.out['weights'][b - 1][ep - 1][x - 1]
            size.append(np.sqrt(self.unit[key].ravel()[x - 1]))
            res.append((d.real if part == 're' else d.imag) * np.sqrt(w))
        pt = self.out['pts'][k]
        pri = [float(vterm.val(x, {})) for x in pt['fdiff']]
        # the residuals for weights of the specification, and the factor from
        # the unit these are in
        self.cache[k] = np.array(pri), np.array(res), np.array(size)
        return self.cache[k]

    def s2n(self, k):
        tot = 0.0
        for b, eps in enumerate(self.inp['lay']):
            for e in range(len(eps)):
                m = self.model(k, b, e, rnd=True).ravel()
                w = np.array(self.out['weights'][b][e]) * \
                    self.unit[b, e].ravel()
                tot += np.sum(w * np.abs(m) ** 2)
        return np.sqrt(tot)

    def snapshot(self):
        out = []
        for ol in self.obs:
            for o in ol:
                out += [o.kimage.array.copy(), o.weight.array.copy()]
                if o.has_psf():
                    out.append(o.psf.kimage.array.copy())
        return out


def tol_close(a, b, model):
    # profiles are evaluated from tables good to this
    rel = 2e-4 if model in ('spergel', 'moffat', 'dev') else 1e-5
    return np.abs(a - b) <= rel * (np.abs(b) + 1 + np.abs(b).max())


class KFit(Driver):
    def __init__(self, rec, rng):
        self.rng = rng
        self.gen = np.random.RandomState(rng.randrange(2 ** 31))
        self.c = Case(rec, self.gen)
        self.rec = rec
        self.before = self.c.snapshot()
        npts = len(rec['out']['pts'])
        ok = [k for k in range(npts) if self.c.ok(k) and k != 4]
        no = [k for k in range(npts) if not self.c.ok(k)]
        rng.shuffle(ok)
        rng.shuffle(no)
        self.fine = len(ok) > 1 and len(no) > 0
        if self.fine:
            self.map = {'g1': ok[0], 'g2': ok[1], 'b1': no[0], 'b2': no[-1]}
        self.prior = None
        if rec['inp']['prior']:
            self.prior = c21.build(
                dict(kind=rec['out']['joint'], n=rec['out']['jn']),
                rec['out'], rng.randrange(10 ** 8), rng)
        self.bad = []
        n = rec['out']['npars']
        a = self.gen.normal(size=(n, n))
        self.cov = a.dot(a.T) + np.eye(n)
        self.was = None

    def _make(self, guess):
        form = self.rng.choice([list, np.array, tuple])(guess)
        m = self.rec['inp']['model']
        o = self.c.obs
        if len(o) == 1 and self.rng.random() < .5:
            o = o[0]
            if len(o) == 1 and self.rng.random() < .5:
                o = o[0]
        if m == 'spergel':
            return GalsimSpergelFitModel(obs=o, guess=form, prior=self.prior)
        if m == 'moffat':
            return GalsimMoffatFitModel(obs=o, guess=form, prior=self.prior)
        return GalsimFitModel(obs=o, model=m, guess=form, prior=self.prior)

    def op_make(self, p):
        self.bad = []
        self.fit = self._make(self.c.full(self.map[p]))

    def op_make_short(self):
        self._make(self.c.full(self.map['g1'])[:-1])

    def op_make_long(self):
        self._make(np.append(self.c.full(self.map['g1']), 1.0))

    def op_make_range(self):
        ks = [k for k, pt in enumerate(self.rec['out']['pts'])
              if not pt['exists']]
        self.bad = []
        try:
            self._make(self.c.full(self.rng.choice(ks)))
        except GMixRangeError:
            raise
        except Exception as err:
            self.bad.append('a guess out of range raises %r' % err)
            raise

    def op_fdiff(self, p):
        k = self.map[p]
        pars = self.c.full(k)
        keep = pars.copy()
        got = self.fit.calc_fdiff(pars)
        out = self.c.out
        self.bad = []
        n, npr = len(out['entries']), out['nprior']
        if np.shape(got) != (n,):
            self.bad.append('%r residuals, specification %d'
                            % (np.shape(got), n))
            return
        if not self.c.ok(k):
            if not np.all(got == -np.inf):
                self.bad.append('at %r, which cannot be evaluated: %r'
                                % (pars, got[:5]))
            return
        pri, res, size = self.c.residuals(k)
        a, b = np.abs(got[:npr]), np.abs(pri)
        same = np.isinf(b) & (a == b)
        a, b = np.where(same, 0, a), np.where(same, 0, b)
        if not np.all(np.abs(a - b) <= 1e-9 * (1 + b) + 1e-8 * (b < 1e-6)):
            self.bad.append('prior terms %r, specification %r' % (a, b))
        good = tol_close(got[npr:] / size, res, self.rec['inp']['model'])
        if not np.all(good):
            j = int(np.where(~good)[0][0])
            self.bad.append('at %r: residual %d (%r) is %r, specification %r'
                            % (pars, npr + j, out['entries'][npr + j],
                               got[npr + j], res[j]))
        again = self.fit.calc_fdiff(pars)
        if not np.array_equal(got, again) or np.shares_memory(got, again):
            self.bad.append('evaluating again gives something else')
        if not np.array_equal(pars, keep):
            self.bad.append('the parameters were changed')

    def op_lnprob(self, p, more):
        self.bad = []

    def op_set(self, p, flagged):
        k = self.map[p]
        pars = self.c.full(k)
        res = dict(flags=8 if flagged else 0, pars=pars,
                   pars_cov=self.cov.copy(),
                   pars_err=np.sqrt(np.diag(self.cov)))
        self.fit.set_fit_result(res)
        self.bad = []
        for key in res:
            if not np.array_equal(self.fit[key], res[key]):
                self.bad.append('%s of the result changed' % key)
        if flagged:
            if self.was is None:
                for key in ('flux', 'g', 's2n_r'):
                    if key in self.fit:
                        self.bad.append('a flagged result has %s' % key)
            return
        self.was = p
        from .c19 import check_flux
        self.bad += check_flux(self.fit, [x - 1 for x in
                                          self.c.out['at']['flux']],
                               pars, self.cov)
        if not np.array_equal(self.fit['g'], pars[2:4]) or not np.array_equal(
                self.fit['g_cov'], self.cov[2:4, 2:4]):
            self.bad.append('g is %r' % self.fit['g'])
        s = self.c.s2n(k)
        neg = any(w < 0 for b in self.rec['inp']['lay'] for e in b
                  for w in e['wt'])
        if not neg and not abs(self.fit['s2n_r'] - s) <= 1e-3 * s + \
                1e-4 * self.c.low:
            self.bad.append('s2n_r is %r, specification %r'
                            % (self.fit['s2n_r'], s))

    def op_ask_gmix(self, p):
        self.bad = []
        if self.was is None:
            return
        k = self.map[p]
        for b in range(len(self.c.obs)):
            bp = np.array(self.fit.get_band_pars(self.c.full(k), b))
            w = [term.qf(x) for x in self.c.out['pts'][k]['band'][b]]
            if not np.array_equal(bp, w):
                self.bad.append('parameters of band %d are %r, specification '
                                '%r' % (b, bp, w))

    op_ask_convolved = op_ask_image = op_ask_gmix

    def check_result(self, act):
        bad, self.bad = self.bad, []
        return bad

    def differences(self, state):
        if not all(np.array_equal(x, y) for x, y in
                   zip(self.before, self.c.snapshot())):
            return ['the observations were changed']
        return []


def check(chk, rs, g, rng):
    recs = []
    for r in rs:
        chk.tlc(r, 'GalsimLayout')
        recs += r.records
    rng.shuffle(recs)
    paths = list(g.random_paths(len(recs), 12, seed=chk.seed + 5))
    todo = list(zip(recs, paths))

    def one(item, i):
        rec, path = item
        d = KFit(rec, random.Random(chk.seed * 37 + i))
        if not d.fine:
            return
        replay(chk, g, lambda st, q_: d, [path],
               'galsim fit of %s' % rec['inp']['model'], nproc=1)
    shard(chk, one, todo)
    shard(chk, lambda k, i: whole(chk, i), range(chk.budget(10, 60)))


def whole(chk, i):
    """from beginning to end, on images"""
    rng = random.Random(chk.seed * 100057 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    model = MODELS[i % 5]
    nb = rng.choice([1, 2])
    extra = dict(spergel=[.6], moffat=[2.8]).get(model, [])
    fl = [20.0, 35.0][:nb]
    true = np.array([0.02, -0.03, .1, -.05, .9] + extra + fl)
    psf = galsim.Gaussian(fwhm=.8)
    mb = ngmix.MultiBandObsList()
    n = 28
    for b in range(nb):
        ol = ngmix.ObsList()
        for _ in range(rng.choice([1, 2])):
            gal = galsim.Convolve(
                profile(model, list(true[:5]) + extra + [fl[b]]), psf)
            im = gal.drawImage(nx=n, ny=n, scale=.25).array.astype('f8')
            im += gen.normal(size=im.shape, scale=1e-3)
            c = (n - 1) / 2
            jac = ngmix.DiagonalJacobian(row=c, col=c, scale=.25)
            pim = psf.drawImage(nx=n, ny=n, scale=.25).array.astype('f8')
            ol.append(ngmix.Observation(
                im, weight=np.full((n, n), 1e6), jacobian=jac,
                psf=ngmix.Observation(pim, jacobian=jac)))
        mb.append(ol)
    obs = mb if nb > 1 else rng.choice([mb, mb[0]])
    keep = [(o.image.copy(), o.psf.image.copy()) for ol in mb for o in ol]
    guess = true * (1 + gen.uniform(-.03, .03, size=true.size))
    if extra:
        f = dict(spergel=GalsimSpergelFitter,
                 moffat=GalsimMoffatFitter)[model]()
    else:
        f = GalsimFitter(model=model)
    label = 'galsim fit of %s to %d bands' % (model, nb)
    chk.comparisons += 1
    chk.trace(1, 1)
    try:
        res = f.go(obs=obs, guess=guess)
    except Exception as err:
        chk.violation('%s: %r' % (label, err))
        return
    if not all(np.array_equal(a, o.image) and np.array_equal(p, o.psf.image)
               for (a, p), o in zip(keep, [o for ol in mb for o in ol])):
        chk.violation(label + ' changes the observations')
    if res['flags']:
        return
    from .c19 import check_flux
    bad = check_flux(res, list(range(5 + len(extra), true.size)),
                     res['pars'], res['pars_cov'])
    # each band has its own flux
    if np.any(np.abs(np.ravel(res['flux']) / fl - 1) > .15):
        bad.append('flux is %r for profiles of %r' % (res['flux'], fl))
    for x in bad:
        chk.violation('%s: %s' % (label, x))
    if i < 2:
        chk.sample({'fit': label, 'flux': np.ravel(res['flux']).tolist()})
