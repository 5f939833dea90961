"""C19: layout of model fits."""
import random

import numpy as np
import ngmix
from ngmix.fitting import (FitModel, CoellipFitModel, Fitter, CoellipFitter)
from ngmix.gexceptions import GMixRangeError

from . import tlc, term, vterm, gmref, c21, c19g
from .c05 import q, vec
from .c06 import raw
from .graph import Graph
from .replay import Driver, replay
from .report import shard

MODELS = ['gauss', 'exp', 'dev', 'turb', 'bd', 'bdf', 'coellip']
POOL1 = [('flat', [q(-50), q(50)]), ('normal', [q(1), q(4)]),
         ('normalb', [q(3), q(2), q(-8), q(20)]),
         ('lognormal', [q(100), q(20), q(-60)]),
         ('trunc', [q(1), q(3), q(-50), q(60)]),
         ('erf', [q(-60), q(3), q(60), q(2)])]
CENS = [[q(0), q(0), q(1, 2), q(1, 4)], [q(1, 8), q(-1, 4), q(1), q(2)]]
BAS = [[q(3, 10), q(1)], [q(1, 5), q(1)]]
PSFS = [[], [], [vec(1, 0, 0, 1, 0, 1)], [vec(2, 0, 0, (3, 2), (1, 4), 1)],
        [vec(1, (1, 4), 0, 1, 0, 1), vec(3, 0, (-1, 4), 2, (1, 2), 1)],
        [vec((1, 2), 0, 0, (1, 2), 0, (3, 4)),
         vec((1, 4), 0, (1, 2), 4, 1, 3)]]
DIMS = [[4, 5], [3, 4], [5, 3], [2, 2], [1, 6], [6, 1]]
WTS = [[1], [4, 1, 0, 9], [2, 0, 3, 1, 0], [1, 2]]
GOODS = [('0 0', (0, 0), (1, 5), 0, 4), ('', (1, 2), (-1, 10), (2, 5), 2)]


def pt(cen, g, T, lr, fd, fl):
    return dict(cen=cen, g=g, T=T, lr=lr, fd=fd, fl=fl)


def points(rng):
    """1-3 good, 4 out of the disk, 5 and 6 where some priors end, 7 and 8
    for which some mixtures do not exist"""
    z = q(0)
    fl = [vec(10, 3, 7), vec((5, 2), 20, 1), vec(1, 2, (3, 2))]
    rng.shuffle(fl)
    a = pt(vec(0, 0), vec((1, 5), (-1, 10)), q(4), q(1, 4), q(1, 3), fl[0])
    b = pt(vec((1, 2), (-1, 4)), vec(0, (3, 10)), q(5, 2), q(-1, 2), q(3, 4),
           fl[1])
    c = pt(vec((-1, 4), (1, 8)), [z, z], q(6), z, q(1, 2), fl[2])
    good = [a, b, c]
    rng.shuffle(good)
    bad = [dict(b, g=rng.choice([vec((3, 5), (4, 5)), vec(1, (1, 5)),
                                 vec(-2, 0), vec(0, -1)])),
           dict(a, fl=vec(-500, 3, 7)), dict(b, T=q(900)),
           dict(a, T=q(-1)), dict(c, T=q(-3, 2), g=vec((1, 2), 0))]
    return good + bad


def epoch(rng, plain):
    return dict(dims=rng.choice(DIMS[:3] if plain else DIMS),
                wt=rng.choice(WTS), ignore=rng.random() < .7,
                psf=rng.choice(PSFS))


def layout(rng, model):
    nb = 1 if model == 'coellip' else rng.choice([1, 1, 2, 3])
    lay = [[epoch(rng, False) for _ in range(rng.choice([1, 1, 2, 3]))]
           for _ in range(nb)]
    how = rng.choice(['mixed', 'all', 'none', 'all'])
    for b in lay:
        for e in b:
            if how == 'all':
                e['psf'] = rng.choice(PSFS[2:])
            elif how == 'none':
                e['psf'] = []
            if not any(e['wt'][k % len(e['wt'])] > 0
                       for k in range(e['dims'][0] * e['dims'][1])):
                e['wt'] = [1]
    # the code makes lists of one epoch or one band of these as well
    return lay


def mk_epoch(e, rng, gen):
    n = e['dims'][0] * e['dims'][1]
    wt = np.array([e['wt'][k % len(e['wt'])] for k in range(n)],
                  dtype='f8').reshape(e['dims'])
    im = gen.normal(size=e['dims'], loc=1, scale=2)
    jac = ngmix.Jacobian(
        row=(e['dims'][0] - 1) / 2 + gen.uniform(-.5, .5),
        col=(e['dims'][1] - 1) / 2 + gen.uniform(-.5, .5),
        dvdrow=gen.uniform(.5, 1.5), dvdcol=gen.uniform(-.3, .3),
        dudrow=gen.uniform(-.3, .3),
        dudcol=gen.choice([-1, 1]) * gen.uniform(.5, 1.5))
    psf = None
    if e['psf'] or rng.random() < .3:
        # a psf without a mixture is not used
        psf = ngmix.Observation(np.ones((3, 3)), jacobian=jac)
        if e['psf']:
            psf.set_gmix(ngmix.GMix(pars=np.array(
                [[term.qf(x) for x in c] for c in e['psf']]).ravel()))
    return ngmix.Observation(im, weight=wt, jacobian=jac, psf=psf,
                             ignore_zero_weight=e['ignore'])


def mk_obs(lay, rng, gen):
    bands = []
    for b in lay:
        ol = ngmix.ObsList()
        for e in b:
            ol.append(mk_epoch(e, rng, gen))
        bands.append(ol)
    mb = ngmix.MultiBandObsList()
    for ol in bands:
        mb.append(ol)
    forms = [mb]
    if len(bands) == 1:
        forms.append(bands[0])
        if len(bands[0]) == 1:
            forms.append(bands[0][0])
    return mb, rng.choice(forms)


def snapshot(mb):
    out = []
    for ol in mb:
        for o in ol:
            out.append(o.image.copy())
            out.append(o.weight.copy())
            out.append(o.jacobian._data.copy())
            out.append(o.pixels.copy())
            if o.has_psf_gmix():
                out.append(o.psf.gmix.get_full_pars())
    return out


def unchanged(a, b):
    return len(a) == len(b) and all(
        np.array_equal(x, y) for x, y in zip(a, b))


class Case(object):
    """what the specification says of one fit, in numbers"""

    def __init__(self, rec, mb):
        self.inp, self.out, self.mb = rec['inp'], rec['out'], mb
        self.cache = {}

    def comps(self, k):
        """components for every band and epoch at point k"""
        pt = self.out['pts'][k]
        term.set_refs(pt['refs'])
        parts = [[(term.val(f), term.val(s)) for f, s in b]
                 for b in pt['parts']]
        head = [term.qf(x) for x in pt['cen']] + [term.qf(x)
                                                  for x in pt['e']]
        out = []
        for b, eps in enumerate(self.out['models']):
            flat = [x for p in parts[b] for x in p]
            term.set_refs(head + flat)
            out.append([np.array([[term.val(x) for x in c] for c in m])
                        for m in eps])
        return out

    def at(self, k):
        """None where it cannot be evaluated"""
        if k not in self.cache:
            self.cache[k] = self._at(k)
        return self.cache[k]

    def _at(self, k):
        pt = self.out['pts'][k]
        r = dict(full=np.array([term.qf(x) for x in pt['full']]), ok=False,
                 fill=False, sure=True)
        if not pt['shape']:
            return r
        comps = self.comps(k)
        none = False
        for b in comps:
            for m in b:
                # covariances are positive definite
                det = m[:, 3] * m[:, 5] - m[:, 4] ** 2
                tr = m[:, 3] + m[:, 5]
                if np.any(np.abs(det) < 1e-12) or np.any(
                        np.abs(tr) < 1e-9):
                    r['sure'] = False
                if np.any(det <= 0) or np.any(tr <= 0):
                    none = True
        if none:
            return r
        r['fill'] = True
        if not pt['prior']:
            return r
        r['ok'] = True
        r['comps'] = comps
        m, s, d, w, edge = [], [], [], [], []
        grid = {}
        for e in self.out['entries']:
            if e[0] == 'prior':
                continue
            _, b, ep, x = e
            o = self.mb[b - 1][ep - 1]
            if (b, ep) not in grid:
                nr, nc = o.image.shape
                rr, cc = np.mgrid[0:nr, 0:nc]
                j = o.jacobian
                r0, c0 = j.get_cen()
                v = j.dvdrow * (rr - r0) + j.dvdcol * (cc - c0)
                u = j.dudrow * (rr - r0) + j.dudcol * (cc - c0)
                area = abs(j.dvdrow * j.dudcol - j.dvdcol * j.dudrow)
                cs = comps[b - 1][ep - 1]
                grid[b, ep] = [
                    gmref.evaluate(cs, v, u, area, fast=True).ravel(),
                    gmref.scale(cs, v, u, area).ravel(),
                    gmref.edge(cs, v, u).ravel(),
                    o.image.ravel(), o.weight.ravel()]
            g = grid[b, ep]
            m.append(g[0][x - 1])
            s.append(g[1][x - 1])
            edge.append(g[2][x - 1])
            d.append(g[3][x - 1])
            w.append(max(g[4][x - 1], 0))
        m, s, d, w = [np.array(x) for x in (m, s, d, w)]
        dm = 6e-5 * s + 1e-13 * s.max() + np.where(edge, s, 0)
        term.set_refs(pt['refs'])
        env = dict(m=m, d=d, w=w, prior=float(vterm.val(pt['lnp'], {})))
        st = {k: float(vterm.val(v, env)) if isinstance(v, list) and k not in
              ('npix', 'dof') else v for k, v in self.out['stats'].items()}
        r.update(
            prior=np.array([float(vterm.val(x, {})) for x in pt['fdiff']]),
            res=np.sqrt(w) * (m - d), tol=np.sqrt(w) * dm + 1e-12,
            stats=st,
            slack=dict(
                lnprob=np.sum(w * (np.abs(m - d) + dm) * dm)
                + 1e-9 * (1 + abs(st['lnprob'])),
                numer=np.sum(w * np.abs(d) * dm) + 1e-9,
                denom=np.sum(w * (2 * np.abs(m) + dm) * dm) + 1e-9))
        return r


def near(a, b, tol):
    return abs(a - b) <= tol or (a == b)


def check_fdiff(c, k, got):
    r = c.at(k)
    n, npr = len(c.out['entries']), c.out['nprior']
    got = np.asarray(got)
    if got.shape != (n,):
        return ['%r residuals, specification %d' % (got.shape, n)]
    if not r['ok']:
        if not np.all(got == -np.inf):
            return ['a point which cannot be evaluated gives %r' % got[:5]]
        return []
    bad = []
    a, b = got[:npr], r['prior']
    if c.out['joint'] not in ('bd', 'bdf'):
        a, b = np.abs(a), np.abs(b)
    same = np.isinf(b) & (a == b)
    a, b = np.where(same, 0, a), np.where(same, 0, b)
    if not np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b))
                  + 1e-8 * (np.abs(b) < 1e-6)):
        bad.append('prior terms %r, specification %r' % (a, b))
    off = np.abs(got[npr:] - r['res']) > r['tol']
    if np.any(off):
        j = int(np.where(off)[0][0])
        bad.append('at %r: ' % r['full'] + 'residual %d (%r) is %r, specification %r'
                   % (npr + j, c.out['entries'][npr + j], got[npr + j],
                      r['res'][j]))
    return bad


def check_lnprob(c, k, got, more):
    r = c.at(k)
    if not more:
        got = dict(lnprob=got)
    if not r['ok']:
        want = dict(lnprob=-np.inf)
        if more:
            want.update(npix=0, s2n_numer=0.0)
        return ['%s is %r, specification %r at a point which cannot be '
                'evaluated' % (x, got[x], y) for x, y in want.items()
                if got[x] != y]
    st, sl = r['stats'], r['slack']
    bad = []
    names = [('lnprob', 'lnprob')]
    if more:
        names += [('s2n_numer', 'numer'), ('s2n_denom', 'denom')]
        if got['npix'] != st['npix']:
            bad.append('npix is %r, specification %r' % (got['npix'],
                                                         st['npix']))
    for x, y in names:
        if not near(got[x], st[y], sl[y]):
            bad.append('%s is %r, specification %r' % (x, got[x], st[y]))
    return bad


def check_stats(c, k, fit, cov):
    """what a result without flags reports"""
    r = c.at(k)
    st, sl = r['stats'], r['slack']
    bad = check_lnprob(c, k, fit, True)
    pars = r['full']
    want = dict(dof=(st['dof'], 0),
                chi2per=(st['chi2per'], 2 * sl['lnprob'] / abs(st['dof'])),
                s2n=(st['s2n'], (sl['numer'] + abs(st['s2n'])
                                 * sl['denom'] / np.sqrt(st['denom']))
                     / np.sqrt(st['denom']) + 1e-9),
                T=(pars[4], 0), T_err=(np.sqrt(cov[4, 4]), 1e-12))
    want['s2n_w'] = want['s2n']
    for x, (y, t) in want.items():
        if not near(fit[x], y, t):
            bad.append('%s is %r, specification %r' % (x, fit[x], y))
    gi = [x - 1 for x in c.out['at']['g']]
    for x, y in (('g', pars[gi]), ('g_cov', cov[np.ix_(gi, gi)]),
                 ('g_err', np.sqrt(np.diag(cov))[gi])):
        if not np.allclose(fit[x], y, rtol=1e-12, atol=0):
            bad.append('%s is %r, specification %r' % (x, fit[x], y))
    bad += check_flux(fit, [x - 1 for x in c.out['at']['flux']], pars, cov)
    return bad


def check_flux(fit, fi, pars, cov):
    bad = []
    if not fi:
        return bad
    f, fe = pars[fi], np.sqrt(np.diag(cov))[fi]
    if len(fi) == 1:
        if np.ndim(fit['flux']) or np.ndim(fit['flux_err']):
            bad.append('the flux of one band is not one number')
        f, fe = f[0], fe[0]
    elif not np.allclose(fit['flux_cov'], cov[np.ix_(fi, fi)], rtol=1e-12):
        bad.append('flux_cov is %r' % fit['flux_cov'])
    for x, y in (('flux', f), ('flux_err', fe)):
        if not np.allclose(fit[x], y, rtol=1e-12, atol=0) or \
                np.shape(fit[x]) != np.shape(y):
            bad.append('%s is %r, specification %r' % (x, fit[x], y))
    return bad


def same_mixture(gm, want, rel=1e-9):
    got = np.array([gm.get_data()[n] for n in
                    ('p', 'row', 'col', 'irr', 'irc', 'icc')]).T
    return got.shape == want.shape and np.allclose(
        got, want, rtol=rel, atol=1e-9)


def prior_of(rec, rng):
    if not rec['inp']['prior']:
        return None
    inp = dict(kind=rec['out']['joint'], n=rec['out']['jn'])
    return c21.build(inp, rec['out'], rng.randrange(10 ** 8), rng)


def galaxy(c, k, band):
    """the profile of a band before convolution"""
    pt = c.out['pts'][k]
    term.set_refs(pt['refs'])
    parts = [(term.val(f), term.val(s)) for f, s in pt['parts'][band]]
    ce = [term.qf(x) for x in pt['cen']]
    e1, e2 = [term.qf(x) for x in pt['e']]
    return np.array([[f, ce[0], ce[1], s / 2 * (1 - e1), s / 2 * e2,
                      s / 2 * (1 + e1)] for f, s in parts])


class Fit(Driver):
    def __init__(self, rec, rng):
        self.rng = rng
        gen = np.random.RandomState(rng.randrange(2 ** 31))
        self.mb, self.obs = mk_obs(rec['inp']['lay'], rng, gen)
        self.c = Case(rec, self.mb)
        self.rec = rec
        self.before = snapshot(self.mb)
        self.fit = None
        npts = len(rec['out']['pts'])
        ok = [k for k in range(npts) if self.c.at(k)['ok']
              and self.c.at(k)['sure']]
        rng.shuffle(ok)
        self.fine = len(ok) >= 2
        no = [k for k in range(npts) if not self.c.at(k)['ok']
              and self.c.at(k)['sure']]
        rng.shuffle(no)
        self.map = {'g1': ok[0], 'g2': ok[-1], 'b1': no[0],
                    'b2': no[-1]} if self.fine and no else {}
        self.fine = bool(self.map)
        self.prior = prior_of(rec, rng)
        self.bad = []
        n = rec['out']['npars']
        a = gen.normal(size=(n, n))
        self.cov = a.dot(a.T) + np.eye(n)
        self.err_type = None

    def pars(self, p):
        k = self.map[p]
        return k, self.c.at(k)['full'].copy()

    def _make(self, guess):
        inp = self.rec['inp']
        form = self.rng.choice([list, np.array, tuple])(guess)
        if inp['model'] == 'coellip':
            return CoellipFitModel(obs=self.obs, ngauss=inp['ng'],
                                   guess=form, prior=self.prior)
        model = inp['model']
        if self.rng.random() < .3:
            model = ngmix.gmix.get_model_num(model)
        return FitModel(obs=self.obs, model=model, guess=form,
                        prior=self.prior)

    def op_make(self, p):
        self.bad = []
        self.fit = self._make(self.pars(p)[1])
        bounds = self.fit.bounds
        pb = None if self.prior is None else self.prior.bounds
        if bounds != pb:
            self.bad.append('bounds %r, the prior has %r' % (bounds, pb))

    def op_make_short(self):
        self._make(self.pars('g1')[1][:-1])

    def op_make_long(self):
        self._make(np.append(self.pars('g1')[1], 1.0))

    def op_make_range(self):
        ks = [k for k in range(len(self.rec['out']['pts']))
              if not self.rec['out']['pts'][k]['shape']]
        self.bad = []
        try:
            self._make(self.c.at(self.rng.choice(ks))['full'])
        except GMixRangeError:
            raise
        except Exception as err:
            self.bad.append('a guess out of range raises %r' % err)
            raise

    def op_fdiff(self, p):
        k, pars = self.pars(p)
        keep = pars.copy()
        got = self.fit.calc_fdiff(pars)
        self.bad = check_fdiff(self.c, k, got)
        again = self.fit.calc_fdiff(pars)
        if not np.array_equal(got, again):
            self.bad.append('evaluating again gives something else')
        if np.shares_memory(got, again):
            self.bad.append('residual vectors share memory')
        if not np.array_equal(pars, keep):
            self.bad.append('the parameters were changed')

    def op_lnprob(self, p, more):
        k, pars = self.pars(p)
        got = self.fit.calc_lnprob(pars, more=more)
        self.bad = check_lnprob(self.c, k, got, more)

    def op_set(self, p, flagged):
        k, pars = self.pars(p)
        res = dict(flags=self.rng.choice([1, 2 ** 13]) if flagged else 0,
                   pars=pars, nfev=7)
        if not flagged or self.rng.random() < .5:
            res.update(pars_cov=self.cov.copy(),
                       pars_err=np.sqrt(np.diag(self.cov)))
        self.bad = []
        if not flagged and self.c.out['stats']['dof'] == 0:
            # such a fit is flagged
            return
        self.fit.set_fit_result(res)
        for key in res:
            if not np.array_equal(self.fit[key], res[key]):
                self.bad.append('%s of the result changed' % key)
        if flagged:
            for key in ('flux', 'T', 's2n', 'chi2per', 'g'):
                if key in self.fit and self.was is None:
                    self.bad.append('a flagged result has %s' % key)
        else:
            self.bad += check_stats(self.c, k, self.fit, self.cov)
        self.was = None if flagged else p

    was = None

    def skip(self):
        self.bad = []
        return self.c.out['stats']['dof'] == 0 or self.was is None

    def op_ask_gmix(self, p):
        if self.skip():
            return
        k, _ = self.pars(p)
        for b in range(len(self.mb)):
            gm = self.fit.get_gmix(band=b)
            if not same_mixture(gm, galaxy(self.c, k, b)):
                self.bad.append('get_gmix of band %d is %s' % (b, gm))
            gm.set_flux(77.0)

    def op_ask_convolved(self, p):
        if self.skip():
            return
        k, _ = self.pars(p)
        comps = self.c.at(k)['comps']
        for b, e in self.epochs():
            gm = self.fit.get_convolved_gmix(band=b, obsnum=e)
            if not same_mixture(gm, comps[b][e]):
                self.bad.append('the mixture of band %d epoch %d is %s'
                                % (b, e, gm))
            gm.set_flux(77.0)

    def op_ask_image(self, p):
        if self.skip():
            return
        k, _ = self.pars(p)
        comps = self.c.at(k)['comps']
        for b, e in self.epochs():
            o = self.mb[b][e]
            im = self.fit.make_image(band=b, obsnum=e)
            nr, nc = o.image.shape
            rr, cc = np.mgrid[0:nr, 0:nc]
            v, u = o.jacobian.get_vu(rr, cc)
            area = o.jacobian.area
            if im.shape != o.image.shape or not gmref.close(
                    im, gmref.evaluate(comps[b][e], v, u, area),
                    comps[b][e], v, u, area):
                self.bad.append('the image of band %d epoch %d differs'
                                % (b, e))

    def epochs(self):
        return [(b, e) for b in range(len(self.mb))
                for e in range(len(self.mb[b]))]

    def check_result(self, act):
        bad, self.bad = self.bad, []
        return bad

    def differences(self, state):
        if not unchanged(self.before, snapshot(self.mb)):
            return ['the observations were changed']
        return []


def whole(chk, rec, i):
    """a fit from beginning to end"""
    rng = random.Random(chk.seed * 100019 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    mb, obs = mk_obs(rec['inp']['lay'], rng, gen)
    c = Case(rec, mb)
    inp, out = rec['inp'], rec['out']
    ok = [k for k in range(len(out['pts'])) if c.at(k)['ok']
          and c.at(k)['sure'] and k < 3]
    if not ok:
        return
    k = rng.choice(ok)
    # data near the model
    pos = 0
    for e in out['entries']:
        if e[0] != 'pix':
            continue
        o = mb[e[1] - 1][e[2] - 1]
        im = o.image.copy()
        r = c.at(k)
        w = max(o.weight.ravel()[e[3] - 1], 1.0)
        im.ravel()[e[3] - 1] += r['res'][pos] / np.sqrt(w)
        pos += 1
        with o.writeable():
            o.image[:] = im
    for ol in mb:
        for o in ol:
            with o.writeable():
                o.image += gen.normal(size=o.image.shape, scale=.01)
    c = Case(rec, mb)
    prior = prior_of(rec, rng)
    before = snapshot(mb)
    guess = c.at(k)['full'] * (1 + gen.uniform(-.02, .02, size=out['npars']))
    keep = guess.copy()
    fit_pars = rng.choice([None, dict(maxfev=400, ftol=1e-4, xtol=1e-4)])
    if inp['model'] == 'coellip':
        f = CoellipFitter(ngauss=inp['ng'], prior=prior, fit_pars=fit_pars)
    else:
        f = Fitter(model=inp['model'], prior=prior, fit_pars=fit_pars)
    label = 'fit of %s, prior %s' % (inp['model'], inp['prior'] != [])
    chk.trace(1, 1)
    chk.comparisons += 1
    try:
        res = f.go(obs=obs, guess=guess)
    except Exception as err:
        chk.violation('%s: %r' % (label, err))
        return
    if not unchanged(before, snapshot(mb)) or not np.array_equal(keep, guess):
        chk.violation(label + ' changes the data or the guess')
        return
    if res['flags'] != 0:
        for key in ('flux', 's2n', 'chi2per'):
            if key in res:
                chk.violation('%s: a flagged result has %s' % (label, key))
        return
    # the reported statistics are those of the vector at the solution
    errors(chk, res, out, label)
    pars, npr = res['pars'], out['nprior']
    fd = res.calc_fdiff(pars)
    st = out['stats']
    lnp = 0.0 if prior is None else prior.get_lnprob_scalar(pars)
    # (sign conventions of prior terms aside, see the layout)
    want = lnp - .5 * np.sum(fd[npr:] ** 2)
    d = np.concatenate([o.image.ravel()[o_used(o)] for ol in mb for o in ol])
    w = np.concatenate([o.weight.ravel()[o_used(o)] for ol in mb for o in ol])
    s = np.sqrt(np.maximum(w, 0))
    m = d + fd[npr:] / np.where(s > 0, s, 1)
    numer, denom = np.sum(w * m * d), np.sum(w * m * m)
    cov = res['pars_cov']
    for name, y in (('lnprob', want), ('npix', st['npix']),
                    ('dof', st['dof']), ('s2n_numer', numer),
                    ('s2n_denom', denom), ('s2n', numer / np.sqrt(denom)),
                    ('chi2per', want / -.5 / st['dof'] if st['dof'] else 0),
                    ('T', pars[4]), ('T_err', np.sqrt(cov[4, 4]))):
        if not abs(res[name] - y) <= 1e-7 * (1 + abs(y)):
            chk.violation('%s: %s is %r, specification %r'
                          % (label, name, res[name], y))
    bad = check_flux(res, [x - 1 for x in out['at']['flux']], pars, cov)
    if not np.array_equal(res['g'], pars[2:4]) or not np.allclose(
            res['g_err'], np.sqrt(np.diag(cov))[2:4], rtol=1e-10):
        bad.append('g is %r' % res['g'])
    if res['model'] != inp['model'] or not np.allclose(
            res['pars_err'], np.sqrt(np.diag(cov)), rtol=1e-10):
        bad.append('model or errors differ')
    for x in bad:
        chk.violation('%s: %s' % (label, x))
    if i < 3:
        chk.sample({'fit': label, 'lnprob': float(res['lnprob']),
                    'dof': int(res['dof'])})


def errors(chk, res, out, label):
    pars = res['pars']
    jac = np.zeros((len(out['entries']), len(pars)))
    for j in range(len(pars)):
        h = 1e-4 * max(abs(pars[j]), .05)
        a, b = pars.copy(), pars.copy()
        a[j] += h
        b[j] -= h
        jac[:, j] = (res.calc_fdiff(a) - res.calc_fdiff(b)) / (2 * h)
    if not np.all(np.isfinite(jac)) or np.linalg.cond(jac) > 1e4:
        return
    fd = res.calc_fdiff(pars)[out['nprior']:]
    cov = np.linalg.inv(jac.T.dot(jac)) * np.sum(fd ** 2) / out['stats']['dof']
    # (differences in the derivatives aside)
    ratio = np.diag(res['pars_cov']) / np.diag(cov)
    if np.min(np.abs(ratio - 1)) > .03:
        chk.violation('%s: variances are %s times those of the pixel '
                      'residuals' % (label, ratio))


def o_used(o):
    if o.ignore_zero_weight:
        return o.weight.ravel() > 0
    return np.ones(o.weight.size, dtype=bool)


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough
    jobs = []
    for k in range(chk.budget(14, 56)):
        m = MODELS[k % len(MODELS)]
        lays = []
        for _ in range(4):
            x = layout(rng, m)
            if x not in lays:
                lays.append(x)
        pri = [[]] + [[rng.choice(CENS), rng.choice(BAS), rng.randrange(18)]
                      for _ in range(2)]
        jobs.append(('FitLayout', dict(constants=dict(
            Models={m}, Layouts=raw(lays), Pts=points(rng),
            Priors=raw(pri), Pool1=c21.pool(POOL1),
            NG={1, 3} if m == 'coellip' else {1}),
            invariants=['PriorFirst', 'OncePerPixel', 'InOrder',
                        'SharedStructure', 'Counts'], emit='Emit')))
    run = ('FitRun', dict(constants=dict(
        Good={'g1', 'g2'}, Bad={'b1', 'b2'}, MaxOps=chk.budget(4, 5)),
        properties=['EvalUnchanged', 'RefusedUnchanged'], emit='Emit'))
    rs = tlc.parallel([run] + jobs + c19g.jobs(chk, rng))
    chk.tlc(rs[0], 'FitRun')
    g = Graph(rs[0].records, init=[dict(made=False, res='none')])
    recs = []
    for r in rs[1:1 + len(jobs)]:
        chk.tlc(r, 'FitLayout')
        recs += r.records
    rng.shuffle(recs)
    fits(chk, g, recs, rng)
    big = [r for r in recs if r['out']['stats']['dof'] > 2]
    shard(chk, lambda rec, i: whole(chk, rec, i),
          big[:chk.budget(60, 400)])
    c19g.check(chk, rs[1 + len(jobs):], g, rng)


def fits(chk, g, recs, rng):
    paths = list(g.covering_paths(seed=chk.seed, max_len=24))
    todo = []
    for k, rec in enumerate(recs):
        todo.append((rec, paths[k % len(paths)]))
    paths = list(g.random_paths(len(recs), 14, seed=chk.seed + 1))
    todo += list(zip(recs, paths))

    def one(item, i):
        rec, path = item
        r = random.Random(chk.seed * 31 + i)
        d = Fit(rec, r)
        if not d.fine:
            return
        replay(chk, g, lambda st, q_: d, [path],
               'fit of %s' % rec['inp']['model'], nproc=1)
    shard(chk, one, todo)
