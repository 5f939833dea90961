"""Drive real mixtures through behaviours of specs/GMix.tla."""
import copy

import numpy as np
import ngmix

from .replay import Driver
from .term import qf, close
from . import gmref

JAC = dict(row=1.3, col=2.1, dvdrow=0.9, dvdcol=0.2, dudrow=-0.3, dudcol=0.8)
DIMS = (6, 5)


def the_obs():
    rng = np.random.RandomState(5)
    w = rng.uniform(0.5, 2.0, size=DIMS)
    w[1, 2] = w[4, 0] = 0.0
    return ngmix.Observation(rng.normal(size=DIMS), weight=w,
                             jacobian=ngmix.Jacobian(**JAC))


def grid():
    r, c = np.mgrid[:DIMS[0], :DIMS[1]]
    r, c = r - JAC['row'], c - JAC['col']
    return (JAC['dvdrow'] * r + JAC['dvdcol'] * c,
            JAC['dudrow'] * r + JAC['dudcol'] * c,
            abs(JAC['dvdrow'] * JAC['dudcol'] - JAC['dvdcol'] * JAC['dudrow']))


V, U, AREA = grid()


def floats(q):
    return [qf(x) for x in q]


def build(kind, pars, how):
    if kind == 'full':
        return ngmix.GMix(pars=pars)
    if how == 0:
        return ngmix.gmix.make_gmix_model(pars, kind)
    if kind == 'coellip':
        return ngmix.gmix.GMixCoellip(pars)
    return ngmix.GMixModel(pars, kind)


class Real(Driver):
    pars = None       # kind -> list of vectors
    derived = True

    def __init__(self, st, rng):
        self.rng = rng
        self.obs = the_obs()
        self.gm = {}
        for r, m in enumerate(st['mix'], 1):
            kind = m['kind']
            comps = [floats(c) for c in m['comps']]
            # the parameter vector with these components
            for q in self.pars[kind]:
                g = build(kind, floats(q), rng.randint(0, 1))
                if len(g) == len(comps) and np.allclose(
                        g.get_full_pars(), np.ravel(comps), rtol=1e-12,
                        atol=1e-14):
                    self.gm[r] = g
                    break
            else:
                self.gm[r] = ngmix.GMix(pars=np.ravel(comps))

    def at(self, r):
        return self.gm[r]

    def put(self, r, g):
        self.gm[r] = g

    # -- operations --
    def op_refill(self, r, kind, k):
        self.at(r).fill(floats(self.pars[kind][k - 1]))

    def op_wrongfill(self, r, d):
        n = len(self.at(r)) * 6 if type(self.at(r)) is ngmix.GMix else \
            self.at(r)._npars
        self.at(r).fill(np.full(n + d, 0.125))

    def op_badfill(self, r, g):
        p = np.full(self.at(r)._npars, 0.25)
        p[2:4] = floats(g)
        self.at(r).fill(p)

    def op_reset(self, r):
        self.at(r).reset()

    def op_set_flux(self, r, f):
        g = self.at(r)
        (g.set_flux if self.rng.random() < .5 else g.set_psum)(qf(f))

    def op_set_cen(self, r, c):
        self.at(r).set_cen(*floats(c))

    def op_shear(self, r, s, t):
        s = floats(s)
        g = self.at(r)
        if self.rng.random() < .5:
            new = g.get_sheared(*s)
        else:
            new = g.get_sheared(ngmix.Shape(*s))
        self.put(t, new)

    def op_round(self, r, pres, t):
        self.put(t, self.at(r).make_round(preserve_size=pres))

    def op_convolve(self, r, p, t):
        self.put(t, self.at(r).convolve(self.at(p)))

    def op_wrongconvolve(self, r):
        self.at(r).convolve(self.at(r).get_full_pars())

    def op_copy(self, r, t, how):
        g = self.at(r)
        self.put(t, {'copy': lambda: g.copy(), 'copy.copy':
                     lambda: copy.copy(g), 'deepcopy':
                     lambda: copy.deepcopy(g)}[how]())

    def op_concat(self, r, s, t):
        two = [self.at(r), self.at(s)]
        if self.rng.random() < .3:
            gl = ngmix.gmix.gmix_lists.GMixList()
            for g in two:
                gl.append(g)
            two = gl
        self.put(t, ngmix.gmix.gmix_concat(two))

    def op_eval(self, r, how):
        g = self.at(r)
        try:
            if how in ('image', 'fastimage'):
                # rendering into an image adds to it
                fast = how == 'fastimage'
                out = g.make_image(DIMS, jacobian=ngmix.Jacobian(**JAC),
                                   fast_exp=fast)
            elif how == 'loglike':
                out = g.get_loglike(self.obs, more=True)
            elif how == 'fdiff':
                out = np.full(DIMS[0] * DIMS[1] + 3, -77.0)
                g.fill_fdiff(self.obs, out, start=2)
            elif how == 's2n':
                out = g.get_model_s2n(self.obs)
            elif how == 'moments':
                out = g.get_weighted_sums(self.obs, maxrad=1e9)
                out = {n: np.array(out[n]) for n in ('wsum', 'npix', 'sums')}
            elif how == 'norms':
                g.set_norms_if_needed()
                out = None
            else:
                g.set_norms()
                out = None
        except ngmix.gexceptions.GMixRangeError:
            raise
        except Exception as err:
            raise AssertionError('wrong exception %r' % (err,))
        self.out = out

    def do(self, act):
        ok = super(Real, self).do(act)
        if isinstance(self.err, AssertionError) and 'wrong exc' in str(
                self.err):
            self.odd = str(self.err)
        else:
            self.odd = None
        return ok

    def check_result(self, act):
        if self.odd:
            return [self.odd]
        if act['op'] != 'eval' or not act['ok']:
            return []
        self.pending = act
        return []

    def check_eval(self, act, comps):
        how, out = act['args'][1], self.out
        if out is None:
            return []
        fast = how not in ('image', 'moments')
        want = gmref.evaluate(comps, V, U, AREA, fast=fast)
        sc = gmref.scale(comps, V, U, AREA)
        rel = 6e-5 if fast else 1e-9
        if how in ('image', 'fastimage'):
            if not gmref.close(out, want, comps, V, U, AREA, fast):
                return ['%s differs from the definition by %g'
                        % (how, np.abs(out - want).max())]
            return []
        o = self.obs
        use = o.weight > 0
        m, d, w, s = want[use], o.image[use], o.weight[use], sc[use]
        e = rel * s
        if how == 'fdiff':
            n = m.size
            ref = (m - d) * np.sqrt(w)
            if not (np.all(out[:2] == -77) and np.all(out[2 + n:] == -77)
                    and np.all(np.abs(out[2:2 + n] - ref)
                               <= e * np.sqrt(w) + 1e-12)):
                return ['residuals differ from the definition']
        elif how == 'loglike':
            ref = dict(loglike=-0.5 * ((m - d) ** 2 * w).sum(),
                       s2n_numer=(m * d * w).sum(),
                       s2n_denom=(m * m * w).sum(), npix=m.size)
            tol = dict(loglike=((np.abs(m - d) + e) * e * w).sum(),
                       s2n_numer=(e * np.abs(d) * w).sum(),
                       s2n_denom=((2 * np.abs(m) + e) * e * w).sum(), npix=0)
            for k in ref:
                if not abs(out[k] - ref[k]) <= tol[k] + 1e-10 * abs(ref[k]) \
                        + 1e-12:
                    return ['%s is %g, definition %g' % (k, out[k], ref[k])]
        elif how == 's2n':
            ref = np.sqrt((m * m * w).sum())
            if not abs(out - ref) <= rel * 3 * np.sqrt(
                    (s * s * w).sum()) + 1e-12:
                return ['model s/n %g, definition %g' % (out, ref)]
        elif how == 'moments':
            row, col = comps[0][1:3]
            v, u = V[use], U[use]
            dv, du = v - row, u - col
            F = [v, u, du ** 2 - dv ** 2, 2 * dv * du, du ** 2 + dv ** 2,
                 np.ones_like(v)]
            ref = np.array([(m * d * f).sum() for f in F])
            tol = np.array([(s * np.abs(d * f)).sum() for f in F]) * 1e-9
            if not (np.all(np.abs(out['sums'] - ref) <= tol + 1e-12)
                    and close(out['wsum'], m.sum(), atol=1e-9 * s.sum())
                    and out['npix'] == m.size):
                return ['weighted sums differ from the definition']
        return []

    def differences(self, st):
        bad = []
        for r, m in enumerate(st['mix'], 1):
            g = self.gm[r]
            comps = np.array([floats(c) for c in m['comps']])
            full = g.get_full_pars()
            tol = 1e-9 * (1 + np.abs(comps).max())
            if len(g) != len(comps) or full.shape != (comps.size,) \
                    or np.abs(full - comps.ravel()).max() > tol:
                bad.append('mixture %s has components %r, specification %r'
                           % (r, full.reshape(-1, 6).round(8).tolist(),
                              comps.round(8).tolist()))
                continue
            if self.derived and 'd' in st:
                bad += ['mixture %s: %s' % (r, b)
                        for b in self.totals(g, st['d'][r - 1], comps)]
        if getattr(self, 'pending', None):
            act, self.pending = self.pending, None
            comps = [floats(c)
                     for c in st['mix'][act['args'][0] - 1]['comps']]
            bad += self.check_eval(act, comps)
        return bad

    def totals(self, g, d, comps):
        bad = []

        def cmp(name, got, want):
            got, want = np.atleast_1d(got), np.atleast_1d(want)
            if got.shape != want.shape or not all(
                    close(a, b, rtol=1e-8, atol=1e-9)
                    for a, b in zip(got, want)):
                bad.append('%s is %r, specification %r'
                           % (name, got.tolist(), want.tolist()))
        with np.errstate(all='ignore'):
            if len(g) != d['n']:
                bad.append('%d components' % len(g))
            cmp('flux', g.get_flux(), qf(d['flux']))
            cmp('psum', g.get_psum(), qf(d['flux']))
            if d['cen']:
                cmp('centre', g.get_cen(), floats(d['cen']))
            if d['shape']:
                e1, e2, T = floats(d['shape'])
                cmp('T', g.get_T(), T)
                cmp('e1e2T', g.get_e1e2T(), [e1, e2, T])
                if T > 0:
                    cmp('sigma', g.get_sigma(), np.sqrt(T / 2))
                    cmp('e1e2sigma', g.get_e1e2sigma(),
                        [e1, e2, np.sqrt(T / 2)])
                if d['proper']:
                    e = np.hypot(e1, e2)
                    f = 1 / (1 + np.sqrt(1 - e * e))
                    cmp('g1g2T', g.get_g1g2T(), [e1 * f, e2 * f, T])
                    cmp('g1g2sigma', g.get_g1g2sigma(),
                        [e1 * f, e2 * f, np.sqrt(T / 2)])
            if d['positive'] and d['cen']:
                self.apflux(g, comps, bad)
        return bad

    def apflux(self, g, comps, bad):
        """gaussian aperture flux of the mixture about its own centres"""
        fwhm = 1.7
        s2 = (fwhm / 2.3548200450309493) ** 2
        want = 0.0
        for p, row, col, irr, irc, icc in comps:
            det = irr * icc - irc ** 2
            # exp(-x C^-1 x / 2) weighted by exp(-x^2/2s2)
            tot = (irr + s2) * (icc + s2) - irc ** 2
            want += p * s2 / np.sqrt(tot)
        got = [g.get_gaussap_flux(fwhm=fwhm),
               g.get_gaussap_flux(sigma=np.sqrt(s2)),
               g.get_gaussap_flux(T=2 * s2)]
        if not np.allclose(got, want, rtol=1e-8, atol=1e-10):
            bad.append('aperture flux %r, definition %r' % (got, want))
