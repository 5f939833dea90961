"""C20: priors in all their forms."""
import contextlib
import io
import random

import numpy as np
import ngmix
from ngmix import priors as P
from ngmix.gexceptions import GMixRangeError

from . import tlc, term, vterm
from .c05 import q, vec
from .c06 import raw
from .graph import Graph
from .replay import replay, Driver
from .report import shard

Q = vec
FLATS = [Q(-1, 3), Q(0, (1, 4)), Q((-5, 2), -2), Q(100, 1000)]
ERFS = [Q(-1, (1, 10), 3, (1, 2)), Q(0, 1, 10, (1, 100)), Q(-4, 2, 4, 2),
        Q(0, (1, 100), 6, 2), Q(0, 2, 6, (1, 100))]
NORMALS = [Q(0, 1), Q(-3, (1, 2)), Q(10, 5), Q((1, 8), (1, 64))]
LNS = [Q(1, (1, 2), 0), Q(100, 20, -8), Q((1, 2), 2, 1), Q(3, (1, 8), (-1, 2))]
SINHS = [Q(0, 1), Q((1, 2), (1, 4)), Q(-10, 4)]
TRUNCS = [Q(0, 1, -1, 3), Q((1, 2), (1, 4), 0, 1), Q(2, 3, 1, 2),
          Q(-1, 2, (-3, 2), (5, 2))]
BAS = [Q((3, 10), 1), Q((1, 10), 2), Q((1, 100), 1), Q((1, 2), (1, 2)),
       Q(2, 1), Q((1, 200), 3), Q(10, 1), Q((9, 10), 1)]
DISKS = [Q(1), Q((5, 4)), Q((1, 4)), Q(30)]
CENS = [Q(0, 0, 1, 1), Q(1, -2, (1, 4), 3), Q((1, 2), 3, 2, (1, 8))]
GAUSSES = [Q((1, 10)), Q((1, 2)), Q(3)]
TS = [q(-1), q(-1, 1024), q(0), q(1, 4), q(1, 2), q(1), q(1025, 1024), q(2),
      q(3, 8), q(-1, 4), q(3, 4)]
PS = [Q(0, 0), Q(1, 0), Q(0, -1), Q((1, 2), (1, 4)), Q((-3, 4), (1, 8)),
      Q((1, 16), 0), Q(0, (-1, 64)), Q((7, 8), (7, 8)), Q(-2, 1),
      Q((63, 64), 0), Q(0, (65, 64)), Q((3, 5), (-2, 5))]


def make(kind, p, rng, gen):
    f = [term.qf(x) for x in p]
    if kind == 'flat':
        return P.FlatPrior(f[0], f[1], rng=gen)
    if kind == 'erf':
        return P.TwoSidedErf(*f, rng=gen)
    if kind == 'normal':
        b = rng.choice([None, (f[0] - 1, f[0] + 5)])
        g = P.Normal(f[0], f[1], rng=gen, bounds=b)
        assert g.bounds == b and g.has_bounds() == (b is not None)
        return g
    if kind == 'lmbounds':
        return P.LMBounds(f[0], f[1], rng=gen)
    if kind == 'lognormal':
        if f[2] == 0 and rng.random() < .6:
            return P.LogNormal(f[0], f[1], rng=gen)
        return P.LogNormal(f[0], f[1], rng=gen, shift=f[2])
    if kind == 'sinh':
        return P.Sinh(*f, rng=gen)
    if kind == 'trunc':
        return P.TruncatedGaussian(*f, rng=gen)
    if kind == 'ba':
        if f[1] == 1 and rng.random() < .5:
            return P.GPriorBA(f[0], gen)
        return P.GPriorBA(f[0], gen, A=f[1])
    if kind == 'disk':
        return P.ZDisk2D(f[0], rng=gen)
    if kind == 'cen':
        return rng.choice([P.CenPrior, P.SimpleGauss2D])(*f, rng=gen)
    if kind == 'gauss':
        return P.GPriorGauss(f[0], gen)
    raise ValueError(kind)


def names(kind, qty):
    """methods that answer quantity qty for numbers and for arrays"""
    d = {'prob_s': ['get_prob_scalar'], 'prob_a': ['get_prob_array'],
         'lnprob_s': ['get_lnprob_scalar'], 'lnprob_a': ['get_lnprob_array'],
         'fdiff_s': ['get_fdiff'], 'fdiff_a': ['get_fdiff']}[qty]
    if kind == 'normal':
        d = d + {'prob_s': ['get_prob'], 'prob_a': ['get_prob'],
                 'lnprob_s': ['get_lnprob'],
                 'lnprob_a': ['get_lnprob']}.get(qty, [])
    if kind in ('ba', 'disk'):
        d = [x + '2d' if 'fdiff' not in x else x for x in d]
    return d


LOW = {'prob': 0.0, 'lnprob': -np.inf, 'fdiff': np.inf}


def want_of(pt, what):
    if what == 'prob':
        return [float(vterm.val(pt['prob'], {}))]
    if what == 'lnprob':
        with np.errstate(divide='ignore', invalid='ignore'):
            return [float(vterm.val(pt['lnp'], {}))]
    with np.errstate(divide='ignore', invalid='ignore'):
        return [float(vterm.val(x, {})) for x in pt['fdiff']]


def near(got, want, kind, what, pt):
    """float equality, allowing for how the quantity is computed"""
    if np.isnan(want) or np.isnan(got):
        # a wide edge leaves a rounding of nothing beyond the other
        return kind == 'erf' and want_of(pt, 'prob')[0] < 1e-12
    if np.isinf(want) or np.isinf(got):
        if got == want:
            return True
        # a probability that rounds to nothing
        return kind == 'erf' and want_of(pt, 'prob')[0] < 1e-12
    tol = 1e-11 * (1 + abs(want))
    if kind == 'erf':
        p = want_of(pt, 'prob')[0]
        if p < 1e-12:
            return True
        tol += 1e-15 / p
        if what == 'fdiff':
            return abs(got ** 2 - want ** 2) <= 4 * tol
    if what == 'fdiff' and kind in ('lognormal', 'ba'):
        # the square root of a small difference
        return abs(got ** 2 - want ** 2) <= 4 * tol
    return abs(got - want) <= tol


def evaluate(chk, pr, kind, out, rng, label):
    pts = out['pts']
    for qty, pol in sorted(out['policy'].items()):
        if pol == 'none':
            continue
        what, form = qty.rsplit('_', 1)
        for name in names(kind, qty):
            f = getattr(pr, name)
            if form == 's':
                for pt in pts:
                    x = [term.qf(v) for v in pt['x']]
                    if rng.random() < .3:
                        x = [np.float64(v) for v in x]
                    chk.comparisons += 1
                    lab = '%s.%s%r' % (label, name, tuple(x))
                    try:
                        got = f(*x)
                    except GMixRangeError:
                        if pt['in'] or pol != 'raise':
                            chk.violation(lab + ' is refused')
                        continue
                    if not pt['in'] and pol == 'raise':
                        chk.violation('%s gives %r outside of the support'
                                      % (lab, got))
                        continue
                    got = got if isinstance(got, tuple) else (got,)
                    want = want_of(pt, what) if pt['in'] else [LOW[what]]
                    if len(got) != len(want) or not all(
                            np.ndim(g) == 0 and near(g, w, kind, what, pt)
                            for g, w in zip(got, want)):
                        chk.violation('%s gives %r, specification %r'
                                      % (lab, got, want))
            else:
                ins = [p for p in pts if p['in']]
                for k in range(4):
                    pool = ins if k < 2 else pts
                    sub = [rng.choice(pool)
                           for _ in range(rng.choice([1, 2, 5, 9]))]
                    if k == 0:
                        sub = list(pool)
                    arrs = [np.array([term.qf(p['x'][c]) for p in sub])
                            for c in range(len(sub[0]['x']))]
                    keep = [a.copy() for a in arrs]
                    chk.comparisons += 1
                    lab = '%s.%s%r' % (label, name, tuple(arrs))
                    anyout = not all(p['in'] for p in sub)
                    try:
                        got = f(*arrs)
                    except GMixRangeError:
                        if not (pol == 'raise' and anyout):
                            chk.violation(lab + ' is refused')
                        continue
                    except Exception as err:
                        chk.violation('%s raises %r' % (lab, err))
                        continue
                    if pol == 'raise' and anyout:
                        chk.violation('%s gives %r though a point is out of '
                                      'range' % (lab, got))
                        continue
                    if not all(np.array_equal(a, b)
                               for a, b in zip(arrs, keep)):
                        chk.violation(lab + ' changed its argument')
                        continue
                    got = got if isinstance(got, tuple) else (got,)
                    if any(np.shape(g) != (len(sub),) for g in got):
                        chk.violation('%s gives %r, not one value per point'
                                      % (lab, got))
                        continue
                    for j, p in enumerate(sub):
                        want = want_of(p, what) if p['in'] else [LOW[what]]
                        if len(want) != len(got) or not all(
                                near(g[j], w, kind, what, p)
                                for g, w in zip(got, want)):
                            chk.violation(
                                '%s is %r at entry %d, specification %r' % (
                                    lab, [g[j] for g in got], j, want))
                            break


def extras(chk, pr, kind, inp, out, rng, label):
    """forms that only some of the classes have"""
    f = [term.qf(x) for x in inp['p']]
    bad = []
    if kind == 'lmbounds':
        if tuple(pr.bounds) != (f[0], f[1]) or not pr.has_bounds():
            bad.append('bounds are %r' % (pr.bounds,))
    if kind in ('flat', 'erf', 'trunc', 'sinh', 'lognormal', 'cen', 'disk',
                'ba') and pr.has_bounds():
        bad.append('has bounds %r' % (pr.bounds,))
    if kind in ('lognormal', 'cen', 'normal', 'ba', 'trunc') and out['mode']:
        # zero at the mode, lower around it
        m = [float(vterm.val(x, {})) for x in out['mode']]
        g = pr.get_lnprob_scalar2d if kind == 'ba' else pr.get_lnprob_scalar
        s = {'lognormal': f[1], 'cen': 1., 'normal': f[1], 'ba': f[0],
             'trunc': f[1]}[kind]
        try:
            at = g(*m)
            if not abs(at) <= 1e-11:
                bad.append('log-probability at its mode is %r' % at)
        except GMixRangeError:
            if kind != 'trunc' or f[2] <= m[0] <= f[3]:
                bad.append('the mode is out of range')
        for _ in range(6):
            x = [v + s * rng.uniform(-.5, .5) for v in m]
            try:
                if g(*x) > 1e-11:
                    bad.append('log-probability is above zero at %r' % x)
            except GMixRangeError:
                pass
    if kind == 'ba':
        A = f[1]
        # the one-dimensional form integrates the other over the angle
        rs = np.array([0., .01, .3, .5, .999, 1., 1.5, .25])
        d = np.array([2 * np.pi * r * pr.get_prob_scalar2d(r, 0.)
                      for r in rs])
        one = np.array([pr.get_prob_scalar1d(r) for r in rs])
        arr = pr.get_prob_array1d(rs)
        if not np.allclose(one, d, rtol=1e-11, atol=0) or \
                not np.allclose(arr, d, rtol=1e-11, atol=0):
            bad.append('the one-dimensional probability is %r and %r, '
                       'specification %r' % (one, arr, d))
        pr.set_maxval1d()
        m = float(vterm.val(out['mode1'][0], {}))
        if abs(float(np.ravel(pr.maxval1d_loc)[0]) - m) > 1e-3 * m:
            bad.append('the most likely |g| is %r, specification %r'
                       % (pr.maxval1d_loc, m))
        elif not np.allclose(pr.maxval1d, pr.get_prob_scalar1d(m),
                             rtol=1e-6, atol=0):
            bad.append('the highest probability is %r, specification %r'
                       % (pr.maxval1d, pr.get_prob_scalar1d(m)))
        if A <= 0:
            bad.append('amplitude')
    if kind == 'disk':
        R = f[0]
        for r in (0., .5 * R, .999 * R, R, 1.5 * R):
            try:
                v = pr.get_lnprob_scalar1d(r)
                if r >= R or v != 0:
                    bad.append('get_lnprob_scalar1d(%r) is %r' % (r, v))
            except GMixRangeError:
                if r < R:
                    bad.append('get_lnprob_scalar1d(%r) is refused' % r)
            if pr.get_prob_scalar1d(r) != float(r < R):
                bad.append('get_prob_scalar1d(%r)' % r)
    if kind == 'cen':
        for pt in out['pts']:
            x = [term.qf(v) for v in pt['x']]
            a, b = pr.get_lnprob_scalar_sep(*x)
            fa, fb = want_of(pt, 'fdiff')
            if abs(a + fa ** 2 / 2) > 1e-11 * (1 + fa ** 2) or \
                    abs(b + fb ** 2 / 2) > 1e-11 * (1 + fb ** 2):
                bad.append('get_lnprob_scalar_sep%r is %r'
                           % (tuple(x), (a, b)))
    chk.comparisons += 1
    for b in bad:
        chk.violation('%s: %s' % (label, b))


def samplers(pr, kind):
    """[(name, function(nrand), dimension)]"""
    if kind in ('ba', 'gauss', 'disk'):
        r = [('sample2d', pr.sample2d, 2)]
        if kind == 'ba':
            r.append(('sample1d', lambda n: pr.sample1d(n), 1))
            r.append(('sample2d_brute', pr.sample2d_brute, 2))
        if kind == 'disk':
            r.append(('sample1d', pr.sample1d, 1))
        return r
    if kind == 'cen':
        return [('sample', pr.sample, 2), ('sample2d', pr.sample2d, 2)]
    r = [('sample', pr.sample, 1)]
    if kind == 'normal':
        r.append(('sample(size)', lambda n=None: pr.sample(size=n), 1))
    if kind == 'lognormal':
        r.append(('sample_brute', pr.sample_brute, 1))
    return r


def cdf(c, x):
    with np.errstate(divide='ignore', invalid='ignore'):
        g = np.asarray(vterm.val(c['g'], {'x': x}), dtype='f8') + 0. * x
        lo = 0. if c['lo'] == ['none'] else vterm.val(
            c['g'], {'x': vterm.val(c['lo'], {})})
        hi = 1. if c['hi'] == ['none'] else vterm.val(
            c['g'], {'x': vterm.val(c['hi'], {})})
    return (g - lo) / (hi - lo)


def distribution(c, x):
    """Kolmogorov's statistic, and whether all is inside of the limits"""
    for k, s in (('lo', 1), ('hi', -1)):
        if c[k] != ['none']:
            e = float(vterm.val(c[k], {}))
            if np.any(s * (x - e) < -1e-12 * (1 + abs(e))):
                return None
    u = np.sort(cdf(c, x))
    n = len(u)
    i = np.arange(n)
    return max(np.max(u - i / n), np.max((i + 1) / n - u))


def draws(chk, kind, inp, out, rng, label, i):
    n = chk.budget(5000, 40000)
    seed = rng.randrange(2 ** 31)
    np.random.seed(77)
    st = np.random.get_state()[1].copy()
    pa = make(kind, inp['p'], random.Random(i), np.random.RandomState(seed))
    pb = make(kind, inp['p'], random.Random(i), np.random.RandomState(seed))
    for (name, f, dim), (_, g, _) in zip(samplers(pa, kind),
                                         samplers(pb, kind)):
        lab = '%s.%s' % (label, name)
        if inp['kind'] == 'ba' and name == 'sample2d_brute' and \
                term.qf(inp['p'][0]) < 0.05:
            continue       # takes forever
        chk.comparisons += 1
        if name not in ('sample2d_brute',) and not (
                kind == 'ba' and name == 'sample1d'):
            a, b = f(), g()
            ta = a if isinstance(a, tuple) else (a,)
            if len(ta) != dim or any(np.shape(v) != () for v in ta):
                chk.violation('%s() gives %r' % (lab, a))
            if not np.array_equal(a, b):
                chk.violation('%s(): %r and %r from equal generators'
                              % (lab, a, b))
        for m in (1, 3, n):
            a, b = f(m), g(m)
            ta = a if isinstance(a, tuple) else (a,)
            if len(ta) != dim or any(np.shape(v) != (m,) for v in ta):
                chk.violation('%s(%d) gives shapes %r' % (
                    lab, m, [np.shape(v) for v in ta]))
            if not np.array_equal(a, b):
                chk.violation('%s(%d) differs between equal generators'
                              % (lab, m))
        # `a` are the n samples
        x = a
        cs = out['samples']
        if cs[0]['what'] == 'r' and dim == 2:
            x = (np.hypot(a[0], a[1]),
                 np.arctan2(a[1], a[0]) % (2 * np.pi))
            if name == 'sample2d_brute':
                cs = [dict(cs[0], hi=[1, 1]), cs[1]]
        elif dim == 1:
            x = (a,)
        for c, v in zip(cs, x):
            chk.comparisons += 1
            d = distribution(c, v)
            if d is None:
                chk.violation('%s drew %s outside of the support'
                              % (lab, c['what']))
            elif not d <= 3.6 / np.sqrt(len(v)):
                chk.violation('%s: the distribution of %s is off by %.3g'
                              % (lab, c['what'], d))
        if dim == 2:
            # independent coordinates
            u = [cdf(c, v) for c, v in zip(cs, x)]
            r = np.corrcoef(u[0], u[1])[0, 1]
            if not abs(r) <= 7 / np.sqrt(len(u[0])):
                chk.violation('%s: the coordinates are correlated (%.3g)'
                              % (lab, r))
    if not np.array_equal(st, np.random.get_state()[1]):
        chk.violation('%s: the global generator was used' % label)
    # within limits
    if len(out['samples']) == 1:
        c = out['samples'][0]
        gen = np.random.RandomState(seed)
        base = make(kind, inp['p'], random.Random(i), gen)
        s = np.sort(base.sample(200))
        lo, hi = float(s[20]), float(s[150])
        if not hi > lo:
            return
        cb = dict(c, lo=lo, hi=hi)
        for cls in (P.Bounded1D, P.LimitPDF):
            bp = cls(base, (lo, hi))
            if tuple(bp.bounds) != (lo, hi) or not bp.has_bounds():
                chk.violation('%s, bounded: bounds are %r'
                              % (label, bp.bounds))
            x = bp.sample(n)
            one = bp.sample()
            szd = bp.sample(size=4)
            chk.comparisons += 1
            if np.shape(x) != (n,) or np.shape(one) != () or \
                    np.shape(szd) != (4,):
                chk.violation('%s, bounded: wrong shapes' % label)
                continue
            allx = np.concatenate([x, [one], szd])
            if not np.all((allx >= lo) & (allx <= hi)):
                chk.violation('%s, bounded: samples outside of the bounds'
                              % label)
                continue
            d = distribution(cb, x)
            if d is None or not d <= 3.6 / np.sqrt(n):
                chk.violation('%s, bounded: the distribution is off by %r'
                              % (label, d))


def one(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    inp, out = rec['inp'], rec['out']
    kind = inp['kind']
    gen = np.random.RandomState(chk.seed * 31 + i)
    pr = make(kind, inp['p'], rng, gen)
    label = '%s(%s)' % (type(pr).__name__,
                        ', '.join('%g' % term.qf(x) for x in inp['p']))
    if pr.rng is not gen:
        chk.violation(label + ': the generator was replaced')
    st = gen.get_state()[1].copy()
    evaluate(chk, pr, kind, out, rng, label)
    extras(chk, pr, kind, inp, out, rng, label)
    if not np.array_equal(st, gen.get_state()[1]):
        chk.violation(label + ': evaluations used the generator')
    draws(chk, kind, inp, out, rng, label, i)
    # and once more, after sampling
    pr.rng.uniform()
    evaluate(chk, pr, kind, out, rng, label + ' again')
    chk.trace(1, len(out['pts']))
    if i < 3:
        chk.sample({'prior': label, 'points': [
            [[term.qf(v) for v in p['x']], p['in']] for p in out['pts']]})


class Real(Driver):
    """priors that are edited; compared with ones made afresh"""
    def __init__(self, state, rng):
        self.seed = rng.randrange(2 ** 31)
        self.gen = np.random.RandomState(self.seed)
        self.ba, self.bd = self.fresh(state, self.gen)
        self.rng = rng
        self.bad = []

    def fresh(self, state, gen):
        ba = P.GPriorBA(term.qf(state['sig']), gen, A=term.qf(state['amp']))
        bd = P.Bounded1D(P.Normal(0.25, 2.0, rng=gen), self.lim(state['lim']))
        return ba, bd

    def lim(self, l):
        return tuple(term.qf(x) for x in l)

    def op_set_sigma(self, s):
        self.ba.set_sigma(term.qf(s))

    def op_set_pars(self, a, s):
        self.ba.set_pars([term.qf(a), term.qf(s)])

    def op_fit(self, a, s):
        # the density of (a, s), fitted: the prior becomes that density
        a, s = term.qf(a), term.qf(s)
        x = np.linspace(0.02, 1, 60) * min(0.96, 5 * s)
        y = P.GPriorBA(s, self.gen, A=a).get_prob_array1d(x)
        guess = None
        if not 0.05 < s < 0.6 or self.rng.random() < 0.5:
            guess = np.array([1.1 * a, 0.93 * s])
        with contextlib.redirect_stdout(io.StringIO()):
            self.ba.fit(x, y, guess=guess)
        if not np.allclose(self.ba.fit_pars, [a, s], rtol=1e-4) or \
                not np.allclose([self.ba.A, self.ba.sigma], [a, s],
                                rtol=1e-3):
            self.bad.append('the fit to its own density of A %g, sigma %g '
                            'gives %r' % (a, s, self.ba.fit_pars))
        self.ba.set_pars([a, s])

    def op_find_max(self):
        self.ba.set_maxval1d()
        x = np.linspace(0, 1, 20001)[1:-1]
        m = self.ba.get_prob_array1d(x).max()
        if not abs(self.ba.maxval1d / m - 1) < 1e-5:
            self.bad.append('the maximum of the density is said to be %r, '
                            'it is %r' % (self.ba.maxval1d, m))

    def op_set_limits(self, l):
        if len(l) == 1:
            self.bd.set_limits(term.qf(l[0]))
        self.bd.set_limits(self.lim(l))

    DRAW = {'sample1d': lambda ba, bd: ba.sample1d(9),
            'sample2d': lambda ba, bd: ba.sample2d(9),
            'brute': lambda ba, bd: ba.sample2d_brute(3),
            'one': lambda ba, bd: ba.sample2d(),
            'bounded': lambda ba, bd: bd.sample(9),
            'bounded_one': lambda ba, bd: bd.sample()}

    def op_draw(self, w):
        self.before = self.gen.get_state()
        self.drawn = w
        return self.DRAW[w](self.ba, self.bd)

    def differences(self, state):
        bad, self.bad = self.bad, []
        gen = np.random.RandomState()
        if getattr(self, 'drawn', None):
            gen.set_state(self.before)
        else:
            gen.set_state(self.gen.get_state())
        ba, bd = self.fresh(state, gen)
        if getattr(self, 'drawn', None):
            want = self.DRAW[self.drawn](ba, bd)
            if not np.allclose(want, self.result, rtol=1e-6, atol=1e-12):
                bad.append('%s gives %r, a fresh prior gives %r' % (
                    self.drawn, self.result, want))
            self.drawn = None
        for f in ('get_prob_scalar2d', 'get_lnprob_scalar2d', 'get_fdiff'):
            for g in ((.1, .2), (0., -.5)):
                a, b = getattr(self.ba, f)(*g), getattr(ba, f)(*g)
                if not abs(a - b) <= 1e-12 * abs(b):
                    bad.append('%s%r is %r, of a fresh prior %r'
                               % (f, g, a, b))
        if self.ba.sigma != ba.sigma or self.ba.A != ba.A or \
                tuple(self.bd.bounds) != tuple(bd.bounds):
            bad.append('parameters')
        return bad


def kde(chk):
    """kernel densities: shape, determinism, the mean and spread"""
    for k in range(chk.budget(6, 30)):
        gen = np.random.RandomState(chk.seed * 50 + k)
        nd = [0, 2, 3][k % 3]
        data = gen.normal(size=60 if nd == 0 else (60, nd)) * 2 + 5
        keep = data.copy()
        fac = [0.3, 'scott'][k % 2]
        a = P.KDE(data, fac, np.random.RandomState(k))
        b = P.KDE(data.copy(), fac, np.random.RandomState(k))
        for m in (None, 1, 4, 3000):
            x, y = a.sample(m), b.sample(m)
            chk.comparisons += 1
            want = () if m is None else (m,)
            want = want + ((nd,) if nd else ())
            if np.shape(x) != want:
                chk.violation('KDE of %d dimensions: sample(%r) has shape %r'
                              % (nd, m, np.shape(x)))
                continue
            if not np.array_equal(x, y):
                chk.violation('KDE: equal generators, different samples')
        f = 0.3 if fac == 0.3 else 60 ** (-1. / (max(nd, 1) + 4))
        for d in range(max(nd, 1)):
            v, s = (x, data) if nd == 0 else (x[:, d], data[:, d])
            sd = np.sqrt(np.var(s) + f ** 2 * np.var(s, ddof=1))
            if abs(np.mean(v) - np.mean(s)) > 7 * sd / np.sqrt(3000) or \
                    abs(np.std(v) / sd - 1) > 0.12:
                chk.violation('KDE: samples have mean %r, spread %r; '
                              'specification %r, %r' % (
                                  np.mean(v), np.std(v), np.mean(s), sd))
        if not np.array_equal(data, keep):
            chk.violation('KDE changed its data')


def construction(chk):
    """what cannot be made"""
    for f in (lambda: P.FlatPrior(0, 1, rng=None),
              lambda: P.Normal(0, 1, rng=None),
              lambda: P.GPriorBA(0.1, None),
              lambda: P.CenPrior(0, 0, 1, 1, rng=None),
              lambda: P.ZDisk2D(1, rng=None)):
        chk.comparisons += 1
        try:
            f()
        except AssertionError:
            continue
        chk.violation('a prior without a generator was made')
    for m in (0, -1.5):
        chk.comparisons += 1
        try:
            P.LogNormal(m, 1.0, rng=np.random.RandomState(1))
        except ValueError:
            continue
        chk.violation('a lognormal of mean %r was made' % m)
    for b in ((1, 1), (2, 1), (1, 2, 3), (1,), 5):
        chk.comparisons += 1
        try:
            P.Bounded1D(P.Normal(0, 1, rng=np.random.RandomState(1)), b)
        except ValueError:
            continue
        chk.violation('limits %r were accepted' % (b,))


def lognormal_fit(chk):
    """fitting a density of the family gives its parameters back"""
    gen = np.random.RandomState([chk.seed, 20])
    for _ in range(chk.budget(12, 100)):
        m = gen.uniform(0.5, 4)
        s = m * gen.uniform(0.2, 0.7)
        a = gen.uniform(0.3, 5)
        x = np.linspace(0.02 * m, m + 6 * s, 150)
        y = a * P.LogNormal(m, s, gen).get_prob_array(x)
        r = P.LogNormal(1.0, 0.5, rng=gen).fit(x, y)
        chk.comparisons += 1
        got = np.abs(r['pars']) if r['flags'] == 0 else None
        if got is None or not np.allclose(got, [m, s, a], rtol=1e-4):
            chk.violation('LogNormal.fit of its density with mean %g, sigma '
                          '%g, height %g gives %r' % (m, s, a, got))


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough
    ts = TS
    if deep:
        ts = TS + [q(-8), q(8), q(1, 1024), q(1023, 1024), q(5, 8), q(7, 8)]
    jobs = [('Priors', dict(constants=dict(
        Flats=raw(FLATS), Erfs=raw(ERFS), Normals=raw(NORMALS),
        Bounds=raw(FLATS), LogNormals=raw(LNS), Sinhs=raw(SINHS),
        Truncs=raw(TRUNCS), BAs=raw(BAS), Disks=raw(DISKS), Cens=raw(CENS),
        Gausses=raw(GAUSSES), Ts=raw(ts), Ps=raw(PS)),
        invariants=['Peak', 'ModeIsZero', 'Squares', 'Farther', 'Both'],
        emit='Emit'))]
    sig = [q(3, 10), q(1, 10), q(1, 50), q(3)]
    jobs.append(('PriorRun', dict(constants=dict(
        Sigmas=raw(sig if deep else rng.sample(sig, 2)),
        Amps=raw([q(1), q(2)]), Limits=raw([Q(-1, 1), Q(0, 5)]),
        BadLimits=raw([Q(1, 1), Q(2, 1)]), MaxOps=chk.budget(5, 6)),
        invariants=['Proper'],
        properties=['RefusedUnchanged', 'DrawUnchanged'], emit='Emit')))
    rs = tlc.parallel(jobs)
    chk.tlc(rs[0], 'Priors')
    chk.tlc(rs[1], 'PriorRun')
    shard(chk, lambda rec, i: one(chk, rec, i), rs[0].records)
    g = Graph(rs[1].records)
    g.inits = sorted(g.states)
    replay(chk, g, Real,
           list(g.covering_paths(seed=chk.seed,
                                 budget=chk.budget(8000, 40000))),
           'priors that change')
    kde(chk)
    construction(chk)
    lognormal_fit(chk)
    chk.notes['laws'] = (
        'the log-probability is not above its value at the mode, residual '
        'squares sum to minus twice it (exact), support and form policy, '
        'samples against the integral of the specified density')
