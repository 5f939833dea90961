"""C27: n-dimensional gaussian mixtures."""
import contextlib
import copy
import io
import math
import os
import pickle
import random
import shutil
import tempfile

import numpy as np
from ngmix.gmix_ndim import GMixND

from . import tlc, term
from .c05 import q
from .c06 import raw
from .graph import Graph
from .replay import Driver, replay
from .report import shard

NUMS = [q(0), q(1), q(-2), q(1, 2), q(3), q(-5, 2)]
COVS = {
    1: [[[q(1)]], [[q(4)]], [[q(1, 9)]], [[q(25, 2)]]],
    2: [[[q(1), q(0)], [q(0), q(1)]], [[q(2), q(1)], [q(1), q(3)]],
        [[q(1, 4), q(-1, 5)], [q(-1, 5), q(1)]],
        [[q(9), q(0)], [q(0), q(1, 4)]]],
    3: [[[q(1), q(0), q(0)], [q(0), q(4), q(0)], [q(0), q(0), q(1, 2)]],
        [[q(2), q(1), q(0)], [q(1), q(3), q(-1)], [q(0), q(-1), q(1)]],
        [[q(1), q(1, 2), q(1, 3)], [q(1, 2), q(2), q(0)],
         [q(1, 3), q(0), q(1)]]]}
WTS = {1: [[q(1)], [q(3)], [q(1, 4)]],
       2: [[q(1, 2), q(1, 2)], [q(1, 10), q(9, 10)], [q(1), q(0)],
           [q(0), q(1)], [q(2), q(5)]],
       3: [[q(1, 4), q(1, 4), q(1, 2)], [q(1, 2), q(0), q(1, 2)],
           [q(1, 10), q(3, 10), q(3, 5)]]}


def a_mixture(rng, proper=False, dim=None, n=None):
    dim = dim or rng.choice([1, 2, 2, 3])
    n = n or rng.choice([1, 2, 2, 3])
    w = rng.choice([x for x in WTS[n] if not proper or
                    sum(term.qf(y) for y in x) == 1])
    return dict(weights=w,
                means=[[rng.choice(NUMS) for _ in range(dim)]
                       for _ in range(n)],
                covars=[rng.choice(COVS[dim]) for _ in range(n)])


def points(rng, m, n):
    dim = len(m['means'][0])
    pts = [[rng.choice(NUMS) for _ in range(dim)] for _ in range(n - 2)]
    # at a mean, and far from all
    pts.append(rng.choice(m['means']))
    pts.append([rng.choice([q(40), q(-100), q(20)]) for _ in range(dim)])
    rng.shuffle(pts)
    return pts


def num(x):
    if isinstance(x[0], int):
        return term.qf(x)
    return [num(y) for y in x]


def arrays(m, rng):
    """weights, means, covariances; one dimension may come without its axis"""
    w, c, s = (np.array(num(m[k])) for k in ('weights', 'means', 'covars'))
    if c.shape[1] == 1:
        if rng.random() < .4:
            c = c[:, 0].copy()
        if rng.random() < .4:
            s = s[:, 0, 0].copy()
    r = rng.random()
    if r < .15:
        w, c, s = w.tolist(), c.tolist(), s.tolist()
    elif r < .3:
        w, c, s = (x.astype('>f8') for x in (w, c, s))
    return w, c, s


def build(m, rng, gen=None):
    w, c, s = arrays(m, rng)
    return GMixND(weights=w, means=c, covars=s, rng=gen)


def lse(ls):
    top = max(ls)
    if top == -math.inf:
        return top
    return top + math.log(math.fsum(math.exp(x - top) for x in ls))


def ok_log(x, y, fac=1e-9):
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= fac * (1 + abs(y))


def ok_prob(p, ln):
    want = math.exp(ln)
    if want == 0:
        return p == 0 or ln > -750 and p < 1e-300
    # the exponent itself is known to a relative accuracy
    return abs(p - want) <= want * 1e-9 * (1 + abs(ln)) + 1e-300


def densities(g, pts, parts, rng):
    """differences of every kind of evaluation from the specified logs"""
    bad = []
    x = np.array(pts, dtype='f8')
    one = x.shape[1] == 1
    n = len(parts[0])
    tot = [lse(p) for p in parts]

    def scalar(v):
        r = rng.random()
        if one and r < .3:
            return float(v[0])
        return v.tolist() if r < .5 else v

    def cmp(what, got, want, ok):
        got = np.asarray(got)
        if got.shape != (len(want),):
            bad.append('%s has shape %r' % (what, got.shape))
            return
        for k, (a, b) in enumerate(zip(got, want)):
            if not ok(float(a), b):
                bad.append('%s at %r is %r, the specification has log %r'
                           % (what, pts[k], float(a), b))
                return

    arr = rng.choice([x, x.tolist(), np.asfortranarray(x),
                      x[:, 0] if one else x])
    keep = np.array(arr, copy=True)
    cmp('array log', g.get_lnprob_array(arr), tot, ok_log)
    cmp('array', g.get_prob_array(arr), tot, ok_prob)
    cmp('scalar log', [g.get_lnprob_scalar(scalar(v)) for v in x], tot,
        ok_log)
    cmp('scalar', [g.get_prob_scalar(scalar(v)) for v in x], tot, ok_prob)
    for k in range(n):
        lk = [p[k] for p in parts]
        cmp('component %d log' % k, g.get_lnprob_array(arr, component=k), lk,
            ok_log)
        cmp('component %d' % k, g.get_prob_array(arr, component=k), lk,
            ok_prob)
        v = rng.randrange(len(x))
        cmp('component %d scalar log' % k,
            [g.get_lnprob_scalar(scalar(x[v]), component=k)], [lk[v]], ok_log)
        cmp('component %d scalar' % k,
            [g.get_prob_scalar(scalar(x[v]), component=k)], [lk[v]], ok_prob)
    if not np.array_equal(keep, np.array(arr)):
        bad.append('the points were changed')
    return bad


def one(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    m, out = rec['inp'], rec['out']
    pts = num(m['points'])
    parts = [[term.val(t) for t in p] for p in out['at']]
    g = build(m, rng)
    chk.trace(1, len(pts))
    chk.comparisons += 1
    bad = densities(g, pts, parts, rng)
    # so far that nothing but the logarithm is left
    ps = [1e6 * np.array(p) for p in pts]
    bad += densities(g, ps, [[term.val(t) for t in p] for p in out['far']],
                     rng)
    n, d = out['number'], out['dim']
    if (g.ngauss, g.ndim) != (n, d):
        bad.append('%r components in %r dimensions' % (g.ngauss, g.ndim))
    for k in (-1, n, n + 3):
        try:
            g.get_lnprob_scalar(pts[0], component=k)
        except AssertionError:
            continue
        bad.append('component %d of %d is not refused' % (k, n))
    # points of another dimension
    for dd in (d - 1, d + 1):
        if dd < 1:
            continue
        for f, v in ((g.get_prob_scalar, np.zeros(dd)),
                     (g.get_lnprob_array, np.zeros((3, dd))),
                     (g.get_lnprob_scalar, [0.] * dd),
                     (g.get_prob_array, np.zeros((1, dd)))):
            try:
                r = f(v)
            except ValueError:
                continue
            bad.append('%s takes points of %d dimensions for %d: %r'
                       % (f.__name__, dd, d, r))
    for x in bad[:3]:
        chk.violation('mixture %r: %s' % ({k: m[k] for k in (
            'weights', 'means', 'covars')}, x))
    if i < 3:
        chk.sample({'mixture': m})


# ---- histories -----------------------------------------------------------
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class World(object):
    """mixtures by number: parts, arrays; and what a fit to m gives"""

    def __init__(self, mixes, recs, seed):
        self.mixes = mixes
        self.pts, self.parts = {}, {}
        for r in recs:
            k = r['inp']['id']
            self.pts[k] = num(r['inp']['points'])
            self.parts[k] = [[term.val(t) for t in p] for p in r['out']['at']]
        self.data, self.fit = {}, {}
        for k, m in mixes.items():
            g = np.random.RandomState(seed + k)
            w = np.array(num(m['weights']))
            j = g.choice(len(w), size=300, p=w)
            mu, s = np.array(num(m['means'])), np.array(num(m['covars']))
            self.data[k] = np.array([g.multivariate_normal(mu[a], s[a])
                                     for a in j])
            f = GMixND(rng=np.random.RandomState(seed))
            quiet(f.fit, self.data[k].copy(), 1 + (k % 2))
            self.fit[k + 10] = (f.weights.copy(), f.means.copy(),
                                f.covars.copy())
            self.pts[k + 10] = self.data[k][:4].tolist()
            self.parts[k + 10] = logs(f, self.data[k][:4])
        self.seed = seed

    def fresh(self, m, gen):
        if m > 10:
            w, c, s = self.fit[m]
            return GMixND(weights=w, means=c, covars=s, rng=gen)
        x = [np.array(num(self.mixes[m][k]))
             for k in ('weights', 'means', 'covars')]
        return GMixND(*x, rng=gen)


def logs(g, x):
    r = []
    for p in x:
        row = []
        for w, m, s in zip(g.weights, g.means, g.covars):
            d = p - m
            row.append(float(
                np.log(w) - .5 * d @ np.linalg.solve(s, d)
                - .5 * np.linalg.slogdet(2 * np.pi * s)[1]))
        r.append(row)
    return r


class Mixtures(Driver):
    def __init__(self, world, rng, root):
        self.w, self.rng = world, rng
        self.dir = tempfile.mkdtemp(dir=root)
        self.o = {1: None, 2: None}
        self.src = None

    def file(self, f):
        return os.path.join(self.dir, 'mix-%d.fits' % f)

    def gen(self):
        return self.rng.choice([None, np.random.RandomState(3)])

    def op_build(self, k, m):
        self.src = arrays(self.w.mixes[m], self.rng)
        self.o[k] = GMixND(*self.src, rng=self.gen())

    def op_empty(self, k):
        self.o[k] = GMixND(rng=self.gen())

    def op_partial(self, k, w):
        m = next(iter(self.w.mixes.values()))
        a = dict(zip(('weights', 'means', 'covars'), arrays(m, self.rng)))
        names = list(a)
        if self.rng.random() < .5:
            del a[names[w - 1]]
        else:
            a = {names[w - 1]: a[names[w - 1]]}
        self.o[k] = GMixND(**a)

    def op_set(self, k, m):
        self.src = arrays(self.w.mixes[m], self.rng)
        self.o[k].set_mixture(*self.src)

    def op_edit(self):
        for a in self.src:
            if isinstance(a, list):
                while a:
                    a.pop()
            else:
                a[...] = 77.

    def op_save(self, k, f):
        quiet(self.o[k].save_mixture, self.file(f))

    def op_load(self, k, f):
        quiet(self.o[k].load_mixture, self.file(f))

    def op_open(self, k, f):
        self.o[k] = quiet(GMixND, file=self.file(f), rng=self.gen())

    def op_copy(self, k, how):
        if how == 'deepcopy':
            c = copy.deepcopy(self.o[k])
        else:
            c = pickle.loads(pickle.dumps(self.o[k]))
        self.o[3 - k] = c

    def op_fit(self, k, m):
        data = self.w.data[m].copy()
        keep = data.copy()
        g = self.o[k]
        g.rng.seed(self.w.seed)
        if data.shape[1] == 1 and self.rng.random() < .5:
            quiet(g.fit, data[:, 0], 1 + (m % 2))
        else:
            quiet(g.fit, data, 1 + (m % 2))
        assert np.array_equal(keep, data), 'the data were changed'

    def op_sample(self, k, n):
        g = self.o[k]
        seed = self.rng.randrange(10 ** 6)
        g.rng.seed(seed)
        return seed, (g.sample() if n == 0 else g.sample(n=n)), k

    def check_result(self, act):
        if act['op'] != 'sample':
            return []
        seed, x, k = self.result
        n = act['args'][1]
        m = self.held[k - 1]
        gen = np.random.RandomState(seed)
        f = self.w.fresh(m, gen)
        y = f.sample() if n == 0 else f.sample(n=n)
        d = f.ndim
        shape = () if d == 1 else (d,)
        if n:
            shape = (n,) + shape
        bad = []
        if np.shape(x) != shape:
            bad.append('%d draws in %d dimensions have shape %r'
                       % (n, d, np.shape(x)))
        elif not np.array_equal(x, y):
            bad.append('draws are %r, of the same mixture made anew %r'
                       % (np.asarray(x).tolist(), np.asarray(y).tolist()))
        # what the generator does next is the same as well
        elif self.o[k].rng.uniform() != gen.uniform():
            bad.append('the generator is left in another state')
        return bad

    def differences(self, state):
        bad = []
        self.held = state['o']
        for k in (1, 2):
            m = state['o'][k - 1]
            g = self.o[k]
            if (g is None) != (m == -1):
                bad.append('object %d: %r' % (k, g))
            elif m == 0:
                if hasattr(g, 'weights'):
                    bad.append('object %d holds something' % k)
            elif m > 0:
                bad += ['object %d: %s' % (k, x) for x in densities(
                    g, self.w.pts[m], self.w.parts[m], self.rng)]
        return bad


def fits(chk, world):
    """a fit of one component is the mean and covariance of the data"""
    for k, data in world.data.items():
        for n in (1, 2):
            f = GMixND(rng=np.random.RandomState(chk.seed))
            quiet(f.fit, data, n, min_covar=1e-3)
            chk.comparisons += 1
            mean = data.mean(axis=0)
            cov = np.cov(data.T, bias=True).reshape(f.ndim, f.ndim)
            tot = (f.weights @ f.means)
            d = f.means - tot
            within = np.einsum('k,kij->ij', f.weights, f.covars) + \
                np.einsum('k,ki,kj->ij', f.weights, d, d)
            bad = []
            if abs(f.weights.sum() - 1) > 1e-9:
                bad.append('weights sum to %r' % f.weights.sum())
            # an EM step keeps the mean and covariance of the data
            if not np.allclose(tot, mean, rtol=1e-6, atol=1e-6):
                bad.append('mean %r, of the data %r' % (tot, mean))
            if not np.allclose(within - 1e-3 * np.eye(f.ndim), cov,
                               rtol=1e-6, atol=1e-6):
                bad.append('covariance %r, of the data %r' % (within, cov))
            for x in bad:
                chk.violation('fit of %d: %s' % (n, x))


def drawn(chk, world):
    """draws are of the mixture: six sigma on moments"""
    for k, m in world.mixes.items():
        g = world.fresh(k, np.random.RandomState(chk.seed * 31 + k))
        n = chk.budget(20000, 100000)
        x = g.sample(n).reshape(n, -1)
        w = np.array(num(m['weights']))
        mu, s = np.array(num(m['means'])), np.array(num(m['covars']))
        tot = w @ mu
        d = mu - tot
        cov = np.einsum('k,kij->ij', w, s) + np.einsum('k,ki,kj->ij', w, d, d)
        err = np.sqrt(np.diag(cov) / n)
        chk.comparisons += 2
        if np.any(np.abs(x.mean(axis=0) - tot) > 6 * err):
            chk.violation('draws of %r have mean %r' % (m, x.mean(axis=0)))
        y = (x - tot)
        got = y.T @ y / n
        spread = np.array([[np.std(y[:, a] * y[:, b]) for b in range(len(tot))]
                           for a in range(len(tot))]) / np.sqrt(n)
        if np.any(np.abs(got - cov) > 6 * spread + 1e-12):
            chk.violation('draws of %r have covariance %r, not %r'
                          % (m, got, cov))
        # their mean log density is that of the mixture
        ln = g.get_lnprob_array(x)
        z = g.sample(n).reshape(n, -1)
        # they come component by component
        np.random.RandomState(k).shuffle(z)
        lz = np.array([lse(p) for p in logs(g, z[:2000])])
        sd = np.hypot(ln.std() / np.sqrt(n), lz.std() / np.sqrt(len(lz)))
        if abs(ln.mean() - lz.mean()) > 8 * sd + 1e-12:
            chk.violation('log density of draws of %r' % (m,))


def check(chk):
    rng = random.Random(chk.seed)
    jobs = []
    for k in range(chk.budget(4, 16)):
        ms = []
        for _ in range(chk.budget(90, 300)):
            m = a_mixture(rng)
            ms.append(dict(m, id=len(ms), points=points(rng, m, 5)))
        jobs.append(('GMixND', dict(
            constants=dict(Cases=raw(ms)),
            invariants=['AllPositive', 'Peak', 'Mirror', 'Units', 'Relabel',
                        'Product'], emit='Emit')))
    nrun = chk.budget(2, 6)
    runs = []
    for k in range(nrun):
        # different numbers of components and dimensions in turn
        a = a_mixture(rng, True, dim=1 + k % 3)
        b = a_mixture(rng, True, dim=rng.choice([1, 2, 3]))
        runs.append({1: a, 2: b})
        pts = [dict(m, id=j, points=points(rng, m, 4))
               for j, m in runs[-1].items()]
        jobs.append(('GMixND', dict(
            constants=dict(Cases=raw(pts)),
            invariants=['AllPositive', 'Peak'], emit='Emit')))
        jobs.append(('GMixNDRun', dict(
            constants=dict(Mixes={1, 2}, Files={1} if not chk.thorough
                           else {1, 2}),
            invariants=['TypeOK'],
            properties=['Addressed', 'RefusedKeeps', 'ReadsKeep'],
            view='View', emit='Emit')))
    res = tlc.parallel(jobs)
    cases, rest = res[:-2 * nrun], res[-2 * nrun:]
    # compiled once, before the processes part
    w = build(a_mixture(rng), rng)
    w.get_prob_scalar(np.zeros(w.ndim))
    w.get_prob_scalar(np.zeros(w.ndim), component=0)
    for r in cases:
        chk.tlc(r, 'GMixND')
        shard(chk, lambda rec, i: one(chk, rec, i), r.records)
    root = tempfile.mkdtemp(prefix='vf_c27_')
    try:
        for k in range(nrun):
            pts, run = rest[2 * k], rest[2 * k + 1]
            chk.tlc(pts, 'GMixND')
            chk.tlc(run, 'GMixNDRun')
            world = World(runs[k], pts.records, chk.seed + k)
            g = Graph(run.records)
            paths = list(g.covering_paths(
                seed=chk.seed, budget=chk.budget(4000, 20000)))
            replay(chk, g, lambda state, rr: Mixtures(world, rr, root),
                   paths, 'mixtures')
            fits(chk, world)
            drawn(chk, world)
    finally:
        shutil.rmtree(root, ignore_errors=True)
