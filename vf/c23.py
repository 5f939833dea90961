"""C23: weighted moments, before the psf and as observed."""
import random

import numpy as np
import ngmix
from ngmix.prepsfmom import PGaussMom, KSigmaMom, PrePSFMom
from ngmix import prepsfmom
from ngmix.gaussmom import GaussMom
from ngmix.gexceptions import FFTRangeError
from ngmix.moments import make_mom_result

from . import tlc, term, vterm, gmref
from .c05 import q
from .c06 import raw
from .graph import Graph
from .replay import Driver, replay
from .report import shard

WTS = [[1], [4], [1, 2, 4], [1, 0, 4], [0, 0, 2, 1, -1], [1, 2 ** 30]]


# ---- data ---------------------------------------------------------------
def jacobian(gen, dims, mat=None, off=.7):
    if mat is None:
        th = gen.uniform(0, 6.3)
        s = gen.uniform(.6, 1.4)
        mat = s * np.array([[np.cos(th), np.sin(th)],
                            [-np.sin(th), np.cos(th)]])
        mat = mat @ np.array([[1 + gen.uniform(-.1, .1), gen.uniform(-.1, .1)],
                              [gen.uniform(-.1, .1),
                               gen.choice([-1, 1]) * 1.]])
    # centres of image and psf coincide along rows or columns now and then
    dr, dc = [gen.choice([0., 0., .5, -.5]) if gen.uniform() < .4
              else gen.uniform(-off, off) for _ in range(2)]
    return ngmix.Jacobian(
        row=(dims[0] - 1) / 2 + dr, col=(dims[1] - 1) / 2 + dc,
        dvdrow=mat[0, 0], dvdcol=mat[0, 1], dudrow=mat[1, 0],
        dudcol=mat[1, 1]), mat


def blob(gen, jac, n, fwhm, noise):
    """a lumpy object, sizes in pixels"""
    rr, cc = np.mgrid[0:n, 0:n]
    im = np.zeros((n, n))
    for k in range(gen.randint(1, 4)):
        s = fwhm / 2.355 * gen.uniform(.8, 1.3)
        r = rr - jac.row0 - gen.uniform(-.5, .5)
        c = cc - jac.col0 - gen.uniform(-.5, .5)
        e = gen.uniform(-.3, .3)
        im += gen.uniform(.5, 2) * np.exp(
            -.5 * ((1 + e) * r ** 2 + (1 - e) * c ** 2) / s ** 2)
    im /= im.sum()
    return im + noise * gen.normal(size=im.shape) / n


def build(plan, gen, mat=None):
    n = plan['img']
    jac, mat = jacobian(gen, (n, n), mat)
    psf = None
    if plan['psf'] != 'none' or gen.uniform() < .5:
        m = plan['psfdim']
        pj, _ = jacobian(gen, (m, m), mat)
        if m > 20 and gen.uniform() < .5:
            # wide: modes below the floor
            pim = blob(gen, pj, m, gen.choice([4., 4.7]), 0)
        else:
            pim = blob(gen, pj, m, gen.choice([1.5, 2., 2.5]),
                       gen.choice([0, .003]))
        psf = ngmix.Observation(pim * gen.uniform(.5, 3), jacobian=pj)
    wt = plan['wt']
    w = np.array([wt[k % len(wt)] for k in range(n * n)],
                 dtype='f8').reshape(n, n) * gen.choice(
                     [1., 100., 1e-11])
    sign = -1 if plan['how'] == 'negative' else 1
    im = blob(gen, jac, n, gen.choice([2., 3., 5.]), .05) * 7 * sign
    return ngmix.Observation(im, weight=w, jacobian=jac, psf=psf)


def snap(o):
    r = [o.image.copy(), o.weight.copy(), jvec(o.jacobian)]
    if o.has_psf():
        r += snap(o.psf)
    return r


def jvec(j):
    return np.array([j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol])


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y)
                                    for x, y in zip(a, b))


# ---- evaluation of the specification's program ---------------------------
def taper(out, plan, n):
    h = term.qf(plan['ap'])
    a = np.ones(n)
    if h <= 0:
        return a
    m = out['aprange']
    # every row of the edge, from both sides
    for side in (0, 1):
        for x in range(min(m + 1, n)):
            y = float(vterm.val(out['apy'], dict(x=x, m=m, h=h)))
            f = 0. if y < -3 else 1. if y > 3 else float(
                vterm.val(out['ap'], dict(y=y)))
            a[x if side == 0 else n - 1 - x] *= f
    return a


def transform(im, row0, col0, dim):
    """about its centre, at the modes of a transform of size dim"""
    f = np.fft.fftfreq(dim)
    er = np.exp(-2j * np.pi * np.outer(f, np.arange(im.shape[0]) - row0))
    ec = np.exp(-2j * np.pi * np.outer(np.arange(im.shape[1]) - col0, f))
    return er @ im @ ec


def expected(out, plan, obs, fwhm, nopsf):
    """None when the transform is too small for the kernel, NaN if that is
    too close to call"""
    dim = out['dim']
    j = obs.jacobian
    f = np.fft.fftfreq(dim)
    env = dict(dim=dim, pad=term.qf(out['eff']), fwhm=fwhm,
               fy=f.reshape(-1, 1) * np.ones((1, dim)),
               fx=f.reshape(1, -1) * np.ones((dim, 1)),
               dvdrow=j.dvdrow, dvdcol=j.dvdcol, dudrow=j.dudrow,
               dudcol=j.dudcol)

    def put(name, t):
        env[name] = vterm.val(t, env)

    for k, t in (('kv', 'kv'), ('ku', 'ku'), ('k2', 'k2'),
                 ('sigma', 'sigma'), ('kmax2', 'kmax2'), ('in', 'within'),
                 ('w', 'w'), ('w1', 'w1'), ('w2', 'w2'), ('norm', 'norm')):
        put(k, out[t])
    put('resolved', out['resolved'])
    x = abs(env['resolved'] - 1)
    if abs(x - 1e-5) < 1e-8:
        return np.nan
    if x > 1e-5:
        return None
    sm = vterm.val(out['smooth'], env)
    for k in out['names']:
        env[k] = vterm.val(out['kernels'][k], env) * env['norm'] * sm
    a = taper(out, plan, plan['img'])
    im = obs.image * a.reshape(-1, 1) * a.reshape(1, -1)
    t = transform(im, j.row0, j.col0, dim)
    env['a'], env['b'] = t.real, t.imag
    if nopsf:
        p = (np.sinc(env['fx']) * np.sinc(env['fy'])).astype(complex)
    else:
        pj = obs.psf.jacobian
        p = transform(obs.psf.image, pj.row0, pj.col0, dim)
    amp = np.abs(p)
    env['psfflux'] = amp[0, 0]
    put('floor', out['floor'])
    zero = amp == 0
    env['c'], env['d'] = np.where(zero, 1., p.real), np.where(
        zero, 0., p.imag)
    r = vterm.val(out['raise'], env)
    r = np.where(zero, env['floor'], r)
    # where rounding makes up the phase
    shaky = np.where(amp < env['floor'] * 1e-9, 1., 0) + \
        1e-15 * env['psfflux'] / np.where(zero, 1, amp)
    env['c'], env['d'] = env['c'] * r, env['d'] * r
    env['totvar'] = float(np.sum(1 / obs.weight[obs.weight > 0]))
    mom = [float(vterm.val(x, env)) for x in out['moments']]
    cov = [[float(vterm.val(x, env)) for x in y] for y in out['cov']]
    dec = np.abs(t) / np.hypot(env['c'], env['d'])
    tol = [np.sum(np.abs(env[k]) * dec * (1e-9 + shaky)) / dim ** 2
           for k in out['names']]
    return dict(mom=np.array(mom), cov=np.array(cov), tol=np.array(tol),
                norm=env['norm'], resolved=env['resolved'],
                kernels={k: env[k] for k in out['names']})


def fitter_of(plan, fwhm, rng):
    kw = dict(fwhm=fwhm, pad_factor=num(plan['pad']), ap_rad=num(plan['ap']),
              fwhm_smooth=num(plan['smooth']))
    for k, v in (('pad_factor', 4), ('ap_rad', 1.5), ('fwhm_smooth', 0)):
        if kw[k] == v and rng.random() < .5:
            del kw[k]
    if rng.random() < .3:
        return PrePSFMom(kernel='ksigma' if plan['kernel'] == 'ksigma' else
                         rng.choice(['gauss', 'pgauss']), **kw)
    if plan['kernel'] == 'ksigma':
        return rng.choice([KSigmaMom, ngmix.ksigmamom.KSigmaMom])(**kw)
    return rng.choice([PGaussMom, prepsfmom.PrePSFGaussMom])(**kw)


def num(x):
    v = term.qf(x)
    return int(v) if v == int(v) else v


def compare(res, w):
    """differences of a result from what the program gives"""
    bad = []
    s, c = np.asarray(res['sums']), np.asarray(res['sums_cov'])
    if not np.all(np.isnan(s[:2])):
        bad.append('centroid moments %r' % s[:2])
    if not np.all(np.abs(s[2:] - w['mom']) <= w['tol']):
        bad.append('moments are %r, specification %r'
                   % (s[2:].tolist(), w['mom'].tolist()))
    d = np.sqrt(np.outer(np.diag(w['cov']), np.diag(w['cov'])))
    if not np.all(np.abs(c[2:, 2:] - w['cov']) <= 1e-6 * d):
        bad.append('covariance is %r, specification %r'
                   % (c[2:, 2:].tolist(), w['cov'].tolist()))
    if not abs(res['sums_norm'] - w['norm']) <= 1e-9 * w['norm']:
        bad.append('norm is %r, specification %r' % (res['sums_norm'],
                                                     w['norm']))
    bad += summary(res, s, c, res['sums_norm'])
    return bad


def summary(res, s, c, norm):
    """the summary is that of the moments (which is itself decided in C11)"""
    bad = []
    with np.errstate(all='ignore'):
        want = make_mom_result(np.array(s), np.array(c), norm)
    for k, v in want.items():
        if k not in res:
            bad.append('no %s' % k)
        elif isinstance(v, str):
            if res[k] != v:
                bad.append('%s is %r' % (k, res[k]))
        elif not np.allclose(res[k], v, rtol=1e-9, atol=0, equal_nan=True):
            bad.append('%s is %r, that of the moments is %r'
                       % (k, res[k], v))
    return bad


def caches(fft, kern):
    (prepsfmom.turn_on_fft_caching if fft else
     prepsfmom.turn_off_fft_caching)()
    (prepsfmom.turn_on_kernel_caching if kern else
     prepsfmom.turn_off_kernel_caching)()


def fwhm_of(plan, obs, gen):
    px = np.sqrt(obs.jacobian.area)
    return px * gen.uniform(*dict(narrow=(.6, 2.2)).get(plan['how'],
                                                        (2.2, 5)))


def one(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    plan, out = rec['inp'], rec['out']
    obs = build(plan, gen)
    nopsf = plan['psf'] == 'none'
    fwhm = fwhm_of(plan, obs, gen)
    before = snap(obs)
    caches(rng.random() < .3, rng.random() < .3)
    label = 'moments %r' % (sorted(plan.items()),)
    want = expected(out, plan, obs, fwhm, nopsf)
    chk.trace(1, 1)
    chk.comparisons += 1
    if want is not None and want is not np.nan and \
            not np.all(np.isfinite(want['mom'])):
        raise AssertionError('bad program')
    fit = fitter_of(plan, fwhm, rng)
    kerns = rng.random() < .25
    kw = {}
    if nopsf:
        kw['no_psf'] = True
    if kerns:
        kw['return_kernels'] = True
    bad = []
    try:
        res = fit.go(obs, **kw)
    except FFTRangeError as err:
        if isinstance(want, dict):
            bad.append('refused: %s' % err)
    except Exception as err:
        bad.append(repr(err))
    else:
        if want is None:
            bad.append('a transform too small for the kernel is accepted')
        elif isinstance(want, dict):
            bad += compare(res, want)
            if kerns:
                k = res['kernels']
                for a, b in (('fkf', 'Kf'), ('fkr', 'Kr'), ('fkp', 'Kp'),
                             ('fkc', 'Kc')):
                    y = want['kernels'][b]
                    if k[a].shape != y.shape or not np.all(
                            np.abs(k[a] - y) <= 1e-9 * np.abs(y).max()):
                        bad.append('kernel %s is not as specified' % a)
    if not same(before, snap(obs)):
        bad.append('the observation was changed')
    for x in bad:
        chk.violation('%s fwhm %r: %s' % (label, fwhm, x))
    if i < 3:
        chk.sample({'case': label, 'refused': want is None})


# ---- what it means -------------------------------------------------------
def analytic(chk, i):
    """gaussians: the moments are integrals over the object before its psf"""
    rng = random.Random(chk.seed * 100019 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    n = rng.choice([56, 61])
    jac, mat = jacobian(gen, (n, n))
    pj, _ = jacobian(gen, (n, n), mat)
    px = np.sqrt(jac.area)

    def cov(s):
        e = gen.uniform(-.3, .3, size=2)
        return (s * px) ** 2 * np.array([[1 + e[0], e[1]], [e[1], 1 - e[0]]])

    S, P = cov(gen.uniform(1, 2)), cov(gen.uniform(.9, 1.2))
    # the flux is in units of that of the psf
    F, pf = gen.uniform(1, 9), gen.uniform(.5, 2)

    def draw(c, j, flux):
        rr, cc = np.mgrid[0:n, 0:n]
        dr, dc = rr - j.row0, cc - j.col0
        return gmref.evaluate([(flux, 0, 0, c[0, 0], c[0, 1], c[1, 1])],
                              j.dvdrow * dr + j.dvdcol * dc,
                              j.dudrow * dr + j.dudcol * dc, jac.area)

    obs = ngmix.Observation(
        draw(S + P, jac, F), weight=np.full((n, n), 4.), jacobian=jac,
        psf=ngmix.Observation(draw(P, pj, pf), jacobian=pj))
    fwhm = px * gen.uniform(3.5, 5)
    sigma = fwhm / np.sqrt(8 * np.log(2))
    smooth = rng.choice([0, 0, 2 * px])
    try:
        res = PGaussMom(fwhm, fwhm_smooth=smooth).go(obs)
    except FFTRangeError:
        # the sum over the kernel is not one to 1e-5: decided in one()
        return
    # W and N(S) multiplied: flux, and the covariance inside the weight
    B = S + np.eye(2) * smooth ** 2 / (8 * np.log(2))
    inside = np.linalg.inv(np.linalg.inv(B) + np.eye(2) / sigma ** 2)
    flux = F / pf / np.sqrt(np.linalg.det(np.eye(2) + B / sigma ** 2))
    T = inside[0, 0] + inside[1, 1]
    want = dict(flux=flux, T=T, e1=(inside[1, 1] - inside[0, 0]) / T,
                e2=2 * inside[0, 1] / T)
    chk.comparisons += 1
    for k, v in want.items():
        if not abs(res[k] - v) <= 2e-3 * max(abs(v), .4):
            chk.violation('%s of a gaussian before its psf is %r, analytic %r'
                          % (k, res[k], v))


def refusals(chk):
    gen = np.random.RandomState(chk.seed)
    plan = dict(img=20, psf='psf', psfdim=15, wt=[1], how='', pad=q(2))
    o = build(plan, gen)
    bare = ngmix.Observation(o.image, jacobian=o.jacobian)
    j, _ = jacobian(gen, (15, 15))
    other = ngmix.Observation(o.image, jacobian=o.jacobian,
                              psf=ngmix.Observation(o.psf.image, jacobian=j))
    tall = ngmix.Observation(np.ones((20, 18)), jacobian=o.jacobian,
                             psf=o.psf)
    ol = ngmix.ObsList()
    ol.append(o)
    mb = ngmix.MultiBandObsList()
    mb.append(ol)
    for cls in (PGaussMom, KSigmaMom):
        for what, x, kw in (('no psf', bare, {}), ('another map', other, {}),
                            ('not square', tall, {}),
                            ('not square', tall, dict(no_psf=True)),
                            ('a list', ol, {}), ('a list', mb, {}),
                            ('an array', o.image, {}), ('nothing', None, {}),
                            ('a list', ol, dict(no_psf=True))):
            for fft in (False, True):
                caches(fft, fft)
                chk.comparisons += 1
                try:
                    cls(4.0).go(x, **kw)
                except (ValueError, RuntimeError):
                    continue
                except Exception as err:
                    chk.violation('moments of %s: %r' % (what, err))
                    continue
                chk.violation('moments of %s are not refused' % what)
    for k in ('', 'sigma', None, 'KSIGMA'):
        chk.comparisons += 1
        try:
            PrePSFMom(4.0, k)
        except ValueError:
            continue
        chk.violation('kernel %r is not refused' % k)


# ---- the same again -------------------------------------------------------
class Again(Driver):
    """requests from a pool: what is answered depends on the request alone"""

    def __init__(self, pool, memo, rng):
        self.pool, self.memo = pool, memo
        caches(False, False)
        self.got = None

    def op_toggle(self, what, to):
        if what == 'fft':
            (prepsfmom.turn_on_fft_caching if to else
             prepsfmom.turn_off_fft_caching)()
        else:
            (prepsfmom.turn_on_kernel_caching if to else
             prepsfmom.turn_off_kernel_caching)()
        self.got = None

    def op_measure(self, req):
        self.got = None
        obs, plan, fwhm = self.pool[req['data'], req['fitter']]
        self.before = snap(obs)
        self.obs = obs
        kw = dict(no_psf=True) if req['nopsf'] else {}
        cls = KSigmaMom if plan['kernel'] == 'ksigma' else PGaussMom
        res = cls(fwhm, pad_factor=num(plan['pad']), ap_rad=num(plan['ap']),
                  fwhm_smooth=num(plan['smooth'])).go(obs, **kw)
        self.got = res, self.memo[req['data'], req['fitter'], req['nopsf']]

    def differences(self, state):
        if self.got is None:
            return []
        res, want = self.got
        bad = compare(res, want)
        if not same(self.before, snap(self.obs)):
            bad.append('the observation was changed')
        # nothing the caller does to an answer is seen by others
        res['sums'][:] = 17
        res['sums_cov'][:] = 17
        return bad


def variants(chk, rng, gen):
    """observations and fitters which differ in one thing each"""
    n = rng.choice([20, 21])
    base = dict(kernel=rng.choice(['ksigma', 'gauss']), img=n, psf='psf',
                psfdim=rng.choice([15, 18]), pad=q(2), ap=q(3, 2),
                smooth=q(0), wt=[1, 2], how='')
    obs = build(base, gen)
    px = np.sqrt(obs.jacobian.area)
    jac = obs.jacobian

    def remake(**kw):
        a = dict(image=obs.image, weight=obs.weight, jacobian=jac,
                 psf=obs.psf)
        a.update(kw)
        return ngmix.Observation(**a)

    def jac2(j, **kw):
        return ngmix.Jacobian(
            row=kw.get('row', j.row0), col=kw.get('col', j.col0),
            dvdrow=j.dvdrow * kw.get('s', 1), dvdcol=j.dvdcol,
            dudrow=j.dudrow, dudcol=j.dudcol)

    im2 = obs.image.copy()
    im2[n // 2, n // 2] += .3
    p = obs.psf
    pim2 = p.image.copy()
    pim2[p.image.shape[0] // 2 + 1, 3] += .02 * p.image.sum()
    datas = [obs, remake(image=im2), remake(weight=obs.weight * 3),
             remake(jacobian=jac2(jac, row=jac.row0 + .25)),
             remake(jacobian=jac2(jac, col=jac.col0 - .25)),
             remake(jacobian=jac2(jac, s=1.03), psf=ngmix.Observation(
                 p.image, jacobian=jac2(p.jacobian, s=1.03))),
             remake(psf=ngmix.Observation(pim2, jacobian=p.jacobian)),
             remake(psf=ngmix.Observation(p.image, jacobian=jac2(
                 p.jacobian, row=p.jacobian.row0 + .5))),
             remake(image=obs.image.T.copy())]
    other = 'gauss' if base['kernel'] == 'ksigma' else 'ksigma'
    fits = [(base, 4 * px), (dict(base, kernel=other), 4 * px),
            (base, 4.2 * px), (dict(base, pad=q(5, 2)), 4 * px),
            (dict(base, ap=q(1)), 4 * px), (dict(base, ap=q(0)), 4 * px),
            (dict(base, smooth=q(1)), 4 * px)]
    return datas, fits


def again(chk, rng):
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    datas, fits = variants(chk, rng, gen)
    plans = [f[0] for f in fits]
    r = tlc.run('PreMom', constants=dict(
        Images={(0,) * 16}, Psfs=raw([]), Kernels=raw([]),
        Plans=raw(plans + [dict(p, psf='none') for p in plans])), emit='Emit')
    progs = {repr(sorted(x['inp'].items())): x['out'] for x in r.records}
    pool = {(d, f): (datas[d], fits[f][0], fits[f][1])
            for d in range(len(datas)) for f in range(len(fits))}
    memo = {}
    picks = []
    for f in range(1, len(fits)):
        for nopsf in (False, True):
            picks.append([(0, 0, nopsf), (0, f, nopsf)])
    for d in range(1, len(datas)):
        picks.append([(0, 0, False), (d, 0, False)])
        picks.append([(0, 0, True), (d, 0, True)])
    picks.append([(0, 0, True), (0, 0, False)])
    rng.shuffle(picks)
    jobs = []
    picks = picks[:chk.budget(10, len(picks))]
    for ps in picks:
        ps.append((rng.randrange(len(datas)), rng.randrange(len(fits)),
                   rng.random() < .3))
        reqs = []
        for d, f, nopsf in ps:
            plan = dict(fits[f][0])
            if nopsf:
                plan['psf'] = 'none'
            k = d, f, nopsf
            if k not in memo:
                memo[k] = expected(progs[repr(sorted(plan.items()))], plan,
                                   datas[d], fits[f][1], nopsf)
                if not isinstance(memo[k], dict):
                    raise AssertionError('not resolved')
            reqs.append(dict(data=d, fitter=f, nopsf=nopsf, good=True))
        jobs.append(('PreMomRun', dict(
            constants=dict(Requests=raw([x for n, x in enumerate(reqs)
                                         if x not in reqs[:n]]), Depth=6),
            constraint='Bounded', invariants=['OffIsEmpty'],
            emit='Emit', view='View')))
    for r in tlc.parallel(jobs):
        chk.tlc(r, 'PreMomRun')
        g = Graph(r.records)
        replay(chk, g, lambda state, rr: Again(pool, memo, rr),
               list(g.covering_paths(seed=chk.seed, budget=chk.budget(150,
                                                                      800))),
               'moments')


# ---- in real space --------------------------------------------------------
def stamp(rng):
    # the eighth power of the distance is exact
    z = [q(0), q(1), q(2)]
    m = rng.choice([[q(1, 2), q(0), q(0), q(1, 2)],
                    [q(0), q(1, 2), q(1), q(0)],
                    [q(1, 2), q(1, 2), q(0), q(-1)],
                    [q(1), q(-1, 2), q(1, 2), q(1)]])
    if rng.random() < .4:
        m = rng.choice([[q(1), q(0), q(0), q(1)], [q(0), q(1), q(-1), q(0)],
                        [q(-1), q(1), q(0), q(1)]])
        z = [q(1, 2), q(1), q(3, 2)]
    dims = rng.choice([[3, 3], [3, 4], [4, 3], [2, 3], [1, 1]])
    return dict(dims=dims, jac=[rng.choice(z), rng.choice(z)] + m,
                wt=rng.choice([[1], [1, 4], [2, 0, 1, 0], [1, 0],
                               [1, 2 ** 30]]))


def wmom(chk, rec, i):
    rng = random.Random(chk.seed * 100043 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    s, out = rec['inp']['stamp'], rec['out']
    n = rec['inp']['order']
    d = s['dims']
    c = [term.qf(x) for x in s['jac']]
    wt = np.array([s['wt'][k % len(s['wt'])] for k in range(d[0] * d[1])],
                  dtype='f8').reshape(d)
    im = rng.choice([1, 1, -1]) * gen.normal(
        size=d, loc=rng.choice([0, 2]))
    if rng.random() < .1:
        im = np.zeros(d)
    unit = rng.choice([1., 1., 4. ** -20])
    obs = ngmix.Observation(im, weight=unit * wt, jacobian=ngmix.Jacobian(
        row=c[0], col=c[1], dvdrow=c[2], dvdcol=c[3], dudrow=c[4],
        dudcol=c[5]))
    before = snap(obs)
    fwhm = gen.choice([.4, 1., 2.5, 30.])
    kw = {}
    if n == 17 or rng.random() < .3:
        kw['with_higher_order'] = n == 17
    fit = GaussMom(fwhm, **kw)
    label = 'weighted moments, fwhm %r, %r' % (fwhm, s)
    chk.trace(1, 1)
    chk.comparisons += 1
    used = np.array(out['used'], dtype=int) - 1
    env = dict(r2=np.array([term.qf(x) for x in out['r2']]), fwhm=fwhm,
               d=im.ravel()[used],
               var=np.array([term.qf(x) for x in out['var']]) / unit)
    F = np.array([[term.qf(x) for x in y] for y in out['F']])
    env['w'] = vterm.val(out['w'], env)
    sums, cov, top = np.zeros(n), np.zeros((n, n)), np.zeros(n)
    for a in range(n):
        env['f'] = F[:, a]
        sums[a] = vterm.val(out['sum'], env)
        top[a] = np.sum(np.abs(env['w'] * env['d'] * env['f']))
        for b in range(n):
            env['g'] = F[:, b]
            cov[a, b] = vterm.val(out['cov'], env)
    bad = []
    try:
        with np.errstate(all='ignore'):
            res = fit.go(obs)
            res2 = fit.go(obs)
    except Exception as err:
        chk.violation('%s: %r' % (label, err))
        return
    t = 1e-10
    if not np.all(np.abs(res['sums'] - sums) <= t * top + 1e-300):
        bad.append('sums are %r, specification %r' % (res['sums'].tolist(),
                                                      sums.tolist()))
    dd = np.sqrt(np.outer(np.diag(cov), np.diag(cov)))
    if not np.all(np.abs(res['sums_cov'] - cov) <= t * dd + 1e-300):
        bad.append('covariance is %r, specification %r'
                   % (res['sums_cov'].tolist(), cov.tolist()))
    w = vterm.val(out['norm'], env)
    for k in ('wsum', 'sums_norm'):
        if not abs(res[k] - w) <= t * w:
            bad.append('%s is %r, specification %r' % (k, res[k], w))
    if res['npix'] != len(used):
        bad.append('npix is %r' % res['npix'])
    bad += summary(res, res['sums'], res['sums_cov'], res['sums_norm'])
    if not np.array_equal(res['sums'], res2['sums']):
        bad.append('different the second time')
    if not same(before, snap(obs)):
        bad.append('the observation was changed')
    for x in bad:
        chk.violation('%s: %s' % (label, x))
    if i < 2:
        chk.sample({'case': label})


def plan_of(rng):
    return dict(kernel=rng.choice(['ksigma', 'gauss']),
                img=rng.choice([16, 17, 20, 25, 28]),
                psf=rng.choice(['psf', 'psf', 'none']),
                psfdim=rng.choice([13, 16, 21, 30]),
                pad=rng.choice([q(1), q(3, 2), q(2), q(3), q(4)]),
                ap=rng.choice([q(0), q(1, 2), q(1), q(3, 2), q(3, 2)]),
                smooth=rng.choice([q(0), q(0), q(1), q(2), q(1, 2)]),
                wt=rng.choice(WTS),
                how=rng.choice(['', '', '', 'narrow', 'negative']))


def grid(rng, n, lo, hi):
    return {tuple(rng.randint(lo, hi) for _ in range(16)) for _ in range(n)}


def spikes(rng, n):
    """psfs with an amplitude in every mode, and small numbers"""
    out = set()
    while len(out) < n:
        p = [0] * 16
        a, b = rng.sample(range(16), 2)
        p[a], p[b] = rng.choice([(3, 1), (2, 1), (1, -3), (1, 0), (-2, 0)])
        out.add(tuple(p))
    return out


def warm():
    """compile before the processes split"""
    gen = np.random.RandomState(1)
    o = build(dict(img=16, psf='psf', psfdim=15, wt=[1], how=''), gen)
    px = np.sqrt(o.jacobian.area)
    for cls in (PGaussMom, KSigmaMom):
        for kw in ({}, dict(no_psf=True)):
            cls(5 * px, fwhm_smooth=px).go(o, **kw)
    for h in (False, True):
        GaussMom(5 * px, with_higher_order=h).go(o)
    vterm.gauss(np.ones(3))


def check(chk):
    rng = random.Random(chk.seed)
    warm()
    jobs = []
    for k in range(chk.budget(4, 16)):
        ps = []
        while len(ps) < chk.budget(70, 250):
            p = plan_of(rng)
            if p not in ps:
                ps.append(p)
        jobs.append(('PreMom', dict(
            constants=dict(Images=grid(rng, chk.budget(2, 3), -1, 2),
                           Psfs=spikes(rng, chk.budget(3, 6)),
                           Kernels=grid(rng, chk.budget(2, 3), 0, 1),
                           Plans=raw(ps)),
            invariants=['LawsHold', 'SizeEnough'], emit='Emit')))
    st = []
    while len(st) < chk.budget(220, 700):
        s = stamp(rng)
        if s not in st:
            st.append(s)
    jobs.append(('WMom', dict(constants=dict(Stamps=raw(st), Orders={6, 17}),
                              invariants=['Spins', 'Moduli'], emit='Emit')))
    rs = tlc.parallel(jobs)
    for (name, _), r in zip(jobs, rs):
        chk.tlc(r, name)
        shard(chk, lambda rec, i: (one if name == 'PreMom' else wmom)(
            chk, rec, i), r.records)
    caches(False, False)
    shard(chk, lambda k, i: analytic(chk, i), range(chk.budget(24, 200)))
    refusals(chk)
    again(chk, rng)
    caches(False, False)
