"""C16: expectation maximisation."""
import math
import random

import numpy as np
import ngmix
import ngmix.flags
from ngmix.em import em as emmod

from . import tlc, term
from .report import shard
from .c05 import vec
from .c06 import raw
from .c08 import jac_of, sub

DIMS = [[3, 4], [4, 3], [1, 5]]
JACS = [vec(1, (3, 2), 1, 0, 0, 1), vec(1, 1, (1, 2), (1, 4), 0, (1, 2)),
        vec(1, (5, 2), 0, 1, (-1, 1), 0), vec((1, 2), 2, 1, 0, (1, 2), -1)]
MIXES = [[vec(3, 0, 0, 2, 0, 2)], [vec(2, (1, 2), (-1, 4), 2, (1, 2), 1)],
         [vec(1, 0, 0, 2, -1, 1), vec(4, 0, 1, 1, 0, 2)],
         [vec(1, 0, 0, (1, 8), 0, (1, 8))],
         [vec(2, 20, 0, 1, 0, 1), vec(1, 0, 0, 3, 0, 3)],
         [vec(1, 0, 0, 1, 2, 1)], [vec(2, (1, 4), 0, 1, 1, 1)],
         [vec(1, 0, 0, 0, 0, 0), vec(2, 0, (1, 2), 4, -2, 1)]]
PSFS = [[], [vec(1, 0, 0, 1, 0, 1)], [vec(3, 0, 0, (1, 2), (1, 4), 1)],
        [vec(2, (1, 2), 1, 1, 0, 1), vec(6, (1, 2), 0, (1, 2), 0, 1)]]
IMGS = [[3, 1, 4, 1, 5, 9, 2, 6], [5, 2], [7, 1, 1]]
NEG = [[-3, 1, 4, -1, 5, 9, 2, 6]]
WTS = [[1], [1, 2, 0, 1, 3], [0, 4]]
SKIES = ['<<1, 2>>', '<<0, 1>>', '<<>>', '<<3, 1>>']
MODES = ['full', 'fixcen', 'fixcov', 'fluxonly']
FITTERS = {'full': emmod.EMFitter, 'fixcen': emmod.EMFitterFixCen,
           'fixcov': emmod.EMFitterFixCov, 'fluxonly': emmod.EMFitterFluxOnly}


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough
    jobs = []
    for k in range(chk.budget(7, 28)):
        skies = [SKIES[k % 4], SKIES[(k + 1) % 4]]
        jobs.append(('EM', dict(constants=dict(
            Dims=raw(sub(rng, DIMS, 2)), Jacs=raw([JACS[k % len(JACS)]]),
            Mixes=raw(sub(rng, MIXES, 8 if deep else 4)),
            Psfs=raw([PSFS[k % 4], PSFS[(k // 4 + k + 1) % 4]]),
            Imgs=raw(sub(rng, IMGS, 1) + (NEG if '<<>>' in skies else [])),
            Wts=raw([[1], rng.choice(WTS[1:])]),
            Skies=tlc.Raw('{%s}' % ', '.join(skies)),
            Modes=set(sub(rng, MODES, 4 if deep else 2))),
            invariants=['Frame', 'RaisedPositive'], emit='Emit')))
    top = chk.budget(4, 6)
    jobs.append(('EMRun', dict(constants=dict(
        MaxIters=set(range(top + 1)), MinIters=set(range(top + 2)),
        FailAt={0, 1}), invariants=['AtMost', 'FlagExact',
                                    'ErrorHasNoMixture', 'StopsSmall'],
        properties=['Ends'], spec='Spec', emit='Emit')))
    rs = tlc.parallel(jobs)
    chk.tlc(rs[-1], 'EMRun')
    runs = {}
    for r in rs[-1].records:
        runs[(r['maxiter'], r['miniter'], tuple(r['small']), r['fail'])] = r
    recs = []
    for r in rs[:-1]:
        chk.tlc(r, 'EM')
        recs += r.records
    rng.shuffle(recs)
    recs = recs[:chk.budget(2500, 20000)]
    for i, rec in enumerate(recs[:2]):
        one(chk, rec, i, runs, top)
    shard(chk, lambda rec, i: one(chk, rec, i, runs, top), recs)


def mixture(comps):
    return ngmix.GMix(pars=np.array(
        [[term.qf(x) for x in c] for c in comps]).ravel())


def build(inp, rng):
    dims = inp['dims']
    n = dims[0] * dims[1]
    wt = np.array([inp['wt'][k % len(inp['wt'])] for k in range(n)],
                  dtype='f8').reshape(dims)
    # whether a pixel is used does not depend on the size of its weight
    wt *= rng.choice([1., 4. ** -20, 4. ** 12])
    wt.ravel()[rng.randrange(n)] *= rng.choice([1., 4. ** -15, 4. ** 15])
    im = np.array([inp['img'][k % len(inp['img'])] for k in range(n)],
                  dtype='f8').reshape(dims)
    jac = jac_of(inp['jac'], rng)
    psf = None
    if inp['psf']:
        psf = ngmix.Observation(np.ones((3, 3)), gmix=mixture(inp['psf']))
    elif rng.random() < .5:
        psf = ngmix.Observation(np.ones((3, 3)))
    obs = ngmix.Observation(im, weight=wt, jacobian=jac, psf=psf,
                            ignore_zero_weight=inp['ignore'])
    return obs, mixture(inp['mix'])


def regular(cov):
    """what an unusable covariance is replaced by"""
    irr, irc, icc = cov
    if irr < 0 or icc < 0:
        return 1e-4, 0.0, 1e-4
    if irr * icc - irc ** 2 < 1e-200:
        t = (irr + icc) / 2
        return t, 0.0, t
    return irr, irc, icc


def go(inp, obs, guess, sky, **kw):
    if kw.pop('via', False):
        m = inp['mode']
        fit = emmod.run_em(obs, guess, sky=sky, fixcen=m == 'fixcen',
                           fixcov=m == 'fixcov', fluxonly=m == 'fluxonly',
                           **kw)
    else:
        fit = FITTERS[inp['mode']](**kw).go(obs=obs, guess=guess, sky=sky)
    return fit


def failed(res, bad, what):
    if res['flags'] != ngmix.flags.EM_RANGE_ERROR:
        bad.append('%s: flags %r instead of a range error'
                   % (what, res['flags']))
    if res.has_gmix():
        bad.append('%s: a mixture is offered' % what)
    for f in (res.get_gmix, res.get_convolved_gmix, res.make_image):
        try:
            f()
        except RuntimeError:
            pass
        else:
            bad.append('%s: %s gives an answer' % (what, f.__name__))


def one(chk, rec, i, runs, top):
    rng = random.Random(chk.seed * 11 + i)
    inp, out = rec['inp'], rec['out']
    obs, guess = build(inp, rng)
    obs0, pars0 = obs.copy(), guess.get_full_pars()
    given = term.qf(inp['sky']) if inp['sky'] else None
    bad = []
    # an exponent on the cutoff may fall on either side
    edge = 'inside' in out and any(0 in row for row in out['inside'])
    vary = rng.random() < .3
    res = go(inp, obs, guess, given, miniter=1, maxiter=1, vary_sky=vary,
             via=rng.random() < .5)
    fails = not out['ok']
    if edge:
        fails = res['flags'] == ngmix.flags.EM_RANGE_ERROR
    if fails:
        failed(res, bad, 'a step that cannot be made')
    else:
        if res['flags'] != ngmix.flags.EM_MAXITER or res['numiter'] != 1 \
                or res['message'] != 'maxit':
            bad.append('one step at most: %r' % dict(res))
        if not edge and 'chi' in out:
            compare(inp, out, res, vary, bad)
        history(chk, inp, obs, guess, given, vary, rng, runs, top, bad)
    if obs != obs0 or not np.array_equal(pars0, guess.get_full_pars()):
        bad.append('inputs were changed')
    for wrong in (None, obs.image):
        try:
            go(inp, wrong, guess, given)
        except ValueError:
            pass
        else:
            bad.append('fitted something that is no observation')
    chk.trace(1, 1 + 2 * top)
    chk.comparisons += 10
    chk.sample(inp)
    if bad:
        chk.violation('%r: %s' % (inp, '; '.join(bad)), rec=inp)


def compare(inp, out, res, vary, bad):
    peak = [term.val(p) for p in out['peak']]
    vals = []
    for chi, ins in zip(out['chi'], out['inside']):
        for p, c, x in zip(peak, chi, ins):
            vals.append(p * math.exp(-0.5 * term.qf(c)) if x > 0 else 0.0)
    term.REFS[:] = vals
    gm = res.get_gmix()
    got = gm.get_full_pars().reshape(-1, 6)
    p = np.array([term.val(x) for x in out['p']])
    tol = 2e-4
    if np.any(np.abs(got[:, 0] - p) > tol * np.abs(p) + 1e-12):
        bad.append('fluxes %r after a step, specification %r'
                   % (got[:, 0].tolist(), p.tolist()))
    g0 = np.array([[term.qf(x) for x in c] for c in inp['mix']])
    fixcen = inp['mode'] in ('fixcen', 'fluxonly')
    fixcov = inp['mode'] in ('fixcov', 'fluxonly')
    for o in range(len(p)):
        cen = [term.val(x) for x in out['cen'][o]]
        ctol = 0 if fixcen else 2e-3
        if np.any(np.abs(got[o, 1:3] - cen) > ctol):
            bad.append('centre %r after a step, specification %r'
                       % (got[o, 1:3].tolist(), cen))
        cov = [term.val(x) for x in out['cov'][o]]
        if fixcov:
            same = np.array_equal(got[o, 3:], g0[o, 3:])
        else:
            # near a fallback either side is right
            want = [cov] if fixcov else [regular(cov)]
            if min(abs(cov[0]), abs(cov[2])) < 1e-2 or abs(
                    cov[0] * cov[2] - cov[1] ** 2) < 1e-2:
                want += [cov, (1e-4, 0, 1e-4),
                         ((cov[0] + cov[2]) / 2, 0, (cov[0] + cov[2]) / 2)]
            same = any(np.all(np.abs(got[o, 3:] - w) < 1e-2 * (
                1 + np.abs(w))) for w in want)
        if not same:
            bad.append('covariance %r after a step, specification %r'
                       % (got[o, 3:].tolist(), cov))
    if not vary:
        sky = term.qf(out['sky'])
        stol = 1e-12
    else:
        sky = term.val(out['newsky'])
        stol = 1e-3
    if abs(res['sky'] - sky) > stol * (1 + abs(sky)):
        bad.append('sky %r, specification %r' % (res['sky'], sky))


def near(a, b, rtol=1e-7):
    a, b = a.get_full_pars(), b.get_full_pars()
    return a.shape == b.shape and np.all(
        np.abs(a - b) <= rtol * (1e-3 + np.abs(b)))


def history(chk, inp, obs, guess, given, vary, rng, runs, top, bad):
    """runs of one to top steps are the beginning of one another"""
    kw = dict(vary_sky=vary)
    fixcen = inp['mode'] in ('fixcen', 'fluxonly')
    fixcov = inp['mode'] in ('fixcov', 'fluxonly')
    g0 = guess.get_full_pars().reshape(-1, 6)
    psf = ngmix.GMix(pars=[1., 0, 0, 0, 0, 0])
    if obs.has_psf() and obs.psf.has_gmix():
        psf = obs.psf.gmix
    fd, last = [], None
    for k in range(1, top + 1):
        res = go(inp, obs, guess, given, miniter=1, maxiter=k, tol=0.0, **kw)
        if res['flags'] == ngmix.flags.EM_RANGE_ERROR:
            failed(res, bad, 'a later step that cannot be made')
            return
        gm = res.get_gmix()
        got = gm.get_full_pars().reshape(-1, 6)
        if not np.all(np.isfinite(got)):
            return
        if fixcen and not np.array_equal(got[:, 1:3], g0[:, 1:3]):
            bad.append('centres moved in %s' % inp['mode'])
        if fixcov and not np.array_equal(got[:, 3:], g0[:, 3:]):
            bad.append('covariances changed in %s' % inp['mode'])
        if res['numiter'] != k or res['flags'] != ngmix.flags.EM_MAXITER:
            if not res['fdiff'] <= 0:
                bad.append('%d steps allowed: %r' % (k, dict(res)))
            return
        conv = res.get_convolved_gmix()
        if not near(conv, gm.convolve(psf), 1e-10):
            bad.append('the convolved mixture is not the mixture convolved')
        if given is not None and last is not None:
            # without a given sky the image would be raised again
            r1 = go(inp, obs, last.get_gmix(), last['sky'] if vary else given,
                    miniter=1, maxiter=1, **kw)
            if r1['flags'] != ngmix.flags.EM_RANGE_ERROR and not near(
                    r1.get_gmix(), gm):
                bad.append('step %d depends on more than the mixture' % k)
        gm.set_flux(77.0)
        conv.set_flux(77.0)
        if not np.array_equal(res.get_gmix().get_full_pars(), got.ravel()):
            bad.append('the mixture handed out is the stored one')
        if not vary and rng.random() < .2:
            im = res.make_image()
            want = res.get_convolved_gmix().make_image(
                obs.image.shape, jacobian=obs.jacobian)
            if not np.array_equal(im, want):
                bad.append('the image is not that of the mixture')
        fd.append(res['fdiff'])
        last = res
    # which steps are small is up to the tolerance
    tols = sorted(set(fd))
    tols = [t * (1 + 1e-9) for t in tols] + [t * .5 for t in tols] + [0.0]
    for _ in range(6):
        mx, mn = rng.randint(0, top), rng.randint(0, top + 1)
        tol = rng.choice(tols)
        small = tuple(bool(x < tol) for x in fd[:mx])
        want = runs[(mx, mn, small, 0)]
        res = go(inp, obs, guess, given, miniter=mn, maxiter=mx, tol=tol, **kw)
        flags = 0 if want['flags'] == '' else getattr(
            ngmix.flags, want['flags'])
        if res['numiter'] != want['it'] or res['flags'] != flags or (
                res['message'] != ('maxit' if flags else 'OK')):
            bad.append('miniter %d maxiter %d small %r: %r, specification %r'
                       % (mn, mx, small, dict(res), want))
        elif want['it'] > 0:
            ref = go(inp, obs, guess, given, miniter=1, maxiter=want['it'],
                     tol=0.0, **kw)
            if not near(ref.get_gmix(), res.get_gmix(), 1e-12):
                bad.append('the mixture is not that of iteration %d'
                           % want['it'])
            if res['numiter'] >= mn and not term.close(
                    res['fdiff'], fd[want['it'] - 1]):
                bad.append('the reported change is not that of the last step')
        elif not near(guess, res.get_gmix(), 1e-12):
            bad.append('no step, but another mixture')
