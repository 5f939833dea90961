"""C08: rendering and likelihood."""
import math
import random

import galsim
import numpy as np
import ngmix

from . import tlc, term
from .report import shard
from .c05 import q, vec
from .c06 import raw

DIMS = [[3, 4], [4, 3], [1, 5], [5, 1], [1, 1], [4, 4]]
JACS = [vec(1, 1, 1, 0, 0, 1), vec((3, 2), 1, (1, 4), 0, 0, (1, 4)),
        vec(1, (5, 2), (3, 5), (4, 5), (-4, 5), (3, 5)),
        vec((1, 2), 2, 1, (1, 2), 0, (1, 2)),
        vec(2, 0, 0, 1, 2, 0), vec(-1, 6, (1, 2), 0, (1, 4), (-1, 2)),
        vec(1, 1, 3, 0, 0, 1)]
MIXES = [[vec(3, 0, 0, 1, 0, 1)],
         [vec(2, (1, 2), (-1, 4), 2, (1, 2), 1)],
         [vec(1, 0, 0, 2, -1, 1), vec(4, 0, 1, (1, 2), 0, 1)],
         [vec(2, -1, 0, 1, 0, (1, 4)), vec(-1, 0, 0, 1, (1, 2), 1),
          vec(1, 1, 1, 4, 1, 2)],
         [vec(5, 0, 0, (1, 10), 0, (1, 10))],
         [vec(1, 3, -2, 4, 1, 1)]]
WTS = [[1], [4, 0, 1, 9, -1], [0, 0, 1], [1, 2]]
IMGS = [[1, -2, 3, 0, 5, 2, 7], [0]]


def sub(rng, xs, n):
    return xs if n >= len(xs) else rng.sample(xs, n)


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough
    jobs = []
    for k in range(chk.budget(7, 24)):
        jac = JACS[k % len(JACS)]
        jobs.append(('Render', dict(constants=dict(
            Dims=raw(sub(rng, DIMS, 4)), Jacs=raw([jac]),
            Mixes=raw(sub(rng, MIXES, 6 if deep else 3)),
            Wts=raw(sub(rng, WTS, 4 if deep else 2)),
            Imgs=raw(sub(rng, IMGS, 1)),
            Fast=True), invariants=['OnceEach', 'ChiPositive'],
            emit='Emit')))
    for r in tlc.parallel(jobs):
        chk.tlc(r, 'Render')
        for i, rec in enumerate(r.records[:2]):
            one(chk, rec, i)
        shard(chk, lambda rec, i: one(chk, rec, i), r.records)


def jac_of(j, rng):
    row, col, vr, vc, ur, uc = [term.qf(x) for x in j]
    if rng.random() < .5:
        return ngmix.Jacobian(row=row, col=col, dvdrow=vr, dvdcol=vc,
                              dudrow=ur, dudcol=uc)
    return ngmix.Jacobian(y=row, x=col, dvdy=vr, dvdx=vc, dudy=ur, dudx=uc)


def predictions(out, fast):
    """per-pixel model, and the size of the terms it is the sum of"""
    peak = [term.val(p) for p in out['peak']]
    m, s, edge = [], [], []
    for chi, ins in zip(out['chi'], out['inside']):
        tot, sc, e = 0.0, 0.0, 0.0
        for p, c, i in zip(peak, chi, ins):
            x = p * math.exp(-0.5 * term.qf(c))
            if fast and i <= 0:
                # beyond the cutoff; on it, either way
                if i == 0:
                    e += abs(x)
                continue
            tot += x
            sc += abs(x)
        m.append(tot)
        s.append(sc)
        edge.append(e)
    return np.array(m), np.array(s), np.array(edge)


def drawn(gm, dims, jac, m, s, rng, bad):
    """what galsim draws of the mixture, without a pixel"""
    kw = rng.choice([{}, dict(gsparams=dict(folding_threshold=1e-3)),
                     dict(gsparams=galsim.GSParams(kvalue_accuracy=1e-6)),
                     dict(Tmin=1e-4)])
    o = gm.make_galsim_object(**kw)
    im = o.drawImage(
        nx=dims[1], ny=dims[0], method='no_pixel', dtype=float,
        wcs=galsim.JacobianWCS(jac.dudcol, jac.dudrow, jac.dvdcol,
                               jac.dvdrow),
        offset=(jac.col0 - (dims[1] - 1) / 2, jac.row0 - (dims[0] - 1) / 2))
    if np.any(np.abs(im.array.ravel() - m) > 1e-6 * (s + s.max())):
        bad.append('what galsim draws of it differs by %g of %g' % (
            np.abs(im.array.ravel() - m).max(), s.max()))


def one(chk, rec, i):
    rng = random.Random(chk.seed * 7 + i)
    inp, out = rec['inp'], rec['out']
    dims = inp['dims']
    n = dims[0] * dims[1]
    # likelihoods go with the unit of the weights, residuals with its root
    U = rng.choice([1., 1., 4. ** -20, 4. ** 12])
    wt = U * np.array([inp['wt'][k % len(inp['wt'])] for k in range(n)],
                         dtype='f8').reshape(dims)
    im = np.array([inp['img'][k % len(inp['img'])] for k in range(n)],
                  dtype='f8').reshape(dims)
    jac = jac_of(inp['jac'], rng)
    comps = np.array([[term.qf(x) for x in c] for c in inp['mix']])
    gm = ngmix.GMix(pars=comps.ravel())
    obs = ngmix.Observation(im, weight=wt, jacobian=jac,
                            ignore_zero_weight=inp['ignore'])
    bad = []
    m, s, _ = predictions(out, False)
    mf, sf, edge = predictions(out, True)
    tiny = 1e-13 * (s.max() + 1e-30)
    # images
    got = gm.make_image(dims, jacobian=jac)
    if got.shape != tuple(dims) or np.any(
            np.abs(got.ravel() - m) > 1e-9 * s + tiny):
        bad.append('image differs from the definition by %g'
                   % np.abs(got.ravel() - m).max())
    # in the sky units of the definition: rotating by hand is no change
    got = gm.make_image(tuple(dims), jacobian=jac, fast_exp=True)
    tolf = 6e-5 * sf + edge + tiny
    if np.any(np.abs(got.ravel() - mf) > tolf):
        bad.append('fast image differs from the definition')
    if rng.random() < .3:
        drawn(gm, dims, jac, m, s, rng, bad)
    if hasattr(gm, '_fill_image'):
        start = np.array([[rng.uniform(-1, 1) for _ in range(dims[1])]
                          for _ in range(dims[0])])
        add = start.copy()
        gm._fill_image(add, jacobian=jac)
        if np.any(np.abs((add - start).ravel() - m) > 1e-9 * s + tiny
                  + 1e-14):
            bad.append('rendering into an image does not add to it')
    unit = ngmix.UnitJacobian(row=(dims[0] - 1) / 2, col=(dims[1] - 1) / 2)
    if not np.array_equal(gm.make_image(dims),
                          gm.make_image(dims, jacobian=unit)):
        bad.append('default rendering is not centred with unit pixels')
    # what follows from the prediction
    term.REFS[:] = list(mf)
    w = np.where(wt > 0, wt, 0).ravel()
    d = im.ravel()
    use = np.array(out['used']) - 1
    ref = np.sqrt(U) * np.array([term.val(x) for x in out['fdiff']])
    tol = tolf[use] * np.sqrt(w[use]) + 1e-11 * np.sqrt(U)
    off = rng.randint(0, 3)
    fd = np.full(n + off + rng.randint(0, 2), -77.0)
    gm.fill_fdiff(obs, fd, start=off)
    k = out['npix']
    if np.any(np.abs(fd[off:off + k] - ref) > tol) or np.any(
            fd[:off] != -77) or np.any(fd[off + k:] != -77):
        bad.append('residuals differ from the definition')
    try:
        gm.fill_fdiff(obs, np.zeros(n + off - 1), start=off)
    except ValueError:
        pass
    else:
        bad.append('a residual array that is too short was accepted')
    ll = gm.get_loglike(obs, more=True)
    e = tolf
    tols = dict(
        loglike=((np.abs(mf - d) + e) * e * w)[use].sum(),
        s2n_numer=(e * np.abs(d) * w)[use].sum(),
        s2n_denom=((2 * np.abs(mf) + e) * e * w)[use].sum(), npix=0)
    for name in tols:
        want = out['npix'] if name == 'npix' else U * term.val(out[name])
        if not abs(ll[name] - want) <= tols[name] + 1e-10 * (
                U + abs(want)):
            bad.append('%s %r, specification %r' % (name, ll[name], want))
    if gm.get_loglike(obs) != ll['loglike']:
        bad.append('the two forms of the likelihood differ')
    den = U * term.val(out['s2n_denom'])
    got = gm.get_model_s2n_sum(obs)
    if abs(got - den) > tols['s2n_denom'] + 1e-10 * (U + den):
        bad.append('model s/n sum %g, specification %g' % (got, den))
    if abs(gm.get_model_s2n(obs) ** 2 - got) > 1e-9 * (U + got):
        bad.append('model s/n is not the root of its sum')
    if not (np.array_equal(obs.image, im) and np.array_equal(obs.weight, wt)
            and np.array_equal(gm.get_full_pars(), comps.ravel())):
        bad.append('inputs were changed')
    chk.trace(1, 8)
    chk.comparisons += 8
    chk.sample(inp)
    if bad:
        chk.violation('%r: %s' % (inp, '; '.join(bad)), rec=rec)
