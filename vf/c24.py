"""C24: template fluxes."""
import random

import galsim
import numpy as np
import ngmix
from ngmix.defaults import PDEF, CDEF
from ngmix.fitting import PSFFluxFitter, GalsimPSFFluxFitter

from . import tlc, term, vterm, gmref
from .c06 import raw
from .report import shard

FL = ngmix.flags
DIMS = {4: (2, 2), 6: (2, 3), 3: (3, 1), 1: (1, 1), 8: (4, 2), 2: (1, 2)}


def template(rng, n):
    """small integers which sum to a power of two, now and then to zero"""
    while True:
        t = [rng.choice([0, 1, 1, 2, -1, 3]) for _ in range(n)]
        if sum(t) in (1, 2, 4, 8, -1, -2) or (sum(t) == 0 and rng.random() < .1):
            return t


def epoch(rng):
    n = rng.choice([4, 6, 3, 8, 2, 1])
    t = template(rng, n)
    f = rng.choice([0, 2, 3])
    d = [f * x for x in t] if f else [rng.randint(-3, 5) for _ in range(n)]
    w = [rng.choice([1, 1, 2, 4, 0, -1]) for _ in range(n)]
    if rng.random() < .08:
        w = [0] * n
    return dict(t=t, d=d, w=w, ignore=rng.random() < .6)


def stack(rng):
    es = [epoch(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    for e in es:
        if not any(x > 0 for x in e['w']):
            e['ignore'] = False
    return es


def jacobian(gen, dims):
    return ngmix.Jacobian(
        row=(dims[0] - 1) / 2 + gen.uniform(-.7, .7),
        col=(dims[1] - 1) / 2 + gen.uniform(-.7, .7),
        dvdrow=gen.uniform(.5, 1.2), dvdcol=gen.uniform(-.2, .2),
        dudrow=gen.uniform(-.2, .2),
        dudcol=gen.choice([-1, 1]) * gen.uniform(.5, 1.2))


def build(inp, out, rng, gen, store=True):
    """observations, and the template of every epoch"""
    ol = ngmix.ObsList()
    ts = []
    opt = inp['opt']
    flux0 = gen.uniform(.5, 3)
    # amplitudes do not depend on the unit of the weights
    unit = ol.unit = rng.choice([1., 1., 4. ** -20, 4. ** 12])
    for k, e in enumerate(inp['stack']):
        dims = DIMS[len(e['t'])]
        im = np.array(e['d'], dtype='f8').reshape(dims)
        wt = unit * np.array(e['w'], dtype='f8').reshape(dims)
        if out['where'] and out['where'][0] == k + 1:
            im.ravel()[out['where'][1] - 1] = dict(
                nan=np.nan, inf=rng.choice([np.inf, -np.inf]), huge=1e200,
                nanmask=np.nan, infmask=np.inf)[inp['poison']]
        jac = jacobian(gen, dims)
        psf = ngmix.Observation(np.ones((3, 3)), jacobian=jac)
        obs = ngmix.Observation(im, weight=wt, jacobian=jac, psf=psf,
                                ignore_zero_weight=e['ignore'])
        who = obs.psf if opt['psf'] else obs
        if opt['from'] == 'image':
            t = np.array(e['t'], dtype='f8').reshape(dims)
            who.template = t.copy()
            other = t
        else:
            gm = ngmix.GMix(pars=np.concatenate([
                [flux0 * gen.uniform(.5, 1), gen.uniform(-.3, .3),
                 gen.uniform(-.3, .3), gen.uniform(.4, 1),
                 gen.uniform(-.1, .1), gen.uniform(.4, 1)]
                for _ in range(rng.choice([1, 2, 3]))]))
            who.set_gmix(gm)
            c = gm.get_full_pars().reshape(-1, 6)
            nr, nc = dims
            rr, cc = np.mgrid[0:nr, 0:nc]
            r0, c0 = jac.get_cen()
            v = jac.dvdrow * (rr - r0) + jac.dvdcol * (cc - c0)
            u = jac.dudrow * (rr - r0) + jac.dudcol * (cc - c0)
            area = abs(jac.dvdrow * jac.dudcol - jac.dvdcol * jac.dudrow)
            other = gmref.evaluate(c, v, u, area)
            if out['normalised']:
                other = other / c[:, 0].sum()
            ts.append(other)
            ol.append(obs)
            continue
        ts.append(other / other.sum() if out['normalised'] else other)
        ol.append(obs)
    return ol, ts


def snap(ol):
    r = []
    for o in ol:
        r += [o.image.copy(), o.weight.copy()]
        for x in (o, o.psf):
            if x.has_gmix():
                r.append(x.gmix.get_full_pars().copy())
            if hasattr(x, 'template'):
                r.append(x.template.copy())
    return r


def same(a, b):
    return len(a) == len(b) and all(
        np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def expected(out, ts, ol):
    t = np.concatenate([x.ravel()[np.array(p, dtype=int) - 1]
                        for x, p in zip(ts, out['pos'])])
    d = np.concatenate([o.image.ravel()[np.array(p, dtype=int) - 1]
                        for o, p in zip(ol, out['pos'])])
    w = np.concatenate([o.weight.ravel()[np.array(p, dtype=int) - 1]
                        for o, p in zip(ol, out['pos'])])
    env = dict(t=t, d=d, w=w)
    env['F'] = float(vterm.val(out['terms']['flux'], env))
    env['chi2'] = float(vterm.val(out['terms']['chi2'], env))
    env['err'] = float(vterm.val(out['terms']['err'], env))
    env['top'] = float(np.sum(w * d * d))
    return env


def one(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    inp, out = rec['inp'], rec['out']
    label = '%r of %d epochs, %s' % (inp['opt'], len(inp['stack']),
                                     inp['poison'])
    ol, ts = build(inp, out, rng, gen)
    before = snap(ol)
    obs = ol[0] if len(ol) == 1 and rng.random() < .5 else ol
    kw = dict(do_psf=inp['opt']['psf'], normalize_psf=inp['opt']['normalize'])
    fitter = PSFFluxFitter(**kw)
    chk.trace(1, 2)
    chk.comparisons += 1
    bad = []
    with np.errstate(all='ignore'):
        try:
            res = fitter.go(obs=obs)
            again = fitter.go(obs=obs)
        except Exception as err:
            chk.violation('%s: %r' % (label, err))
            return
    if not same(before, snap(ol)):
        bad.append('the observations were changed')
    flags = 0
    for f in out['flags']:
        flags |= getattr(FL, f)
    if res['flags'] != flags:
        bad.append('flags are %r, specification %r' % (res['flags'],
                                                       out['flags']))
    for k in ('flux', 'flux_err', 'chi2per', 'dof', 'flags'):
        if not np.array_equal(res[k], again[k], equal_nan=True):
            bad.append('%s differs the second time' % k)
    dof = out['dof'] if out['dof'] > 0 else 1e-6
    if res['dof'] != dof:
        bad.append('dof is %r, specification %r' % (res['dof'], dof))
    if not out['has']:
        if res['flux'] != PDEF or res['flux_err'] != CDEF:
            bad.append('flux without pixels is %r +/- %r'
                       % (res['flux'], res['flux_err']))
    elif flags:
        if res['flux_err'] != CDEF:
            bad.append('the error of a flagged flux is %r' % res['flux_err'])
        if out['broken'] and inp['poison'] != 'huge' and \
                np.isfinite(res['flux']) and res['flux'] != PDEF:
            bad.append('the flux of broken data is %r' % res['flux'])
    if out['has'] and not out['broken']:
        with np.errstate(all='ignore'):
            w = expected(out, ts, ol)
        if out['exact']:
            x = out['exact'][0]
            u = ol.unit
            for k, y, s in (('F', x['flux'], 1), ('chi2', x['chi2'], u)):
                if abs(w[k] - s * term.qf(y)) > 1e-9 * s * (
                        1 + w['top'] / u):
                    raise AssertionError('terms and exact values differ')
        scale = abs(w['F']) + np.sqrt(w['top'] / np.sum(
            w['w'] * w['t'] ** 2))
        if not abs(res['flux'] - w['F']) <= 1e-9 * scale:
            bad.append('flux is %r, specification %r' % (res['flux'],
                                                         w['F']))
        if not flags:
            t = 1e-7 * scale
            if not abs(res['flux_err'] - w['err']) <= t:
                bad.append('error is %r, specification %r'
                           % (res['flux_err'], w['err']))
        c = w['chi2'] / dof
        if not abs(res['chi2per'] - c) <= 1e-9 * (c + w['top'] / dof):
            bad.append('chi2per is %r, specification %r'
                       % (res['chi2per'], c))
    for x in bad:
        chk.violation('%s: %s' % (label, x), case=inp)
    if i < 3:
        chk.sample({'case': label, 'flux': float(res['flux']),
                    'flags': out['flags']})


def analytic(chk, i):
    """fluxes of analytic templates: the template they are of is found from
    their response to single pixels"""
    rng = random.Random(chk.seed * 100057 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    ol = ngmix.ObsList()
    model = rng.choice([None, galsim.Exponential(half_light_radius=.6,
                                                 flux=rng.choice([1, 7])),
                        galsim.Gaussian(fwhm=1.)])
    nep = rng.choice([1, 2])
    wants, pixels = [], []
    for e in range(nep):
        scale = gen.uniform(.3, .45)
        th = gen.uniform(0, 6)
        sh = gen.uniform(-.1, .1)
        jm = scale * np.array([[np.cos(th) + sh, -np.sin(th)],
                               [np.sin(th), np.cos(th)]])
        if rng.random() < .3:
            jm[1] *= -1
        dims = rng.choice([(7, 7), (6, 8), (8, 5)])
        off = gen.uniform(-.6, .6, size=2)
        if rng.random() < .4:
            # some of it is out of the image
            off = gen.uniform(-4, 4, size=2)
        jac = ngmix.Jacobian(row=(dims[0] - 1) / 2 + off[0],
                             col=(dims[1] - 1) / 2 + off[1],
                             dvdrow=jm[0, 0], dvdcol=jm[0, 1],
                             dudrow=jm[1, 0], dudcol=jm[1, 1])
        n = 33
        pc = (n - 1) / 2 + gen.uniform(-.5, .5, size=2)
        pjac = ngmix.Jacobian(row=pc[0], col=pc[1], dvdrow=jm[0, 0],
                              dvdcol=jm[0, 1], dudrow=jm[1, 0],
                              dudcol=jm[1, 1])
        prof = galsim.Gaussian(fwhm=1.3).shear(g1=.1, g2=gen.uniform(-.1, .1))
        wcs = galsim.JacobianWCS(jm[1, 1], jm[1, 0], jm[0, 1], jm[0, 0])
        pim = prof.drawImage(
            nx=n, ny=n, wcs=wcs, method='no_pixel',
            offset=(pc[1] - (n - 1) / 2, pc[0] - (n - 1) / 2)).array
        obj = prof if model is None else galsim.Convolve(
            model.withFlux(1), prof)
        t = obj.drawImage(nx=dims[1], ny=dims[0], wcs=wcs,
                          offset=(off[1], off[0])).array.astype('f8')
        wt = gen.choice([1., 2., 4., 0., 1e-9], size=dims)
        wt[0, 0] = 1
        psf = ngmix.Observation(pim.astype('f8') * gen.uniform(.5, 4),
                                jacobian=pjac)
        ol.append(ngmix.Observation(np.zeros(dims), weight=wt, jacobian=jac,
                                    psf=psf))
        wants.append(t)
        pixels += [(e, r, c) for r in range(dims[0]) for c in range(dims[1])]
    fitter = GalsimPSFFluxFitter(model=model)
    label = 'analytic template %s, %d epochs' % (model, nep)

    def flux_of(ims):
        for o, im in zip(ol, ims):
            o.set_image(im)
        return fitter.go(obs=ol if nep > 1 else rng.choice([ol, ol[0]]))

    chk.trace(1, 1)
    chk.comparisons += 1
    ims = [gen.normal(size=o.image.shape) + 5 * t
           for o, t in zip(ol, wants)]
    t = np.concatenate([x.ravel() for x in wants])
    d = np.concatenate([x.ravel() for x in ims])
    w = np.concatenate([o.weight.ravel() for o in ol])
    npos = int(np.sum(w > 0))
    if np.sum(w * t * t) < 1e-3 * np.sum(t * t):
        return
    keep = [(o.weight.copy(), o.psf.image.copy()) for o in ol]
    res = flux_of(ims)
    F = np.sum(w * t * d) / np.sum(w * t * t)
    chi2 = np.sum(w * (d - F * t) ** 2)
    err = np.sqrt(chi2 / np.sum(w * t * t) / (npos - 1))
    bad = []
    for k, y, tol in (('flux', F, .01 * err + 2e-3 * abs(F)),
                      ('flux_err', err, 5e-3 * err),
                      ('chi2per', chi2 / (npos - 1),
                       5e-3 * chi2 / (npos - 1)),
                      ('dof', npos - 1, 0), ('flags', 0, 0)):
        if not abs(res[k] - y) <= tol:
            bad.append('%s is %r, specification %r' % (k, res[k], y))
    if not all(np.array_equal(a, o.weight) and np.array_equal(b, o.psf.image)
               and np.array_equal(o.image, im)
               for (a, b), o, im in zip(keep, ol, ims)):
        bad.append('the observations were changed')
    # the amplitude is linear in the data
    two = flux_of([3 * im for im in ims])
    if not abs(two['flux'] - 3 * res['flux']) <= 1e-9 * abs(F) + 1e-12:
        bad.append('three times the data have flux %r, not 3 times %r'
                   % (two['flux'], res['flux']))
    # every pixel counts as its weight and template say
    m = np.sum(w * t * t)
    for e, r, c in rng.sample(pixels, min(6, len(pixels))):
        im = [np.zeros(o.image.shape) for o in ol]
        im[e][r, c] = 1.0
        got = flux_of(im)['flux']
        y = ol[e].weight[r, c] * wants[e][r, c] / m
        if not abs(got - y) <= 2e-2 * abs(y) + 4e-3 * np.abs(
                w * t).max() / m:
            bad.append('pixel %r has influence %r, specification %r'
                       % ((e, r, c), got, y))
    for x in bad:
        chk.violation('%s: %s' % (label, x))


def inputs(chk):
    """what is not fit"""
    o = ngmix.Observation(np.ones((3, 3)), psf=ngmix.Observation(
        np.ones((3, 3))))
    mb = ngmix.MultiBandObsList()
    ol = ngmix.ObsList()
    ol.append(o)
    mb.append(ol)
    for what, kw in ((o, {}), (ol, {}), (o, dict(do_psf=False)), (mb, {}),
                     (None, {}), (np.ones((3, 3)), {})):
        chk.comparisons += 1
        try:
            PSFFluxFitter(**kw).go(obs=what)
        except ValueError:
            continue
        except Exception as err:
            chk.violation('template flux of %s: %r' % (type(what), err))
            continue
        chk.violation('template flux of %s without a template'
                      % type(what))


def check(chk):
    rng = random.Random(chk.seed)
    jobs = []
    opts = [dict(psf=p, normalize=n, **{'from': f})
            for p in (True, False) for n in (True, False)
            for f in ('image', 'mixture')]
    for k in range(chk.budget(7, 28)):
        st = []
        for _ in range(chk.budget(14, 40)):
            x = stack(rng)
            if x not in st:
                st.append(x)
        jobs.append(('TemplateFlux', dict(constants=dict(
            Stacks=raw(st), Options=raw(opts),
            Poisons={'none', 'nan', 'inf', 'huge', 'nanmask', 'infmask'}
            if k % 2 == 0 else {'none'}),
            invariants=['Normal', 'Perfect', 'ChiPositive',
                        'FlaggedWhenNone'], emit='Emit')))
    for r in tlc.parallel(jobs):
        chk.tlc(r, 'TemplateFlux')
        shard(chk, lambda rec, i: one(chk, rec, i), r.records)
    shard(chk, lambda k, i: analytic(chk, i), range(chk.budget(40, 400)))
    inputs(chk)
