"""C25: simulated observations."""
import copy
import random

import numpy as np
import ngmix
from ngmix.simobs import simulate_obs, get_noise_image

from . import tlc, term, gmref
from .c05 import q, vec
from .c06 import raw
from .report import shard

DIMS = [[3, 4], [4, 3], [2, 2], [1, 3], [5, 2], [1, 1]]
WTS = [[1], [4], [4, 1, 16, 9], [1, 0, 4], [0, 16, 4, -1, 1], [9, 1, 0, 0, 4],
       [0, 0, 1], [-1, 4], [1, 16777216, 0]]
RAWS = [[], [], [], [16], [1, 4, 9], [4, 0, 1, 9, 16], [0], [0, 0, 0, 1],
        [16777216, 0, 4]]
PSFS = [[], [[]], [vec(1, 0, 0, 1, 0, 1)], [vec(2, 0, 0, (3, 2), (1, 4), 1)],
        [vec(1, (1, 4), 0, 1, 0, 1) + vec(3, 0, (-1, 4), 2, (1, 2), 1)],
        [vec((1, 2), 0, 0, (1, 2), 0, (3, 4)) +
         vec((1, 4), 0, (1, 2), 4, 1, 3)]]
MIXES = [vec(3, 0, 0, 2, (1, 2), 1),
         vec(1, (1, 2), (-1, 4), 1, 0, 1) + vec(5, 0, (1, 4), 3, -1, 2),
         vec(-1, 0, 0, 1, 0, 2) + vec(4, (1, 4), 0, 2, 0, 2) +
         vec(2, -1, 1, 1, (1, 4), (1, 2))]
FACTORS = [[], q(2), q(1, 2), q(3)]


def split(v):
    return [v[k:k + 6] for k in range(0, len(v), 6)]


def epoch(rng, good):
    psf = rng.choice(PSFS[2:] if good else PSFS)
    wt = rng.choice(WTS)
    dims = rng.choice(DIMS)
    if not good and rng.random() < .2:
        wt = [0]
    n = dims[0] * dims[1]
    cyc = [wt[k % len(wt)] for k in range(n)]
    ignore = rng.random() < .6
    if not any(x > 0 for x in cyc):
        if good:
            wt = [1, 4]
        else:
            ignore = False
    return dict(dims=dims, wt=wt, raw=rng.choice(RAWS), ignore=ignore,
                psf=[] if psf == [] else [split(psf[0])])


def one_input(rng):
    kind = rng.choice(['obs', 'obs', 'list', 'list', 'mb', 'mb', 'mb'])
    good = rng.random() < .8
    if kind == 'obs':
        lay = [[epoch(rng, good)]]
    elif kind == 'list':
        lay = [[epoch(rng, good) for _ in range(rng.choice([0, 1, 2, 3]))]]
    else:
        lay = [[epoch(rng, good) for _ in range(rng.choice([0, 1, 1, 2]))]
               for _ in range(rng.choice([1, 2, 3]))]
    ok = ['none', 'each'] if kind == 'mb' else ['none', 'one', 'one']
    mix = rng.choice(ok if rng.random() < .85 else
                     ['number', 'numbers', 'short', 'one', 'each'])
    opt = dict(add=rng.random() < .7, all=rng.random() < .6,
               factor=rng.choice(FACTORS), useraw=rng.random() < .6,
               conv=rng.random() < .6,
               rng=rng.random() < .93)
    return dict(kind=kind, lay=lay, opt=opt, mix=mix,
                mixes=[split(rng.choice(MIXES)) for _ in lay])


def mixture(comps):
    return ngmix.GMix(pars=np.array([[term.qf(x) for x in c]
                                     for c in comps]).ravel())


def cyc(s, dims):
    return np.array([s[k % len(s)] for k in range(dims[0] * dims[1])],
                    dtype='f8').reshape(dims)


def jacobian(gen, dims):
    return ngmix.Jacobian(
        row=(dims[0] - 1) / 2 + gen.uniform(-.7, .7),
        col=(dims[1] - 1) / 2 + gen.uniform(-.7, .7),
        dvdrow=gen.uniform(.5, 1.2), dvdcol=gen.uniform(-.2, .2),
        dudrow=gen.uniform(-.2, .2),
        dudcol=gen.choice([-1, 1]) * gen.uniform(.5, 1.2))


def build(inp, gen, unit=1.0):
    bands = []
    for es in inp['lay']:
        ol = ngmix.ObsList()
        for e in es:
            d = e['dims']
            jac = jacobian(gen, d)
            psf = None
            if e['psf']:
                psf = ngmix.Observation(gen.uniform(.1, 1, size=(3, 4)),
                                        jacobian=jacobian(gen, (3, 4)))
                if e['psf'][0]:
                    psf.set_gmix(mixture(e['psf'][0]))
            o = ngmix.Observation(
                gen.normal(size=d), weight=unit * cyc(e['wt'], d),
                jacobian=jac,
                psf=psf, meta=dict(k=gen.uniform()),
                bmask=np.ones(d, dtype='i4'),
                ignore_zero_weight=e['ignore'])
            if e['raw']:
                o.weight_raw = unit * cyc(e['raw'], d)
            ol.append(o)
        bands.append(ol)
    if inp['kind'] == 'obs':
        return bands[0][0]
    if inp['kind'] == 'list':
        return bands[0]
    mb = ngmix.MultiBandObsList()
    for b in bands:
        mb.append(b)
    return mb


def epochs(x):
    if isinstance(x, ngmix.Observation):
        return [x]
    if isinstance(x, ngmix.ObsList):
        return list(x)
    return [o for ol in x for o in ol]


def jacvec(j):
    return [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol]


def state(x):
    r = []
    for o in epochs(x):
        r += [o.image.copy(), o.weight.copy(), jacvec(o.jacobian),
              o.has_psf(), o.has_bmask()]
        if hasattr(o, 'weight_raw'):
            r.append(o.weight_raw.copy())
        if o.has_psf():
            p = o.psf
            r += [p.image.copy(), p.weight.copy(), jacvec(p.jacobian)]
            r.append(p.gmix.get_full_pars() if p.has_gmix() else 0)
        r.append(o.meta.get('k'))
    return r


def same(a, b):
    return len(a) == len(b) and all(
        np.array_equal(np.asarray(x), np.asarray(y)) if x is not None
        else y is None for x, y in zip(a, b))


def gmix_of(inp):
    m = inp['mix']
    if m == 'none':
        return None
    if m == 'number':
        return 3
    if m == 'numbers':
        return [1.0 for _ in inp['lay']]
    ms = [mixture(c) for c in inp['mixes']]
    if m == 'one':
        return ms[0]
    return ms if m == 'each' else ms[:-1] + [ms[-1]] * 2


def kw_of(inp, rng):
    o = inp['opt']
    kw = dict(add_noise=o['add'], add_all=o['all'],
              use_raw_weight=o['useraw'], convolve_psf=o['conv'])
    if o['factor'] != []:
        kw['noise_factor'] = term.qf(o['factor'])
    elif rng.random() < .5:
        kw['noise_factor'] = None
    for k in ('add_noise', 'add_all', 'use_raw_weight', 'convolve_psf'):
        if kw[k] and rng.random() < .5:
            # the default
            del kw[k]
    return kw


def shape_of(x):
    if isinstance(x, ngmix.Observation):
        return 'obs'
    if isinstance(x, ngmix.ObsList):
        return ['list', len(x)]
    if isinstance(x, ngmix.MultiBandObsList):
        return ['mb'] + [shape_of(o) for o in x]
    return repr(x)


def draws(obs, inp, seed):
    """the draws themselves: noise for weights of one everywhere"""
    x = copy.deepcopy(obs)
    for o in epochs(x):
        o.set_weight(np.ones_like(o.weight))
        if hasattr(o, 'weight_raw'):
            o.weight_raw = np.ones_like(o.weight)
    r = simulate_obs(None, x, rng=np.random.RandomState(seed))
    return [o.image.copy() for o in epochs(r)]


def one(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    inp = rec['inp']
    # the unit of the weights
    unit = rng.choice([1., 1., 4. ** -20, 4. ** 12])
    obs = build(inp, gen, unit)
    gm = gmix_of(inp)
    kw = kw_of(inp, rng)
    seed = rng.randrange(2 ** 31)
    before = state(obs)
    gms = [g for g in (gm if isinstance(gm, list) else [gm])
           if isinstance(g, ngmix.GMix)]
    gpars = [g.get_full_pars() for g in gms]
    label = '%s %s mix=%s %s' % (inp['kind'],
                                 [len(b) for b in inp['lay']], inp['mix'],
                                 sorted(inp['opt'].items()))

    def go():
        g = np.random.RandomState(seed) if inp['opt']['rng'] else None
        return simulate_obs(gm, obs, rng=g, **kw)

    chk.trace(1, len(rec['made']))
    chk.comparisons += 1
    np.random.seed(rng.randrange(2 ** 31))
    glob = np.random.get_state()[1].copy(), np.random.get_state()[2]
    bad = []
    status = rec['status']
    try:
        new = go()
    except Exception as err:
        if status == 'done':
            bad.append(repr(err))
        elif not isinstance(err, (ValueError, RuntimeError,
                                  ngmix.GMixFatalError)):
            bad.append('refused with %r' % err)
        new = None
    else:
        st = np.random.get_state()
        if not np.array_equal(st[1], glob[0]) or st[2] != glob[1]:
            bad.append('the global generator was used')
        if status != 'done':
            bad.append('not refused (%s)' % status)
    if not same(before, state(obs)) or not all(
            np.array_equal(a, g.get_full_pars())
            for a, g in zip(gpars, gms)):
        bad.append('the input was changed')
    if status == 'done' and new is not None:
        bad += compare(chk, rec, inp, obs, new, seed, unit)
        np.random.seed(rng.randrange(2 ** 31))
        again = go()
        if not same(state(new), state(again)):
            bad.append('equal generators give different results')
        edit(new, gen)
        if not same(before, state(obs)):
            bad.append('editing the result changes the input')
        keep = state(again)
        edit(obs, gen)
        if not same(keep, state(again)):
            bad.append('editing the input changes the result')
    for x in bad:
        chk.violation('%s: %s' % (label, x), case=inp)
    if i < 3:
        chk.sample({'case': label, 'status': status})


def edit(x, gen):
    for o in epochs(x):
        with o.writeable():
            o.image[...] += 1
            o.weight[...] += 1
            j = o.jacobian
            j.set_cen(row=j.row0 + 1, col=j.col0)
        if o.has_psf():
            with o.psf.writeable():
                o.psf.image[...] += 1
            if o.psf.has_gmix():
                o.psf.gmix.set_flux(17.0)
                o.psf.set_gmix(mixture([vec(9, 0, 0, 1, 0, 1)]))


def compare(chk, rec, inp, obs, new, seed, unit):
    bad = []
    if shape_of(new) != shape_of(obs) or type(new) is not type(obs):
        return ['%r became %r' % (shape_of(obs), shape_of(new))]
    zs = draws(obs, inp, seed) if inp['opt']['add'] else None
    flat = [(b, e) for b, es in enumerate(inp['lay']) for e in es]
    for k, (o, n) in enumerate(zip(epochs(obs), epochs(new))):
        want = rec['made'][k]
        d = o.image.shape
        where = 'epoch %d: ' % (k + 1)
        if n.image.shape != d:
            bad.append(where + 'shape %r' % (n.image.shape,))
            continue
        if jacvec(n.jacobian) != jacvec(o.jacobian):
            bad.append(where + 'jacobian changed')
        wt = unit * np.array([term.qf(x) for x in want['wt']]).reshape(d)
        if not np.allclose(n.weight, wt, rtol=1e-12, atol=0):
            bad.append(where + 'weights are %r, specification %r'
                       % (n.weight.tolist(), wt.tolist()))
        if n.has_psf() != o.has_psf():
            bad.append(where + 'psf %r' % n.has_psf())
        elif o.has_psf():
            a, b = o.psf, n.psf
            if not (np.array_equal(a.image, b.image)
                    and jacvec(a.jacobian) == jacvec(b.jacobian)
                    and a.has_gmix() == b.has_gmix()
                    and (not a.has_gmix() or np.array_equal(
                        a.gmix.get_full_pars(), b.gmix.get_full_pars()))):
                bad.append(where + 'psf changed')
        comps = [[term.qf(x) for x in c] for c in want['comps']]
        j = o.jacobian
        rr, cc = np.mgrid[0:d[0], 0:d[1]]
        dr, dc = rr - j.row0, cc - j.col0
        v = j.dvdrow * dr + j.dvdcol * dc
        u = j.dudrow * dr + j.dudcol * dc
        area = abs(j.dvdrow * j.dudcol - j.dvdcol * j.dudrow)
        model = gmref.evaluate(comps, v, u, area)
        top = gmref.scale(comps, v, u, area) if comps else np.zeros(d)
        if zs is None:
            noise = np.zeros(d)
            if n.noise_image is not None:
                bad.append(where + 'a noise image without noise')
        else:
            err = np.array([1e15 if x == ['big'] else
                            term.qf(x) / np.sqrt(unit)
                            for x in want['err']]).reshape(d)
            noise = err * zs[k]
            if n.noise_image is None or not np.allclose(
                    n.noise_image, noise, rtol=1e-11, atol=0):
                bad.append(where + 'noise is %r, specification %r'
                           % (np.asarray(n.noise_image).tolist(),
                              noise.tolist()))
        tol = 1e-9 * (top + np.abs(noise)) + 1e-13
        if not np.all(np.abs(n.image - model - noise) <= tol):
            bad.append(where + 'image is %r, specification %r'
                       % (n.image.tolist(), (model + noise).tolist()))
        chk.comparisons += 1
    return bad


def noise_alone(chk):
    """get_noise_image itself, and that its draws are normal"""
    rng = random.Random(chk.seed)
    gen = np.random.RandomState(chk.seed)
    z = []
    for k in range(chk.budget(60, 400)):
        seed = rng.randrange(2 ** 31)
        dims = rng.choice([(12, 9), (7, 20), (15, 15)])
        w = gen.choice(
            [0., 1., 4., .25, -2., 1e-11, 1e9][:rng.choice([5, 7])], size=dims)
        factor = rng.choice([None, 2., .5])
        alls = rng.random() < .5
        keep = w.copy()
        r = np.random.RandomState(seed)
        n = get_noise_image(w, r, add_all=alls, noise_factor=factor)
        unit = get_noise_image(np.ones(dims), np.random.RandomState(seed))
        z.append(unit.ravel())
        chk.comparisons += 1
        pos = w > 0
        err = np.zeros(dims)
        err[pos] = 1 / np.sqrt(w[pos])
        if alls and pos.any():
            err[~pos] = np.median(err[pos])
        if factor:
            err *= factor
        if not pos.any():
            err[:] = 1e15
        if not np.array_equal(keep, w):
            chk.violation('get_noise_image changed the weights')
        if not np.allclose(n, err * unit, rtol=1e-11, atol=0):
            chk.violation('noise image of %r weights, add_all=%r, factor %r '
                          'does not match them' % (dims, alls, factor))
    z = np.concatenate(z)
    n = z.size
    if len(np.unique(z)) < n:
        chk.violation('draws are repeated')
    # 6 sigma
    tests = dict(mean=(z.mean(), 0, 1 / np.sqrt(n)),
                 variance=(np.mean(z ** 2), 1, np.sqrt(2 / n)),
                 skewness=(np.mean(z ** 3), 0, np.sqrt(15 / n)),
                 kurtosis=(np.mean(z ** 4), 3, np.sqrt(96 / n)),
                 correlation=(np.mean(z[1:] * z[:-1]), 0, 1 / np.sqrt(n)))
    for k, (got, want, s) in tests.items():
        chk.comparisons += 1
        if abs(got - want) > 6 * s:
            chk.violation('%s of the unit noise is %g' % (k, got))


def others(chk):
    o = ngmix.Observation(np.ones((3, 3)))
    for x in (None, np.ones((3, 3)), [o], 'x'):
        chk.comparisons += 1
        try:
            simulate_obs(None, x, rng=np.random.RandomState(1))
        except ValueError:
            continue
        except Exception as err:
            chk.violation('simulating %s: %r' % (type(x), err))
            continue
        chk.violation('simulating %s is not refused' % type(x))


def check(chk):
    rng = random.Random(chk.seed)
    jobs = []
    for k in range(chk.budget(8, 30)):
        xs = []
        while len(xs) < chk.budget(120, 400):
            x = one_input(rng)
            if x not in xs:
                xs.append(x)
        jobs.append(('SimObs', dict(
            constants=dict(Inputs=raw(xs)),
            invariants=['OwnDraws', 'MatchedWeights', 'Typical', 'FluxKept',
                        'Quiet', 'Whole'], properties=['InputKept'],
            emit='Emit')))
    for r in tlc.parallel(jobs):
        chk.tlc(r, 'SimObs')
        shard(chk, lambda rec, i: one(chk, rec, i), r.records)
    noise_alone(chk)
    others(chk)
