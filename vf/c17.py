"""C17: adaptive moments."""
import random
import warnings

import numpy as np
import ngmix
from ngmix.admom import admom as am

from . import tlc, term, vterm
from .c05 import q, vec
from .c06 import raw
from .c08 import jac_of
from .report import shard

FL = ngmix.flags
FLAG = dict(none=0, LOW_DET=FL.LOW_DET, NONPOS_FLUX=FL.NONPOS_FLUX,
            CEN_SHIFT=FL.CEN_SHIFT, NONPOS_SIZE=FL.NONPOS_SIZE,
            MAXITER=FL.MAXITER,
            GMIX_RANGE_ERROR=FL.GMIX_RANGE_ERROR)
JACS = [vec(2, 3, 1, 0, 0, 1), vec(3, (5, 2), (1, 2), 0, 0, (1, 2)),
        vec((5, 2), 3, 1, (1, 4), (-1, 4), 1), vec(3, 3, 0, 1, 1, 0),
        vec(2, 2, (1, 2), (1, 5), 0, (-1, 2))]
# guesses: flux, row, col, irr, irc, icc
GUESSES = [vec(1, 0, 0, 2, 0, 2), vec(3, (1, 2), 0, 1, (1, 4), 2),
           vec(1, 0, (-1, 2), (1, 2), 0, (1, 2)),
           vec(2, 0, 0, 6, -1, 5), vec(1, 0, 0, 0, 0, 0),
           vec(1, 1, 1, 1, 1, 1), vec(1, 0, 0, (1, 4), 0, (1, 4)),
           vec(1, 40, 0, 1, 0, 1), vec(1, 0, 0, -1, 0, 2)]
COVS = [vec(2, 0, 1), vec(1, (1, 2), 3), vec(4, -1, 1), vec(1, 0, 1)]
KEYS = ['flux', 'flux_mean', 'flux_err', 's2n', 'T', 'T_err', 'rho4',
        'rho4_err', 'e1', 'e2', 'e1err', 'e2err']


def images(rng, n):
    """blobs of all sorts, mostly with small integer values"""
    out = []
    for k in range(n):
        kind = k % 8
        d = [rng.randint(5, 9), rng.randint(5, 9)]
        r, c = np.mgrid[:d[0], :d[1]].astype('f8')
        r -= (d[0] - 1) / 2 + rng.uniform(-.7, .7)
        c -= (d[1] - 1) / 2 + rng.uniform(-.7, .7)
        s = rng.uniform(.9, 1.8)
        e = rng.uniform(-.3, .3)
        im = 300 * np.exp(-.5 * ((1 + e) * r * r + (1 - e) * c * c
                                 + .3 * e * r * c) / s ** 2)
        if kind == 1:
            im += np.array([[rng.uniform(-8, 8) for _ in range(d[1])]
                            for _ in range(d[0])])
        elif kind == 2:
            im = np.array([[rng.randint(-4, 9) for _ in range(d[1])]
                           for _ in range(d[0])])
        elif kind == 3:
            im = im * 0
            im[d[0] // 2, d[1] // 2] = 10
        elif kind == 4:
            im = im * 0 + 5
        elif kind == 5:
            im = im - 100
        elif kind == 6:
            im = -im
        elif kind == 7:
            im = im * 0 + np.array([[rng.choice([0, 0, 3, -2])
                                     for _ in range(d[1])]
                                    for _ in range(d[0])])
        out.append([d, [int(x) for x in np.rint(im).ravel()]])
    return out


def sub(rng, seq, n):
    return rng.sample(seq, min(n, len(seq)))


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough
    jobs = []
    for k in range(chk.budget(6, 24)):
        jobs.append(('AdmomStep', dict(constants=dict(
            Images=raw(images(rng, 8)), Jacs=raw(sub(rng, JACS, 2)),
            Guesses=raw(sub(rng, GUESSES, 3)),
            Wts=raw([rng.choice([[1], [4], [1, 2, 4], [1, 0, 2, 3, 1]])]),
            Shifts=raw(sub(rng, [q(5), q(1, 2), q(1, 20)], 2)),
            CenOnly={bool(k % 3 == 0)} if not deep else {True, False},
            Covs=raw(COVS)), emit='Emit')))
    top = chk.budget(9, 14)
    jobs.append(('AdmomRun', dict(constants=dict(
        MaxIters=set(range(1, top + 1)), CenOnly={True, False}),
        invariants=['AtMost', 'LimitExact', 'CleanSettled', 'FlaggedOrClean'],
        properties=['Ends'], spec='Spec', emit='Emit')))
    nres = 2
    for k in range(nres):
        jobs.append(('AdmomResult', dict(constants=results(rng, deep, k),
                     invariants=['CleanIsFinite', 'SpecificImpliesOverall',
                                 'FailedIsBlank', 'BlankWhenFlagged'],
                     emit='Emit')))
    rs = tlc.parallel(jobs)
    runs = {}
    for r in rs[-nres - 1].records:
        runs[r['maxiter'], r['cenonly'], tuple(r['ends'])] = r
    chk.tlc(rs[-nres - 1], 'AdmomRun')
    for r in rs[-nres:]:
        chk.tlc(r, 'AdmomResult')
        shard(chk, lambda rec, i: result(chk, rec, i), r.records)
    recs, prog = [], None
    for r in rs[:-nres - 1]:
        chk.tlc(r, 'AdmomStep')
        for rec in r.records:
            if 'prog' in rec:
                prog = rec
            else:
                recs.append(rec)
    rng.shuffle(recs)
    recs = recs[:chk.budget(450, 4000)]
    recs += [large(rng) for _ in range(chk.budget(8, 60))]
    for i in range(2):
        one(chk, recs[i], i, prog, runs, top)
    shard(chk, lambda rec, i: one(chk, rec, i, prog, runs, top), recs)
    shard(chk, lambda k, i: centre(chk, k), list(range(chk.budget(60, 600))))


def results(rng, deep, k):
    good = vec(1, 1, 4, 3, 6, 2, 5)
    vs = [good, vec(2, 1, 1, 9, 3, 1, 7)]
    for a in range(2, 7):
        for bad in (0, -1):
            v = [list(x) for x in rng.choice(vs[:2])]
            v[a] = q(bad)
            vs.append(v)
    for _ in range(20 if deep else 5):
        v = [list(x) for x in rng.choice(vs[:2])]
        for a in rng.sample(range(2, 7), 2):
            v[a] = q(rng.choice([0, -1]))
        if v not in vs:
            vs.append(v)
    return dict(
        Fails={'', ['NONPOS_FLUX', 'MAXITER'][k]},
        Pars=raw([vec(0, 0, (1, 2), (-1, 3), 2), vec(1, (1, 2), 0, 1, 5),
                  vec(0, 0, 0, 0, 0), vec(0, 0, 1, 0, -1)]),
        Sums=raw([vec(0, 0, 1, (-1, 2), 3, 2, 5), vec(1, 2, 0, 0, 1, 4, 7),
                  vec(0, 0, 1, 1, 2, 0, 1), vec(0, 0, 1, -1, 2, -3, 1)]),
        VarSets=raw(vs[k::2] + vs[:1]),
        CorSets=raw([vec(0, 0, 0, 0), vec(1, -1, (1, 2), 1)]),
        Areas=raw([rng.choice([q(1), q(1, 4)])]),
        Norms=raw([q(rng.randint(1, 5), 7)]),
        Wsums=raw([q(rng.randint(1, 9), 4)]))


def result(chk, rec, i):
    """get_result on one row of the table"""
    inp, out = rec['inp'], rec['out']
    fail = FLAG.get(inp['fail'] or 'none')
    cov = np.diag([term.qf(x) for x in inp['var']])
    for (a, b), x in zip(((2, 4), (3, 4), (4, 5), (6, 5)), inp['cor']):
        cov[a, b] = cov[b, a] = term.qf(x)
    sums = np.array([term.qf(x) for x in inp['sums']])
    pars = np.array([term.qf(x) for x in inp['pars']] + [1.0])
    ares = np.zeros(1, dtype=np.dtype(am._admom_result_dtype, align=True))
    ares['flags'], ares['numiter'], ares['npix'] = fail, 3, (
        10, 1, 5000, 40000)[i % 4]
    ares['wsum'] = term.qf(inp['wsum'])
    ares['sums'][0], ares['sums_cov'][0] = sums, cov
    ares['pars'][0], ares['rho4'] = pars, 1.875
    if i % 2:
        a = {n: ares[n][0] for n in ares.dtype.names}
        a['sums'], a['sums_cov'] = a['sums'].copy(), a['sums_cov'].copy()
        a['pars'] = a['pars'].copy()
    else:
        a = ares
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = am.get_result(a, term.qf(inp['area']), term.qf(inp['norm']))
    bad = []
    for k in ('flags', 'flux_flags', 'T_flags', 'rho4_flags'):
        want = 0
        for n in out[k]:
            want |= getattr(FL, n)
        if res[k] != want:
            bad.append('%s is %r, specification %r' % (k, res[k], out[k]))
        name = k.replace('flags', 'flagstr')
        if res[name] != FL.get_flags_str(want):
            bad.append('%s is %r' % (name, res[name]))
    for k in KEYS:
        want = 1.875 if out[k] == ['given'] else term.val(out[k])
        if not term.close(res[k], want):
            bad.append('%s is %r, specification %r' % (k, res[k], want))
    for k, a in (('e', ('e1', 'e2')), ('e_err', ('e1err', 'e2err'))):
        for x, n in zip(res[k], a):
            if not term.close(x, res[n]):
                bad.append('%s and %s disagree' % (k, n))
    chk.trace(1, 1)
    chk.comparisons += 20
    if bad:
        chk.violation('%r: %s' % (inp, '; '.join(bad)), rec=inp)


def num(x):
    return x[0] / x[1]


def large(rng):
    """a case on a big stamp; its pixels are worked out here"""
    d = [rng.randint(66, 90), rng.randint(66, 90)]
    jac = vec(d[0] // 2, d[1] // 2, *rng.choice([
        ((1, 2), 0, 0, (1, 2)), ((1, 4), (1, 8), 0, (1, 2)),
        (0, (1, 2), (1, 2), 0)]))
    j = [term.qf(x) for x in jac]
    r, c = np.mgrid[:d[0], :d[1]].astype('f8')
    v = j[2] * (r - j[0]) + j[3] * (c - j[1])
    u = j[4] * (r - j[0]) + j[5] * (c - j[1])
    s = rng.uniform(1.5, 4)
    e = rng.uniform(-.3, .3)
    im = np.rint(300 * np.exp(-.5 * ((1 + e) * v * v + (1 - e) * u * u
                                     + .3 * e * u * v) / s ** 2))
    wt = rng.choice([[1], [4], [1, 2, 4], [1, 0, 2, 3, 1]])
    n = d[0] * d[1]
    w = [wt[k % len(wt)] for k in range(n)]
    return dict(
        inp=dict(img=[d, [int(x) for x in im.ravel()]], jac=jac, wt=wt,
                 guess=rng.choice([vec(1, 0, 0, 4, 0, 4),
                                   vec(3, (1, 2), 0, 6, (1, 4), 7)]),
                 cenonly=rng.random() < .3, shift=q(5)),
        out=dict(val=[int(x) for x in im.ravel()],
                 v=[[x, 1] for x in v.ravel().tolist()],
                 u=[[x, 1] for x in u.ravel().tolist()],
                 var=[[1 / x if x else 0., 1] for x in w],
                 kept=[x > 0 for x in w],
                 area=[abs(j[2] * j[5] - j[3] * j[4]), 1]))


# -- runs ------------------------------------------------------------------
def frozen(obs):
    return (obs.image.tobytes(), obs.weight.tobytes(),
            obs.jacobian.get_data().tobytes(), obs.pixels.tobytes(),
            sorted(obs.meta))


def same(a, b, skip=()):
    """two results"""
    if set(a) != set(b):
        return ['keys %r' % sorted(set(a) ^ set(b))]
    bad = []
    for k in a:
        if k in skip:
            continue
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.dtype.kind in 'US':
            ok = str(x) == str(y)
        else:
            ok = x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
        if not ok:
            bad.append(k)
    return bad


def run(obs, guess, cenonly, maxiter, shift, via, fitter=None, **kw):
    args = dict(maxiter=maxiter, shiftmax=shift, cenonly=cenonly, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if fitter is not None:
            return fitter.go(obs, guess)
        if via:
            return am.run_admom(obs, guess, **args)
        return am.AdmomFitter(**args).go(obs=obs, guess=guess)


def one(chk, rec, i, prog, runs, top):
    rng = random.Random(chk.seed * 17 + i)
    inp, out = rec['inp'], rec['out']
    d = inp['img'][0]
    n = d[0] * d[1]
    im = np.array(out['val'], dtype='f8').reshape(d)
    wt = np.array([inp['wt'][k % len(inp['wt'])] for k in range(n)],
                  dtype='f8').reshape(d)
    # a weight counts whatever its size
    unit = rng.choice([1., 1., 4. ** -20, 4. ** 12])
    wt *= unit
    psf = None
    if rng.random() < .3:
        psf = ngmix.Observation(np.ones((3, 3)))
    obs = ngmix.Observation(im, weight=wt, jacobian=jac_of(inp['jac'], rng),
                            psf=psf)
    pars = [term.qf(x) for x in inp['guess']]
    guess = ngmix.GMix(pars=pars)
    cenonly, shift = inp['cenonly'], term.qf(inp['shift'])
    etol, Ttol = rng.choice([(1e-5, 1e-3), (1e-2, 1e-2), (1e-7, 1e-6)])
    kept = np.array(out['kept'])
    env0 = dict(v=np.array([num(x) for x in out['v']])[kept],
                u=np.array([num(x) for x in out['u']])[kept],
                var=np.array([num(x) for x in out['var']])[kept] / unit,
                val=np.array(out['val'], dtype='f8')[kept],
                area=num(out['area']), low=1e-200, p=pars[0],
                shiftmax=shift, etol=etol, Ttol=Ttol,
                row0=pars[1], col0=pars[2], row=pars[1], col=pars[2],
                irr=pars[3], irc=pars[4], icc=pars[5],
                e1old=np.nan, e2old=np.nan, Told=np.nan)
    obs0, g0 = frozen(obs), guess.get_full_pars()
    program = prog['cen'] if cenonly else prog['full']
    bad = []
    ends, env = [], dict(env0)
    np.seterr(all='ignore')
    kw = dict(etol=etol, Ttol=Ttol)
    last = None
    try:
        while len(ends) < top and not bad:
            k = len(ends) + 1
            res = run(obs, guess, cenonly, k, shift, rng.random() < .5, **kw)
            if frozen(obs) != obs0 or not np.array_equal(
                    g0, guess.get_full_pars()):
                bad.append('inputs were changed')
            bad += step(program, prog, env, res)
            how = env.pop('exit')
            ends.append(how)
            want = runs[k, cenonly, tuple(ends)]
            bad += outcome(res, want, env, prog, obs)
            last = (k, res)
            if how != 'next':
                break
        k = len(ends)
        if ends[-1] != 'next' and not bad:
            for extra in (1, 50):
                # with room to spare
                m = k + extra
                if m <= top:
                    want = runs[m, cenonly, tuple(ends)]
                else:
                    want = dict(runs[k + 1, cenonly, tuple(ends)]
                                if k + 1 <= top else {}, )
                    if not want:
                        continue
                res = run(obs, guess, cenonly, m, shift,
                          rng.random() < .5, **kw)
                bad += outcome(res, want, env, prog, obs)
                bad += history(obs, guess, cenonly, m, shift, res, kw, rng)
        elif not bad:
            res = run(obs, guess, cenonly, 400, shift, True, **kw)
            if res['flags'] & FL.GMIX_RANGE_ERROR:
                if res['numiter'] != 0:
                    bad.append('aborted with a count of iterations')
            elif not top < res['numiter'] <= 400:
                bad.append('settled in %d iterations, not after %d'
                           % (res['numiter'], top))
            # (noise can measure the same under different weights)
            if res['flags'] == 0 and im.max() > 250:
                fixed(res, obs, env0, prog, cenonly, etol, Ttol, bad)
    except vterm.Unsure:
        pass
    if frozen(obs) != obs0 or not np.array_equal(g0, guess.get_full_pars()):
        bad.append('inputs were changed')
    for wrong in (None, im, listed(obs)):
        try:
            run(wrong, guess, cenonly, 2, shift, False)
        except ValueError:
            pass
        else:
            bad.append('measured something that is no observation')
    chk.trace(1, len(ends))
    chk.comparisons += 20 * len(ends)
    if n < 400:
        chk.sample(dict(inp, ends=ends))
    if bad:
        chk.violation('%r: %r: %s' % (dict(inp, img=inp['img'][0]) if n > 400
                                      else inp, ends, '; '.join(bad[:6])), rec=inp)


def listed(obs):
    ol = ngmix.ObsList()
    ol.append(obs)
    return ol


def step(program, prog, env, res):
    """one iteration of the program; the real sums must be these"""
    bad = []
    env['exit'] = 'next'
    # the same from a start that differs by a rounding
    near = dict(env)
    near['val'] = env['val'] * (1 + 1e-11 * np.cos(np.arange(len(env['val']))))
    for k in ('row', 'col', 'irr', 'irc', 'icc'):
        near[k] = env[k] * (1 + 1e-11) + (1e-11 if k in ('row', 'col') else 0)
    for ins in program:
        if ins[0] == 'let':
            env[ins[1]] = vterm.val(ins[2], env)
            near[ins[1]] = vterm.val(ins[2], near)
        elif ins[0] == 'exit':
            if vterm.holds(ins[2], env) != vterm.holds(ins[2], near):
                raise vterm.Unsure()
            if vterm.holds(ins[2], env):
                env['exit'] = ins[1]
                break
        else:
            told(env, near, ['s%d' % (k + 1) for k in range(7)])
            # a pixel at the edge of the window
            if np.any(np.abs(env['w'] - near['w'])
                      > 1e-8 * np.abs(env['w']).max()):
                raise vterm.Unsure()
            bad += sums(prog, env, res)
            # rounding is not carried over to the next iteration
            for k in range(7):
                env['s%d' % (k + 1)] = float(res['sums'][k])
    if env['exit'] == 'dark' and not bad:
        told(env, near, ['c1', 'c2', 'c6'])
        got = [res['sums'][k] for k in (0, 1, 5)]
        want = [env[k] for k in ('c1', 'c2', 'c6')]
        sc = np.abs(env['w'] * env['val']).sum() * (
            1 + np.abs(env['v']).max() + np.abs(env['u']).max())
        if np.any(np.abs(np.array(got) - want) > 1e-9 * sc):
            bad.append('sums for the centre %r, specification %r'
                       % (got, want))
    told(env, near, ['row', 'col', 'irr', 'irc', 'icc'])
    return bad


def told(env, near, names):
    """nothing is known where a rounding changes the numbers"""
    for k in names:
        if not abs(env[k] - near[k]) <= 1e-6 * abs(env[k]) + 1e-8:
            raise vterm.Unsure()


def sums(prog, env, res):
    bad = []
    wd = np.abs(env['w'] * env['val'])
    for k in range(7):
        f = env['f%d' % (k + 1)]
        want, got = env['s%d' % (k + 1)], res['sums'][k]
        if abs(want - got) > 1e-7 * (wd * np.abs(f)).sum() + 1e-13:
            bad.append('sum %d is %r, specification %r' % (k, got, want))
    cov = res['sums_cov']
    floor = (env['w'] ** 2 * env['var']).sum()
    for a in range(7):
        for b in range(a, 7):
            want = vterm.val(prog['cov'][a][b], env)
            s = np.sqrt(vterm.val(prog['cov'][a][a], env)
                        * vterm.val(prog['cov'][b][b], env))
            for got in (cov[a, b], cov[b, a]):
                if abs(got - want) > 1e-7 * s + 1e-9 * floor + 1e-13:
                    bad.append('covariance %d %d is %r, specification %r'
                               % (a, b, got, want))
    if not term.close(res['wsum'], env['wsum'], rtol=1e-7):
        bad.append('wsum is %r, specification %r' % (res['wsum'],
                                                     env['wsum']))
    if res['npix'] != len(env['v']):
        bad.append('%d pixels used of %d' % (res['npix'], len(env['v'])))
    return bad


def outcome(res, want, env, prog, obs):
    bad = []
    if res['numiter'] != want['numiter']:
        bad.append('%d iterations, specification %d'
                   % (res['numiter'], want['numiter']))
    flag = FLAG[want['flag']]
    if not want['clean']:
        if not res['flags'] & flag:
            bad.append('flags %r without %s' % (res['flags'], want['flag']))
        for k in KEYS:
            if not np.isnan(res[k]):
                bad.append('%s is defined after %s' % (k, want['flag']))
        return bad + closed(res)
    if res['flags'] not in (0, FL.NONPOS_VAR, FL.NONPOS_SHAPE_VAR):
        bad.append('flags %r after settling' % res['flags'])
        return bad
    for ins in prog['summary']:
        env[ins[1]] = vterm.val(ins[2], env)
    for k in range(5):
        if not term.close(res['pars'][k], env['pars%d' % (k + 1)],
                          rtol=1e-6, atol=1e-8):
            bad.append('pars %r, specification %r' % (
                res['pars'].tolist(),
                [env['pars%d' % (j + 1)] for j in range(5)]))
            break
    for k in ('flux', 'flux_mean'):
        if not term.close(res[k], env[k], rtol=1e-6):
            bad.append('%s %r, specification %r' % (k, res[k], env[k]))
    if res['pars'][5] != res['flux_mean']:
        bad.append('the last parameter is not the mean flux')
    if res['flags'] != 0:
        return bad + closed(res)
    return bad + opened(res, obs)


def closed(res):
    bad = []
    for f in (res.get_gmix, res.make_image):
        try:
            f()
        except RuntimeError:
            continue
        bad.append('%s after a failure' % f.__name__)
    return bad


def opened(res, obs):
    bad = []
    T = res['T']
    e = [res['pars'][2] / T, res['pars'][3] / T]
    if not np.allclose(res['e'], e) or T != res['pars'][4]:
        bad.append('shape and parameters disagree')
    if np.hypot(*e) >= 1:
        return bad
    gm = res.get_gmix()
    want = [1, res['pars'][0], res['pars'][1], T / 2 * (1 - e[0]),
            T / 2 * e[1], T / 2 * (1 + e[0])]
    if not np.allclose(gm.get_full_pars(), want, rtol=1e-8, atol=1e-9):
        bad.append('mixture %r, specification %r'
                   % (gm.get_full_pars().tolist(), want))
    gm.set_flux(3.0)
    g2 = res.get_gmix()
    if not np.allclose(g2.get_full_pars(), want, rtol=1e-8, atol=1e-9):
        bad.append('the mixture handed out is kept')
    tot = obs.image.sum()
    if tot != 0:
        g2.set_flux(tot)
        im = res.make_image()
        if not np.array_equal(im, g2.make_image(obs.image.shape,
                                                jacobian=obs.jacobian)):
            bad.append('image is not that of the mixture')
    return bad


def history(obs, guess, cenonly, m, shift, res, kw, rng):
    """the same, whatever went before; other units of flux, other fluxes"""
    bad = []
    ft = am.AdmomFitter(maxiter=m, shiftmax=shift, cenonly=cenonly, **kw)
    for j in range(2):
        b = same(res, run(obs, guess, cenonly, m, shift, 0, fitter=ft))
        if b:
            bad.append('run %d of one fitter differs in %r' % (j + 1, b))
        # something else in between
        ft.rng = np.random.RandomState(3)
        coarse = ngmix.Observation(obs.image, weight=obs.weight,
                                   jacobian=ngmix.DiagonalJacobian(
                                       row=2, col=2, scale=30.))
        run(coarse, 900., cenonly, m, shift, 0, fitter=ft)
        run(obs, ngmix.GMix(pars=[1., .3, .1, 2., .3, 3.]), cenonly, m, shift,
            0, fitter=ft)
    c = rng.choice([2.0, 0.5, 8.0])
    o2 = ngmix.Observation(obs.image * c, weight=obs.weight,
                           jacobian=obs.jacobian)
    r2 = run(o2, guess, cenonly, m, shift, 1, **kw)
    for k in ('flux', 'flux_mean', 's2n'):
        if not term.close(r2[k], c * res[k]):
            bad.append('%s of a %g times brighter image is %r, was %r'
                       % (k, c, r2[k], res[k]))
    for k in ('T', 'e1', 'e2', 'rho4', 'numiter', 'flags', 'flux_err'):
        if not term.close(r2[k], res[k]):
            bad.append('%s depends on the unit of flux' % k)
    for k in ('T_err', 'e1err', 'e2err', 'rho4_err'):
        if not term.close(r2[k], res[k] / c, rtol=1e-6):
            bad.append('%s of a %g times brighter image is %r, was %r'
                       % (k, c, r2[k], res[k]))
    return bad


def fixed(res, obs, env0, prog, cenonly, etol, Ttol, bad):
    """the weight is the one its own measurement asks for"""
    env = dict(env0)
    T, M1, M2 = res['pars'][4], res['pars'][2], res['pars'][3]
    env.update(row=res['pars'][0], col=res['pars'][1], irr=(T - M1) / 2,
               icc=(T + M1) / 2, irc=M2 / 2)
    w0 = [env['irr'], env['irc'], env['icc']]
    if cenonly:
        return
    def asked(env, tell):
        for ins in prog['full']:
            if ins[0] == 'let':
                # the centre of the weight is where it was measured
                if ins[1] in ('row', 'col'):
                    continue
                env[ins[1]] = vterm.val(ins[2], env)
            elif ins[0] == 'sums':
                tell(env)
        return np.array([env[k] for k in ('irr', 'irc', 'icc')])

    def real(env):
        bad.extend(sums(prog, env, res))

    got = asked(dict(env), real)
    tol = 1e-9
    for k, t in (('s3', etol), ('s4', etol), ('s5', Ttol)):
        for sgn in (-1, 1):
            def moved(e):
                e[k] += sgn * (t * abs(e['s5']))
            tol = tol + np.abs(asked(dict(env), moved) - got)
    if not np.all(30 * tol < 0.5 * T):
        return
    if np.any(np.abs(w0 - got) > 30 * tol):
        bad.append('settled on %r which asks for %r' % (w0, got.tolist()))


# -- finding the centre, and guesses made from a size ------------------------
class Fixed(object):
    """a generator that hands out scripted numbers and records requests"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.calls = []

    def uniform(self, low=0.0, high=1.0, size=None):
        n = 1 if size is None else int(np.prod(size))
        x = np.array([self.r.uniform(low, high) for _ in range(n)])
        self.calls.append((low, high, size, x))
        return x[0] if size is None else x


def centre(chk, k):
    rng = random.Random(chk.seed * 1009 + k)
    d = [rng.randint(8, 15), rng.randint(8, 15)]
    scale = rng.choice([1.0, 0.25, 2.0])
    jac = ngmix.DiagonalJacobian(row=(d[0] - 1) / 2, col=(d[1] - 1) / 2,
                                 scale=scale)
    off = [rng.uniform(-1, 1) * scale for _ in range(2)]
    kind = k % 4
    gm = ngmix.GMixModel([off[0], off[1], rng.uniform(-.2, .2),
                          rng.uniform(-.2, .2), 4 * scale ** 2, 100.], 'gauss')
    im = gm.make_image(d, jacobian=jac)
    if kind == 1:
        im = -im
    elif kind == 2:
        im = im * 0
    obs = ngmix.Observation(im, weight=np.ones(d), jacobian=jac)
    obs0 = frozen(obs)
    bad = []
    # -- a size as the guess
    T0 = 4 * scale ** 2 * rng.uniform(.7, 1.5)
    gen = Fixed(k)
    res = run(obs, T0, False, 100, 5.0 * scale, True, rng=gen)
    lim = [(-.5 * scale, .5 * scale), (-.3, .3), (-.1, .1)]
    if len(gen.calls) != 3 or any(
            abs(c[0] - a) > 1e-12 or abs(c[1] - b) > 1e-12
            for c, (a, b) in zip(gen.calls, lim)):
        bad.append('guess drawn as %r' % [c[:3] for c in gen.calls])
    else:
        x = [c[3] for c in gen.calls]
        g = ngmix.GMixModel([*x[0], *x[1], T0 * (1 + x[2][0]), 1.0], 'gauss')
        b = same(res, run(obs, g, False, 100, 5.0 * scale, False))
        if b:
            bad.append('a size as guess gives another %r' % b)
    # -- the centre
    fwhm = 2.3548 * np.sqrt(2) * scale
    wt = ngmix.GMixModel([0, 0, 0, 0, ngmix.moments.fwhm_to_T(fwhm), 1.0],
                         'gauss')
    w0 = wt.get_full_pars()
    shift = rng.choice([5.0, 0.3]) * scale
    # a bad start: nothing under the weight
    start = wt.copy()
    if kind == 3:
        start.set_cen(*(9 * scale * d[0] for _ in range(2)))
    ntry = rng.randint(1, 4)
    kw = dict(shiftmax=shift, maxiter=60, etol=1e-6, Ttol=1e-4)
    gens = [Fixed(k + 7) for _ in range(2)]
    s0 = start.get_full_pars()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = am.find_cen_admom(obs, gmix=start, ntry=ntry, rng=gens[0], **kw)
        byf = am.find_cen_admom(obs, fwhm=fwhm, ntry=ntry, rng=gens[1], **kw)
    if not np.array_equal(s0, start.get_full_pars()):
        bad.append('the weight given was changed')
    for g, first, gen in ((got, start, gens[0]), (byf, wt, gens[1])):
        tries, w, used = 0, first.copy(), 0
        while tries < ntry:
            r = run(obs, w, True, 60, shift, False, etol=1e-6, Ttol=1e-4)
            tries += 1
            if r['flags'] == 0 or tries == ntry:
                break
            x = gen.calls[used][3] if used < len(gen.calls) else [0, 0]
            used += 1
            w.set_cen(x[0], x[1])
        b = same(r, g, skip=('cen',)) if 'cen' in g else ['cen']
        if [x for x in b if x != 'keys [\'cen\']']:
            bad.append('finding the centre: %r differ' % b)
        elif r['flags'] == 0:
            if not np.allclose(g['cen'], r['pars'][:2]):
                bad.append('the centre is %r, not %r'
                           % (g['cen'], r['pars'][:2]))
        elif not np.all(np.isnan(g['cen'])) or np.shape(g['cen']) != (2,):
            bad.append('a centre %r without success' % (g['cen'],))
        for c in gen.calls:
            if abs(c[0] + scale / 2) > 1e-12 or abs(c[1] - scale / 2) > 1e-12:
                bad.append('retry drawn from %r' % (c[:2],))
    if frozen(obs) != obs0 or not np.array_equal(w0, wt.get_full_pars()):
        bad.append('inputs were changed')
    for kws in (dict(), dict(fwhm=fwhm, ntry=2), dict(gmix=wt, ntry=3)):
        try:
            am.find_cen_admom(obs, **kws)
        except ValueError:
            continue
        bad.append('find_cen_admom(%r) was accepted' % sorted(kws))
    chk.trace(1, 4)
    chk.comparisons += 10
    if bad:
        chk.violation('centre %d: %s' % (k, '; '.join(bad[:5])), case=k)
