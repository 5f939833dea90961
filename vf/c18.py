"""C18: bounded least squares."""
import random
import warnings

import numpy as np
import ngmix
from ngmix.defaults import PDEF, CDEF
from ngmix.fitting.leastsqbound import run_leastsq, leastsqbound
from scipy.optimize import leastsq

from . import tlc, term, vterm
from .c05 import q, vec
from .c06 import raw
from .report import shard

FL = ngmix.flags
IER = dict(IER5=1, IER6=2, IER7=4, IER8=8)
HYPS = [[q(0), q(1)], [q(3, 4), q(5, 4)], [q(-3, 4), q(5, 4)],
        [q(4, 3), q(5, 3)], [q(-12, 5), q(13, 5)], [q(15, 8), q(17, 8)]]
SINS = [[q(0), q(1)], [q(1), q(0)], [q(-1), q(0)], [q(3, 5), q(4, 5)],
        [q(-4, 5), q(3, 5)], [q(5, 13), q(-12, 13)]]
BOXES = [[q(2), q(3), vec((1, 2), -1, 1)], [q(1), q(1), vec((-1, 2), (1, 4))],
         [q(5), q(1, 2), vec(-3, 0, (-1, 3))], [q(-1), q(3), vec(2, (3, 2))],
         [q(4), q(-1, 2), vec(-1, -2)], [q(1), q(2), vec(-1, 0, 1)],
         [q(1), q(2), vec(2, 1, -1)], [q(1, 3), q(1, 7), vec(0, (1, 10))],
         [q(3), q(3), vec(1, -2, 2)]]


class Func(object):
    """a residual function which remembers, and fails when told to"""

    def __init__(self, func, at=0, fault='', until=0, bad=np.nan):
        self.func, self.at, self.fault, self.seen = func, at, fault, []
        self.until, self.bad = until, bad
        self.finite = True

    def __call__(self, x, *args):
        self.seen.append(np.array(x, dtype='f8'))
        n = len(self.seen)
        if self.fault == 'poison' and self.at <= n <= self.until:
            r = self.func(np.asarray(x), *args)
            r[::2] = self.bad
            return r
        if n == self.at and self.fault:
            e = dict(zerodivision=ZeroDivisionError('division by zero'),
                     nans=ValueError('array must not contain NaNs'),
                     infs=ValueError('array must not contain infs or so'),
                     othervalue=ValueError('something else'),
                     other=RuntimeError('broken'))[self.fault]
            raise e
        r = self.func(np.asarray(x), *args)
        self.finite = self.finite and bool(np.all(np.isfinite(r)))
        if not self.finite:
            # where a search goes from there is not specified
            self.seen[-1] = self.seen[0]
        return r


def mats(rng, n):
    out = []
    for k in range(n):
        p = rng.randint(1, 3)
        m = p + rng.choice([0, 1, 2, 3, 4])
        while True:
            A = [[rng.randint(-2, 2) for _ in range(p)] for _ in range(m)]
            g = np.dot(np.transpose(A), A)
            det = round(np.linalg.det(g))
            if 0 < det <= 40 * p and np.linalg.cond(g) < 300:
                break
        if k % 7 == 6:
            c = rng.randrange(p)
            for r in A:
                r[c] = 0
        b = [rng.randint(-6, 6) for _ in range(m)]
        out.append([A, b])
    return out


def kindsets(rng, n):
    out = [['none'], ['none'] * 2, ['none'] * 3]
    for _ in range(n):
        out.append([rng.choice(['none', 'lower', 'upper', 'both'])
                    for _ in range(rng.randint(1, 3))])
    for a in ('lower', 'upper', 'both'):
        out.append([a] * rng.randint(1, 3))
    return [list(x) for x in sorted(set(map(tuple, out)))]


def check(chk):
    rng = random.Random(chk.seed)
    jobs = []
    for k in range(chk.budget(6, 21)):
        jobs.append(('LsqBound', dict(constants=dict(
            Mats=raw(mats(rng, 6)), NPriors={0, rng.choice([1, 2])},
            KSpace={False, True} if k % 3 == 0 else {False},
            Kinds=raw(kindsets(rng, 5)), Boxes=raw(rng.sample(BOXES, 3)),
            Hyps=raw(HYPS), Sins=raw(SINS)),
            invariants=['Stationary', 'StartInBox'], emit='Emit')))
    top = chk.budget(8, 16)
    jobs.append(('LsqRun', dict(
        constants=dict(MaxEvals=top, Faults={
            '', 'zerodivision', 'nans', 'infs', 'othervalue', 'other'}),
        invariants=['ErrorsIffClean', 'CleanIsFound', 'FaultStops'],
        properties=['Ends'], spec='Spec', emit='Emit')))
    rs = tlc.parallel(jobs)
    judge, faults = {}, {}
    for r in rs[-1].records:
        if r['fault']:
            faults[r['fault'], r['at']] = r
        else:
            f = r['found']
            judge[f['ier'], f['cov'], f['dof']] = r['rec']
    chk.tlc(rs[-1], 'LsqRun')
    recs = []
    for r in rs[:-1]:
        chk.tlc(r, 'LsqBound')
        recs += r.records
    rng.shuffle(recs)
    recs = recs[:chk.budget(1000, 8000)]
    shard(chk, lambda rec, i: linear(chk, rec, i, judge, faults), recs)
    shard(chk, lambda k, i: curved(chk, k, judge, faults),
          list(range(chk.budget(400, 4000))))
    labels(chk)


def inbox(seen, lo, hi):
    bad = []
    for k, x in enumerate(seen):
        for j in range(len(x)):
            if np.isnan(x[j]) or (lo[j] is not None and x[j] < lo[j]) or (
                    hi[j] is not None and x[j] > hi[j]):
                bad.append('evaluation %d at %r, outside of the bounds'
                           % (k + 1, x.tolist()))
                return bad
    return bad


def judged(judge, ref, f, pars, nprior, kspace):
    """the outcome the specification has for what the search found"""
    found, cov0, info, msg, ier = ref
    n = len(found)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = f(found)
    m = len(r) - nprior
    dof = (m // 2 if kspace else m) - n
    cov = 'none'
    scaled = None
    if cov0 is not None:
        cov = 'good'
        scaled = cov0 * ((r[nprior:] ** 2).sum() / dof) if dof else cov0
        if not np.all(np.isfinite(scaled)):
            cov = 'notfinite'
        else:
            e = np.linalg.eig(scaled)[0]
            if np.abs(e).min() < 1e-7 * np.abs(e).max():
                # the sign of the smallest one is rounding
                return None, scaled
            if (e.min() < 0) != (dof < 0):
                cov = 'negative'
    return judge[ier, cov, int(np.sign(dof))], scaled


def matches(res, want, found, scaled, cov0):
    """the record of an outcome is the one specified"""
    bad = []
    if want is None or (scaled is not None and np.all(scaled == 0)):
        # an exact answer, or one that cannot be told
        return bad
    n = len(found)
    flags = 0
    for k in want['flags']:
        if k == 'LM_NEG_COV':
            if np.linalg.eig(scaled)[0].min() < 0:
                flags |= FL.LM_NEG_COV_EIG
            if np.diag(scaled).min() < 0:
                flags |= FL.LM_NEG_COV_DIAG
        else:
            flags |= IER[k] if k in IER else getattr(FL, k)
    if res['flags'] != flags:
        bad.append('flags %r, specification %r' % (res['flags'],
                                                   want['flags']))
    pars = found if want['pars'] == 'found' else np.zeros(n) + PDEF
    cov = scaled if want['cov'] == 'scaled' else np.zeros((n, n)) + CDEF
    err = np.zeros(n) + CDEF
    if want['err'] == 'root':
        err = np.sqrt(np.diag(scaled))
    for k, w in (('pars', pars), ('pars_cov', cov), ('pars_err', err)):
        if k not in res:
            bad.append('no %s' % k)
        elif np.shape(res[k]) != np.shape(w) or not np.allclose(
                res[k], w, rtol=1e-9, equal_nan=True,
                atol=1e-9 * np.nanmax(np.abs(w)) if k == 'pars_cov' else 0):
            bad.append('%s %r, specification %r' % (k, res[k], w))
    if 'nfev' not in res or 'errmsg' not in res or 'ier' not in res:
        bad.append('record without %r' % [
            k for k in ('nfev', 'errmsg', 'ier') if k not in res])
    if want['err'] == 'root' and not np.all(np.isfinite(res['pars'])):
        bad.append('clean with parameters %r' % res['pars'])
    return bad


def reference(f, start, bounds, keys):
    """the search alone"""
    if bounds is None or all(b == (None, None) for b in bounds):
        k = dict(keys)
        return leastsq(f, start, full_output=1, **k)
    return leastsqbound(f, start, bounds=bounds, full_output=1, **keys)


def start_of(rng, x):
    if all(float(v).is_integer() for v in x) and rng.random() < .5:
        return np.array(x, dtype='i8')
    return np.array(x, dtype='f8')


def linear(chk, rec, i, judge, faults):
    rng = random.Random(chk.seed * 41 + i)
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    inp, out = rec['inp'], rec['out']
    A, b = np.array(inp['mat'][0], dtype='f8'), np.array(inp['mat'][1], 'f8')
    n = A.shape[1]
    lo = [term.qf(x) if k in ('lower', 'both') else None
          for x, k in zip(out['lo'], inp['kinds'])]
    hi = [term.qf(x) if k in ('upper', 'both') else None
          for x, k in zip(out['hi'], inp['kinds'])]
    # written in the data's units, the start may round out of the box
    x0 = [term.qf(x) for x in out['start']]
    for j in range(n):
        if lo[j] is not None:
            x0[j] = max(lo[j], x0[j])
        if hi[j] is not None:
            x0[j] = min(hi[j], x0[j])
    start = start_of(rng, x0)
    given = start.copy()
    bounds = [(a, c) for a, c in zip(lo, hi)]
    free = all(k == 'none' for k in inp['kinds'])
    if free and rng.random() < .5:
        bounds = None
    keys = dict(ftol=1e-10, xtol=1e-10, epsfcn=1e-6)
    mode = rng.randrange(4)
    if mode == 1:
        keys['Dfun'] = lambda x: A.copy()
        keys.pop('epsfcn')
    elif mode == 2:
        keys['Dfun'] = lambda x: A.T.copy()
        keys['col_deriv'] = 1
        keys.pop('epsfcn')

    def func(x):
        return np.dot(A, x) - b

    bad = []
    f = Func(func)
    more = dict(k_space=True) if inp['kspace'] else {}
    res = run_leastsq(f, start, inp['nprior'], bounds=bounds, **more, **keys)
    if not np.array_equal(given, start):
        bad.append('the guess was changed')
    bad += inbox(f.seen, lo, hi)
    if mode in (0, 3):
        bad += path(f.seen, inp, out, x0, keys['epsfcn'])
    elif not np.allclose(f.seen[1], x0, rtol=1e-12, atol=1e-12):
        bad.append('the search starts at %r' % f.seen[1])
    # -- the outcome follows from what was found
    ref = reference(func, start, bounds, keys)
    want, scaled = judged(judge, ref, func, ref[0], inp['nprior'],
                          inp['kspace'])
    bad += matches(res, want, ref[0], scaled, ref[1])
    if ref[4] <= 4:
        if (func(ref[0]) ** 2).sum() > (func(np.array(x0)) ** 2).sum() + 1e-9:
            bad.append('the solution is worse than the start')
    # -- and what is found is the exact answer
    inside = ((term.qf(inp['box'][0]) > 0
                       and term.qf(inp['box'][1]) > 0))
    onedge = any(x in (a, c) for x, a, c in zip(x0, lo, hi))
    blocked = any(0 < abs(float(vterm.val(t, {}))) < 1e-4 or
                  (k == 'both' and abs(float(vterm.val(t, {}))) < 1e-4)
                  for t, k in zip(out['int'], inp['kinds']))
    if inside and not onedge and not blocked and not out['singular'] and res['ier'] <= 4:
        sol = [term.qf(x) for x in out['sol']]
        c0 = np.array([[term.qf(x) for x in r] for r in out['cov0']])
        s = np.sqrt(np.diag(c0))
        # differences taken at zero have a step of no size
        steps = 'Dfun' in keys or min(
            abs(float(vterm.val(t, {}))) for t in out['solint']) > .1
        if not np.allclose(res['pars'], sol, rtol=1e-5, atol=1e-5):
            bad.append('solution %r, specification %r'
                       % (res['pars'].tolist(), sol))
        elif out['chi2'][0] == 0 or not steps:
            pass
        elif res['pars_cov0'] is None:
            bad.append('no covariance for a regular problem')
        elif np.any(np.abs(res['pars_cov0'] - c0) > 1e-2 * np.outer(s, s)):
            bad.append('covariance %r, specification %r'
                       % (res['pars_cov0'].tolist(), c0.tolist()))
        elif out['dof'] > 0:
            c = c0 * term.qf(out['chi2']) / out['dof']
            if out['chi2'][0] > 0 and np.any(
                    np.abs(res['pars_cov'] - c) > 1e-2 * np.sqrt(
                        np.outer(np.diag(c), np.diag(c)))):
                bad.append('scaled covariance %r, specification %r'
                           % (res['pars_cov'].tolist(), c.tolist()))
            if out['chi2'][0] > 0 and res['flags'] != 0:
                bad.append('flags %r for a regular problem' % res['flags'])
    if out['singular'] and free and res['flags'] != FL.LM_SINGULAR_MATRIX:
        bad.append('flags %r for a singular problem' % res['flags'])
    # -- without the full output
    if bounds is not None:
        x, ier = leastsqbound(func, start, bounds=bounds, **keys)
        if not np.array_equal(x, ref[0]) or ier != ref[4]:
            bad.append('other solution without the full output')
        y = leastsqbound(lambda x, s: func(x) * s, start, args=(1.0,),
                         bounds=bounds, **keys)[0] if mode == 0 else x
        if not np.array_equal(x, y):
            bad.append('arguments of the function change the solution')
    bad += failing(rng, func, start, inp['nprior'], bounds, lo, hi, more, keys,
                   faults, len(f.seen))
    chk.trace(1, len(f.seen))
    chk.comparisons += 12
    chk.sample(inp)
    if bad:
        chk.violation('%r: %s' % (inp, '; '.join(bad[:4])), rec=inp)


def path(seen, inp, out, x0, epsfcn):
    """the first evaluations: the start, and a step in each parameter"""
    n = len(x0)
    ints = [float(vterm.val(t, {})) for t in out['int']]
    eps = np.sqrt(epsfcn)
    bad = []
    if any(abs(x) < 1e-4 and (k == 'both' or x)
           for x, k in zip(ints, inp['kinds'])):
        return bad
    near = [np.all(np.abs(x - x0) <= 1e-9 * (1 + np.abs(x0)))
            for x in seen] + [False]
    if not near[0] or not near[1]:
        return ['the search starts at %r and %r' % (seen[0], seen[1])]
    k = near.index(False)
    for j in range(n):
        h = eps * abs(ints[j])
        if h == 0:
            h = eps
        p = np.array(x0)
        p[j] = vterm.val(out['back'][j], dict(x=ints[j] + h))
        if abs(p[j] - x0[j]) < 1e-7:
            # not to be told from the start
            return bad
        if k + j >= len(seen):
            break
        # on the bound the internal parameter is known to half the digits
        if np.any(np.abs(seen[k + j] - p) > 3e-7 * (1 + np.abs(p))):
            bad.append('evaluation %d at %r, specification %r'
                       % (k + j + 1, seen[k + j].tolist(), p.tolist()))
            break
    return bad


def failing(rng, func, start, nprior, bounds, lo, hi, more, keys, faults,
            nev):
    """the same run with a function that fails at some evaluation"""
    bad = []
    fault, at = rng.choice(sorted(faults))
    f = Func(func, at, fault)
    rec = faults[fault, at]
    got, res = '', None
    try:
        res = run_leastsq(f, start, nprior, bounds=bounds, **more, **keys)
    except (ValueError, RuntimeError) as e:
        got = 'othervalue' if isinstance(e, ValueError) else 'other'
        if str(e) not in ('something else', 'broken'):
            return ['a failing function: %r' % e]
    if len(f.seen) < at:
        # it was not evaluated that often
        if got or res is None or len(f.seen) != nev:
            bad.append('evaluations differ from one run to the next')
        return bad
    bad += inbox(f.seen, lo, hi)
    if got != rec['rec']['raised']:
        return bad + ['%s at evaluation %d ended as %r' % (fault, at, got)]
    if len(f.seen) != rec['n']:
        bad.append('%d evaluations after a failure at %d'
                   % (len(f.seen), at))
    if res is not None:
        bad += matches(res, rec['rec'], np.zeros(len(start)), None, None)
    # numbers that are not finite, once or from now on
    at = rng.randint(1, 6)
    always = rng.random() < .5
    f = Func(func, at, 'poison', 10 ** 9 if always else at,
             rng.choice([np.nan, np.inf, -np.inf]))
    res = run_leastsq(f, start, nprior, bounds=bounds, **more, **keys)
    if always and len(f.seen) >= at and res['flags'] == 0 and len(start) + nprior < len(
            func(np.array(start, dtype='f8'))):
        bad.append('a function that is not finite gave a clean outcome')
    bad += coherent(res, len(start))
    return ['failing: ' + x for x in bad]


def coherent(res, n):
    if res['flags'] == 0:
        c = np.asarray(res['pars_cov'])
        if not (np.all(np.isfinite(res['pars'])) and np.all(np.isfinite(c))
                and np.array_equal(res['pars_err'], np.sqrt(np.diag(c)))):
            return ['clean with %r' % dict(res)]
        return []
    if 'pars_err' not in res or not np.all(res['pars_err'] == CDEF):
        return ['flagged %r with errors' % res['flags']]
    return []


# -- functions that are not linear ------------------------------------------
def curves(rng, n):
    c = [rng.uniform(-3, 3) for _ in range(n)]
    a = [rng.choice([1, 10, 100, 1e4]) for _ in range(n)]
    kind = rng.choice(['rosen', 'exp', 'wave', 'root', 'flat', 'far'])

    def f(x):
        x = np.asarray(x, dtype='f8')
        r = []
        for j in range(n):
            if kind == 'rosen':
                r += [a[j] * (x[j] ** 2 - x[(j + 1) % n]), x[j] - c[j]]
            elif kind == 'exp':
                r += [np.exp(np.clip(x[j] * k * .5, -50, 50)) - np.exp(c[j] * k * .5)
                      for k in (1, 2)]
            elif kind == 'wave':
                r += [a[j] * np.sin(3 * x[j]) - c[j], .1 * (x[j] - c[j])]
            elif kind == 'root':
                r += [np.sqrt(x[j]) - c[j], x[j] - 1]
            elif kind == 'flat':
                r += [np.tanh(x[j] - c[j]) ** 3, 0.0]
            else:
                r += [a[j] * (x[j] - 1e6 * c[j]), x[j] / 7]
        return np.array(r + [0.5])
    return f, kind


EDGES = [0.0, 0.1, 0.3, 0.7, 1e-3, 1e-20, 1e-9, 1.0, -0.1, -0.7, 100.1, 1 / 3,
         -1e-20, 1e5 + .1, -1e-3, 1e-17]


def curved(chk, k, judge, faults):
    rng = random.Random(chk.seed * 7919 + k)
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    n = rng.randint(1, 3)
    func, kind = curves(rng, n)
    lo, hi, x0 = [], [], []
    for j in range(n):
        how = rng.choice(['none', 'lower', 'upper', 'both', 'both'])
        a = rng.choice(EDGES)
        b = rng.choice([x for x in EDGES if x > a] or [a + 1]) \
            if rng.random() < .7 else a + rng.choice([1e-6, .1, .6, 1e3])
        if how in ('none', 'upper'):
            a = None
        if how in ('none', 'lower'):
            b = None
        lo.append(a)
        hi.append(b)
        t = rng.random()
        if a is None and b is None:
            x = rng.uniform(-3, 3)
        elif b is None:
            x = a + (0 if t < .2 else 10 ** rng.uniform(-6, 3))
        elif a is None:
            x = b - (0 if t < .2 else 10 ** rng.uniform(-6, 3))
        else:
            x = a if t < .1 else b if t < .2 else min(
                b, max(a, a + (b - a) * rng.random()))
        x0.append(x)
    bounds = list(zip(lo, hi))
    if k % 3 == 0:
        bounds = np.array(bounds, dtype=object) if k % 2 else \
            [list(x) for x in bounds]
    keys = dict(rng.choice([
        {}, dict(maxfev=rng.randint(2, 12)), dict(ftol=0.0, xtol=0.0),
        dict(ftol=1e-17, xtol=1e-17, gtol=1e-17), dict(epsfcn=1e-3),
        dict(epsfcn=1e-2, factor=100), dict(factor=.1)]))
    nprior = rng.choice([0, 0, 1, 2])
    start = np.array(x0)
    f = Func(func)
    bad = []
    res = run_leastsq(f, start, nprior, bounds=bounds, **keys)
    bad += inbox(f.seen, lo, hi)
    if not np.array_equal(start, x0):
        bad.append('the guess was changed')
    ref = reference(func, start, [tuple(b) for b in bounds], keys)
    if f.finite:
        bad += inbox([ref[0]], lo, hi)
    want, scaled = judged(judge, ref, func, ref[0], nprior, False)
    bad += matches(res, want, ref[0], scaled, ref[1])
    bad += coherent(res, n)
    if ref[4] <= 4 and np.all(np.isfinite(func(start))):
        # the start itself, up to the rounding of the maps
        a, b = (func(ref[0]) ** 2).sum(), (func(f.seen[1]) ** 2).sum()
        if not a <= b * (1 + 1e-9) + 1e-12:
            bad.append('the solution is worse than the start')
    bad += failing(rng, func, start, nprior, bounds, lo, hi, {}, keys, faults,
                   len(f.seen))
    chk.trace(1, len(f.seen))
    chk.comparisons += 8
    if bad:
        chk.violation('%s bounds %r start %r options %r: %s' % (
            kind, list(zip(lo, hi)), x0, keys, '; '.join(bad[:4])), case=k)


def labels(chk):
    """every cause has a name of its own"""
    f = Func(lambda x: np.array([x[0] ** 2 - 2, x[0] - 3, 1.0]))
    res = run_leastsq(f, np.array([100.0]), 0, maxfev=3)
    chk.comparisons += 1
    s = FL.get_flags_str(res['flags'])
    if s == FL.NAME_MAP[FL.NO_ATTEMPT]:
        chk.violation('a fit that ran out of evaluations is labelled %r' % s,
                      known_key='lm-not-converged-flag-names')
