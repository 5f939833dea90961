"""C21: joint priors."""
import random

import numpy as np
import ngmix
from ngmix import priors as P, joint_prior as J
from ngmix.gexceptions import GMixRangeError

from . import tlc, term, vterm, c20
from .c05 import q, vec
from .c06 import raw
from .report import shard

POOL1 = [('flat', [q(-1), q(3)]), ('normal', [q(0), q(1)]),
         ('normalb', [q(3), q(2), q(-8), q(20)]),
         ('lognormal', [q(100), q(20), q(-8)]),
         ('trunc', [q(1, 2), q(1, 4), q(0), q(1)]),
         ('erf', [q(-1), q(1, 10), q(3), q(1, 2)]),
         ('flat', [q(100), q(1000)]), ('normalb', [q(1, 8), q(1, 64), q(0), q(1)]),
         ('normal', [q(-3), q(1, 2)]), ('lognormal', [q(1), q(1, 2), q(0)])]
NOBOUNDS = [p for p in POOL1 if p[0] != 'normalb']
POOLF = POOL1[:3] + [('lmbounds', [q(-2), q(7)]), ('sinh', [q(1), q(2)]),
                     ('trunc', [q(0), q(1), q(-1), q(3)]),
                     ('lmbounds', [q(0), q(1, 4)])]
CENS = c20.CENS
BAS = c20.BAS[:3]
LOOKS = [q(1, 4), q(1, 2), q(-1, 4), q(3, 8), q(1), q(0), q(3, 4), q(5, 4),
         q(1, 8), q(7, 8), q(2), q(1, 3), q(5, 8)]
TAME = [q(1, 4), q(1, 2), q(3, 8), q(3, 4), q(1, 8), q(7, 8), q(5, 8)]


def pool(ps):
    return tlc.Raw('<<%s>>' % ', '.join(
        '<<"%s", %s>>' % (k, tlc.tla_value(p)) for k, p in ps))


def part(g, gen):
    if g['kind'] == 'normalb':
        f = [term.qf(x) for x in g['p']]
        return P.Normal(f[0], f[1], rng=gen, bounds=(f[2], f[3]))
    r = random.Random(3)
    if g['kind'] == 'normal':
        f = [term.qf(x) for x in g['p']]
        return P.Normal(f[0], f[1], rng=gen)
    return c20.make(g['kind'], g['p'], r, gen)


def build(inp, out, seed, rng):
    """the joint prior with a generator for each of its parts"""
    kind = inp['kind']
    gs = out['groups']
    ps = {}
    order = []
    for k, g in enumerate(gs):
        if g['name'] in ps:
            continue
        ps[g['name']] = part(g, np.random.RandomState(seed + k))
        order.append(g['name'])
    fl = [ps[n] for n in order if n[0] == 'F']
    F = fl[0] if len(fl) == 1 and rng.random() < .5 else list(fl)
    if kind in ('bd', 'bdf') and isinstance(F, list) and rng.random() < .4:
        F = tuple(F)
    kw = dict(cen_prior=ps['cen'], g_prior=ps['g'], F_prior=F)
    keep = list(F) if isinstance(F, (list, tuple)) else None
    if kind == 'simple':
        j = J.PriorSimpleSep(T_prior=ps['T'], **kw)
    elif kind == 'galsim':
        j = J.PriorGalsimSimpleSep(r50_prior=ps['T'], **kw)
    elif kind == 'bd':
        j = J.PriorBDSep(T_prior=ps['T'], logTratio_prior=ps['logTratio'],
                         fracdev_prior=ps['fracdev'], **kw)
    elif kind == 'bdf':
        j = J.PriorBDFSep(T_prior=ps['T'], fracdev_prior=ps['fracdev'], **kw)
    elif kind == 'spergel':
        j = J.PriorSpergelSep(r50_prior=ps['r50'], nu_prior=ps['nu'], **kw)
    else:
        j = J.PriorCoellipSame(inp['n'], T_prior=ps['T'], **kw)
    if keep is not None and list(F) != keep:
        raise AssertionError('the list of flux priors was changed')
    return j


def near(a, b, tol=1e-10):
    if np.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1 + abs(b))


def one(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    inp, out = rec['inp'], rec['out']
    gs, n = out['groups'], out['npars']
    seed = rng.randrange(10 ** 8)
    label = '%s with %d, %s' % (inp['kind'], inp['n'],
                                [g['kind'] for g in gs])
    chk.trace(1, len(out['pts']))
    try:
        j = build(inp, out, seed, rng)
    except Exception as err:
        chk.violation('%s cannot be made: %r' % (label, err))
        return
    # bounds
    chk.comparisons += 1
    want = None
    if out['bounds']:
        want = [(None, None) if not b else tuple(term.qf(x) for x in b)
                for b in out['bounds']]
    got = j.bounds
    if (want is None) != (got is None) or (
            want is not None and (len(got) != len(want) or
                                  [tuple(x) for x in got] != want)):
        chk.violation('%s: bounds are %r, specification %r'
                      % (label, got, want))
    pts = out['pts']
    for pt in pts:
        pars = [term.qf(x) for x in pt['x']]
        arr = np.array(pars)
        which = rng.choice([list(pars), arr.copy(), tuple(pars)])
        lab = '%s at %r' % (label, pars)
        if out['haslnp']:
            w = float(vterm.val(pt['lnp'], {})) if pt['bad'] == 'no' else None
            for f, tr in ((j.get_lnprob_scalar, lambda x: x),
                          (j.get_prob_scalar, np.exp)):
                chk.comparisons += 1
                try:
                    v = f(which)
                except GMixRangeError:
                    if pt['bad'] == 'no':
                        chk.violation('%s: %s is refused'
                                      % (lab, f.__name__))
                    continue
                if pt['bad'] != 'no':
                    chk.violation('%s: %s gives %r out of the support'
                                  % (lab, f.__name__, v))
                elif not near(v, tr(w)):
                    chk.violation('%s: %s gives %r, specification %r'
                                  % (lab, f.__name__, v, tr(w)))
        # residuals
        extra = rng.choice([0, 1, 5])
        fd = np.full(n - 1 + extra, rng.choice([7.7, np.nan, -3e9]))
        tail = fd[n - 1:].copy()
        chk.comparisons += 1
        try:
            k = j.fill_fdiff(which, fd)
        except GMixRangeError:
            if pt['bad'] == 'no':
                chk.violation(lab + ': fill_fdiff is refused')
            continue
        if pt['bad'] != 'no':
            chk.violation(lab + ': fill_fdiff accepts it out of the support')
            continue
        w = np.array([float(vterm.val(x, {})) for x in pt['fdiff']])
        if k != n - 1 or not np.array_equal(fd[n - 1:], tail,
                                            equal_nan=True):
            chk.violation('%s: fill_fdiff fills %r entries, specification %d'
                          % (lab, k, n - 1))
        g = fd[:n - 1]
        if not out['signed']:
            w = np.abs(w)
        if not all(near(a ** 2, b ** 2, 1e-9) and
                   (near(a, b) or b == 0 or abs(a - b) < abs(b))
                   for a, b in zip(g, w)):
            chk.violation('%s: residuals %r, specification %r' % (lab, g, w))
        if list(which) != pars:
            chk.violation(lab + ': the parameters were changed')
        # lengths
    if inp['kind'] == 'coellip' and out['haslnp']:
        for bad in (pars[:-1], pars + [1.0]):
            for f in (j.get_lnprob_scalar,
                      lambda p: j.fill_fdiff(p, np.zeros(20)),
                      lambda p: j.get_lnprob_array(np.array([p, p]))):
                try:
                    f(bad)
                except ValueError:
                    continue
                except GMixRangeError:
                    pass
                chk.violation('%s: %d parameters were accepted'
                              % (label, len(bad)))
    if out['haslnp']:
        arrays(chk, j, pts, rng, label)
    sampling(chk, j, inp, out, seed, rng, label)
    if i < 2:
        chk.sample({'joint prior': label, 'bounds': want,
                    'layout': [[g['name'], g['at']] for g in gs]})


def arrays(chk, j, pts, rng, label):
    ok = [p for p in pts if p['bad'] == 'no']
    low = ok + [p for p in pts if p['bad'] == 'low']
    for pool in (ok, ok, low, pts):
        if not pool:
            continue
        sub = [rng.choice(pool) for _ in range(rng.choice([1, 2, 7]))]
        arr = np.array([[term.qf(x) for x in p['x']] for p in sub])
        keep = arr.copy()
        for f, tr in ((j.get_lnprob_array, lambda x: x),
                      (j.get_prob_array, np.exp)):
            chk.comparisons += 1
            lab = '%s: %s of %d points' % (label, f.__name__, len(sub))
            bad = any(p['bad'] == 'range' for p in sub)
            try:
                v = f(arr)
            except GMixRangeError:
                if not bad:
                    chk.violation(lab + ' is refused')
                continue
            except Exception as err:
                chk.violation('%s raises %r' % (lab, err))
                continue
            if bad:
                chk.violation(lab + ' is accepted out of the support')
                continue
            w = [tr(float(vterm.val(p['lnp'], {})) if p['bad'] == 'no'
                    else -np.inf) for p in sub]
            if np.shape(v) != (len(sub),) or not all(
                    near(a, b) for a, b in zip(v, w)):
                chk.violation('%s gives %r, specification %r' % (lab, v, w))
            if not np.array_equal(arr, keep):
                chk.violation(lab + ' changed its argument')


def sampling(chk, j, inp, out, seed, rng, label):
    """every column comes from its own part"""
    parts = {}
    for k, g in enumerate(out['groups']):
        if g['name'] not in parts:
            parts[g['name']] = part(g, np.random.RandomState(seed + k))
    glob = np.random.get_state()[1].copy()
    for m in (None, 3, 1, None, 6):
        chk.comparisons += 1
        try:
            s = j.sample() if m is None else j.sample(m)
        except Exception as err:
            chk.violation('%s: sample(%r) raises %r' % (label, m, err))
            return
        n = m or 1
        shape = (out['npars'],) if m is None else (m, out['npars'])
        if np.shape(s) != shape:
            chk.violation('%s: sample(%r) has shape %r, specification %r'
                          % (label, m, np.shape(s), shape))
            return
        s = np.atleast_2d(s)
        for g in out['groups']:
            p = parts[g['name']]
            if g['name'] == 'cen':
                w = p.sample(n)
            elif g['name'] == 'g':
                w = p.sample2d(n)
            else:
                w = (p.sample(n),)
            for c, x in zip(g['at'], w):
                if not np.array_equal(s[:, c - 1], x):
                    chk.violation(
                        '%s: sample(%r) has %r for parameter %d, its prior '
                        'draws %r' % (label, m, s[:, c - 1], c, x))
                    return
    if not np.array_equal(glob, np.random.get_state()[1]):
        chk.violation(label + ': the global generator was used')
    w = j.get_widths(nrand=200)
    if np.shape(w) != (out['npars'],) or not np.all(w > 0) or \
            w[2] != 2 or w[3] != 2 or j.get_widths() is not w:
        chk.violation('%s: widths are %r' % (label, w))
    r = repr(j)
    if r.count('\n') < 2:
        chk.violation('%s: shown as %r' % (label, r))


def refusals(chk):
    gen = np.random.RandomState(1)
    fl = P.FlatPrior(0, 1, rng=gen)
    for nb in (2, 3):
        chk.comparisons += 1
        try:
            J.PriorCoellipSame(2, P.CenPrior(0, 0, 1, 1, rng=gen),
                               P.GPriorBA(.1, gen), fl, [fl] * nb)
        except ValueError:
            continue
        chk.violation('a coelliptical prior of %d bands was made' % nb)


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough
    jobs = []
    for kinds in (['simple', 'galsim'], ['bd'], ['bdf'], ['spergel'],
                  ['coellip']):
        for k in range(chk.budget(2, 6)):
            p = list(NOBOUNDS if k % 2 else POOL1)
            rng.shuffle(p)
            pf = list(POOLF)
            rng.shuffle(pf)
            looks = list(LOOKS if k % 2 else TAME)
            rng.shuffle(looks)
            jobs.append(('JointPriors', dict(constants=dict(
                Kinds=set(kinds), Ns={1, 2, 3}, Pool1=pool(p),
                PoolF=pool(pf), Cens=raw(rng.sample(CENS, 2)),
                BAs=raw(rng.sample(BAS, 2)),
                Rots=set(range(chk.budget(3, 10))), Looks=looks,
                Ways=chk.budget(8, 13)),
                invariants=['Order', 'Points', 'Residuals',
                            'OnePerParameter', 'SquaresSum'],
                emit='Emit')))
    recs = []
    for r in tlc.parallel(jobs):
        chk.tlc(r, 'JointPriors')
        recs += r.records
    shard(chk, lambda rec, i: one(chk, rec, i), recs)
    refusals(chk)
    chk.notes['laws'] = (
        'groups cover the parameters once and in order, one residual per '
        'group, squares sum to minus twice the logarithm (exact)')
