"""C26: gaussian aperture fluxes of catalogues."""
import random

import numpy as np

from ngmix.gaussap import get_gaussap_flux

from . import tlc, term
from .c05 import q
from .c06 import raw
from .report import shard

MODELS = ['gauss', 'turb', 'exp', 'dev', 'bdf', 'cm']
GS = [[q(0), q(0)], [q(1, 2), q(0)], [q(-1, 4), q(1, 3)], [q(0), q(-4, 5)],
      [q(1, 8), q(1, 8)], [q(-9, 10), q(0)]]
OUT = [[q(1), q(0)], [q(3, 5), q(-4, 5)], [q(2), q(1)], [q(0), q(-5, 4)]]
TS = [q(1), q(4), q(1, 4), q(30), q(2, 3)]
SMALL = [q(0), q(-3), q(1, 20000), q(1, 10000), q(-1, 100000)]
FLUXES = [q(1), q(100), q(-7), q(0), q(1, 3), q(5, 2), q(1000)]
BAD = ['row', 'col', 'g1', 'g2', 'T', 'flux', 'fracdev', 'ratio']


def a_row(rng, nband, kinds):
    kind = rng.choice(kinds)
    r = dict(g=rng.choice(OUT if kind == 'out' else GS),
             T=rng.choice(SMALL if kind == 'small' else TS),
             fracdev=rng.choice([q(0), q(1), q(1, 2), q(1, 5), q(-1, 10),
                                 q(21, 20)]),
             lrat=rng.choice([q(0), q(1, 2), q(-1, 2), q(-1)]),
             cen=[rng.choice([q(0), q(1, 2), q(-30)]),
                  rng.choice([q(0), q(3, 4), q(11)])],
             flux=[rng.choice(FLUXES) for _ in range(nband)],
             bad='none', badband=0)
    if kind == 'bad':
        r['bad'] = rng.choice(BAD)
        if r['bad'] == 'flux':
            r['badband'] = rng.randint(1, nband)
    return r


def a_catalogue(rng):
    nband = rng.choice([1, 1, 2, 3, 5])
    n = rng.choice([0, 1, 1, 2, 3, 4, 6])
    kinds = rng.choice([['good'], ['good', 'good', 'out'],
                        ['good', 'small', 'bad', 'out'],
                        ['good', 'good', 'bad'], ['out', 'bad']])
    masked = rng.random() < .5
    m = n + (rng.choice([-1, 1]) if rng.random() < .1 else 0)
    return dict(model=rng.choice(MODELS), nband=nband,
                rows=[a_row(rng, nband, kinds) for _ in range(n)],
                masked=masked,
                mask=[rng.random() < .6 for _ in range(max(m, 0))]
                if masked else [],
                aperture=rng.choice([q(1), q(2), q(5, 2), q(1, 3), q(40)]))


def laws():
    r = []
    for h in (q(1), q(1, 2), q(3)):
        for e in ((q(0), q(0)), (q(1, 2), q(0)), (q(-1, 3), q(1, 2)),
                  (q(0), q(3, 4)), (q(2, 5), q(-3, 5))):
            for s in (q(1), q(1, 3), q(5, 2)):
                r.append(dict(half=h, e1=e[0], e2=e[1], s2=s))
    return r


def catalogue(cat, rng):
    n, nb = len(cat['rows']), cat['nband']
    model = cat['model']
    nh = 6 if model == 'bdf' else 5
    pars = np.zeros((n, nh + nb))
    fd, ratio = np.zeros(n), np.zeros(n)
    for k, r in enumerate(cat['rows']):
        head = [term.qf(x) for x in r['cen'] + r['g'] + [r['T']]]
        if model == 'bdf':
            head.append(term.qf(r['fracdev']))
        pars[k, :nh] = head
        pars[k, nh:] = [term.qf(x) for x in r['flux']]
        fd[k] = term.qf(r['fracdev'])
        ratio[k] = 10 ** term.qf(r['lrat'])
        x = rng.choice([np.nan, np.inf, -np.inf])
        b = r['bad']
        if b in ('row', 'col', 'g1', 'g2', 'T'):
            pars[k, ['row', 'col', 'g1', 'g2', 'T'].index(b)] = x
        elif b == 'flux':
            pars[k, nh + r['badband'] - 1] = x
        elif b == 'fracdev':
            fd[k] = x
            if model == 'bdf':
                pars[k, 5] = x
        elif b == 'ratio':
            ratio[k] = x
    return pars, fd, ratio


def dress(x, rng):
    """the same numbers as another kind of argument"""
    k = rng.random()
    if k < .2:
        return x.tolist() if x.shape[0] else x
    if k < .3:
        return x.astype('>f8')
    if k < .4:
        return np.asfortranarray(x)
    if k < .5 and x.ndim == 2:
        w = np.zeros((x.shape[0], 2 * x.shape[1]))
        w[:, ::2] = x
        return w[:, ::2]
    return x.copy()


def compare(gap, flags, out, cat):
    bad = []
    shape = (len(cat['rows']), cat['nband'])
    if gap.shape != shape or flags.shape != shape:
        return ['shapes %r and %r for %r' % (gap.shape, flags.shape, shape)]
    for k, r in enumerate(out['rows']):
        term.set_refs([term.val(x) for x in r['refs']])
        for b, w in enumerate(r['bands']):
            f = term.val(w['flux'])
            if flags[k, b] != w['flag']:
                bad.append('row %d band %d: flag %r, specification %r'
                           % (k, b, flags[k, b], w['flag']))
            if not term.close(gap[k, b], f, rtol=1e-7):
                bad.append('row %d band %d: flux %r, specification %r'
                           % (k, b, gap[k, b], f))
    return bad


def one(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    cat, out = rec['inp'], rec['out']
    pars, fd, ratio = catalogue(cat, rng)
    fwhm = term.qf(cat['aperture'])
    args = [dress(pars, rng)]
    if len(cat['rows']) == 1 and rng.random() < .3:
        args = [args[0][0]]
    kw = {}
    if cat['model'] == 'cm':
        kw = dict(fracdev=dress(fd, rng), TdByTe=dress(ratio, rng))
    if cat['masked']:
        m = np.array(cat['mask'], dtype=bool)
        kw['mask'] = rng.choice([m, m.astype(int), m.tolist()
                                 if m.size else m])
    if rng.random() < .3:
        kw['verbose'] = rng.random() < .5
    keep = [np.array(x, copy=True) for x in args + list(kw.values())]
    label = 'catalogue %r' % (cat,)
    chk.trace(1, len(cat['rows']))
    chk.comparisons += 1
    bad = []
    try:
        gap, flags = get_gaussap_flux(args[0], cat['model'], fwhm, **kw)
    except AssertionError as err:
        if out['ok']:
            bad.append('refused: %r' % err)
    except Exception as err:
        bad.append('raised %r' % err)
    else:
        if not out['ok']:
            bad.append('a mask of another length is accepted')
        else:
            bad += compare(gap, flags, out, cat)
            bad += again(chk, gap, flags, pars, fd, ratio, cat, fwhm, rng)
    for a, b in zip(keep, args + list(kw.values())):
        if not np.array_equal(a, np.array(b), equal_nan=a.dtype.kind == 'f'):
            bad.append('an argument was changed')
    for x in bad[:3]:
        chk.violation('%s: %s' % (label, x))
    if i < 3:
        chk.sample({'case': label})


def again(chk, gap, flags, pars, fd, ratio, cat, fwhm, rng):
    """rows in another order and company, and scaled fluxes"""
    n = len(cat['rows'])
    if n == 0:
        return []
    mask = np.array(cat['mask'], dtype=bool) if cat['masked'] else \
        np.ones(n, dtype=bool)
    pick = [rng.randrange(n) for _ in range(rng.choice([1, n, n + 2]))]
    kw = {}
    if cat['model'] == 'cm':
        kw = dict(fracdev=fd[pick], TdByTe=ratio[pick])
    nb = cat['nband']
    p = pars[pick].copy()
    s = rng.choice([1., -2., .25])
    with np.errstate(invalid='ignore'):
        p[:, -nb:] *= s
    order = list(range(nb))
    rng.shuffle(order)
    p[:, -nb:] = p[:, -nb:][:, order]
    g, f = get_gaussap_flux(p, cat['model'], fwhm, mask=mask[pick], **kw)
    chk.comparisons += 1
    bad = []
    if not np.array_equal(f, flags[pick][:, order]):
        bad.append('flags of rows %r alone are %r, before %r'
                   % (pick, f.tolist(), flags[pick][:, order].tolist()))
    if not np.allclose(g, s * gap[pick][:, order], rtol=1e-12, atol=0,
                       equal_nan=True):
        bad.append('fluxes of rows %r alone are %r, before %r'
                   % (pick, g.tolist(), (s * gap[pick]).tolist()))
    return bad


def misfits(chk):
    """what does not belong together is refused"""
    row = [0., 0., .1, 0., 1., 10.]
    cases = [
        ('cm with too few fractions', [row, row], 'cm',
         dict(fracdev=[.1], TdByTe=[1., 1.]), AssertionError),
        ('cm with too many ratios', [row, row], 'cm',
         dict(fracdev=[.1, .1], TdByTe=[1., 1., 1.]), AssertionError),
        ('cm without its fractions', [row, row], 'cm', {}, AssertionError),
        ('an unknown model', [row], 'blah', {}, ValueError),
    ]
    for what, pars, model, kw, exc in cases:
        chk.comparisons += 1
        try:
            get_gaussap_flux(pars, model, 2., **kw)
        except exc:
            continue
        except Exception as err:
            chk.violation('%s: %r' % (what, err))
            continue
        chk.violation('%s is not refused' % what)


def check(chk):
    rng = random.Random(chk.seed)
    jobs = []
    for k in range(chk.budget(7, 28)):
        cats = [a_catalogue(rng) for _ in range(chk.budget(120, 500))]
        cats = [c for j, c in enumerate(cats) if c not in cats[:j]]
        jobs.append(('GaussAp', dict(
            constants=dict(Catalogues=raw(cats),
                           Laws=raw(laws() if k == 0 else [])),
            invariants=['LawsHold', 'Alone', 'BandAlone', 'FlaggedOrGiven'],
            emit='Emit')))
    for r in tlc.parallel(jobs):
        chk.tlc(r, 'GaussAp')
        shard(chk, lambda rec, i: one(chk, rec, i), r.records)
    misfits(chk)
