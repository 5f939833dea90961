"""C07: named profiles."""
import random

import numpy as np
import ngmix

from . import tlc, term
from .report import shard
from .c05 import q
from .c06 import raw

PROFILES = ['gauss', 'turb', 'exp', 'dev', 'bdf', 'bd', 'cm', 'coellip']
BASE = [[q(0), q(0), q(4), q(1)],
        [q(-3, 2), q(5, 4), q(1, 3), q(-7)],
        [q(10), q(-1, 8), q(25), q(100)]]
BASE_DEEP = BASE + [[q(1), q(1), q(-2), q(3)], [q(0), q(2), q(0), q(3)],
                    [q(1, 3), q(0), q(2), q(0)]]
GS = [[q(0), q(0)], [q(1, 2), q(0)], [q(0), q(-3, 5)], [q(1, 5), q(2, 5)],
      [q(-1, 10), q(1, 3)], [q(3, 5), q(4, 5)], [q(-1), q(0)],
      [q(1), q(1, 2)], [q(0), q(99, 100)], [q(-7, 10), q(-7, 10)]]
GS_DEEP = GS + [[q(0), q(1)], [q(-4, 5), q(-3, 5)], [q(3, 10), q(-3, 10)],
                [q(1, 1000), q(0)], [q(0), q(-1, 1000)], [q(2), q(0)],
                [q(5, 13), q(12, 13)], [q(-5, 13), q(11, 13)]]
FD = [q(0), q(1), q(1, 3), q(-1, 10), q(6, 5)]
RAT = [q(0), q(-1), q(1, 2)]
CO = [[[q(2)], [q(3)]], [[q(1), q(4)], [q(2), q(1)]],
      [[q(1), q(2), q(5)], [q(1), q(-1, 2), q(2)]],
      [[q(3), q(1, 2), q(1), q(7)], [q(1), q(1), q(2), q(1, 9)]]]


def builders(model, fracdev, lrat):
    """every way of making the profile"""
    G = ngmix.gmix
    num = {'full': 0, 'gauss': 1, 'turb': 2, 'exp': 3, 'dev': 4, 'bdf': 6,
           'coellip': 7, 'cm': 9, 'bd': 10}[model]
    if model == 'cm':
        ratio = 10.0 ** term.qf(lrat)
        fd = term.qf(fracdev)
        return [lambda p: G.GMixCM(fd, ratio, p),
                lambda p: G.GMixCM(fd, ratio, p).copy()], \
            lambda: G.GMixCM(fd, ratio, [0.1, 0.2, 0.05, 0.05, 3, 2])
    if model == 'coellip':
        return [lambda p: G.GMixCoellip(p),
                lambda p: G.make_gmix_model(p, 'coellip'),
                lambda p: G.make_gmix_model(p, num)], None
    n = {'bdf': 7, 'bd': 8}.get(model, 6)
    return [lambda p: G.GMixModel(p, model),
            lambda p: G.GMixModel(p, num),
            lambda p: G.make_gmix_model(p, model),
            lambda p: G.make_gmix_model(p, num),
            lambda p: G.GMixModel(p, model).copy()], \
        lambda: G.GMixModel([0.1] * n, model)


def forms(p, rng):
    return [list(p), tuple(p), np.array(p)][rng.randint(0, 2)]


def one(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    inp, out = rec['inp'], rec['out']
    pars = [term.qf(x) for x in out['pars']]
    term.set_refs(out['refs'])
    mk, blank = builders(inp['model'], inp['fracdev'], inp['lrat'])
    mk = list(mk)
    old = None
    if blank is not None:
        def refill(p):
            g = blank()
            if rng.random() < .5:
                try:
                    g.set_norms()
                except ngmix.gexceptions.GMixRangeError:
                    pass
            if rng.random() < .3:
                g.reset()
            g.fill(p)
            return g
        mk.append(refill)
    chk.trace(1, len(mk))
    for b, f in enumerate(mk):
        chk.comparisons += 1
        what = 'profile %s, way %d, %r' % (inp['model'], b, pars)
        p = forms(pars, rng)
        before = list(p)
        try:
            g = f(p)
        except ngmix.gexceptions.GMixRangeError:
            if out['ok']:
                chk.violation(what + ': refused')
            continue
        except Exception as err:
            chk.violation('%s: raised %r' % (what, err))
            continue
        if not out['ok']:
            chk.violation(what + ': a shape outside the disk was accepted')
            continue
        if list(p) != before:
            chk.violation(what + ': the parameters handed in were changed')
        bad = compare(g, inp, out, pars)
        if bad:
            chk.violation('%s: %s' % (what, '; '.join(bad)), rec=rec)
        # wrong lengths
        if rng.random() < .2:
            for q_ in ([], pars[:-1], pars + [0.1]):
                try:
                    f(forms(q_, rng))
                except ValueError:
                    continue
                except Exception as err:
                    if len(q_) == 0:
                        continue
                    chk.violation('%s: wrong length raised %r' % (what, err))
                    continue
                chk.violation('%s: %d parameters were accepted'
                              % (what, len(q_)))
        # a refused refill leaves the mixture alone
        if b == len(mk) - 1 and blank is not None:
            old = g.get_full_pars().copy()
            for q_ in (pars[:-1], pars[:2] + [0.9, 0.9] + pars[4:]):
                try:
                    g.fill(q_)
                except (ValueError, ngmix.gexceptions.GMixRangeError):
                    if not np.array_equal(old, g.get_full_pars()):
                        chk.violation(what + ': a refused refill changed the '
                                      'mixture')
                    continue
                chk.violation(what + ': bad refill accepted')
    chk.sample(inp)


def compare(g, inp, out, pars):
    row, col = [term.qf(x) for x in out['cen']]
    e1, e2 = [term.qf(x) for x in out['e']]
    want = []
    for flux, T in out['parts']:
        flux, T = term.val(flux), term.val(T)
        want.append([flux, row, col, T / 2 * (1 - e1), T / 2 * e2,
                     T / 2 * (1 + e1)])
    want = np.array(want)
    got = g.get_full_pars().reshape(-1, 6)
    if got.shape != want.shape:
        return ['%d components, specification %d' % (len(got), len(want))]
    bad = []
    if not np.allclose(got, want, rtol=1e-9, atol=1e-12):
        bad.append('components differ from the tables by %g'
                   % np.abs(got - want).max())
    F = term.qf(out['flux'])
    with np.errstate(all='ignore'):
        if abs(g.get_flux() - F) > 1e-5 * abs(F) + 1e-12:
            bad.append('flux %g, asked %g' % (g.get_flux(), F))
        if F != 0:
            c = g.get_cen()
            if not np.allclose(c, (row, col), rtol=1e-9, atol=1e-9):
                bad.append('centre %r' % (c,))
            T = term.val(out['T'])
            if abs(g.get_T() - T) > 1e-5 * abs(T) + 1e-12:
                bad.append('T %g, specification %g' % (g.get_T(), T))
            if T > 0:
                s = g.get_g1g2T()
                if not np.allclose(s[:2], pars[2:4], rtol=1e-6, atol=1e-8):
                    bad.append('shape %r, asked %r' % (s[:2], pars[2:4]))
    return bad


def names(chk):
    """names and numbers denote the same profiles; others are refused"""
    G = ngmix.gmix.gmix
    num = {'full': 0, 'gauss': 1, 'turb': 2, 'exp': 3, 'dev': 4, 'bdf': 6,
           'coellip': 7, 'cm': 9, 'bd': 10}
    ng = dict(gauss=1, turb=3, exp=6, dev=10, cm=16, bd=16, bdf=16)
    npar = dict(gauss=6, turb=6, exp=6, dev=6, cm=6, bd=8, bdf=7)
    for name, n in num.items():
        for x in (name, n):
            chk.comparisons += 1
            if G.get_model_num(x) != n or G.get_model_name(x) != name:
                chk.violation('model %r is number %r, name %r' % (
                    x, G.get_model_num(x), G.get_model_name(x)))
            if name in ng:
                try:
                    a, b = G.get_model_ngauss(x), G.get_model_npars(x)
                except Exception as err:
                    a = b = repr(err)
                if (a, b) != (ng[name], npar[name]):
                    chk.violation('model %r has %r gaussians, %r parameters'
                                  % (x, a, b))
    for n in range(1, 6):
        if G.get_coellip_npars(n) != 4 + 2 * n \
                or G.get_coellip_ngauss(4 + 2 * n) != n:
            chk.violation('coellip counts for %d' % n)
        for stem in ('em', 'coellip'):
            if G.get_model_ngauss('%s%d' % (stem, n)) != n:
                chk.violation('gaussians of %s%d' % (stem, n))
    for x in ('nosuch', 'Exp', 'exp ', '', 99, -1, 8, 2.5, None):
        for f in (G.get_model_num, G.get_model_name, G.get_model_ngauss,
                  G.get_model_npars,
                  lambda m: G.make_gmix_model([0, 0, 0, 0, 1, 1.], m),
                  lambda m: G.GMixModel([0, 0, 0, 0, 1, 1.], m)):
            try:
                f(x)
            except (ValueError, TypeError):
                continue
            except Exception as err:
                chk.violation('unknown model %r raised %r' % (x, err))
                continue
            chk.violation('unknown model %r was accepted' % (x,))
    for bad in ([1.] * 5, [1.] * 7, [1.] * 13):
        try:
            ngmix.GMix(pars=bad)
        except ValueError:
            continue
        chk.violation('%d parameters accepted for a full mixture' % len(bad))
    full = [1., .5, -.5, 2, .5, 3, 2, 0, 0, 1, 0, 1]
    for g in (ngmix.GMix(pars=full), G.make_gmix_model(full, 'full'),
              G.make_gmix_model(full, 0)):
        if g.get_full_pars().tolist() != full or len(g) != 2:
            chk.violation('full mixture %r' % (g.get_full_pars(),))
    try:
        ngmix.GMix()
    except ValueError:
        pass
    else:
        chk.violation('GMix() was accepted')


def check(chk):
    deep = chk.thorough
    rng = random.Random(chk.seed)
    base = BASE_DEEP if deep else BASE
    r = tlc.cases('Models', constants=dict(
        Profiles=set(PROFILES), Base=raw(base),
        Gs=raw(GS_DEEP if deep else GS),
        FracDevs=raw(FD + [q(1, 2), q(-1, 2), q(3, 2)] if deep else FD),
        Ratios=raw(RAT + [q(1), q(-2)] if deep else RAT), Coell=raw(CO)),
        invariants=['Lengths', 'Counts', 'NumbersDiffer', 'EInDisk'])
    chk.tlc(r, 'Models')
    recs = list(r.records)
    rng.shuffle(recs)
    names(chk)
    for rec in recs[:3]:
        one(chk, rec, 0)
    shard(chk, lambda rec, i: one(chk, rec, i), recs)
