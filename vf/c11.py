"""C11: moment summaries and flags."""
import math
import random

import numpy as np
import ngmix
from ngmix import moments, flags as F, util

from . import tlc, term
from .c05 import q, vec
from .c06 import raw
from .report import shard

INVS = ['CleanIsFinite', 'SpecificImpliesOverall', 'BlankWhenFlagged',
        'OwnInputsOnly']
FLUX = [q(-1), q(0), q(2), q(7, 3)]
SIZE = [q(-2), q(0), q(3), q(1, 5)]
M1 = [q(0), q(1), q(-1, 3)]
M2 = [q(0), q(-1, 2), q(5)]
COR = [vec(0, 0, 0, 0, 0), vec((1, 2), (-1, 3), 1, 0, (1, 5)),
       vec(-1, 1, (-1, 2), (1, 4), (-1, 4))]
REGS = [q(0), q(1), q(5, 2)]
NAMES = {'M1': 0, 'M20': 0, 'M2': 1, 'M02': 1, 'MT': 2, 'M11': 2}
HIGH = {'M21': 6, 'M12': 7, 'M30': 8, 'M03': 9, 'M22': 10, 'M31': 11,
        'M13': 12, 'M40': 13, 'M14': 14, 'M33': 15, 'M44': 16}


def varsets(rng, n):
    """all good, and one or two that are not, everywhere"""
    good = [vec(1, 2, 4, 1, 3, 2), vec((1, 4), 1, 1, 9, 2, 5)]
    out = [good[0], good[1]]
    for a in range(6):
        for bad in (0, -1):
            v = [list(x) for x in good[(a + bad) % 2]]
            v[a] = q(bad)
            out.append(v)
    for k in range(n):
        v = [list(x) for x in rng.choice(good)]
        for a in rng.sample(range(6), 2):
            v[a] = q(rng.choice([0, -1]))
        if v not in out:
            out.append(v)
    return out


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough
    vs = varsets(rng, 24 if deep else 6)
    jobs = []
    for part in range(4):
        jobs.append(dict(Fluxes=raw(FLUX), Sizes=raw(SIZE), Shapes1=raw(
            M1 if deep else rng.sample(M1, 2)),
            Shapes2=raw(M2 if deep else rng.sample(M2, 2)),
            VarSets=raw(vs[part::4]), CorSets=raw(COR),
            Odd={'none', 'cen'} if part % 2 else {'none', 'c1T', 'c2T'},
            Regs=raw(REGS[:1] + [rng.choice(REGS[1:])])))
    for part in range(2):
        jobs.append(dict(
            Fluxes=raw([q(rng.randint(1, 30), rng.randint(1, 5))
                        for _ in range(3)]),
            Sizes=raw([q(rng.randint(1, 30), rng.randint(1, 5))
                       for _ in range(3)]),
            Shapes1=raw(M1), Shapes2=raw(M2), VarSets=raw(vs[:2]),
            CorSets=raw(COR), Odd={'none'}, Regs=raw(REGS)))
    tl = [('Moments', dict(constants=c, invariants=INVS, emit='Emit'))
          for c in jobs]
    nb = chk.budget(3, 12)
    for k in range(nb):
        bits = set(rng.sample(range(16), 7) + rng.sample(range(16, 31), 2))
        if k == 0:
            bits = set(range(8)) | {15}
        if k == 1:
            bits = set(range(8, 17))
        tl.append(('Flags', dict(constants=dict(Bits=bits),
                                 invariants=['Contains'], emit='Emit')))
    rs = tlc.parallel(tl)
    for (name, _), r in zip(tl, rs):
        chk.tlc(r, name)
        shard(chk, lambda rec, i: (one if name == 'Moments' else bits_one)(
            chk, rec, i), r.records)


def bits_one(chk, rec, i):
    o = rec['out']
    val, order, const = o['value'], o['order'], rec['constant']
    for k, c in enumerate(const):
        if getattr(F, c) != 2 ** k:
            chk.violation('flag %s is %r, not bit %d'
                          % (c, getattr(F, c), k))
        if 2 ** k not in F.NAME_MAP:
            chk.violation('flag %s has no name' % c)
    if len(set(F.NAME_MAP.values())) != len(F.NAME_MAP):
        chk.violation('two flags share a name')
    for nm in (None, {1: 'one', 2: 'two', 2 ** 20: 'high', 2 ** 30: 'x'}):
        m = nm or F.NAME_MAP
        want = '|'.join(m.get(2 ** b, 'bit 2**%d' % b) for b in order)
        forms = [int(val), np.int64(val), np.uint32(val), np.int32(val)]
        for v in forms:
            chk.comparisons += 1
            got = F.get_flags_str(v) if nm is None else F.get_flags_str(
                v, name_map=nm)
            if got != want:
                chk.violation('the names of flags %r are %r, specification %r'
                              % (v, got, want))
    if val:
        for v in (-int(val), np.int64(-val)):
            try:
                F.get_flags_str(v)
            except ValueError:
                continue
            chk.violation('flag value %r was accepted' % v)
    chk.trace(1, 1)


def val(x):
    return term.val(x)


def one(chk, rec, i):
    rng = random.Random(chk.seed * 31 + i)
    inp, o = rec['inp'], rec['out']
    n = 17 if rng.random() < .3 and inp['reg'] == [0, 1] else 6
    sums = np.zeros(n)
    cov = np.zeros((n, n))
    sums[:6] = [.3, -1.2] + [val(inp[k]) for k in ('M1', 'M2', 'MT', 'MF')]
    if inp['odd'] == 'cen':
        sums[:2] = np.nan
    cov[range(6), range(6)] = [val(v) for v in inp['var']]
    cor = [val(c) for c in inp['cor']]
    for (a, b), c in zip([(2, 4), (3, 4), (4, 5), (2, 5), (3, 5)], cor):
        cov[a, b] = cov[b, a] = c
    # entries nothing in the summary rests on
    junk = rng.uniform(-.1, .1)
    cov[0, 1] = cov[1, 0] = junk
    cov[2, 3] = cov[3, 2] = junk
    if inp['odd'] == 'c1T':
        cov[2, 4] = cov[4, 2] = np.nan
    if inp['odd'] == 'c2T':
        cov[3, 4] = cov[4, 3] = np.nan
    for k in range(6, n):
        sums[k] = rng.uniform(-3, 3)
        cov[k, k] = rng.uniform(.5, 2)
        cov[k, 5] = cov[5, k] = rng.uniform(-.3, .3)
    s0, c0 = sums.copy(), cov.copy()
    norm = rng.choice([None, 3.25])
    with np.errstate(all='ignore'):
        res = moments.make_mom_result(sums, cov, sums_norm=norm)
        reg = term.qf(inp['reg'])
        if reg > 0:
            before = {k: np.copy(v) for k, v in res.items()}
            res0 = res
            res = moments.regularize_mom_shapes(
                res0, moments.T_to_fwhm(reg))
            for k, v in before.items():
                if not same(v, res0[k]):
                    chk.violation('%r: regularising changed %s of its input'
                                  % (inp, k))
        elif rng.random() < .3:
            same_res = moments.regularize_mom_shapes(res, 0)
            for k, v in res.items():
                if not same(v, same_res[k]):
                    chk.violation('%r: regularising by nothing changed %s'
                                  % (inp, k))
    chk.trace(1, 1)
    chk.comparisons += 1
    bad = compare(res, inp, o, n, reg, norm, sums, cov, s0, c0)
    if not (same(sums, s0) and same(cov, c0)):
        bad.append('the sums handed in were changed')
    if bad:
        chk.violation('moment summary of %r: %s' % (inp, '; '.join(bad)),
                      rec=rec)
    # wrong sizes
    if i % 20 == 0:
        for a, b in ((sums[:5], cov), (sums, cov[:, :3]), (sums[:0], cov)):
            try:
                moments.make_mom_result(a, b)
            except ValueError:
                continue
            chk.violation('sums of length %d with covariance %r were accepted'
                          % (len(a), b.shape))
    # the ratio of two numbers in every form
    va, vb, c = [val(x) for x in (inp['var'][3], inp['var'][5],
                                  inp['cor'][4])]
    a, b = val(inp['M2']), val(inp['MF'])
    if va > 0 and vb > 0:
        for wrap in (float, np.float64, lambda x: np.array([x, x])):
            args = [wrap(x) for x in (a, b, va, vb, c)]
            try:
                got = util.get_ratio_error(*args)
            except ValueError:
                if b != 0:
                    chk.violation('ratio error refused %r' % (args,))
                continue
            if b == 0:
                chk.violation('ratio with zero denominator gives %r' % got)
                continue
            r = a / b
            w = math.sqrt(max(0, (va + r * r * vb - 2 * r * c) / b ** 2))
            if not np.all(np.abs(got - w) <= 1e-9 * w + 1e-7):
                chk.violation('error of the ratio %r/%r is %r, specification '
                              '%r' % (a, b, got, w))
    if o['flags']:
        chk.sample({'case': inp, 'flags': o['flags']})


def same(a, b):
    if isinstance(a, np.ndarray) and a.dtype.kind in 'US' or isinstance(
            a, str):
        return str(a) == str(b)
    return np.array_equal(np.asarray(a, dtype='f8'),
                          np.asarray(b, dtype='f8'), equal_nan=True)


def compare(res, inp, o, n, reg, norm, sums, cov, s0, c0):
    bad = []

    def cmp(name, got, want, err=False):
        w = val(want)
        if not term.close(got, w, rtol=1e-9, atol=1e-7 if err else 1e-12):
            bad.append('%s is %r, specification %r' % (name, got, w))
    for name in ('flags', 'flux_flags', 'T_flags'):
        want = 0
        for f in o[name]:
            want |= getattr(F, f)
        if res[name] != want:
            bad.append('%s %r, specification %r'
                       % (name, F.get_flags_str(res[name]), o[name]))
        sname = name.replace('flags', 'flagstr')
        if res[sname] != F.get_flags_str(res[name]):
            bad.append('%s %r does not name %r'
                       % (sname, res[sname], res[name]))
    for k in ('flux', 'flux_err', 's2n', 'T', 'T_err', 'e1', 'e2'):
        cmp(k, res[k], o[k], k.endswith('err'))
    cmp('e[0]', res['e'][0], o['e1'])
    cmp('e[1]', res['e'][1], o['e2'])
    errs = [val(o['e1_err']), val(o['e2_err'])]
    for k in (0, 1):
        cmp('e_err[%d]' % k, res['e_err'][k], o['e%d_err' % (k + 1)], True)
        if not term.close(res['e_cov'][k, k], errs[k] ** 2, rtol=1e-8,
                          atol=1e-9):
            bad.append('e_cov is %r' % res['e_cov'])
    if ('pars' in res) != o['pars'] and not reg:
        bad.append('parameters %s' % ('given' if 'pars' in res
                                      else 'missing'))
    if 'pars' in res and o['pars']:
        T = (res['sums'][4] / res['sums'][5])
        want = [s0[0], s0[1], val(o['e1']), val(o['e2']), T, val(o['flux'])]
        if not np.allclose(res['pars'], want, rtol=1e-9, atol=1e-12,
                           equal_nan=True):
            bad.append('parameters are %r, specification %r'
                       % (res['pars'].tolist(), want))
    want = np.array([s0[0], s0[1]] + [val(x) for x in o['sums']])
    if not np.allclose(res['sums'][:6], want, rtol=1e-9, atol=1e-12,
                       equal_nan=True):
        bad.append('sums are %r, specification %r'
                   % (res['sums'].tolist(), want.tolist()))
    se = [val(x) for x in o['sums_err']]
    if not np.allclose(np.asarray(res['sums_err'])[:6], se, rtol=1e-9,
                       equal_nan=True):
        bad.append('errors of the sums are %r, specification %r'
                   % (res['sums_err'], se))
    if not reg:
        if not same(res['sums_cov'], c0):
            bad.append('the covariance is not the one handed in')
        if not term.close(res['sums_norm'],
                          math.nan if norm is None else norm):
            bad.append('norm %r' % res['sums_norm'])
    # the same moments under their names
    for nm, k in NAMES.items():
        cmp(nm, res[nm], o['named'][k])
        if o['named_err'] and inp['odd'] in ('none', 'cen'):
            cmp(nm + '_err', res[nm + '_err'], o['named_err'][k], True)
    for nm in ('MF', 'M00'):
        cmp(nm, res[nm], o['flux'])
        if not o['flux_flags']:
            cmp(nm + '_err', res[nm + '_err'], o['flux_err'], True)
    for nms, k in ((('Mv', 'M01'), 0), (('Mu', 'M10'), 1)):
        for nm in nms:
            w = s0[k] / s0[5] if s0[5] > 0 else math.nan
            if not term.close(res[nm], w):
                bad.append('%s is %r, specification %r' % (nm, res[nm], w))
    for nm, k in HIGH.items():
        if n == 6:
            if nm in res:
                bad.append('%s out of nowhere' % nm)
            continue
        w = s0[k] / s0[5] if s0[5] > 0 else math.nan
        if not term.close(res[nm], w):
            bad.append('%s is %r, specification %r' % (nm, res[nm], w))
        if s0[5] > 0 and c0[5, 5] > 0:
            r = w
            v = (c0[k, k] + r * r * c0[5, 5] - 2 * r * c0[k, 5]) / s0[5] ** 2
            if not term.close(res[nm + '_err'], math.sqrt(max(v, 0)),
                              rtol=1e-8, atol=1e-7):
                bad.append('%s_err is %r' % (nm, res[nm + '_err']))
    return bad
