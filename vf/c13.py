"""C13: bootstrapping."""
import itertools
import numpy as np
from .report import shard
import ngmix
from . import tlc
from .c12 import raw_set

INVS = ['PsfFirst', 'ExactlyTheGood', 'InOrder', 'FailsOnlyWhenEmpty',
        'OneResultPerType']


def C(kind, shape, ignore=True, psfrun=True, ntypes=1, oflags=(0,)):
    return dict(kind=kind, shape=shape, ignore=ignore, psfrun=psfrun,
                ntypes=ntypes, oflags=set(oflags))


SHAPES = [('obs', [1]), ('list', [1]), ('list', [2]), ('list', [3]),
          ('mb', [1]), ('mb', [2]), ('mb', [1, 1]), ('mb', [2, 1]),
          ('mb', [1, 2]), ('mb', [2, 2]), ('mb', [1, 1, 1]), ('list', [0]),
          ('mb', [1, 0]), ('mb', [3, 2])]
DEEP = [('mb', [3, 3]), ('mb', [2, 2, 2]), ('list', [6]), ('mb', [4, 1, 2])]


class Script(object):
    """psf fitter and object runner, following the specification's calls"""

    def __init__(self, calls):
        self.psf = [c['f'] for c in calls if c['e'] == 'psf']
        self.obj = [c['f'] for c in calls if c['e'] == 'object']
        self.seen = []
        self.results = []

    def fit_psf(self, obs, **kw):
        f = self.psf.pop(0) if self.psf else 0
        self.seen.append(('psf', obs, f))
        r = PsfRes(flags=f)
        return r

    def go(self, obs, **kw):
        f = self.obj.pop(0) if self.obj else 0
        # the grouping is recorded now: the caller may not rely on it later
        self.seen.append(('object', obs, f, structure(obs)))
        r = {'flags': f, 'n': len(self.results)}
        self.results.append(r)
        return r


class PsfRes(dict):
    def get_gmix(self):
        return ngmix.GMixModel([0, 0, 0, 0, 1.0, 1.0], 'gauss')


class Fitter(object):
    def __init__(self, f):
        self.go = f


def structure(obs):
    if isinstance(obs, ngmix.MultiBandObsList):
        return ('mb', obs.meta.get('tag'),
                [structure(o) for o in obs])
    if isinstance(obs, ngmix.ObsList):
        return ('list', obs.meta.get('tag'), list(obs))
    return ('obs', None, obs)


def build(cfg, rng, n=5):
    def ob(tag):
        p = ngmix.Observation(
            psfim(9) + rng.normal(scale=1e-4, size=(9, 9)),
            weight=np.ones((9, 9)) * 1e8,
            jacobian=ngmix.DiagonalJacobian(row=4, col=4, scale=0.25)) \
            if n > 5 else ngmix.Observation(rng.normal(size=(3, 3)))
        kw = {}
        if n > 5:
            kw = dict(jacobian=ngmix.DiagonalJacobian(
                row=(n - 1) / 2, col=(n - 1) / 2, scale=0.25),
                weight=np.ones((n, n)) * 1e6)
        return ngmix.Observation(rng.normal(size=(n, n)), psf=p,
                                 meta={'tag': tag}, **kw)
    if cfg['kind'] == 'obs':
        return ob('1.1')
    lists = []
    for b, ne in enumerate(cfg['shape'], 1):
        ol = ngmix.ObsList(meta={'tag': 'band%d' % b})
        for e in range(1, ne + 1):
            ol.append(ob('%d.%d' % (b, e)))
        lists.append(ol)
    if cfg['kind'] == 'list':
        return lists[0]
    mb = ngmix.MultiBandObsList(meta={'tag': 'multi'})
    for ol in lists:
        mb.append(ol)
    return mb


def psfim(n):
    r = np.arange(n) - (n - 1) / 2
    d = r[:, None] ** 2 + r[None, :] ** 2
    im = np.exp(-0.5 * d / 2.0)
    return im / im.sum()


def flat(obs):
    if isinstance(obs, ngmix.Observation):
        return [obs]
    if isinstance(obs, ngmix.ObsList):
        return list(obs)
    return [o for ol in obs for o in ol]


def contents(obs):
    return [(id(o), o.image.copy(), o.weight.copy()) for o in flat(obs)]


def kept_diff(cfg, obs, struct, kept, tags=True):
    """does the structure hold exactly the observations the spec keeps?"""
    bands = {'obs': lambda: [[struct[2]]], 'list': lambda: [struct[2]],
             'mb': lambda: [b[2] for b in struct[2]]}[struct[0]]()
    if struct[0] != cfg['kind']:
        return 'object fit got a %s, input was a %s' % (struct[0], cfg['kind'])
    src = {'obs': lambda: [[obs]], 'list': lambda: [list(obs)],
           'mb': lambda: [list(b) for b in obs]}[cfg['kind']]()
    if len(bands) != len(kept):
        return '%d bands, specification %d' % (len(bands), len(kept))
    for b, (got, ks) in enumerate(zip(bands, kept)):
        want = [src[b][e - 1] for e in ks]
        if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
            return 'band %d: got %r, specification epochs %r' % (
                b + 1, [o.meta.get('tag') for o in got], ks)
    if tags:
        if cfg['kind'] == 'mb':
            if struct[1] != 'multi' or any(
                    bl[1] != 'band%d' % (i + 1)
                    for i, bl in enumerate(struct[2])):
                return 'list metadata lost'
        elif cfg['kind'] == 'list' and struct[1] != 'band1':
            return 'list metadata lost'
    return None


def run_plain(chk, rec, rng, api):
    cfg = rec['cfg']
    obs = build(cfg, rng)
    before = contents(obs)
    sc = Script(rec['calls'])
    psf_runner = ngmix.runners.PSFRunner(fitter=Fitter(sc.fit_psf)) \
        if cfg['psfrun'] else None
    out, outcome = None, 'done'
    try:
        if api == 'class':
            kw = {} if cfg['ignore'] and rng.uniform() < .5 else dict(
                ignore_failed_psf=cfg['ignore'])
            bt = ngmix.bootstrap.Bootstrapper(
                runner=sc, psf_runner=psf_runner, **kw)
            out = bt.go(obs)
        else:
            out = ngmix.bootstrap.bootstrap(
                obs, sc, psf_runner=psf_runner,
                ignore_failed_psf=cfg['ignore'])
    except ngmix.gexceptions.BootPSFFailure:
        outcome = 'psf failure'
    bad = []
    if outcome != rec['outcome']:
        bad.append('ended %r, specification %r' % (outcome, rec['outcome']))
    want = rec['calls']
    units = flat(obs)
    if len(sc.seen) != len(want):
        bad.append('%d calls, specification %d' % (len(sc.seen), len(want)))
    else:
        i = 0
        for s, c in zip(sc.seen, want):
            if s[0] != c['e']:
                bad.append('call %s, specification %s' % (s[0], c['e']))
                break
            if s[0] == 'psf':
                if s[1] is not units[i].psf:
                    bad.append('psf fit %d on another psf' % i)
                i += 1
            else:
                d = kept_diff(cfg, obs, s[3], c['kept'])
                if d:
                    bad.append('object fit: ' + d)
    if outcome == 'done' and not bad and out is not sc.results[-1]:
        bad.append('the object result is not returned')
    after = contents(obs)
    if len(after) != len(before) or any(
            a[0] != b[0] or not np.array_equal(a[1], b[1])
            or not np.array_equal(a[2], b[2])
            for a, b in zip(after, before)):
        bad.append('the input observations changed')
    if cfg['psfrun']:
        fl = [c['f'] for c in want if c['e'] == 'psf']
        for o, f in zip(units, fl):
            r = o.psf.meta.get('result')
            if r is None or r['flags'] != f:
                bad.append('psf result not stored')
            if o.psf.has_gmix() != (f == 0):
                bad.append('psf mixture stored for a failed fit'
                           if f else 'psf mixture not stored')
    return bad


TYPESETS = [['noshear'], ['1p'], ['2m'], ['1m'], ['1m', '2p'],
            ['1p', 'noshear'], ['1p', '1m'], ['2m', 'noshear'],
            ['noshear', '1p', '1m'], None]


def delivered(types):
    """the unsheared and the positively sheared image come as a pair"""
    if types is None:
        return {'noshear', '1p', '1m', '2p', '2m'}
    s = set(types)
    return s | {'noshear', '1p'} if s & {'noshear', '1p'} else s


def images_of(obs):
    """the caller's observations: structure, members and their data"""
    return [[id(o) for o in flat(obs)]] + [
        (o.image.tobytes(), o.weight.tobytes(), repr(o.jacobian),
         o.psf.image.tobytes(), o.psf.weight.tobytes())
        for o in flat(obs)]


def run_metacal(chk, rec, rng, api, types):
    cfg = rec['cfg']
    seed = int(rng.randint(2 ** 30))
    obs = build(cfg, np.random.RandomState(seed), n=12)
    psfopt = ['gauss', 'fitgauss'][rng.randint(2)]
    kws = dict(psf=psfopt)
    if types is not None:
        kws['types'] = list(types)
    if rng.uniform() < 0.5:
        kws['fixnoise'] = False
    ref = ngmix.metacal.get_all_metacal(
        build(cfg, np.random.RandomState(seed), n=12),
        rng=np.random.RandomState(seed + 1), **kws)
    kws = {k: (list(v) if isinstance(v, list) else v) for k, v in kws.items()}
    sc = Script(rec['calls'])
    psf_runner = ngmix.runners.PSFRunner(fitter=Fitter(sc.fit_psf)) \
        if cfg['psfrun'] else None
    out, outcome = None, 'done'
    before = images_of(obs)
    mrng = np.random.RandomState(seed + 1)
    try:
        if api == 'class':
            bt = ngmix.metacal.MetacalBootstrapper(
                runner=sc, psf_runner=psf_runner,
                ignore_failed_psf=cfg['ignore'], rng=mrng, **kws)
            out = bt.go(obs)
        else:
            out = ngmix.metacal.metacal_bootstrap(
                obs, sc, psf_runner=psf_runner,
                ignore_failed_psf=cfg['ignore'], rng=mrng, **kws)
    except ngmix.gexceptions.BootPSFFailure:
        outcome = 'psf failure'
    if images_of(obs) != before:
        return ['the observations given to metacal changed']
    if outcome != rec['outcome']:
        return ['metacal ended %r, specification %r'
                % (outcome, rec['outcome'])]
    want = rec['calls']
    if [s[0] for s in sc.seen] != [c['e'] for c in want]:
        return ['metacal calls %r, specification %r' % (
            [s[0] for s in sc.seen], [c['e'] for c in want])]
    if outcome != 'done':
        return []
    bad = []
    resdict, obsdict = out
    if set(ref) != delivered(types):
        return ['metacal delivered %r for %r' % (sorted(ref), types)]
    if set(resdict) != set(ref) or set(obsdict) != set(ref):
        return ['result types %r / %r, requested %r' % (
            sorted(resdict), sorted(obsdict), sorted(ref))]
    used = set()
    rounds = [s for s in sc.seen if s[0] == 'object']
    objs = [c for c in want if c['e'] == 'object']
    for n, (s, c) in enumerate(zip(rounds, objs)):
        typ = [k for k in obsdict if resdict[k] is sc.results[n]]
        if len(typ) != 1:
            bad.append('object fit %d is the result of types %r' % (n, typ))
            continue
        d = kept_diff(cfg, obsdict[typ[0]], s[3], c['kept'], tags=False)
        if d:
            bad.append('type %s: %s' % (typ[0], d))
        used.add(typ[0])
        if cfg['psfrun']:
            m = len(flat(obs))
            mine = [x for x in sc.seen if x[0] == 'psf'][n * m:(n + 1) * m]
            if any(x[1] is not o.psf for x, o in
                   zip(mine, flat(obsdict[typ[0]]))):
                bad.append('type %s: psf fits on other psfs' % typ[0])
    if not bad and used != set(ref):
        bad.append('types %r have no fit of their own'
                   % sorted(set(ref) - used))
    for k in ref:
        for a, b in zip(flat(ref[k]), flat(obsdict[k])):
            if not np.allclose(a.image, b.image, rtol=1e-8, atol=1e-12):
                bad.append('type %s does not hold that type\'s image' % k)
    return bad


def check(chk):
    rng = np.random.RandomState(chk.seed)
    shapes = SHAPES + (DEEP if chk.thorough else [])
    cfgs = [C(k, s, ig, pr, 1, (0, 3)) for k, s in shapes
            for ig in (True, False) for pr in (True, False)]
    r = tlc.run('Boot', constants=dict(Configs=raw_set(cfgs)),
                invariants=INVS, properties=['Terminates'], spec='Spec',
                constraint='EmitEnd')
    chk.tlc(r, 'Boot')

    def plain(rec, i):
        rng = np.random.RandomState([chk.seed, i])
        for api in ('class', 'function'):
            bad = run_plain(chk, rec, rng, api)
            chk.trace(1, len(rec['calls']))
            chk.comparisons += 1
            if bad:
                chk.violation('bootstrap %s: %s' % (api, '; '.join(bad)),
                              rec=rec)
        if len(rec['calls']) > 3:
            chk.sample(rec)
    shard(chk, plain, r.records)
    nt = chk.budget([1, 2], [1, 2, 3])
    cfgs = [C(k, s, ig, pr, n) for n in nt
            for k, s in (('obs', [1]), ('list', [2]), ('mb', [1, 1]),
                         ('mb', [2, 1]))
            for ig in (True, False) for pr in (True, False)
            if not (n == 3 and sum(s) > 2)]
    cfgs += [C('obs', [1], True, True, 5)]
    r = tlc.run('Boot', constants=dict(Configs=raw_set(cfgs)),
                invariants=INVS, properties=['Terminates'], spec='Spec',
                constraint='EmitEnd')
    chk.tlc(r, 'Boot metacal')
    recs = r.records
    rng.shuffle(recs)

    def mcal(rec, i):
        rng = np.random.RandomState([chk.seed, 5, i])
        n = rec['cfg']['ntypes']
        opts = [t for t in TYPESETS if len(delivered(t)) == n]
        types = opts[rng.randint(len(opts))]
        bad = run_metacal(chk, rec, rng,
                          ['class', 'function'][rng.randint(2)], types)
        chk.trace(1, len(rec['calls']))
        chk.comparisons += 1
        if bad:
            chk.violation('metacal bootstrap, types %r: %s'
                          % (types, '; '.join(bad)), rec=rec)
    shard(chk, mcal, recs[:chk.budget(260, 5000)])
