"""C22: starting guesses."""
import random

import numpy as np
import ngmix
from ngmix import guessers as U, priors as P, joint_prior as J
from ngmix.gexceptions import GMixRangeError, PSFFluxFailure

from . import tlc, term, vterm
from .c05 import q, vec
from .c06 import raw
from .report import shard

KINDS = ['TFlux', 'TPSFFlux', 'TFluxAndPrior', 'TPSFFluxAndPrior', 'BDF',
         'BDFPSFFlux', 'BD', 'R50Flux', 'R50NuFlux']
SIZES = [q(4), q(1, 10), q(25), q(3, 1000)]
FLUXES = [vec(100), vec(5, 60), vec((1, 2), 7, 300), vec(-3, 10), vec(0, 2)]
PARS = [vec(0, 0, 0, 0, 4, 100), vec(1, -2, (1, 2), (-1, 3), 2, 10, 30),
        vec((1, 10), 5, (9, 10), (3, 10), 1, (1, 2), -7),
        vec(0, 0, (-12, 10), (5, 10), 9, 1), vec(3, 3, (1, 10), (1, 5), -1, 4, 5, 6),
        vec(-1, 1, (3, 5), (4, 5), 2, 8), vec(2, 0, 0, (7, 10), 5, (1, 4), (1, 3), 8)]
WIDTHS = ['<<>>'] + [tlc.tla_value(x) for x in (
    vec((1, 10), (1, 5), (1, 50), (1, 4), (1, 2), (1, 10)),
    vec((1, 100), 1, (1, 3), (1, 100), (1, 10), (3, 10), (1, 5)))]


class Stub(object):
    """
    a prior whose draws are numbered and that forbids what it is told to:
    rows by their first appearance in a run in which nothing is forbidden
    """
    class Cen(object):
        pass

    def __init__(self, npars, rng, bad=(), base=None, baddraw=(), how=0):
        self.npars = npars
        self.cen_prior = Stub.Cen()
        self.cen_prior.rng = rng
        self.count = 0          # draws
        self.initial = 0        # draws for the rows themselves
        self.bad = set(bad)
        self.base = base
        self.baddraw = set(baddraw)
        self.how = how
        self.asked = 0

    def row(self, c):
        return -(1000.0 * c + np.arange(self.npars))

    def sample(self, nrand=None):
        n = 1 if nrand is None else nrand
        r = np.array([self.row(self.count + 1 + j) for j in range(n)])
        self.count += n
        if nrand is not None:
            self.initial += n
        return r[0] if nrand is None else r

    def number(self, row):
        """of the draw that the last entry comes from, 0 for other rows"""
        x = -row[-1] - (self.npars - 1)
        c = int(round(x / 1000.0))
        if c >= 1 and x == 1000.0 * c:
            return c
        return 0

    def forbidden(self, row):
        c = self.number(row) - self.initial
        if c >= 1:
            return c in self.baddraw
        if self.base is None:
            return False
        for j in self.bad:
            if row[4] == self.base[j - 1][4] and \
                    row[-1] == self.base[j - 1][-1]:
                return True
        return False

    def get_lnprob_scalar(self, row):
        self.asked += 1
        if self.forbidden(row):
            if self.how == 0:
                raise GMixRangeError('out of range')
            return -np.inf
        return -1.5


def make(kind, inp, rng, prior):
    f = term.qf
    if kind == 'Pars':
        pars = [f(x) for x in inp['pars']]
        pars = pars if inp['c']['n'] % 2 else np.array(pars)
        kw = {}
        if inp['widths']:
            kw['widths'] = np.array([f(x) for x in inp['widths']])
        return U.ParsGuesser(rng, pars, prior=prior, **kw)
    if kind == 'Prior':
        return U.PriorGuesser(prior)
    T = f(inp['size'])
    fl = [f(x) for x in inp['flux']]
    F = fl[0] if len(fl) == 1 and inp['c']['n'] % 2 else (
        np.array(fl) if inp['c']['n'] == 2 else fl)
    if kind == 'TFlux':
        return U.TFluxGuesser(rng, T, F, prior=prior)
    if kind == 'TPSFFlux':
        return U.TPSFFluxGuesser(rng, T, prior=prior)
    if kind == 'TFluxAndPrior':
        return U.TFluxAndPriorGuesser(rng, T, F, prior)
    if kind == 'TPSFFluxAndPrior':
        return U.TPSFFluxAndPriorGuesser(rng, T, prior)
    if kind == 'BDF':
        return U.BDFGuesser(T, F, prior)
    if kind == 'BDFPSFFlux':
        return U.BDFPSFFluxGuesser(T, prior)
    if kind == 'BD':
        return U.BDGuesser(T, F, prior)
    if kind == 'R50Flux':
        return U.R50FluxGuesser(rng, T, F, prior=prior)
    return U.R50NuFluxGuesser(rng, T, f(inp['nu']), F, prior=prior)


PSFKINDS = ('TPSFFlux', 'TPSFFluxAndPrior', 'BDFPSFFlux')


def observations(inp, rng):
    """one band for every flux: exact multiples of its psf"""
    bands = []
    for b, fl in enumerate(inp['flux'], 1):
        ol = ngmix.ObsList()
        for e in range(rng.choice([1, 2])):
            n = 15
            jac = ngmix.DiagonalJacobian(
                row=7 + rng.uniform(-.4, .4), col=7, scale=.5)
            pg = ngmix.GMixModel([0, 0, .05, -.02, 1.1 + .2 * e, 3.], 'turb')
            im = pg.make_image((n, n), jacobian=jac) / 3. * term.qf(fl)
            wt = np.full((n, n), 2.5 + b)
            if b not in inp['good']:
                wt[:] = 0
            psf = ngmix.Observation(pg.make_image((n, n), jacobian=jac),
                                    jacobian=jac, gmix=pg)
            ol.append(ngmix.Observation(
                im, weight=wt, jacobian=jac, psf=psf,
                ignore_zero_weight=False if wt.max() == 0 else True))
        bands.append(ol)
    if len(bands) == 1:
        ol = bands[0]
        return ol[0] if len(ol) == 1 and rng.random() < .5 else ol
    mb = ngmix.MultiBandObsList()
    for ol in bands:
        mb.append(ol)
    return mb


def call(g, kind, inp, obs):
    n = inp['c']['n']
    if kind in PSFKINDS:
        return g(obs=obs, nrand=n)
    kw = {} if n == 0 else dict(nrand=n)
    if n == 1 and inp['c']['prior']:
        kw = {} if kind not in ('Pars', 'Prior') else kw
    if n % 2:
        kw['obs'] = None
    return g(**kw)


def one(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    inp, out = rec['inp'], rec['out']
    kind, c = inp['kind'], inp['c']
    label = '%s %s' % (kind, {k: v for k, v in inp.items() if k != 'kind'})
    seed = rng.randrange(2 ** 31)
    obs = observations(inp, rng) if kind in PSFKINDS else None
    chk.trace(1, 2)
    chk.comparisons += 1
    if out['fails']:
        gen = np.random.RandomState(seed)
        try:
            x = call(make(kind, inp, gen, Stub(9, gen) if c['prior'] else
                          None), kind, inp, obs)
            chk.violation('%s: gives %r without any usable flux' % (label, x))
        except PSFFluxFailure:
            pass
        return
    npars, rows = len(out['layout']), out['rows']

    def run(bad, baddraw, base):
        gen = np.random.RandomState(seed)
        prior = Stub(npars, gen, bad, base, baddraw, i % 2) \
            if c['prior'] else None
        g = make(kind, inp, gen, prior)
        return call(g, kind, inp, obs), prior, gen, g

    glob = np.random.get_state()[1].copy()
    base, p0, _, g = run((), (), None)
    again, _, gen2, g2 = run((), (), None)
    if not np.array_equal(base, again):
        chk.violation('%s: equal generators give %r and %r'
                      % (label, base, again))
        return
    want = (npars,) if out['onedim'] else (rows, npars)
    if np.shape(base) != want:
        chk.violation('%s: the guess has shape %r, specification %r'
                      % (label, np.shape(base), want))
        return
    base = np.atleast_2d(np.asarray(base, dtype='f8'))
    for j in range(rows):
        bad = entries(base[j], out, j, p0)
        if bad:
            chk.violation('%s: row %d: %s' % (label, j, bad))
            return
    # the same guesser again: new rows in the same ranges
    if kind not in ('TFluxAndPrior', 'TPSFFluxAndPrior', 'BDF', 'BD',
                    'BDFPSFFlux', 'Prior'):
        nxt = np.atleast_2d(call(g2, kind, inp, obs))
        if np.shape(nxt) != np.shape(base) or (
                np.array_equal(nxt, base)):
            chk.violation('%s: a second guess is %r after %r'
                          % (label, nxt, base))
            return
        for j in range(rows):
            bad = entries(nxt[j], out, j, p0)
            if bad:
                chk.violation('%s: second guess, row %d: %s'
                              % (label, j, bad))
                return
        allr = np.concatenate([base, nxt])
        if rows >= 3:
            for k, e in enumerate(out['layout']):
                if e['how'] == 'box' and e['lo'] != e['hi'] and \
                        len(set(allr[:, k])) < 2:
                    chk.violation('%s: entry %d never varies' % (label, k))
    # what the prior forbids
    if c['prior'] and kind != 'Prior':
        got, p, gen, _ = run(c['bad'], c['baddraw'], base)
        got = np.atleast_2d(got)
        used = []
        for j, d in enumerate(out['final']):
            if d == 0:
                if not np.array_equal(got[j], base[j]):
                    chk.violation('%s: row %d is allowed but became %r'
                                  % (label, j, got[j]))
                    return
                continue
            num = p.number(got[j]) - p.initial
            if num < 1 or num in c['baddraw'] or num in used:
                chk.violation('%s: row %d was forbidden and is %r, which is '
                              'no allowed draw of its own' % (label, j,
                                                              got[j]))
                return
            used.append(num)
            w = p.row(num + p.initial)
            if out['replaces'] == 'tail':
                w[:4] = base[j][:4]
            if not np.array_equal(got[j], w):
                chk.violation('%s: row %d was forbidden and is %r, the prior '
                              'drew %r' % (label, j, got[j], w))
                return
        if p.asked < rows:
            chk.violation('%s: the prior was asked about %d of %d rows'
                          % (label, p.asked, rows))
    if not np.array_equal(glob, np.random.get_state()[1]):
        chk.violation('%s: the global generator was used' % label)
    if i < 3:
        chk.sample({'guess': label, 'rows': base.tolist()})


def offset(g, h):
    # the shear s which takes g to h = (g + s) / (1 + conj(s) g)
    d = h - g
    return (d + h * g * d.conjugate()) / (1 - abs(h * g) ** 2)


def entries(row, out, j, prior):
    for k, e in enumerate(out['layout']):
        x = row[k]
        if e['how'] == 'box':
            lo, hi = term.qf(e['lo']), term.qf(e['hi'])
            t = 1e-9 * (abs(lo) + abs(hi))
            if not lo - t <= x <= hi + t:
                return 'entry %d is %r, specification [%r, %r]' % (k, x, lo,
                                                                   hi)
        elif e['how'] == 'prior':
            w = prior.row(j + 1)[k]
            if x != w:
                return 'entry %d is %r, the prior drew %r' % (k, x, w)
    if out['shape']:
        g1, g2, w1, w2 = [float(vterm.val(x, {})) for x in out['shape']]
        g, h = complex(g1, g2), complex(row[2], row[3])
        if not abs(h) < 1:
            return 'the shape %r is outside of the disk' % h
        s = offset(g, h)
        if abs(s.real) > w1 * (1 + 1e-9) + 1e-9 or \
                abs(s.imag) > w2 * (1 + 1e-9) + 1e-9:
            return ('the shape %r is %r away from %r, specification %r'
                    % (h, s, g, (w1, w2)))
    return None


def psf(chk, rec, i):
    rng = random.Random(chk.seed * 100003 + i)
    inp, out = rec['inp'], rec['out']
    label = 'psf guess %s' % inp
    sc, fl = term.qf(inp['scale']), term.qf(inp['flux'])
    n = 31
    jac = ngmix.DiagonalJacobian(row=15, col=15, scale=sc)
    T = float(vterm.val(out['T'], {}))
    gm = ngmix.GMixModel([0, 0, 0, 0, T, fl], 'gauss')
    im = gm.make_image((n, n), jacobian=jac)
    obs = ngmix.Observation(im, weight=np.full((n, n), 3.), jacobian=jac)
    kw = dict(guess_from_moms=True) if inp['moms'] else {}
    slack = 0.06 if inp['moms'] else 1e-4
    seed = rng.randrange(2 ** 31)

    def mk():
        gen = np.random.RandomState(seed)
        if inp['kind'] == 'SimplePSF':
            return U.SimplePSFGuesser(gen, **kw)
        if inp['kind'] == 'CoellipPSF':
            return U.CoellipPSFGuesser(gen, inp['ng'], **kw)
        return U.GMixPSFGuesser(gen, inp['ng'], **kw)
    g = mk()
    guesses = [g(obs=obs) for _ in range(chk.budget(8, 30))]
    chk.comparisons += len(guesses)
    chk.trace(1, len(guesses))
    g2 = mk()
    second = g2(obs=obs)
    same = np.array_equal(second, guesses[0]) if inp['kind'] != 'GMixPSF' \
        else np.array_equal(second.get_full_pars(),
                            guesses[0].get_full_pars())
    if not same:
        chk.violation(label + ': equal generators, different guesses')
    if not np.array_equal(obs.image, im):
        chk.violation(label + ': the image was changed')

    def inside(x, e, s):
        lo, hi = float(vterm.val(e['lo'], {})), float(vterm.val(e['hi'], {}))
        return lo - s * abs(lo) <= x <= hi + s * abs(hi)
    for x in guesses:
        if inp['kind'] != 'GMixPSF':
            if np.shape(x) != (len(out['vec']),):
                chk.violation('%s has shape %r' % (label, np.shape(x)))
                return
            bad = [k for k, e in enumerate(out['vec'])
                   if not inside(x[k], e, slack if k >= 4 else 0)]
            if bad:
                chk.violation('%s: entries %r of %r are out of range'
                              % (label, bad, x))
                return
            tot = x[4 + inp['ng']:].sum()
        else:
            d = x.get_full_pars().reshape(-1, 6)
            if d.shape[0] != inp['ng']:
                chk.violation('%s has %d gaussians' % (label, d.shape[0]))
                return
            for k, (r, e) in enumerate(zip(d, out['mix'])):
                for name, col, key, s in (
                        ('flux', 0, 'p', slack), ('row', 1, 'row', 0),
                        ('col', 2, 'col', 0), ('irr', 3, 'var', slack),
                        ('irc', 4, 'irc', slack), ('icc', 5, 'var', slack)):
                    if not inside(r[col], e[key], s):
                        chk.violation('%s: %s of gaussian %d is %r'
                                      % (label, name, k, r[col]))
                        return
                if not (r[0] > 0 and r[3] * r[5] > r[4] ** 2):
                    chk.violation('%s: gaussian %d is not one: %r'
                                  % (label, k, r))
                    return
            tot = d[:, 0].sum()
        if not inside(tot, out['total'], slack):
            chk.violation('%s: the flux adds up to %r' % (label, tot))
            return


def joint(gen, kind, nb, T, F):
    """a prior that forbids much of what is guessed"""
    lim = dict(cen_prior=P.CenPrior(0, 0, .1, .1, rng=gen),
               g_prior=P.GPriorBA(.2, gen))
    S = P.FlatPrior(*T, rng=gen)
    FF = [P.FlatPrior(*F, rng=gen) for _ in range(nb)]
    if kind == 'BD':
        return J.PriorBDSep(T_prior=S, F_prior=FF,
                            logTratio_prior=P.Normal(0, .1, rng=gen),
                            fracdev_prior=P.FlatPrior(.45, .9, rng=gen),
                            **lim)
    if kind in ('BDF', 'BDFPSFFlux'):
        return J.PriorBDFSep(T_prior=S, F_prior=FF,
                             fracdev_prior=P.FlatPrior(.45, .9, rng=gen),
                             **lim)
    if kind == 'R50NuFlux':
        return J.PriorSpergelSep(r50_prior=S, F_prior=FF,
                                 nu_prior=P.FlatPrior(.45, .53, rng=gen),
                                 **lim)
    return J.PriorSimpleSep(T_prior=S, F_prior=FF, **lim)


def real_priors(chk):
    """with real priors every row is allowed"""
    items = []
    for kind in KINDS + ['Pars']:
        for nb in (1, 2):
            for lims in (((3.9, 4.1), (95, 200)), ((5, 6), (1, 2)),
                         ((1, 4), (99, 101))):
                items.append((kind, nb, lims))

    def f(item, i):
        kind, nb, (T, F) = item
        seed = chk.seed * 1000 + i
        inp = dict(kind=kind, size=[4, 1], flux=[[100, 1]] * nb, nu=[1, 2],
                   good=list(range(1, nb + 1)), c=dict(n=30, prior=True),
                   pars=[[0, 1], [0, 1], [0, 1], [0, 1], [4, 1]] +
                   [[100, 1]] * nb, widths=[])
        res = []
        for _ in range(2):
            gen = np.random.RandomState(seed)
            pr = joint(gen, kind, nb, T, F)
            obs = observations(inp, random.Random(seed)) \
                if kind in PSFKINDS else None
            res.append(call(make(kind, inp, gen, pr), kind, inp, obs))
        chk.comparisons += 1
        if not np.array_equal(res[0], res[1]):
            chk.violation('%s with a prior: equal generators, different '
                          'guesses' % kind)
            return
        for r in res[0]:
            try:
                lnp = pr.get_lnprob_scalar(r)
            except GMixRangeError as err:
                chk.violation('%s with limits %r, %r: the prior forbids the '
                              'guess %r (%s)' % (kind, T, F, r, err))
                return
            if not np.isfinite(lnp):
                chk.violation('%s: the prior forbids the guess %r' % (kind,
                                                                      r))
                return
    shard(chk, f, items)


def misc(chk):
    gen = np.random.RandomState(chk.seed)
    for bad in (-1.0, -1e-6):
        chk.comparisons += 1
        try:
            U.R50FluxGuesser(gen, bad, 1.0)
            chk.violation('a negative half-light radius was accepted')
        except GMixRangeError:
            pass
    for ng in (0, 6, 17):
        for cls in (U.GMixPSFGuesser,):
            chk.comparisons += 1
            try:
                cls(gen, ng)
                chk.violation('%s with %d gaussians was made'
                              % (cls.__name__, ng))
            except ValueError:
                pass
    # shapes near a given one, wide ones included
    for k in range(chk.budget(300, 3000)):
        m, th = gen.uniform(0, 1.6), gen.uniform(0, 2 * np.pi)
        top = [.99, .8, .3][k % 3]
        w = [.01, .5, 1.5][(k // 3) % 3]
        g = complex(m * np.cos(th), m * np.sin(th))
        s = U.get_shape_guess(gen, g.real, g.imag, 3, [w, w / 2], max=top)
        chk.comparisons += 1
        if abs(g) > top:
            g = g / abs(g) * top
        for r in s:
            h = complex(*r)
            d = offset(g, h)
            if not abs(h) < 1 or abs(d.real) > w + 1e-9 or \
                    abs(d.imag) > w / 2 + 1e-9:
                chk.violation('get_shape_guess%r gives %r' % ((g, w, top), h))
                return


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough

    def job(kinds, nrows, **kw):
        c = dict(Kinds=set(kinds), Sizes=raw([SIZES[0]]),
                 Fluxes=raw(FLUXES[:1]), Nus=raw([q(1, 2)]),
                 ParsSets=raw(PARS[:1]), WidthSets=tlc.Raw('{<<>>}'),
                 Goods=tlc.Raw('{{1}, {1, 2}, {1, 2, 3}}'),
                 NRows=set(nrows),
                 BadSets=tlc.Raw('{{}, {1}, {2, 3}, {1, 2, 3, 4}}'),
                 BadDraws=tlc.Raw('{{}, {1, 2}, {3}}'))
        c.update(kw)
        return ('Guess', dict(constants=c, invariants=[
            'RightLength', 'Proper', 'AroundSize', 'AroundFlux', 'Replaced'],
            emit='Emit'))
    size, flux = rng.sample(SIZES, 2), rng.sample(FLUXES, 3)
    if deep:
        size, flux = SIZES, FLUXES
    jobs = []
    for ks in (['TFlux', 'R50Flux'], ['TFluxAndPrior', 'BDF'], ['BD']):
        jobs.append(job(ks, [1, 2, 4], Sizes=raw(size), Fluxes=raw(flux)))
    jobs.append(job(['R50NuFlux'], [1, 4], Sizes=raw(size[:2]),
                    Fluxes=raw(flux[:2]), Nus=raw(
                        [q(1, 2), q(-2), q(-95, 100), q(7, 2), q(9), q(0)])))
    jobs.append(job(list(PSFKINDS), [1, 3], Sizes=raw(size[:2]), Fluxes=raw(
        rng.sample(FLUXES[:3], 2) + [FLUXES[3]]),
        Goods=tlc.Raw('{{}, {1}, {2}, {1, 2}, {1, 3}, {1, 2, 3}}'),
        BadSets=tlc.Raw('{{}, {1}, {2, 3}}')))
    jobs.append(job(['Pars'], [0, 1, 2, 5], ParsSets=raw(PARS),
                    WidthSets=tlc.Raw('{%s}' % ', '.join(WIDTHS))))
    jobs.append(job(['Prior'], [0, 1, 5], Fluxes=raw(FLUXES)))
    jobs.append(('PsfGuess', dict(constants=dict(
        Kinds={'SimplePSF', 'CoellipPSF', 'GMixPSF'}, NGs={1, 2, 3, 4, 5},
        Scales=raw([q(1), q(1, 4), q(1, 20), q(2)]),
        Fwhms=raw([q(7, 2), q(5)] if not deep else
                  [q(7, 2), q(5), q(3), q(4)]),
        Fluxes=raw([q(1), q(300)]), Moms=tlc.Raw('BOOLEAN')),
        invariants=['Layout'], emit='Emit')))
    recs, precs = [], []
    for (m, _), r in zip(jobs, tlc.parallel(jobs)):
        chk.tlc(r, m)
        (precs if m == 'PsfGuess' else recs).extend(r.records)
    cap = chk.budget(3000, 40000)
    if len(recs) > cap:
        recs = rng.sample(recs, cap)
    shard(chk, lambda rec, i: one(chk, rec, i), recs)
    shard(chk, lambda rec, i: psf(chk, rec, i), precs)
    real_priors(chk)
    misc(chk)
    chk.notes['laws'] = (
        'length and order of the layout, ranges contain what they are about, '
        'only forbidden rows are replaced, by distinct allowed draws')
