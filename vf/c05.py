"""C05: evaluation never depends on the history of a mixture."""
import random
from fractions import Fraction

import numpy as np
import ngmix

from . import tlc
from .graph import Graph
from .replay import replay
from .gmixdrv import Real, the_obs

INVS = ['NeverStale', 'NormOnlyIfPositive']
PROPS = ['RefusedUnchanged', 'EvalPure']
EVALS = ['image', 'fastimage', 'loglike', 'fdiff', 's2n', 'moments', 'norms',
         'setnorms']


def q(n, d=1):
    f = Fraction(n, d)
    return [f.numerator, f.denominator]


def vec(*xs):
    out = []
    for x in xs:
        out.append(q(*x) if isinstance(x, tuple) else q(x))
    return out


# full: (p, row, col, irr, irc, icc)...; some have a component that is not
# positive, first or last
FULL = [vec(2, 0, 0, 2, (1, 2), 1, 1, (1, 2), (-1, 2), 1, 0, 3),
        vec(3, 1, (1, 2), 1, (-1, 4), 1, -1, 0, 0, 4, 1, 4),
        vec(1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 2, 1),
        vec(1, 0, 1, 1, 1, 1, 2, 1, 0, 2, 0, 2),
        vec(1, 0, 0, -1, 0, -1, 1, 0, 0, 4, 0, 4)]
GAUSS = [vec((1, 2), 0, (1, 2), (1, 2), 4, 3),
         vec(0, -1, 0, (1, 3), 2, 5),
         vec(0, 0, 0, 0, -1, 1),
         vec(0, 0, (1, 5), (2, 5), 3, -2)]
COELL = [vec(0, 1, (1, 3), 0, 2, 5, 1, 3),
         vec((1, 2), 0, (-1, 5), (2, 5), 3, 1, 2, -1),
         vec(0, 0, 0, (1, 3), 2, -2, 1, 1)]
PARS = dict(full=FULL, gauss=GAUSS, coellip=COELL)
FLUX = [q(7), q(-2)]
CENS = [[q(1), q(-1, 2)]]
SHEARS = [[q(1, 3), q(0)], [q(0), q(-1, 2)]]
ALL = ['refill', 'reset', 'set_flux', 'set_cen', 'shear', 'round', 'convolve',
       'copy', 'concat']


def swarm(rng, n, deep):
    """configurations with a few operations each, together all pairs of them"""
    pairs = [(a, b) for i, a in enumerate(ALL) for b in ALL[i + 1:]]
    rng.shuffle(pairs)
    out = []
    for k in range(n):
        ops = set(pairs[k % len(pairs)])
        if deep:
            ops.add(rng.choice(ALL))
        kinds = {r: rng.choice(['full', 'gauss', 'coellip']) for r in (1, 2)}
        pars = {}
        for kd, vs in PARS.items():
            use = [vs[0]] + rng.sample(vs[1:], 1)
            rng.shuffle(use)
            pars[kd] = use
        start = [[kinds[r], rng.randint(1, 2)] for r in (1, 2)]
        out.append(dict(
            Regs={1, 2}, Kinds=set(kinds.values()), Pars=pars, Start=start,
            Fluxes=tlc.Raw('{%s}' % tlc.tla_value(rng.choice(FLUX))),
            Cens=tlc.Raw('{%s}' % tlc.tla_value(CENS[0])),
            Shears=tlc.Raw('{%s}' % tlc.tla_value(rng.choice(SHEARS))),
            Ops=ops | {'wrongfill'}, EvalKinds=set(rng.sample(EVALS, 3)),
            MaxEdits=3 if deep else 2, MaxComps=6, MaxNum=150, XEval=''))
    return out


def warm():
    """load the compiled kernels before forking"""
    g = ngmix.GMix(pars=[1., 0, 0, 1, 0, 1])
    r = Real.__new__(Real)
    r.obs = the_obs()
    r.gm = {1: g}
    for how in EVALS:
        r.op_eval(1, how)
    g.convolve(g).get_sheared(0.1, 0.1).make_round()
    for m, p in (('gauss', [0, 0, 0, 0, 1, 1.]),
                 ('coellip', [0, 0, 0, 0, 1, 1.])):
        ngmix.gmix.make_gmix_model(p, m).copy()


def go(chk, cfgs, props, invs, steps, name, derived):
    warm()
    jobs = [('GMix', dict(constants=c, invariants=invs, properties=props,
                          view='View', emit='Emit')) for c in cfgs]
    for c, r in zip(cfgs, tlc.parallel(jobs)):
        chk.tlc(r, 'GMix %s' % '+'.join(sorted(c['Ops'])))
        g = Graph(r.records)
        cls = type('R', (Real,), dict(pars=c['Pars'], derived=derived))
        what = name + ' ' + '+'.join(sorted(c['Ops']))
        paths = list(g.covering_paths(seed=chk.seed, max_len=40,
                                      budget=steps))
        paths += list(g.random_paths(20, 25, seed=chk.seed))
        replay(chk, g, cls, paths, what)


# structures and the parameter vectors they are filled with
STRUCTS = [('gauss', ()), ('exp', ()), ('dev', ()), ('turb', ()),
           ('cm', (0.4, 2.0)), ('cm', (0.4, 1.0)), ('cm', (0.9, 0.5)),
           ('cm', (0.0, 2.0)), ('bdf', ()), ('bd', ()), ('coellip', (3,)),
           ('coellip', (1,))]


def fills(kind, extra, k):
    cen, g = [(0.1, -0.2), (0.5, 0.3)][k - 1], [(0.1, 0.2), (-0.3, 0)][k - 1]
    T, F = [4.0, 6.5][k - 1], [1.0, 3.0][k - 1]
    if kind == 'bdf':
        return [*cen, *g, T, [0.3, 0.8][k - 1], F]
    if kind == 'bd':
        return [*cen, *g, T, [0.2, -0.1][k - 1], [0.3, 0.8][k - 1], F]
    if kind == 'coellip':
        n = extra[0]
        return [*cen, *g] + [T * (i + 1) for i in range(n)] + [
            F / (i + 1) for i in range(n)]
    return [*cen, *g, T, F]


def named_fresh(kind, extra, pars):
    if kind == 'cm':
        return ngmix.gmix.GMixCM(extra[0], extra[1], pars)
    return ngmix.gmix.make_gmix_model(pars, kind)


NFLUX, NCEN = {1: 7.0, 2: 0.5}, {1: (2.0, -1.0)}
NSHEAR = {1: (0.05, -0.1)}


class Named(Real):
    def __init__(self, st, rng):
        self.rng = rng
        self.obs = the_obs()
        self.pending = None
        self.gm = {r: self.fresh(s) for r, s in self.items(st)}

    @staticmethod
    def items(st):
        return list(enumerate(st, 1))

    def fresh(self, s):
        kind, extra = STRUCTS[s['s'] - 1]
        return named_fresh(kind, extra, fills(kind, extra, s['k']))

    def op_fill(self, r, k):
        kind, extra = STRUCTS[self.struct[r] - 1]
        self.gm[r].fill(fills(kind, extra, k))

    def op_badfill(self, r, w):
        kind, extra = STRUCTS[self.struct[r] - 1]
        p = fills(kind, extra, 2)
        if w == 'long':
            p += [1.0, 2.0]
        elif w == 'short':
            p = p[:-2]
        else:
            p[2:4] = [0.8, 0.7]
        self.gm[r].fill(p)

    def op_set_flux(self, r, f):
        self.gm[r].set_flux(NFLUX[f])

    def op_set_cen(self, r, c):
        self.gm[r].set_cen(*NCEN[c])

    def op_shear(self, r, t, g):
        self.gm[t] = self.gm[r].get_sheared(*NSHEAR[g])

    def op_copy(self, r, t, how):
        super(Named, self).op_copy(r, t, how)

    def check_result(self, act):
        if self.odd:
            return [self.odd]
        self.pending = act if act['op'] == 'eval' and act['ok'] else None
        return []

    def differences(self, st):
        bad = []
        self.struct = {r: s['s'] for r, s in self.items(st)}
        for r, s in self.items(st):
            ref = self.fresh(s)
            g = ngmix.GMix(pars=ref.get_full_pars())
            if s['f']:
                g.set_flux(NFLUX[s['f']])
            if s['c']:
                g.set_cen(*NCEN[s['c']])
            if s['g']:
                g = g.get_sheared(*NSHEAR[s['g']])
            want, got = g.get_full_pars(), self.gm[r].get_full_pars()
            if want.shape != got.shape or not np.allclose(
                    got, want, rtol=1e-11, atol=1e-13):
                bad.append('mixture %d of %r has components %r, a new one %r'
                           % (r, STRUCTS[s['s'] - 1], got.tolist(),
                              want.tolist()))
            elif self.pending and self.pending['args'][0] == r:
                bad += self.check_eval(self.pending,
                                       want.reshape(-1, 6).tolist())
        self.pending = None
        return bad


def named(chk, rng):
    jobs = []
    for k in range(chk.budget(4, 12)):
        two = [5 + k % 4, rng.randint(1, len(STRUCTS))]
        jobs.append(('GMixNamed', dict(constants=dict(
            Regs={1, 2}, Structs=set(two), Fills={1, 2}, Fluxes={1, 2},
            Cens={1}, Shears={1}, Hows={'copy', 'copy.copy', 'deepcopy'},
            Evals=set(rng.sample(EVALS, 3)), MaxOdd=chk.budget(2, 3)),
            view='View', emit='Emit', constraint='Bounded',
            properties=['FillDetermines', 'StructureMoves',
                        'OthersUntouched', 'RefusedUnchanged'])))
    for r in tlc.parallel(jobs):
        chk.tlc(r, 'GMixNamed')
        g = Graph(r.records)
        g.inits = [s for s in g.states if all(
            x['k'] == 1 and not (x['f'] or x['c'] or x['g'])
            for x in g.states[s])]
        paths = list(g.covering_paths(seed=chk.seed, max_len=40,
                                      budget=chk.budget(1200, 60000)))
        paths += list(g.random_paths(10, 25, seed=chk.seed))
        replay(chk, g, Named, paths, 'profile')


def check(chk):
    warm()
    named(chk, random.Random(chk.seed))
    rng = random.Random(chk.seed)
    n = chk.budget(20, 72)
    cfgs = swarm(rng, n, chk.thorough)
    # everything at once, shallow
    go(chk, cfgs, PROPS, INVS, chk.budget(1500, 60000), 'mixture', False)
