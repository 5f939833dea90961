"""C06: exact moment algebra of mixtures."""
import random

from . import tlc
from . import c05
from .c05 import vec, q

INVS = ['NeverStale']
PROPS = ['RefusedUnchanged', 'FluxLaw', 'CenLaw', 'ConvLaw', 'RoundLaw',
         'ShearLaw']
FULL = [vec(2, 0, 0, 2, (1, 2), 1, 1, (1, 2), (-1, 2), 1, 0, 3),
        vec(3, 1, 2, 5, -2, 2),
        vec(1, 1, 0, 1, 0, 1, 2, -1, 1, 2, 1, 2, 1, 0, -2, 3, -1, 1),
        vec(3, 0, 1, 2, 1, 2, -1, 2, 0, 1, 0, 1),
        vec(1, 0, 0, 4, 0, 1, 4, 1, 0, 1, 0, 4),
        vec((1, 2), -1, 1, 5, 4, 5),
        vec(2, 1, 1, 1, 0, 4, -1, 1, 1, 2, 1, 1),
        vec(1, 2, 0, 0, 0, 0, 1, 0, 2, 0, 0, 0),
        vec(1, 0, 0, 1, 2, 1, 1, 0, 1, 1, 0, 1)]
GAUSS = [vec((1, 2), 0, (1, 2), (1, 2), 4, 3),
         vec(0, -1, 0, (1, 3), 2, 5),
         vec(2, 1, (-1, 2), 0, 6, -2),
         vec(0, 0, 0, 0, 4, 1)]
COELL = [vec(0, 1, (1, 3), 0, 2, 5, 1, 3),
         vec((1, 2), 0, (-1, 5), (2, 5), 3, 1, 2, -1),
         vec(-1, 2, 0, (-1, 2), 4, 2, 1, 1)]
PARS = dict(full=FULL, gauss=GAUSS, coellip=COELL)
SHEARS = [[q(1, 3), q(0)], [q(0), q(-1, 2)], [q(1, 2), q(1, 2)],
          [q(-1, 3), q(0)], [q(0), q(1, 3)]]
ALL = ['refill', 'reset', 'set_flux', 'set_cen', 'shear', 'round', 'convolve',
       'copy', 'concat']


def raw(xs):
    return tlc.Raw('{' + ', '.join(tlc.tla_value(x) for x in xs) + '}')


def cfg(rng, start, ops, edits):
    return dict(
        Regs={1, 2}, Kinds={s[0] for s in start}, Pars=PARS, Start=start,
        Fluxes=raw([q(7), q(-2), q(1, 3)] if edits == 1 else
                   [rng.choice([q(7), q(-2)])]),
        Cens=raw([[q(1), q(-1, 2)], [q(0), q(0)]] if edits == 1 else
                 [[q(1), q(-1, 2)]]),
        Shears=raw(SHEARS[:3] if edits == 1 else [rng.choice(SHEARS)]),
        Ops=set(ops), EvalKinds={'norms'}, MaxEdits=edits, MaxComps=9,
        MaxNum=150, XEval='norms')


def starts(rng, n):
    every = [(k, i + 1) for k in PARS for i in range(len(PARS[k]))]
    rng.shuffle(every)
    while len(every) < 2 * n:
        every.append(rng.choice(every))
    return [[list(every[2 * i]), list(every[2 * i + 1])] for i in range(n)]


def check(chk):
    rng = random.Random(chk.seed)
    cfgs = [cfg(rng, s, set(ALL) - {'reset', 'refill'}, 1)
            for s in starts(rng, chk.budget(7, 40))]
    pairs = [(a, b) for i, a in enumerate(ALL) for b in ALL[i:]
             if not {a, b} <= {'reset', 'refill', 'copy'}]
    rng.shuffle(pairs)
    n = chk.budget(8, 80)
    for k, s in enumerate(starts(rng, n)):
        ops = set(pairs[k % len(pairs)])
        if chk.thorough:
            ops.add(rng.choice(ALL))
        cfgs.append(cfg(rng, s, ops | {'wrongfill'}, 2))
    c05.go(chk, cfgs, PROPS, INVS, chk.budget(1500, 40000), 'moments', True)
