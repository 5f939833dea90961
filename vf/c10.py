"""C10: shapes and shears."""
import copy
import math
import random

import numpy as np
import ngmix
from ngmix import shape as S, moments as M
from ngmix.gexceptions import GMixRangeError

from . import tlc, term
from .c05 import q, vec
from .c06 import raw
from .graph import Graph
from .replay import replay, Driver
from .report import shard

INVS = ['Inside', 'ZeroLaw', 'Undo', 'StaysInside', 'RotationLaw',
        'Equivariant', 'MomLaw']
PROPS = ['RefusedUnchanged']
IN = [vec(0, 0), vec((1, 2), 0), vec(0, (-1, 3)), vec((1, 5), (2, 5)),
      vec((-3, 5), (1, 2)), vec((-1, 10), (-3, 10)), vec((1, 100), 0),
      vec((2, 3), (-2, 3)), vec((9, 10), 0), vec(0, (19, 20)), vec((-99, 100), 0),
      vec((-1, 50), (1, 25)), vec((7, 10), (7, 10)), vec(0, (1, 1000))]
OUT = [vec(1, 0), vec(0, -1), vec(2, 0), vec((9, 10), (9, 10)), vec(0, 3),
       vec(-1, (1, 10)), vec((3, 2), -2)]
TURNS = [vec((3, 5), (4, 5)), vec(0, 1), vec(-1, 0), vec((-5, 13), (12, 13)),
         vec((4, 5), (-3, 5)), vec(1, 0)]
OPS = ['set', 'shear', 'shear_by', 'rotate', 'neg', 'copy']


class Real(Driver):
    def __init__(self, state, rng):
        self.rng = rng
        self.s = {r: S.Shape(term.qf(v[0]), term.qf(v[1]))
                  for r, v in enumerate(state['sh'], 1)}

    def num(self, g):
        a, b = term.qf(g[0]), term.qf(g[1])
        return (np.float64(a), np.float64(b)) if self.rng.random() < .3 \
            else (a, b)

    def refuse(self, f, *a):
        try:
            return f(*a)
        except GMixRangeError:
            raise

    def op_set(self, r, g):
        self.s[r].set_g1g2(*self.num(g))

    def op_new(self, r, g):
        self.s[r] = S.Shape(*self.num(g))

    def op_shear(self, r, s, t):
        self.s[t] = self.s[r].get_sheared(*self.num(s))

    def op_shear_by(self, r, o, t):
        self.s[t] = self.s[r].get_sheared(self.s[o])

    def op_shear_half(self, r):
        self.s[r].get_sheared(0.1)

    def op_rotate(self, r, c):
        self.s[r].rotate(math.atan2(term.qf(c[1]), term.qf(c[0])) / 2)

    def op_get_rotated(self, r, c, t):
        th = math.atan2(term.qf(c[1]), term.qf(c[0])) / 2
        self.s[t] = self.s[r].get_rotated(
            th + self.rng.choice([0, math.pi, -math.pi]))

    def op_neg(self, r, t):
        self.s[t] = -self.s[r]

    def op_copy(self, r, t, h):
        f = {'copy': lambda s: s.copy(), 'copy.copy': copy.copy,
             'deepcopy': copy.deepcopy}[h]
        self.s[t] = f(self.s[r])

    def op_eval(self):
        pass

    def check_result(self, act):
        if not act['ok'] and act['op'] != 'shear_half' and not isinstance(
                self.err, GMixRangeError):
            return ['refused with %r' % self.err]
        return []

    def differences(self, state):
        bad = []
        if self.s[1] is self.s[2]:
            bad.append('two shapes became one')
        for r, v in enumerate(state['sh'], 1):
            g1, g2 = term.qf(v[0]), term.qf(v[1])
            s = self.s[r]
            g = math.hypot(g1, g2)
            tol = 1e-12 / (1 - g)
            if not (abs(s.g1 - g1) <= tol and abs(s.g2 - g2) <= tol
                    and abs(s.g - g) <= tol):
                bad.append('shape %d is (%r, %r) of modulus %r, '
                           'specification (%r, %r)'
                           % (r, s.g1, s.g2, s.g, g1, g2))
            if 'd' in state:
                o = state['sh'][2 - r]
                bad += functions((g1, g2), tuple(term.qf(x) for x in o),
                                 state['d'][r - 1], self.rng)
        return bad


def pair(x):
    return tuple(term.qf(v) for v in x)


def functions(g, h, d, rng):
    """module functions against what is derived, scalar and array"""
    bad = []
    e, sh = pair(d['e']), pair(d['sheared'])
    m, sm = pair(d['mom']), pair(d['shmom'])
    mod = math.hypot(*g)
    modmax = max(mod, math.hypot(*h), math.hypot(*sh))
    tol = 1e-12 / (1 - modmax) ** 2
    eta = 2 * math.atanh(mod)
    et = (eta * g[0] / mod, eta * g[1] / mod) if mod else (0., 0.)
    # every conversion, there and back
    for name, f, a, want in (
            ('g1g2_to_e1e2', S.g1g2_to_e1e2, g, e),
            ('e1e2_to_g1g2', S.e1e2_to_g1g2, e, g),
            ('g1g2_to_eta1eta2', S.g1g2_to_eta1eta2, g, et),
            ('eta1eta2_to_g1g2', S.eta1eta2_to_g1g2, et, g),
            ('e1e2_to_eta1eta2', S.e1e2_to_eta1eta2, e, et),
            ('shear_reduced', S.shear_reduced, g + h, sh),
            ('rotate_shape by nothing', S.rotate_shape, g + (0.,), g),
            ('rotate_shape', lambda x, y: S.rotate_shape(x, y, math.pi / 4),
             g, (g[1], -g[0])),
            ('dgs_by_dgo_jacob', lambda *x: (S.dgs_by_dgo_jacob(*x),),
             g + h, (term.val(d['jac']),)),
            ('get_round_factor', lambda *x: (S.get_round_factor(*x),), g,
             (term.qf(d['round']),)),
            ('g2mom', M.g2mom, g + (1.,), m),
            ('g2mom', M.g2mom, g + (3.5,), tuple(3.5 * x for x in m)),
            ('e2mom', M.e2mom, e + (1.,), m),
            ('mom2e', M.mom2e, m, e + (1.,)),
            ('mom2g', M.mom2g, m, g + (1.,)),
            ('mom2g', M.mom2g, tuple(2.25 * x for x in m), g + (2.25,)),
            ('moms_to_e1e2', M.moms_to_e1e2,
             (m[2] - m[0], 2 * m[1], m[0] + m[2]), e),
            ('get_sheared_moments', M.get_sheared_moments, m + h, sm),
            ('get_sheared_M1M2T', M.get_sheared_M1M2T,
             (m[2] - m[0], 2 * m[1], m[0] + m[2]) + h,
             (sm[2] - sm[0], 2 * sm[1], sm[0] + sm[2])),
            ('get_sheared_g1g2T', M.get_sheared_g1g2T, g + (1.,) + h,
             sh + (sm[0] + sm[2],)),
            ('get_Tround', lambda *x: (M.get_Tround(*x),), (1.,) + g,
             (term.qf(d['round']),)),
            ('get_T', lambda *x: (M.get_T(*x),),
             (term.qf(d['round']),) + g, (1.,))):
        if not d['small'] and ('shear' in name or 'dgs' in name):
            continue
        got = f(*a)
        arrs = [np.array([x, x, x]) for x in a]
        # other entries must not matter
        for x, y in zip(arrs, a):
            x[rng.randint(0, 1)] = y
        keep = [x.copy() for x in arrs]
        if name == 'rotate_shape by nothing':
            arrs[2] = 0.0
        garr = f(*arrs)
        one = f(*[np.array([x]) for x in a])
        for i, w in enumerate(want):
            t = tol * (1 + abs(w))
            if not abs(got[i] - w) <= t:
                bad.append('%s%r gives %r, specification %r'
                           % (name, a, got, want))
                break
            if np.shape(got[i]) != ():
                bad.append('%s of scalars is not scalar' % name)
            for u, n in ((garr, 3), (one, 1)):
                if np.shape(u[i]) != (n,) or not np.all(
                        np.abs(np.asarray(u[i]) - w) <= t):
                    bad.append('%s%r on arrays gives %r, specification %r'
                               % (name, a, u, want))
                    break
        for x, y in zip(arrs, keep):
            if isinstance(x, np.ndarray) and not np.array_equal(x, y):
                bad.append('%s changed its argument' % name)
    # sizes
    return bad


def outside(chk):
    """conversions refuse the disk's edge and beyond, in any array position"""
    n = 0
    for o in OUT:
        a, b = term.qf(o[0]), term.qf(o[1])
        for f in (S.g1g2_to_e1e2, S.e1e2_to_g1g2, S.g1g2_to_eta1eta2,
                  S.e1e2_to_eta1eta2):
            forms = [(a, b)]
            for k in range(3):
                x, y = np.array([.1, .0, -.2]), np.array([.3, .0, .1])
                x[k], y[k] = a, b
                forms.append((x, y))
            for x, y in forms:
                n += 1
                try:
                    r = f(x, y)
                except GMixRangeError:
                    continue
                chk.violation('%s(%r, %r) was accepted and gives %r'
                              % (f.__name__, x, y, r))
    for T in (0.0, -1.0):
        for t in (T, np.array([1.0, T])):
            n += 1
            try:
                M.moms_to_e1e2(t * 0, t * 0, t)
            except GMixRangeError:
                continue
            chk.violation('moms_to_e1e2 accepted the size %r' % t)
    # a mixed array: every element is converted on its own
    g = np.array([[term.qf(x) for x in v] for v in IN])
    for f in (S.g1g2_to_e1e2, S.e1e2_to_g1g2, S.g1g2_to_eta1eta2,
              S.e1e2_to_eta1eta2, S.eta1eta2_to_g1g2):
        n += 1
        x, y = f(g[:, 0].copy(), g[:, 1].copy())
        for i in range(len(g)):
            w = f(g[i, 0], g[i, 1])
            if not (abs(x[i] - w[0]) < 1e-13 * (1 + abs(w[0]))
                    and abs(y[i] - w[1]) < 1e-13 * (1 + abs(w[1]))):
                chk.violation('%s of element %d of an array differs from its '
                              'scalar form' % (f.__name__, i))
    # sizes: the conversions are those of a round gaussian
    for v in (0.3, 1.0, 4.7):
        s8 = math.sqrt(8 * math.log(2))
        T = 2 * v * v
        for name, got, want in (
                ('sigma_to_fwhm', M.sigma_to_fwhm(v), v * s8),
                ('fwhm_to_sigma', M.fwhm_to_sigma(v * s8), v),
                ('T_to_fwhm', M.T_to_fwhm(T), v * s8),
                ('fwhm_to_T', M.fwhm_to_T(v * s8), T),
                ('sigma_to_r50', M.sigma_to_r50(v), v * s8 / 2),
                ('r50_to_sigma', M.r50_to_sigma(v * s8 / 2), v),
                ('r50_to_T', M.r50_to_T(v * s8 / 2), T),
                ('T_to_r50', M.T_to_r50(T), v * s8 / 2)):
            n += 1
            if abs(got - want) > 1e-12 * want:
                chk.violation('%s gives %r, specification %r'
                              % (name, got, want))
    chk.comparisons += n


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough
    jobs = []
    for k in range(chk.budget(7, 28)):
        jobs.append(dict(
            Start=raw(rng.sample(IN, 4)), Sets=raw(
                rng.sample(IN, 2) + rng.sample(OUT, 2)),
            Shears=raw(rng.sample(IN[1:], 2) + rng.sample(OUT[2:], 1)),
            Turns=raw(rng.sample(TURNS, 2)),
            Ops=set(rng.sample(OPS, 4 if deep else 3)),
            MaxEdits=2, MaxNum=2000))
    # every pair of shapes of a finer grid
    grid = [vec((i, 5), (j, 5)) for i in range(-4, 5) for j in range(-4, 5)
            if i * i + j * j < 25]
    jobs.append(dict(Start=raw(grid if deep else rng.sample(grid, 22)),
                     Sets=raw(IN[:1]), Shears=raw(IN[:1]),
                     Turns=raw(TURNS[:1]), Ops={'none'}, MaxEdits=0,
                     MaxNum=400))
    rs = tlc.parallel([('Shapes', dict(
        constants=c, invariants=INVS, properties=PROPS, view='View',
        emit='Emit')) for c in jobs])
    outside(chk)
    for c, r in zip(jobs, rs):
        chk.tlc(r, 'Shapes')
        g = Graph(r.records)
        g.inits = [s for s, v in g.states.items() if v['edits'] == 0]
        replay(chk, g, Real,
               list(g.covering_paths(seed=chk.seed, max_len=30,
                                     budget=chk.budget(4000, 60000)))
               + list(g.random_paths(30, 12, seed=chk.seed)), 'shape')
