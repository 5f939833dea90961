"""C03: copies and equality."""
import copy
import random

import numpy as np
from .report import shard
import ngmix

from . import tlc
from .graph import Graph

DIMS = (2, 3)
ARR = {
    'image': lambda v: np.arange(6.).reshape(DIMS) + v,
    'weight': lambda v: np.full(DIMS, float(v)),
    'bmask': lambda v: np.arange(6, dtype='i4').reshape(DIMS) + v,
    'ormask': lambda v: np.arange(6, dtype='i4').reshape(DIMS) * v,
    'noise': lambda v: np.arange(6.).reshape(DIMS) / 2 - v,
    'mfrac': lambda v: np.arange(6.).reshape(DIMS) / 8 * v,
}
# 3rd and 4th values: differ in shape/size of the content in ways a careless
# comparison would miss
JAC = {1: dict(row=0.5, col=1, dvdrow=0.25, dvdcol=0, dudrow=0, dudcol=0.25),
       2: dict(row=0.75, col=1, dvdrow=0.25, dvdcol=0, dudrow=0, dudcol=0.25),
       3: dict(row=0.5, col=1, dvdrow=0.25, dvdcol=0.5, dudrow=0,
               dudcol=0.25)}


def psf(v):
    o = ngmix.Observation(
        np.arange(4.).reshape(2, 2) + 1,
        jacobian=ngmix.DiagonalJacobian(row=0.5, col=0.5, scale=0.5))
    if v == 2:
        edit_psf(o)
    elif v == 3:
        # one more part than value 1
        o.set_gmix(gmix(1))
    return o


def edit_psf(o):
    with o.writeable():
        o.image[1, 0] = 99.0


def gmix(v):
    pars = [1.0, 0.0, 0.0, 2.0, 0.5, 3.0]
    if v == 2:
        pars[0] = 2.0
    elif v == 3:
        # the same component twice: equal arrays only by broadcasting
        pars = pars + pars
    return ngmix.GMix(pars=pars)


def meta(v):
    return {0: {}, 1: {'k': [1]}, 2: {'k': [1, 9]}}[v]


LMETA = {1: lambda: [1], 2: lambda: [1, 5]}


def value(p, v):
    if v == 0 and p != 'meta':
        return None
    if p in ARR:
        return ARR[p](v)
    return {'jacobian': lambda v: ngmix.Jacobian(**JAC[v]),
            'psf': psf, 'gmix': gmix, 'meta': meta}[p](v)


class Real(object):
    def __init__(self, lift, rng):
        self.lift = lift
        self.rng = rng
        self.reg = {'a': self.wrap(ngmix.Observation(
            value('image', 1), weight=value('weight', 1),
            jacobian=value('jacobian', 1)))}

    def wrap(self, obs):
        if self.lift == 'obs':
            return obs
        first = ngmix.Observation(np.ones((2, 2)), meta={'first': [0]})
        ol = ngmix.ObsList(meta={'list': LMETA[1]()})
        if self.lift == 'list':
            ol.append(first)
            ol.append(obs)
            return ol
        ol.append(obs)
        mb = ngmix.MultiBandObsList(meta={'mb': LMETA[1]()})
        fl = ngmix.ObsList()
        fl.append(first)
        mb.append(fl)
        mb.append(ol)
        return mb

    def obs(self, r):
        x = self.reg[r]
        if self.lift == 'obs':
            return x
        if self.lift == 'list':
            return x[1]
        return x[1][0]

    def containers(self, r):
        x = self.reg[r]
        return {'list': lambda: [(x, 'list')],
                'mb': lambda: [(x, 'mb'), (x[1], 'list')]}[self.lift]()

    def do(self, act):
        op, args = act['op'], act['args']
        if op == 'copy':
            f = {'method': lambda x: x.copy(), 'copy': copy.copy,
                 'deepcopy': copy.deepcopy}[args[0]]
            self.reg['b'] = f(self.reg['a'])
        elif op == 'set':
            r, p, v = args
            o = self.obs(r)
            if p == 'lmeta':
                for c, name in self.containers(r):
                    c.set_meta({name: LMETA[v]()})
                return
            if p in ('store_pixels', 'ignore_zero_weight'):
                setattr(o, p, v == 1)
                return
            val = value(p, v)
            if self.rng.random() < 0.5:
                setattr(o, p, val)
            else:
                getattr(o, 'set_' + p)(val)
        elif op == 'edit':
            r, p = args
            o = self.obs(r)
            if p == 'psf':
                edit_psf(o.psf)
            elif p == 'lmeta':
                for c, name in self.containers(r):
                    c.meta[name].append(5)
            elif p == 'meta':
                o.meta['k'].append(9)
            elif p == 'jacobian':
                with o.writeable():
                    o.jacobian.set_cen(row=JAC[2]['row'], col=JAC[2]['col'])
            else:
                with o.writeable():
                    getattr(o, p)[...] = value(p, 2)

    def differences(self, st):
        bad = []
        regs = ['a'] + (['b'] if st['hasb'] else [])
        for r in regs:
            bad += ['%s.%s' % (r, d)
                    for d in self.part_differences(r, self.obs(r), st[r])]
        if st['hasb']:
            A, B = self.reg['a'], self.reg['b']
            if type(A) is not type(B):
                bad.append('type of the copy')
            for x, y, n in ((A, B, 'a == b'), (B, A, 'b == a')):
                try:
                    got = bool(x == y)
                    ne = bool(x != y)
                except Exception as err:
                    bad.append('%s raised %r, spec %r' % (n, err, st['eq']))
                    continue
                if got != st['eq'] or ne == st['eq']:
                    bad.append('%s is %r (and != is %r), spec %r'
                               % (n, got, ne, st['eq']))
            if self.lift != 'obs':
                if len(A) != 2 or len(B) != 2:
                    bad.append('container length')
        return bad

    def part_differences(self, r, o, s):
        bad = []
        for p, v in s.items():
            if p == 'store_pixels':
                if bool(o.store_pixels) != (v == 1):
                    bad.append(p)
                if (o.pixels is not None) != (v == 1):
                    bad.append('pixels with ' + p)
                continue
            if p == 'ignore_zero_weight':
                if bool(o.ignore_zero_weight) != (v == 1):
                    bad.append(p)
                continue
            if p == 'lmeta':
                for c, name in self.containers(r):
                    if c.meta != {name: LMETA[v]()}:
                        bad.append('container metadata %r' % (c.meta,))
                continue
            if p == 'meta':
                if o.meta != meta(v):
                    bad.append('meta %r' % (o.meta,))
                continue
            if hasattr(o, 'has_' + p):
                has = getattr(o, 'has_' + p)()
                if has != (v != 0):
                    bad.append('has_%s' % p)
                if not has or v == 0:
                    continue
            got, ref = getattr(o, p), value(p, v)
            if p in ARR:
                same = np.array_equal(got, ref)
            elif p == 'jacobian':
                names = ('row0', 'col0', 'dvdrow', 'dvdcol', 'dudrow',
                         'dudcol')
                same = all(getattr(got, n) == getattr(ref, n) for n in names)
            elif p == 'gmix':
                same = np.array_equal(got.get_full_pars(),
                                      ref.get_full_pars())
            else:
                same = (np.array_equal(got.image, ref.image)
                        and got.has_gmix() == ref.has_gmix())
            if not same:
                bad.append(p)
        return bad


def check(chk):
    cfg = dict(
        Required=dict(image=2, weight=2, jacobian=3),
        Optional=dict(bmask=2, ormask=2, noise=2, mfrac=2, psf=3, gmix=3,
                      meta=2),
        Options=dict(store_pixels=2, ignore_zero_weight=2),
        Nested={'image', 'weight', 'jacobian', 'bmask', 'ormask', 'noise',
                'mfrac', 'psf', 'meta'},
        MaxOdd=chk.budget(2, 3))
    # containers have metadata of their own, which is copied, not compared
    lists = dict(cfg, Optional=dict(noise=2, psf=3, gmix=3, meta=2),
                 Options=dict(store_pixels=2, lmeta=2),
                 Nested={'image', 'jacobian', 'noise', 'psf', 'meta',
                         'lmeta'})
    kw = dict(view='View', emit='Emit', constraint='Bounded',
              properties=['CopyIsEqual', 'Independent', 'Independent2'])
    graphs = []
    for c, r in zip((cfg, lists), tlc.parallel(
            [('ObsCopy', dict(kw, constants=c)) for c in (cfg, lists)])):
        chk.tlc(r, 'ObsCopy')
        # keep transitions inside the bound, where the outgoing ones are known
        graphs.append(Graph(r.records, init=[r.records[0]['f']]))
    for lift, share, g in (('obs', 1.0, graphs[0]), ('list', 0.4, graphs[1]),
                           ('mb', 0.4, graphs[1])):
        n = int(chk.budget(24000, 1200000) * share)
        paths = list(g.covering_paths(seed=chk.seed + len(lift), max_len=30,
                                      budget=n))
        paths += list(g.random_paths(chk.budget(200, 5000), 25,
                                     seed=chk.seed))
        def one(path, i):
            rng = random.Random(chk.seed * 31 + i)
            real = Real(lift, rng)
            hist = []
            for e in path:
                hist.append(e.act)
                try:
                    real.do(e.act)
                    bad = real.differences(g.states[e.dst])
                except Exception as err:
                    bad = ['raised %r' % err]
                chk.comparisons += 1
                if bad:
                    chk.violation('%s: after %s%r: %s' % (
                        lift, e.act['op'], tuple(e.act['args']),
                        '; '.join(bad)), history=hist)
                    break
            chk.trace(1, len(path))
            if len(path) > 6:
                chk.sample([lift] + [[e.act['op']] + e.act['args']
                                     for e in path[:10]])
        shard(chk, one, paths)
