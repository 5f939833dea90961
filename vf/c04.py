"""C04: epoch and band containers."""
import numpy as np
import ngmix
from . import tlc
from .graph import Graph
from .replay import Driver, replay
from .term import val, close

IMG = [[1, 2, 3, 4], [-5, 0, 7, 1], [8, 8]]
WTS = [[1, 4, 2, 1], [0, 4, 0, -1], [0, 0, -1, 0]]


class Real(Driver):
    kind = 'R'

    def __init__(self, st, rng):
        self.rng = rng
        # the unit of the weights: sums of variances go with its inverse
        self.unit = rng.choice([1., 4. ** -20, 4. ** 15])
        self.obs = []
        for o, im in enumerate(IMG):
            a = np.array(im, dtype='f8').reshape(2, -1)
            ob = ngmix.Observation(a, weight=self.wt(o, st['wt'][o]),
                                   ignore_zero_weight=False,
                                   meta={'id': o},
                                   jacobian=ngmix.UnitJacobian(row=0, col=0))
            self.obs.append(ob)
        self.L = [ngmix.ObsList(meta={'l': l}) for l in range(len(st['lists']))]
        self.M = ngmix.MultiBandObsList(meta={'m': 1})

    def wt(self, o, w):
        n = len(IMG[o])
        return self.unit * np.array(WTS[w - 1][:n],
                                    dtype='f8').reshape(2, -1)

    def wrong(self, x):
        return {'int': 3, 'none': None, 'list': [self.obs[0]],
                'array': np.ones((2, 2)),
                'obs': self.obs[0], 'obslist': self.L[0],
                'mb': ngmix.MultiBandObsList(),
                'kobs': kobs(), 'kobslist': ngmix.observation.KObsList(),
                'kmb': ngmix.observation.KMultiBandObsList(),
                'other': kobs()}[x]

    def op_append_list(self, l, o):
        self.L[l - 1].append(self.obs[o - 1])

    def op_set_list(self, l, i, o):
        lst = self.L[l - 1]
        k = i - 1
        if self.rng.random() < 0.4 and i <= len(lst):
            k -= len(lst)
        lst[k] = self.obs[o - 1]

    def op_pop_list(self, l):
        self.L[l - 1].pop()

    def op_append_list_wrong(self, l, x):
        self.L[l - 1].append(self.wrong(x))

    def op_set_list_wrong(self, l, i, x):
        self.L[l - 1][i - 1] = self.wrong(x)

    def op_append_mb(self, l):
        self.M.append(self.L[l - 1])

    def op_set_mb(self, i, l):
        self.M[i - 1] = self.L[l - 1]

    def op_append_mb_wrong(self, x):
        self.M.append(self.wrong(x))

    def op_set_mb_wrong(self, i, x):
        self.M[i - 1] = self.wrong(x)

    def op_set_weight(self, o, w):
        self.obs[o - 1].weight = self.wt(o - 1, w)

    def norm(self, x):
        return ngmix.observation.get_mb_obs(x)

    def op_normalise(self, k, x, want):
        arg = (self.obs[x - 1] if k == 'obs' else
               self.L[x - 1] if k == 'list' else self.M)
        return self.norm(arg), arg

    def op_normalise_wrong(self, x):
        self.norm(self.wrong(x))

    def check_result(self, act):
        if act['op'] != 'normalise':
            return []
        res, arg = self.result
        k, x, want = act['args']
        if not isinstance(res, type(self.M)):
            return ['normalised to %s' % type(res)]
        got = []
        for lst in res:
            if not isinstance(lst, type(self.L[0])):
                return ['normalised band is a %s' % type(lst)]
            row = []
            for ob in lst:
                ids = [i for i, o in enumerate(self.obs) if o is ob]
                row.append(ids[0] + 1 if ids else None)
            got.append(row)
        bad = []
        if got != [list(b) for b in want]:
            bad.append('normalised to %r, spec %r' % (got, want))
        if k == 'list' and res[0].meta != {'l': x - 1}:
            bad.append('list metadata lost')
        if k == 'mb' and res.meta != {'m': 1}:
            bad.append('band list metadata lost')
        return bad

    def members(self, st):
        bad = []
        for l, (lst, want) in enumerate(zip(self.L, st['lists'])):
            if len(lst) != len(want) or any(
                    a is not self.obs[o - 1] for a, o in zip(lst, want)):
                bad.append('epoch list %d differs' % (l + 1))
            if lst.meta != {'l': l}:
                bad.append('epoch list metadata')
        if len(self.M) != len(st['mb']) or any(
                a is not self.L[l - 1] for a, l in zip(self.M, st['mb'])):
            bad.append('band list differs')
        if self.M.meta != {'m': 1}:
            bad.append('band list metadata')
        return bad

    def differences(self, st):
        bad = self.members(st)
        s = st['sums']
        for name, objs, wants in (('observation', self.obs, s['o']),
                                  ('epoch list', self.L, s['l']),
                                  ('band list', [self.M], [s['m']])):
            for i, (ob, want) in enumerate(zip(objs, wants)):
                isum, vsum, npix = ob.get_s2n_sums()
                s2n = ob.get_s2n()
                wsn = val(want['s2n'])
                if want['n']:
                    wsn *= np.sqrt(self.unit)
                if not (close(isum, want['i']) and close(
                        vsum * self.unit, val(want['v']))
                        and npix == want['n'] and close(s2n, wsn)):
                    bad.append('%s %d sums %r, spec %r' % (
                        name, i + 1, (isum, vsum, npix, s2n), want))
        return bad


def kobs():
    import galsim
    return ngmix.observation.KObservation(
        galsim.Image(np.ones((4, 4), dtype=complex), scale=0.5))


class KReal(Real):
    kind = 'K'

    def __init__(self, st, rng):
        self.rng = rng
        self.obs = [kobs() for _ in IMG]
        self.L = [ngmix.observation.KObsList(meta={'l': l})
                  for l in range(len(st['lists']))]
        self.M = ngmix.observation.KMultiBandObsList(meta={'m': 1})

    def wrong(self, x):
        o = ngmix.Observation(np.ones((2, 2)))
        return {'int': 3, 'none': None, 'list': [self.obs[0]],
                'array': np.ones((2, 2), dtype=complex),
                'obs': o, 'obslist': ngmix.ObsList(),
                'mb': ngmix.MultiBandObsList(),
                'kobs': self.obs[0], 'kobslist': self.L[0],
                'kmb': self.M, 'other': o}[x]

    def norm(self, x):
        return ngmix.observation.get_kmb_obs(x)

    def differences(self, st):
        return self.members(st)


WL = {'int', 'none', 'list', 'array', 'obslist', 'mb', 'kobs'}
WM = {'int', 'none', 'list', 'obs', 'mb', 'kobslist'}


def check(chk):
    deep = chk.thorough
    jobs = []
    for what, fac, sums, wl, wm in (
            ('lists', Real, True, WL, WM),
            ('Fourier lists', KReal, False,
             {'int', 'none', 'array', 'kobslist', 'kmb', 'obs'},
             {'int', 'none', 'kobs', 'kmb', 'obslist'})):
        cfgs = [dict(cfg, Img=IMG, WrongL=wl, WrongM=wm, Sums=sums)
                for cfg in configs(deep, sums)]
        for cfg in cfgs:
            jobs.append((what, fac, ('ObsLists', dict(
                constants=cfg, invariants=['TypeOK', 'Additive'],
                properties=['RejectedUnchanged'], view='View',
                emit='Emit'))))
    runs = tlc.parallel([j[2] for j in jobs])
    for (what, fac, _), r in zip(jobs, runs):
        chk.tlc(r, 'ObsLists ' + what)
        g = Graph(r.records)
        replay(chk, g, fac, g.covering_paths(
            seed=chk.seed, budget=chk.budget(14000, 10**7)), what)
        replay(chk, g, fac, g.random_paths(
            chk.budget(100, 3000), 40, seed=chk.seed), what + ' walk')


def configs(deep, sums):
    w3 = WTS
    if not sums:
        return [dict(NL=2, MaxEpoch=2, MaxBand=2, WtPats=w3[:1])]
    out = [dict(NL=1, MaxEpoch=3, MaxBand=2 if deep else 1,
                WtPats=w3 if deep else w3[:2]),
           dict(NL=1, MaxEpoch=2, MaxBand=2, WtPats=w3),
           dict(NL=2, MaxEpoch=1, MaxBand=2, WtPats=w3[:2 if deep else 1])]
    if deep:
        out.append(dict(NL=2, MaxEpoch=2, MaxBand=2, WtPats=w3[:2]))
    return out
