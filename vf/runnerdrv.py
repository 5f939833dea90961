"""Real runners with a scripted fitter and a recording guesser."""
import numpy as np
import ngmix

NAMES = ('a', 'b', 'c', 'd', 'e', 'f')


class FitRaised(Exception):
    pass


class Res(dict):
    """a result without a mixture"""


class MixRes(Res):
    def get_gmix(self):
        g = ngmix.GMixModel([0, 0, 0, 0, 1.0, 10.0 + self['id']], 'gauss')
        return g


class World(object):
    """the observations of a configuration, the script and the record"""

    def __init__(self, cfg, outcomes, rng, psf=None):
        self.outcomes = list(outcomes)
        self.log = []
        self.nfit = self.nguess = 0
        self.guesses = {}
        self.results = {}
        self.targets = {}
        self.tname = {}
        self.keep = []
        bands = [[self.make(t, rng) for t in b] for b in cfg['target']]
        if cfg['kind'] == 'obs':
            self.input = bands[0][0]
        else:
            lists = []
            for b in bands:
                ol = ngmix.ObsList()
                for o in b:
                    ol.append(o)
                lists.append(ol)
            if cfg['kind'] == 'list':
                self.input = lists[0]
            else:
                self.input = ngmix.MultiBandObsList()
                for ol in lists:
                    self.input.append(ol)

    def make(self, t, rng):
        """an observation whose fit target is named t"""
        if t in self.targets and not self.targets[t][1]:
            return self.targets[t][0]
        im = rng.normal(size=(3, 4))
        if t in self.targets:
            psf, wrapped = self.targets[t]
            return ngmix.Observation(im, psf=psf)
        if rng.uniform() < 0.6:
            psf = ngmix.Observation(rng.normal(size=(3, 3)))
            o = ngmix.Observation(im, psf=psf)
            self.targets[t] = (psf, True)
        else:
            o = ngmix.Observation(im)
            self.targets[t] = (o, False)
        self.keep.append(o)
        return o

    def name(self, obs):
        if obs is self.input and self.mode == 'fit':
            return 'all'
        for t, (o, _) in self.targets.items():
            if o is obs:
                return t
        return 'unknown'

    # fitter and guesser
    def go(self, obs, **kw):
        self.nfit += 1
        g = 0
        if 'guess' in kw:
            g = self.guesses.get(id(kw['guess']), -1)
        if set(kw) - {'guess'}:
            g = -2
        kind, f, m = (self.outcomes.pop(0) if self.outcomes
                      else ('fit', 99, False))
        self.log.append(dict(e=kind, t=self.name(obs), g=g, flags=f, mix=m))
        if self.nfit > 200:
            raise RuntimeError('runaway')
        if kind == 'raise':
            raise FitRaised()
        r = (MixRes if m else Res)(flags=f, id=self.nfit)
        self.results[id(r)] = self.nfit
        self.keep.append(r)
        return r

    def guess(self, obs, **kw):
        self.nguess += 1
        self.log.append(dict(e='guess', t=self.name(obs), g=self.nguess,
                             flags=0, mix=False))
        g = np.zeros(3) + self.nguess
        self.guesses[id(g)] = self.nguess
        self.keep.append(g)
        return g

    __call__ = guess

    def ids(self, res):
        if isinstance(res, list):
            return [self.ids(r) for r in res]
        return self.results.get(id(res), -1)

    def stored(self):
        meta = {t: 0 for t in ('all',) + NAMES}
        mix = dict(meta)
        for t, (o, _) in self.targets.items():
            if 'result' in o.meta:
                meta[t] = self.results.get(id(o.meta['result']), -1)
            if o.has_gmix():
                mix[t] = int(round(o.gmix.get_flux())) - 10
        return meta, mix


class GoOnly(object):
    def __init__(self, f):
        self.go = f


def nest(cfg, results):
    """the flat results of the specification in the input's nesting"""
    if cfg['mode'] == 'fit':
        return results[0]
    it = iter(results)
    lol = [[next(it) for _ in b] for b in cfg['target']]
    return lol if cfg['kind'] == 'mb' else (
        lol[0] if cfg['kind'] == 'list' else lol[0][0])


def run_real(cfg, outcomes, rng, api):
    w = World(cfg, outcomes, rng)
    w.mode = cfg['mode']
    guesser = w if cfg['guesser'] else None
    fitter = GoOnly(w.go)
    psf = cfg['mode'] == 'psf'
    phase, out = 'done', None
    try:
        if api == 'class':
            if psf:
                kw = {} if cfg['store'] and rng.uniform() < 0.5 else dict(
                    set_result=cfg['store'])
                r = ngmix.runners.PSFRunner(fitter=fitter, guesser=guesser,
                                            ntry=cfg['ntry'], **kw)
            else:
                kw = {} if cfg['ntry'] == 1 and rng.uniform() < 0.5 else dict(
                    ntry=cfg['ntry'])
                r = ngmix.runners.Runner(fitter=fitter, guesser=guesser, **kw)
            out = r.go(w.input) if rng.uniform() < 0.5 else r.go(obs=w.input)
        elif psf:
            if rng.uniform() < 0.5:
                out = ngmix.runners.run_psf_fitter(
                    w.input, fitter, guesser, cfg['ntry'], cfg['store'])
            else:
                # what is not told is the default
                kw = dict(guesser=guesser, ntry=cfg['ntry'],
                          set_result=cfg['store'])
                for k, v in (('guesser', None), ('ntry', 1),
                             ('set_result', True)):
                    if kw[k] is v:
                        del kw[k]
                out = ngmix.runners.run_psf_fitter(w.input, fitter, **kw)
        else:
            kw = {} if cfg['ntry'] == 1 and rng.uniform() < 0.5 else dict(
                ntry=cfg['ntry'])
            out = ngmix.runners.run_fitter(
                w.input, fitter, guesser=guesser, **kw)
    except FitRaised:
        phase = 'raised'
    meta, mix = w.stored()
    return w, phase, (w.ids(out) if phase == 'done' else None), meta, mix


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]
