"""C15: caching is invisible."""
import random
import numpy as np
import galsim
import ngmix
from . import tlc
from .fresh import many
from .graph import Graph
from .replay import Driver, replay

mm = ngmix.metacal.metacal
pm = ngmix.prepsfmom


# -- inputs: what variant v holds ------------------------------------------
def spec_of(v, small):
    """(image, weight, jacobian parameters, psf image, psf centre, noise)"""
    rng = np.random.RandomState(99)
    n, m = (15, 11) if small else (17, 13)
    wcs = [0.26, 0.012, -0.02, 0.25]
    cen = [(n - 1) / 2., (n - 1) / 2.]
    pcen = [(m - 1) / 2., (m - 1) / 2.]
    fw, pw = 1.1, 0.8
    if v == 4:
        wcs = [0.26, -0.02, 0.012, 0.25]
    if v == 11:
        wcs = [0.25, 0.012, -0.02, 0.26]

    def blob(k, fwhm, c, e=0.1):
        r, q = np.mgrid[0:k, 0:k].astype('f8')
        s = fwhm / 2.35 / 0.25
        x, y = q - c[1], r - c[0]
        return np.exp(-0.5 * ((1 + e) * x * x + (1 - e) * y * y
                              + 0.1 * x * y) / s ** 2)
    im = 10 * blob(n, fw, [cen[0] + .3, cen[1] - .2]) \
        + rng.normal(scale=0.02, size=(n, n))
    p = blob(m, pw, pcen, 0.03) + rng.normal(scale=1e-5, size=(m, m))
    wt = np.full((n, n), 2500.) + 100 * rng.uniform(size=(n, n))
    noise = rng.normal(scale=0.02, size=(n, n))
    if v == 2:
        im = im * 1.5 + 0.01
    elif v == 3:
        cen = [cen[0] + 0.25, cen[1]]
    elif v == 5:
        p = p * 0.5 + 0.2 * np.roll(p, 1, axis=0)
    elif v == 6:
        pcen = [pcen[0], pcen[1] - 0.3]
    elif v == 7:
        wt = wt * 0.5
    elif v == 8:
        im = np.pad(im, 1)
        wt = np.pad(wt, 1, constant_values=2500.)
        noise = np.pad(noise, 1, constant_values=0.02)
    elif v == 9:
        im = np.ascontiguousarray(im.T)
    elif v == 10:
        im[3, 4] *= -1
        im[3, 4] += 0.05
    elif v == 12:
        p = np.ascontiguousarray(p.T)
    return dict(im=im, wt=wt, wcs=wcs, cen=cen, p=p, pcen=pcen, noise=noise)


def jac(wcs, cen):
    return ngmix.Jacobian(row=cen[0], col=cen[1], dudcol=wcs[0],
                          dudrow=wcs[1], dvdcol=wcs[2], dvdrow=wcs[3])


def build(v, small):
    s = spec_of(v, small)
    psf = ngmix.Observation(s['p'], weight=np.full(s['p'].shape, 1e8),
                            jacobian=jac(s['wcs'], s['pcen']))
    psf.gmix = ngmix.GMixModel([0, 0, 0.01, 0.02, 0.3, 1.0], 'gauss')
    return ngmix.Observation(s['im'], weight=s['wt'], noise=s['noise'],
                             jacobian=jac(s['wcs'], s['cen']), psf=psf)


def edit_in_place(obs, v, small, rng):
    s = spec_of(v, small)
    if s['im'].shape != obs.image.shape:
        return None
    with obs.writeable():
        if rng.random() < 0.5:
            obs.image[:, :] = s['im']
            obs.weight[:, :] = s['wt']
        obs.noise[:, :] = s['noise']
    obs.image = s['im']
    obs.weight = s['wt']
    obs.jacobian = jac(s['wcs'], s['cen'])
    with obs.psf.writeable():
        obs.psf.image[:, :] = s['p']
    obs.psf.jacobian = jac(s['wcs'], s['pcen'])
    return obs


# -- computations ----------------------------------------------------------
def state(seed=5):
    return np.random.RandomState(seed)


def arrays(x, out=None, pre=''):
    """the arrays of an answer by name"""
    out = {} if out is None else out
    if isinstance(x, ngmix.Observation):
        out[pre + '.image'] = x.image
        out[pre + '.weight'] = x.weight
        if x.has_psf():
            arrays(x.psf, out, pre + '.psf')
    elif isinstance(x, galsim.Image):
        out[pre] = x.array
    elif isinstance(x, galsim.GSObject):
        out[pre] = np.array([x.kValue(a, b) for a, b in
                             ((0, 0), (1., .3), (-.5, 2.))])
    elif isinstance(x, dict):
        for k in x:
            arrays(x[k], out, pre + '/' + str(k))
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            arrays(y, out, pre + '[%d]' % i)
    elif isinstance(x, np.ndarray):
        out[pre] = x
    elif isinstance(x, (int, float, np.number)):
        out[pre] = np.array(x)
    return out


def freeze(x):
    return {k: np.array(v) for k, v in arrays(x).items()}


def mom(o, op, w):
    cls = dict(pg=pm.PGaussMom, ks=pm.KSigmaMom)
    kw, gk = {}, {}
    name = op.split('_')
    f = 1.2
    for t in name[1:]:
        if t == 'f':
            f = 1.3
        elif t == 's':
            kw['fwhm_smooth'] = 0.5
        elif t == 'p':
            kw['pad_factor'] = 3
        elif t == 'a':
            kw['ap_rad'] = 0.5
        elif t == 'n':
            gk['no_psf'] = True
        elif t == 'k':
            gk['return_kernels'] = True
    if name[0] == 'gm':
        return ngmix.gaussmom.GaussMom(f).go(o)
    if name[0] == 'bad':
        return pm.KSigmaMom(0.05).go(o)
    return cls[name[0]](f, **kw).go(o, **gk)


def mcal(o, op, w):
    kw = dict(dil=dict(psf='dilate', types=['1m', '2p_psf'], fixnoise=False),
              dil2=dict(psf='dilate', types=['1m'], fixnoise=False,
                        step=0.02),
              gau=dict(psf='gauss', types=['1p'], fixnoise=False),
              noi=dict(psf='gauss', types=['2m'], use_noise_image=True),
              fit=dict(psf='fitgauss', types=['2p'], fixnoise=False,
                       rng=state()),
              fix=dict(psf='dilate', types=['2m'], rng=state()),
              badtype=dict(types=['nope']),
              badrng=dict(psf='fitgauss', fixnoise=False))[op]
    return ngmix.metacal.get_all_metacal(o, **kw)


SH = dict(p1=(.01, 0.), m1=(-.01, 0.), p2=(0., .01), m2=(0., -.01),
          d=(.02, -.01), x=(-.01, .02),
          n=(.0100004, 0.), bad=(.99999, 0.))


def mcobj(o, op, w):
    """one metacal object per input, asked repeatedly"""
    cls, what, sh = op.split('_')
    if w is None:
        mc = make_mc(o, cls)
    else:
        key = (cls, id(o), w.serial.get(id(o), 0))
        if key not in w.objs:
            w.objs[key] = (o, make_mc(o, cls))
        mc = w.objs[key][1]
    s = ngmix.Shape(*SH[sh])
    if what == 'gal':
        return mc.get_obs_galshear(s)
    if what == 'both':
        return mc.get_obs_galshear(s, get_unsheared=True)
    if what == 'psf':
        return mc.get_obs_psfshear(s)
    if what == 'tg':
        return mc.get_target_psf(s, 'gal_shear')
    if what == 'tp':
        return mc.get_target_psf(s, 'psf_shear')
    if what == 'all':
        return mc.get_all(step=s.g1)


def make_mc(o, cls):
    if cls == 'D':
        return mm.MetacalDilatePSF(o)
    if cls == 'G':
        return mm.MetacalGaussPSF(o)
    return mm.MetacalFitGaussPSF(o, rng=state())


def prior(n=1):
    rng = state(8)
    P = ngmix.priors
    cen = P.CenPrior(0., 0., .1, .1, rng=rng)
    g = P.GPriorBA(0.3, rng=rng)
    T = P.FlatPrior(0., 100., rng=rng)
    F = P.FlatPrior(-1e9, 1e9, rng=rng)
    return rng, ngmix.joint_prior.PriorSimpleSep(cen, g, T, F), \
        ngmix.joint_prior.PriorBDFSep(cen, g, T, P.Normal(.5, .1, rng=rng), F)


def make_guessers():
    rng, sp, bp = prior()
    r2 = state()
    G = ngmix.guessers
    return dict(rng=rng, r2=r2, tp=G.TPSFFluxGuesser(rng=r2, T=0.5),
                tpp=G.TPSFFluxAndPriorGuesser(rng=r2, T=0.5, prior=sp),
                bdf=G.BDFPSFFluxGuesser(T=0.5, prior=bp))


def guess(o, op, w):
    g = make_guessers() if w is None else w.guessers
    g['rng'].set_state(state(8).get_state())
    g['r2'].set_state(state(9).get_state())
    if op.startswith('bad'):
        bad = ngmix.Observation(o.image, weight=o.weight * 0,
                                ignore_zero_weight=False, psf=o.psf)
        first = None
        for _ in range(2):
            try:
                return g[op[4:]](obs=bad)
            except ngmix.gexceptions.PSFFluxFailure as err:
                first = err
        raise first
    if op.endswith('_list'):
        ol = ngmix.ObsList()
        ol.append(o)
        return g[op[:-5]](obs=ol, nrand=2)
    return g[op](obs=o)


FAM = dict(moments=(mom, True), metacal=(mcal, False), object=(mcobj, False),
           guess=(guess, True))
SWITCH = dict(galsim=(mm.turn_on_galsim_caching, mm.turn_off_galsim_caching),
              fft=(pm.turn_on_fft_caching, pm.turn_off_fft_caching),
              kernel=(pm.turn_on_kernel_caching, pm.turn_off_kernel_caching))
OPS = dict(
    moments=['pg', 'pg_f', 'pg_s', 'pg_p', 'pg_a', 'pg_n', 'pg_k', 'ks',
             'ks_f', 'ks_s', 'ks_n_k', 'ks_p_a', 'gm'],
    metacal=['dil', 'dil2', 'gau', 'noi', 'fit', 'fix'],
    object=['D_gal_p1', 'D_gal_m1', 'D_gal_p2', 'D_gal_d', 'D_psf_p1',
            'D_psf_m2', 'D_psf_d', 'D_both_p1', 'D_tg_p1', 'D_tp_p1',
            'D_tp_x', 'D_tg_d', 'D_psf_x', 'D_gal_x', 'G_gal_p1', 'G_gal_d',
            'G_tg_p2', 'G_both_m1', 'D_all_p1', 'G_all_d', 'D_gal_n', 'D_tp_n', 'D_tg_n', 'G_gal_n', 'F_gal_p1',
            'F_tg_d'],
    guess=['tp', 'tpp', 'bdf', 'tp_list', 'bdf_list'])
BAD = dict(moments=['bad'], metacal=['badtype', 'badrng'],
           object=['D_tp_bad', 'D_psf_bad', 'G_psf_p1', 'F_tp_p1'],
           guess=['bad_tp', 'bad_bdf', 'bad_tpp'])


def fresh_answer(fam, op, v):
    f, small = FAM[fam]
    return freeze(f(build(v, small), op, None))


class Real(Driver):
    fam = None
    ref = None

    def __init__(self, st, rng):
        self.rng = rng
        self.f, self.small = FAM[self.fam]
        for on, off in SWITCH.values():
            off()
        self.reg = {r: build(v, self.small) for r, v in
                    enumerate(st['reg'], 1)}
        self.objs, self.serial = {}, {}
        self.guessers = make_guessers() if self.fam == 'guess' else None
        self.held = None
        self.v = dict(enumerate(st['reg'], 1))

    def op_compute(self, op, r):
        x = self.f(self.reg[r], op, self)
        self.held = x
        return op, r, x

    def op_fail(self, op, r):
        self.f(self.reg[r], op, self)

    def do(self, act):
        ok = Driver.do(self, act)
        if act['op'] == 'fail' and self.err is not None:
            op, r = act['args']
            self.badfail = []
            want = self.ref[op, self.v[r]]
            if want[0] != 'raised' or type(self.err).__name__ != want[1]:
                self.badfail = ['failed with %r, a fresh computation %r'
                                % (self.err, want[1:])]
        return ok

    def op_edit_answer(self):
        if self.held is None:
            return
        obs = [x for x in walk(self.held) if isinstance(x, ngmix.Observation)]
        for o in obs:
            with o.writeable():
                o.image[:, :] *= -3
                o.weight[:, :] *= 2
                if o.has_psf():
                    with o.psf.writeable():
                        o.psf.image[:, :] += 7
                        o.psf.weight[:, :] *= 5
        for a in arrays([x for x in walk(self.held)
                         if not isinstance(x, (ngmix.Observation,
                                               galsim.GSObject))]).values():
            if a.ndim and a.flags.writeable and a.dtype.kind in 'fc':
                a *= -3

    def op_edit_input(self, r, v):
        o = edit_in_place(self.reg[r], v, self.small, self.rng)
        if o is None:
            self.op_replace(r, v)
        else:
            # a metacal object describes the observation it was built from
            self.serial[id(o)] = self.serial.get(id(o), 0) + 1
        self.v[r] = v

    def op_replace(self, r, v):
        if self.fam != 'object':
            del self.reg[r]
        self.reg[r] = build(v, self.small)
        self.v[r] = v

    def op_toggle(self, c, b):
        SWITCH[c][0 if b else 1]()

    def check_result(self, act):
        if act['op'] == 'fail':
            return self.badfail
        if act['op'] != 'compute':
            return []
        op, r, x = self.result
        st, want = self.ref[op, self.v[r]]
        if st != 'ok':
            return ['a fresh computation of %s fails (%s)' % (op, want)]
        got = freeze(x)
        if set(got) != set(want):
            return ['%s: answer has parts %r, fresh %r' % (
                op, sorted(set(got) - set(want)), sorted(set(want) - set(got)))]
        for k in want:
            if got[k].shape != want[k].shape or not np.allclose(
                    got[k], want[k], rtol=1e-9, atol=1e-12, equal_nan=True):
                return ['%s of content %d: %s differs from a fresh '
                        'computation' % (op, self.v[r], k)]
        return []


def walk(x):
    if isinstance(x, dict):
        for y in x.values():
            yield from walk(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from walk(y)
    else:
        yield x


def flood(n=140):
    """more distinct entries than any of the caches hold"""
    rng = state(3)
    for k in range(n):
        im = rng.uniform(size=(5, 5))
        mm._galsim_stuff(im, galsim.JacobianWCS(.2, 0, 0, .2 + k), 'linear')


def check(chk):
    # the design itself: entries and answers stay fresh under eviction,
    # toggling, editing of answers and inputs, and failures
    design = dict(Regs={1, 2}, Variants={1, 2}, Ops={'a', 'b'},
                  Caches={'c'}, BadOps={'bad'}, Capacity=2, Pure=True)
    r = tlc.run('Caching', constants=design, invariants=['EntriesFresh'],
                properties=['AnswersFresh'], view='View')
    chk.tlc(r, 'Caching design')
    r = tlc.run('Caching', constants=dict(design, Pure=False),
                properties=['AnswersFresh'], view='View',
                allow_violation=True)
    if not r.violated:
        raise tlc.TLCError('the aliasing design should violate AnswersFresh')

    # compile what is compiled, on content that is never used again
    for f, small in FAM.values():
        pass
    mom(build(1, False), 'pg_s', None)
    mom(build(1, False), 'ks_s', None)
    guess(build(1, False), 'tp', None)
    mcal(build(1, True), 'fit', None)
    fams = dict(moments=({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12},
                         {'fft', 'kernel'}, 1500, 60000),
                metacal=({1, 2, 4, 5, 9, 12}, {'galsim'}, 260, 8000),
                object=({1, 2, 4, 5}, {'galsim'}, 300, 12000),
                guess=({1, 2, 3, 5, 7}, set(), 800, 20000))
    for fam, (vs, caches, quick, deep) in fams.items():
        keys = [(fam, op, v) for op in OPS[fam] + BAD[fam] for v in vs]
        ref = {(op, v): x for (_, op, v), x in
               zip(keys, many(fresh_answer, keys, workers=7))}
        r = tlc.run('Caching', constants=dict(
            Regs={1, 2}, Variants=vs, Ops=set(OPS[fam]),
            BadOps=set(BAD[fam]), Caches=caches, Capacity=0, Pure=True),
            view='View', emit='Emit')
        chk.tlc(r, 'Caching ' + fam)
        g = Graph(r.records)
        g.inits = sorted(k for k in g.states)
        cls = type('Real_' + fam, (Real,), dict(fam=fam, ref=ref))
        budget = chk.budget(quick, deep)
        n = 12
        # biased to computing: toggles and edits are a minority of the steps
        weight_edges(g)
        # every computation on one input, in several orders
        rng = random.Random(chk.seed)
        paths = []
        for k in range(chk.budget(4, 60) if fam == 'object' else 1):
            es = [e for e in g.out[rng.choice(g.inits)] if e.act['op'] in (
                'compute', 'fail') and e.act['args'][1] == 1]
            es = list({tuple(e.act['args']): e for e in es}.values())
            rng.shuffle(es)
            paths.append(es[:40])
        paths += g.random_paths(n, budget // n, seed=chk.seed)
        replay(chk, g, cls, paths, 'caching ' + fam)
    for on, off in SWITCH.values():
        off()


def weight_edges(g):
    """let walks spend most steps on computations"""
    rng = random.Random(4)
    for s, es in g.out.items():
        comp = [e for e in es if e.act['op'] in ('compute', 'fail')]
        other = [e for e in es if e.act['op'] not in ('compute', 'fail')]
        rep = max(1, int(2.0 * len(other) / max(1, len(comp))))
        g.out[s] = comp * rep + other
