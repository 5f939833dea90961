"""C14: metacal delivers what was asked for."""
import itertools
import numpy as np
from scipy import optimize
from .report import shard
import galsim
import ngmix
from . import tlc
from .mcaldrv import nest, flat, shape, snapshot, jacpars, Ref

ALL = ['noshear', '1p', '1m', '2p', '2m', '1p_psf', '1m_psf', '2p_psf',
       '2m_psf']


def typeseqs(deep):
    s = [['default'], [], ['bogus'], ['noshear', '1x'], ALL, ALL[::-1],
         ALL[:5], ['1p', 'noshear'], ['2m_psf', '1p'], ['1m', '1m']]
    s += [[t] for t in ALL]
    s += [list(p) for p in itertools.permutations(
        ['noshear', '1p', '2m', '1m_psf'], 2)]
    if deep:
        for n in (2, 3):
            s += [list(c) for c in itertools.combinations(ALL, n)]
        s += [list(p) for p in itertools.permutations(ALL[:5], 3)]
    u = []
    for x in s:
        if x not in u:
            u.append(x)
    return u


POOL = []


def check(chk):
    deep = chk.thorough
    seqs = typeseqs(deep)
    r = tlc.cases('Metacal', constants=dict(
        TypeSeqs=tlc.Raw('{' + ', '.join(tlc.tla_value(s) for s in seqs)
                         + '}'),
        Psfs={'dilate', 'gauss', 'fitgauss', 'object'},
        Noises={'none', 'rng', 'image'}, Kinds={'obs', 'list', 'mb'},
        HasRng={True, False}, PsfImgs={'plain', 'far'}),
        invariants=['Antisymmetric', 'OneOnly', 'AskedIsDelivered'])
    chk.tlc(r, 'Metacal')
    rng = np.random.RandomState(chk.seed)
    recs = list(r.records)
    rng.shuffle(recs)
    refused = [x for x in recs if x['out']['refused']]
    good = [x for x in recs if not x['out']['refused']]
    # every (psf, noise, kind, rng) with every type somewhere, then a sample
    first, seen = [], set()
    for x in good:
        i = x['inp']
        for d in x['out']['deliver']:
            k = (i['psf'], i['noise'], d['type'], i['psfimg'])
            if k not in seen:
                seen.add(k)
                if x not in first:
                    first.append(x)
        k = (i['psf'], i['noise'], i['kind'], i['rng'])
        if k not in seen:
            seen.add(k)
            if x not in first:
                first.append(x)
    rest = [x for x in good if x not in first]
    todo = first + rest[:chk.budget(40, 2500)]
    for rec in refused[:chk.budget(60, 400)]:
        one_refused(chk, rec, rng)
    def good_call(rec, i):
        rng = np.random.RandomState([chk.seed, i])
        try:
            bad = one(chk, rec, rng, deep)
        except Exception as err:
            import traceback
            bad = ['refused: %s' % traceback.format_exc()[-1500:]]
        chk.trace(1, 1)
        chk.sample(rec['inp'])
        if bad:
            chk.violation('metacal %r: %s' % (rec['inp'], '; '.join(bad[:4])),
                          rec=rec)
        for p in POOL:
            chk.sample_pool.append(p)
        del POOL[:]
    shard(chk, good_call, todo)
    no_psf(chk)
    p = np.array(chk.sample_pool)
    chk.notes['added_noise_power_ratio'] = [float(p.mean()), len(p)]
    if len(p) > 60 and not 0.65 < p.mean() < 1.5:
        chk.violation('the noise added for correction has %.3g times the '
                      'power of the noise of the image' % p.mean())


def no_psf(chk):
    o = ngmix.Observation(np.ones((5, 5)))
    for psf in ('dilate', 'gauss', 'fitgauss'):
        try:
            ngmix.metacal.get_all_metacal(o, psf=psf, fixnoise=False,
                                          rng=np.random.RandomState(1))
        except Exception:
            continue
        chk.violation('metacal without a psf was accepted (%s)' % psf)


def options(inp, psfobj):
    kw = dict(fixnoise=inp['noise'] != 'none',
              use_noise_image=inp['noise'] == 'image')
    kw['psf'] = psfobj if inp['psf'] == 'object' else inp['psf']
    if inp['types'] != ['default']:
        kw['types'] = list(inp['types'])
    return kw


def one_refused(chk, rec, rng):
    inp = rec['inp']
    obs = nest(inp['kind'], rng)
    if inp['psfimg'] == 'far':
        obs = blown(obs, rng)
    before = snapshot(obs)
    try:
        ngmix.metacal.get_all_metacal(
            obs, rng=np.random.RandomState(3) if inp['rng'] else None,
            **options(inp, galsim.Gaussian(fwhm=0.9)))
    except Exception:
        chk.trace(1, 1)
        if snapshot(obs) != before:
            chk.violation('a refused metacal call %r changed its input'
                          % (inp,))
        return
    chk.violation('metacal %r accepted, specification refuses' % (inp,),
                  rec=rec)


BLOWN = 20.0


def blown(obs, rng):
    """the same pixels on a much coarser scale, the psf's nominal centre more
    than five units away from the star, where adaptive moments give up"""
    th = rng.uniform(0, 2 * np.pi)

    def scaled(o, dr, dc, **kw):
        j = o.jacobian
        return ngmix.Observation(
            o.image, weight=o.weight, meta=dict(o.meta),
            jacobian=ngmix.Jacobian(
                row=j.row0 + dr, col=j.col0 + dc,
                dudcol=j.dudcol * BLOWN, dudrow=j.dudrow * BLOWN,
                dvdcol=j.dvdcol * BLOWN, dvdrow=j.dvdrow * BLOWN), **kw)
    psf = scaled(obs.psf, 1.5 * np.cos(th), 1.5 * np.sin(th))
    return scaled(obs, 0, 0, psf=psf, noise=obs.noise)


def ml_sigma(o):
    """the size of the gaussian fitted to a psf image by least squares"""
    j = o.jacobian
    r, c = np.mgrid[:o.image.shape[0], :o.image.shape[1]]
    v = j.dvdrow * (r - j.row0) + j.dvdcol * (c - j.col0)
    u = j.dudrow * (r - j.row0) + j.dudcol * (c - j.col0)
    k = np.argmax(o.image)
    scale = np.sqrt(abs(j.dvdrow * j.dudcol - j.dvdcol * j.dudrow))

    def model(p):
        dv, du = v - p[0] * scale, u - p[1] * scale
        return p[5] * np.exp(-0.5 * (
            p[2] * dv ** 2 + p[3] * du ** 2 + 2 * p[4] * du * dv)
            / scale ** 2)
    p = optimize.least_squares(
        lambda p: ((model(p) - o.image) * np.sqrt(o.weight)
                   / o.weight.max() ** 0.5).ravel(),
        [v.flat[k] / scale, u.flat[k] / scale, .3, .3, 0., o.image.max()]).x
    cov = np.linalg.inv([[p[2], p[4]], [p[4], p[3]]]) * scale ** 2
    return np.sqrt(np.trace(cov) / 2), np.linalg.eigvalsh(cov).max()


def galsim_shape(o, mom):
    """the ellipticity, on the sky, of moments measured in pixels"""
    e1, e2 = mom.observed_shape.e1, mom.observed_shape.e2
    j = o.jacobian
    # pixel moments (col, row), up to scale
    m = np.array([[1 + e1, e2], [e2, 1 - e1]])
    a = np.array([[j.dudcol, j.dudrow], [j.dvdcol, j.dvdrow]])
    w = np.linalg.eigvalsh(a.dot(m).dot(a.T))
    return (w[1] - w[0]) / (w[1] + w[0])


def structure_diff(a, b):
    if shape(a) != shape(b):
        return 'structure %r, input %r' % (shape(a), shape(b))


def one(chk, rec, rng, deep):
    inp, out = rec['inp'], rec['out']
    seed = int(rng.randint(2 ** 30))
    step = float(rng.choice([0.01, 0.02, -0.01, 0.03]))
    zero = rng.uniform() < 0.5
    if zero and inp['noise'] != 'rng':
        zero = 'tiny'
    off = tuple(rng.uniform(-.1, .1, size=2))
    obs = nest(inp['kind'], np.random.RandomState(seed), zero=zero, off=off)
    if inp['psfimg'] == 'far':
        obs = blown(obs, rng)
    before = snapshot(obs)
    psfobj = galsim.Moffat(beta=2.5, fwhm=1.3).shear(g1=0.05, g2=0.02)
    kw = options(inp, psfobj)
    types_in = kw.get('types')
    types_copy = list(types_in) if types_in is not None else None
    cache = rng.uniform() < 0.3
    if step != 0.01 or rng.uniform() < 0.5:
        kw['step'] = step

    def mkrng():
        return np.random.RandomState(seed + 5) if inp['rng'] else None
    if cache:
        ngmix.metacal.metacal.turn_on_galsim_caching()
    try:
        res = ngmix.metacal.get_all_metacal(obs, rng=mkrng(), **kw)
    finally:
        ngmix.metacal.metacal.turn_off_galsim_caching()
    bad = []
    if types_in is not None and types_in != types_copy:
        if types_in == types_copy + ['1p'] and 'noshear' in types_copy:
            chk.violation('the caller\'s list of types is extended by "1p"',
                          known_key='metacal-types-list-extended')
        else:
            bad.append('the types argument became %r' % (types_in,))
    if snapshot(obs) != before:
        bad.append('the input observations changed')
    want = {d['type']: d for d in out['deliver']}
    if set(res) != set(want):
        return bad + ['delivered %r, specification %r'
                      % (sorted(res), sorted(want))]
    if types_in is not None:
        kw['types'] = list(types_copy)
    # same input, options and generator state: same answer; whatever the
    # global generator does
    np.random.seed(int(rng.randint(2 ** 30)))
    g0 = np.random.get_state()[1].copy()
    res2 = ngmix.metacal.get_all_metacal(obs, rng=mkrng(), **kw)
    if not np.array_equal(g0, np.random.get_state()[1]):
        bad.append('the global generator was used')
    sigma0 = {}
    for t, d in want.items():
        s = structure_diff(res[t], obs)
        if s:
            bad.append(s)
            continue
        for k, (o, m, m2) in enumerate(zip(flat(obs), flat(res[t]),
                                           flat(res2[t]))):
            w = '%s[%d]: ' % (t, k)
            chk.comparisons += 1
            if not (np.array_equal(m.image, m2.image)
                    and np.array_equal(m.weight, m2.weight)
                    and np.array_equal(m.psf.image, m2.psf.image)):
                bad.append(w + 'not a function of input and generator state')
            if m.image.shape != o.image.shape or not np.allclose(
                    jacpars(m.jacobian), jacpars(o.jacobian), rtol=1e-12):
                bad.append(w + 'shape or transform changed')
                continue
            if m.psf.image.shape != o.psf.image.shape or not np.allclose(
                    jacpars(m.psf.jacobian)[2:], jacpars(o.psf.jacobian)[2:],
                    rtol=1e-12):
                bad.append(w + 'psf shape or transform changed')
                continue
            bad += [w + b for b in images(inp, out, d, o, m, k, step if
                                          'step' in kw else 0.01, sigma0)]
    return bad


def images(inp, out, d, o, m, k, step, sigma0):
    bad = []
    ref = Ref(o)
    target = None
    scl = BLOWN if inp['psfimg'] == 'far' else 1.0
    if out['target'] == 'dilate_reconvolve_pixel':
        target = ref.dilated(step, tuple(d['psfshear']))
        wantp = ref.psf_image(target)
        gotp = m.psf.image
        if not np.allclose(gotp, wantp, rtol=1e-5, atol=1e-6 * wantp.max()):
            bad.append('psf image is not the dilated%s psf'
                       % (' sheared' if any(d['psfshear']) else ''))
        if not np.array_equal(m.psf.weight, o.psf.weight):
            bad.append('psf weight')
    else:
        target = m.psf.galsim_obj
        flux = o.psf.image.sum()
        dil = 1 + 2 * abs(step)
        if inp['psf'] == 'object':
            want = galsim.Moffat(beta=2.5, fwhm=1.3).shear(
                g1=0.05, g2=0.02).dilate(dil)
        elif inp['psf'] == 'gauss':
            want = galsim.Gaussian(sigma=ref.gauss_sigma() * dil, flux=flux)
        else:
            # round, with the flux of the psf, the same for every type
            kv = 0.7 / scl
            v = [target.kValue(kv, 0).real, target.kValue(0, kv).real,
                 target.kValue(kv / 2 ** .5, kv / 2 ** .5).real]
            s = np.sqrt(-2 * np.log(v[0] / flux) / kv ** 2)
            want = galsim.Gaussian(sigma=s, flux=flux)
            # about the size of the psf, a little larger
            ps = galsim.Image(np.array(o.psf.image),
                              wcs=o.psf.jacobian.get_galsim_wcs())
            key = k
            if abs(sigma0.setdefault(key, s) / s - 1) > 1e-6:
                bad.append('target psf differs between types')
            if out['size'] == 'likelihood':
                s_ad, big = ml_sigma(o.psf)
            else:
                mom = galsim.hsm.FindAdaptiveMom(ps)
                area = abs(np.linalg.det(
                    o.psf.jacobian.get_galsim_wcs().getMatrix()))
                s_ad = mom.moments_sigma * np.sqrt(area)
                # galsim reports pixels; the size is determinant based
                e = galsim_shape(o.psf, mom)
                s_ad = s_ad / (1 - e ** 2) ** .25
                big = s_ad ** 2 * (1 + e)
            # enlarged to cover the long axis
            grow = min(1.1, 1 + 2 * (np.sqrt(big) / s_ad - 1)) ** .5
            if not abs(s / dil / s_ad / grow - 1) < 2e-3:
                bad.append('fitted target psf size %g, psf %g' % (s, s_ad))
        for kx, ky in ((0., 0.), (.5, 0.), (0., 1.3), (-.9, .6), (2., -1.)):
            a, b = (target.kValue(kx / scl, ky / scl),
                    want.kValue(kx / scl, ky / scl))
            if abs(a - b) > 1e-4 * abs(want.flux):
                bad.append('target psf is not the prescribed one')
                break
        wantp = ref.psf_image(target)
        noise = o.psf.image.max() / 50000.0
        dev = m.psf.image - wantp
        if inp['rng']:
            if not (0.7 * noise < dev.std() < 1.4 * noise):
                bad.append('psf image deviates from the target by %g, '
                           'noise %g' % (dev.std(), noise))
        elif np.abs(dev).max() > 1e-5 * wantp.max():
            bad.append('psf image is not the target psf')
        if not np.allclose(m.psf.weight, 1 / noise ** 2, rtol=1e-9,
                           atol=0):
            bad.append('psf weight does not match the noise')
        cen = (np.array(m.psf.image.shape) - 1) / 2
        j = m.psf.jacobian
        if not np.allclose([j.row0, j.col0], cen):
            bad.append('psf centre')
    # the image
    im = ref.image(target, d['shear'], step)
    got = m.image
    scale = np.abs(im).max()
    if out['addnoise']:
        if inp['noise'] == 'image':
            nref = Ref(o, np.rot90(o.noise, k=1))
            ni = nref.image(target, d['shear'], step)
            im = im + np.rot90(ni, k=3)
        w = o.weight
        want_w = np.where(w != 0, 0.5 * w, 0.0)
        if not np.allclose(m.weight, want_w, rtol=1e-9, atol=0):
            bad.append('weights are not the combined inverse variances')
    elif not np.array_equal(m.weight, o.weight):
        bad.append('weights changed without noise')
    dev = np.abs(got - im)
    if inp['noise'] == 'rng':
        # a sheared realisation of the pixel noise was added
        pos = o.weight > 0
        err = np.full(o.image.shape, np.median(1 / np.sqrt(o.weight[pos])))
        err[pos] = 1 / np.sqrt(o.weight[pos])
        like = np.sqrt(np.mean([
            (Ref(o, np.random.RandomState(17 + i).normal(size=err.shape) * err)
             .image(target, d['shear'], step) ** 2).mean()
            for i in range(4)]))
        POOL.append(((got - im) ** 2).mean() / like ** 2)
        if not 0.3 * like < np.sqrt(((got - im) ** 2).mean()) < 3 * like:
            bad.append('added noise has deviation %g, such noise has %g'
                       % ((got - im).std(), like))
    elif dev.max() > (1e-5 if scl == 1 else 1e-4) * scale:
        bad.append('image deviates from its definition by %g of the peak'
                   % (dev.max() / scale))
    return bad
