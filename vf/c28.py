"""C28: Fourier-space observations."""
import copy
import random

import galsim
import numpy as np
import ngmix
from ngmix.observation import (KMultiBandObsList, KObservation, KObsList,
                               make_iilist, make_kobs)

from . import tlc, term
from .c04 import KReal
from .c06 import raw
from .graph import Graph
from .replay import Driver, replay
from .report import shard

GRIDS = [dict(ny=4, nx=4, scale=500), dict(ny=5, nx=5, scale=500),
         dict(ny=4, nx=5, scale=500), dict(ny=5, nx=4, scale=500),
         dict(ny=4, nx=4, scale=501), dict(ny=4, nx=4, scale=1000),
         dict(ny=2, nx=8, scale=500), dict(ny=4, nx=4, scale=500),
         dict(ny=5, nx=5, scale=250)]


def kimage(g, seed=0):
    r = np.random.RandomState(seed)
    a = r.normal(size=(g['ny'], g['nx'])) + 1j * r.normal(
        size=(g['ny'], g['nx']))
    return galsim.Image(a, scale=g['scale'] / 1000)


class K(Driver):
    def __init__(self, rng, grids):
        self.rng, self.grids = rng, grids
        self.k = None
        self.images = {}

    def image(self, g):
        im = kimage(self.grids[g - 1], g)
        return im

    def weight(self, w):
        if w == 0:
            return None
        g = self.grids[w - 1]
        return galsim.ImageD(
            np.arange(1., 1 + g['ny'] * g['nx']).reshape(g['ny'], g['nx'])
            + 100 * w, scale=g['scale'] / 1000)

    def psf(self, p):
        return None if p == 0 else KObservation(self.image(p),
                                                meta={'psf': p})

    def meta(self, m):
        return self.rng.choice([None, {}]) if m == 0 else {'m': m}

    def wrong(self, x):
        g = self.grids[0]
        a = np.ones((g['ny'], g['nx']), dtype=complex)
        return {'array': a, 'int': 3, 'str': 'x',
                'real': self.rng.choice([
                    galsim.ImageD(a.real, scale=g['scale'] / 1000),
                    galsim.ImageF(a.real, scale=g['scale'] / 1000),
                    galsim.ImageCF(a.astype('c8'),
                                   scale=g['scale'] / 1000)])}[x]

    def op_construct(self, g, w, p, m):
        kw = dict(weight=self.weight(w), psf=self.psf(p), meta=self.meta(m))
        for n, v in list(kw.items()):
            if v is None and self.rng.random() < .5:
                del kw[n]
        old = self.k
        self.k = KObservation(self.image(g), **kw)
        self.given = kw.get('psf')
        del old

    def op_construct_wrong(self, part, x):
        a = dict(kimage=self.image(1), weight=self.weight(1),
                 psf=self.psf(1), meta={})
        a['kimage' if part == 'image' else part] = self.wrong(x)
        self.k = KObservation(**a)

    def op_set_psf(self, p):
        given = self.psf(p)
        self.k.set_psf(given)
        self.given = given

    def op_set_psf_wrong(self, x):
        self.k.set_psf(self.wrong(x))

    def op_set_meta(self, m, how):
        if how == 'call':
            self.k.set_meta(self.meta(m))
        else:
            self.k.meta = self.meta(m)

    def op_set_meta_wrong(self, x, how):
        if how == 'call':
            self.k.set_meta(self.wrong(x))
        elif how == 'update':
            self.k.update_meta_data(self.wrong(x))
        else:
            self.k.meta = self.wrong(x)

    def differences(self, st):
        k = self.k
        if (k is None) != (st['image'] == 0):
            return ['there is %s observation' % ('no' if k is None else 'an')]
        if k is None:
            return []
        bad = []
        im = self.image(st['image'])
        if not np.array_equal(k.kimage.array, im.array) or \
                k.kimage.scale != im.scale:
            bad.append('image')
        w = self.weight(st['weight'])
        want = np.ones(im.array.shape) if w is None else w.array
        if st['unit'] != (w is None) or not isinstance(
                k.weight, galsim.Image) or not np.array_equal(
                    k.weight.array, want):
            bad.append('weight is %r' % k.weight)
        if k.has_psf() != st['haspsf']:
            bad.append('has_psf() is %r' % k.has_psf())
        elif k.has_psf():
            if k.psf is not self.given or not np.array_equal(
                    k.psf.kimage.array, self.image(st['psf']).array):
                bad.append('psf')
        if k.meta != ({'m': st['meta']} if st['meta'] else {}):
            bad.append('meta is %r' % k.meta)
        j = k.jacobian
        if (j.row0, j.col0) != tuple(st['cen']) or not np.allclose(
                [j.dvdrow, j.dvdcol, j.dudrow, j.dudcol],
                [im.scale, 0, 0, im.scale], rtol=1e-12):
            bad.append('jacobian is %r' % j)
        return bad


# ---- conversion ----------------------------------------------------------
def a_jacobian(rng, dims, mat):
    return ngmix.Jacobian(
        row=(dims[0] - 1) / 2 + rng.uniform(-.6, .6),
        col=(dims[1] - 1) / 2 + rng.uniform(-.6, .6),
        dvdrow=mat[0], dvdcol=mat[1], dudrow=mat[2], dudcol=mat[3])


MATS = [(.25, 0, 0, .25), (.27, .02, -.03, .24), (.3, 0, 0, -.3),
        (.01, .2, .22, 0), (.4, .05, .05, .35), (.263, 0, 0, .263)]


def an_epoch(rng, gen):
    dims = rng.choice([(12, 12), (9, 9), (16, 11), (25, 25), (8, 14)])
    wt = rng.choice([[4.], [1., 2., 8.], [0., .5], [16., 1.], [.25, 0, 0]])
    n = dims[0] * dims[1]

    def image(d):
        rr, cc = np.mgrid[0:d[0], 0:d[1]]
        s = gen.uniform(1.2, 3)
        return gen.uniform(1, 9) * np.exp(
            -.5 * ((rr - d[0] / 2 + gen.uniform(0, 1)) ** 2 +
                   (cc - d[1] / 2 + gen.uniform(0, 1)) ** 2) / s ** 2) + \
            .01 * gen.normal(size=d)

    psf = None
    if rng.random() < .6:
        pd = rng.choice([(9, 9), (12, 12), (17, 17), (10, 15), (31, 31)])
        psf = ngmix.Observation(
            image(pd), weight=np.full(pd, rng.choice([1., 100.])) *
            np.linspace(.5, 1, pd[0])[:, None],
            jacobian=a_jacobian(gen, pd, rng.choice(MATS)),
            meta={'p': rng.randint(1, 9)} if rng.random() < .7 else None)
    return ngmix.Observation(
        image(dims), weight=np.resize(wt, n).reshape(dims),
        jacobian=a_jacobian(gen, dims, rng.choice(MATS)), psf=psf,
        meta=rng.choice([None, {'m': [1, 2]}, {'scale': 'mine'}]),
        bmask=np.zeros(dims, dtype='i4'))


def a_set(rng, gen):
    kind = rng.choice(['obs', 'list', 'mb', 'mb', 'mb'])
    if kind == 'obs':
        x = an_epoch(rng, gen)
        return x, [[x]]
    if kind == 'list':
        x = ngmix.ObsList(meta={'l': 1})
        for _ in range(rng.choice([1, 2, 3])):
            x.append(an_epoch(rng, gen))
        return x, [list(x)]
    x = ngmix.MultiBandObsList(meta={'b': 1})
    for _ in range(rng.choice([1, 2, 3])):
        ol = ngmix.ObsList()
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            ol.append(an_epoch(rng, gen))
        x.append(ol)
    return x, [list(ol) for ol in x]


def interpolated(im, jac, interp):
    kw = {} if interp is None else dict(x_interpolant=interp)
    kw.setdefault('x_interpolant', 'lanczos15')
    kw['offset'] = (jac.col0 - (im.shape[1] - 1) / 2,
                    jac.row0 - (im.shape[0] - 1) / 2)
    return galsim.InterpolatedImage(
        galsim.Image(im.copy(), wcs=jac.get_galsim_wcs()), **kw)


def frac(x):
    f = float(x).as_integer_ratio()
    assert f[1] < 2 ** 20
    return list(f)


def build(i, seed):
    rng = random.Random(seed * 100003 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    x, lay = a_set(rng, gen)
    interp = rng.choice([None, None, 'lanczos15', 'lanczos5', 'quintic'])
    return x, lay, interp, rng


def asks(ii):
    return int(ii.getGoodImageSize(ii.nyquist_scale))


def describe(i, seed):
    """the part of the case the specification decides on"""
    x, lay, interp, rng = build(i, seed)
    r = []
    for es in lay:
        row = []
        for o in es:
            p = o.has_psf()
            row.append(dict(
                psf=p, size=asks(interpolated(o.image, o.jacobian, interp)),
                psfsize=asks(interpolated(
                    o.psf.image / o.psf.image.sum(), o.psf.jacobian, interp))
                if p else 0,
                wmax=frac(o.weight.max()),
                psfwmax=frac(o.psf.weight.max()) if p else [0, 1]))
        r.append(row)
    return dict(id=i, lay=r)


def snap(x, lay):
    r = [dict(x.meta)]
    for es in lay:
        for o in es:
            r.append([o.image.copy(), o.weight.copy(), o.bmask.copy(),
                      str(o.jacobian), copy.copy(o.meta), o.has_psf()])
            if o.has_psf():
                r.append([o.psf.image.copy(), o.psf.weight.copy(),
                          str(o.psf.jacobian), copy.copy(o.psf.meta)])
    return r


def same(a, b):
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(
            a[k] is b[k] or a[k] == b[k] for k in a)
    return a == b


def transform(im, jac, kx, ky):
    """sum over pixels of value times exp(-i k.x) about the centre"""
    rr, cc = np.mgrid[0:im.shape[0], 0:im.shape[1]]
    r = rr - jac.row0
    c = cc - jac.col0
    u = jac.dudrow * r + jac.dudcol * c
    v = jac.dvdrow * r + jac.dvdcol * c
    return np.array([np.sum(im * np.exp(-1j * (x * u + y * v)))
                     for x, y in zip(kx, ky)])


def an_image(name, ki, im, jac, interp, dim, dk):
    """differences of a Fourier image from that of an image"""
    bad = []
    if ki.array.shape != (dim, dim) or ki.scale != dk or \
            ki.array.dtype != np.complex128:
        return ['%s is on a grid of %r at %r, specification %r at %r'
                % (name, ki.array.shape, ki.scale, (dim, dim), dk)]
    want = interpolated(im, jac, interp).drawKImage(nx=dim, ny=dim, scale=dk)
    top = np.abs(im).sum()
    if not np.all(np.abs(want.array - ki.array) <= 1e-9 * top):
        bad.append('%s differs from that drawn by galsim by %g of %g'
                   % (name, np.abs(want.array - ki.array).max(), top))
    # the same as a transform, well inside the band
    n = dim // 2
    off = [(0, 0), (1, 0), (0, 1), (-1, 2)]
    nyq = np.pi / np.sqrt(abs(jac.area)) / 1.6
    off = [(a, b) for a, b in off if np.hypot(a, b) * dk < .5 * nyq]
    t = transform(im, jac, [a * dk for a, b in off], [b * dk for a, b in off])
    got = np.array([ki.array[n + b, n + a] for a, b in off])
    if not np.all(np.abs(t - got) <= 5e-3 * top):
        bad.append('%s is %r at %r, the transform is %r'
                   % (name, got.tolist(), off, t.tolist()))
    return bad


def one(chk, rec, i):
    inp, out = rec['inp'], rec['out']
    x, lay, interp, rng = build(inp['id'], chk.seed)
    kw = {} if interp is None else dict(interp=interp)
    before = snap(x, lay)
    chk.trace(1, sum(len(e) for e in lay))
    chk.comparisons += 1
    label = 'set %d (%r)' % (inp['id'], [[(
        o.image.shape, o.has_psf() and o.psf.image.shape) for o in e]
        for e in lay])
    bad = []
    try:
        iil, idim, idk = make_iilist(x, **kw) if out['ok'] else (None,) * 3
        ks = make_kobs(x, **kw)
    except Exception as err:
        if out['ok']:
            bad.append(repr(err))
        ks = None
    if ks is not None and not out['ok']:
        bad.append('a set without epochs is converted')
    elif ks is not None:
        dim = out['dim']
        b, e = out['from']
        o = lay[b - 1][e - 1]
        dk = interpolated(o.image, o.jacobian, interp).stepk
        bad += structure(ks, iil, idim, idk, lay, dim, dk)
        if not bad:
            for kl, es, ws in zip(ks, lay, out['lay']):
                for k, o, w in zip(kl, es, ws):
                    bad += epoch(k, o, w, interp, dim, dk)
    if not same(before, snap(x, lay)):
        bad.append('the input was changed')
    for y in bad[:3]:
        chk.violation('%s: %s' % (label, y))
    if i < 3:
        chk.sample({'case': label})


def structure(ks, iil, idim, idk, lay, dim, dk):
    want = [len(e) for e in lay]
    bad = []
    if not isinstance(ks, KMultiBandObsList) or any(
            not isinstance(k, KObsList) for k in ks) or any(
                not isinstance(o, KObservation) for k in ks for o in k):
        bad.append('containers are %r' % type(ks))
    elif [len(k) for k in ks] != want:
        bad.append('%r epochs, of %r' % ([len(k) for k in ks], want))
    if (idim, idk) != (dim, dk):
        bad.append('grid is %r, specification %r' % ((idim, idk), (dim, dk)))
    if [len(k) for k in iil] != want:
        bad.append('%r interpolated images' % [len(k) for k in iil])
        return bad
    for il, es in zip(iil, lay):
        for d, o in zip(il, es):
            ok = (d['scale'] == o.jacobian.scale
                  and np.array_equal(d['weight'], o.weight)
                  and np.array_equal(d['realspace_gsimage'].array, o.image)
                  and d['meta'] == o.meta
                  and d['wcs'] == o.jacobian.get_galsim_wcs())
            if o.has_psf():
                ok = (ok and d['psf_meta'] == o.psf.meta and np.array_equal(
                    d['psf_weight'], o.psf.weight))
            else:
                ok = (ok and d['psf_ii'] is None and d['psf_meta'] is None
                      and d['psf_weight'] is None)
            if not ok:
                bad.append('interpolated image: %r' % (d,))
    return bad


def epoch(k, o, w, interp, dim, dk):
    bad = an_image('image', k.kimage, o.image, o.jacobian, interp, dim, dk)
    sets = [(k, w['weight'], 'weight')]
    if k.has_psf() != w['psf']:
        bad.append('has_psf() is %r' % k.has_psf())
    elif k.has_psf():
        p = o.psf
        bad += an_image('psf', k.psf.kimage, p.image / p.image.sum(),
                        p.jacobian, interp, dim, dk)
        sets.append((k.psf, w['psfweight'], 'psf weight'))
        for n, v in p.meta.items():
            if n not in k.psf.meta or k.psf.meta[n] != v:
                bad.append('psf meta %r' % n)
    for kk, want, name in sets:
        want = term.qf(want)
        a = kk.weight.array
        if a.shape != (dim, dim) or not np.allclose(a, want, rtol=1e-12,
                                                    atol=0):
            bad.append('%s is %r, specification %r' % (name, a, want))
        j = kk.jacobian
        if not (j.row0 == j.col0 == dim // 2) or j.scale != dk:
            bad.append('jacobian of %s %r' % (name, j))
    for n, v in o.meta.items():
        if n not in ('scale', 'realspace_gsimage') and (
                n not in k.meta or k.meta[n] != v):
            bad.append('meta %r' % n)
    if k.meta['scale'] != o.jacobian.scale:
        bad.append('scale in meta %r' % k.meta['scale'])
    return bad


def check(chk):
    rng = random.Random(chk.seed)
    jobs = []
    grids = []
    for k in range(chk.budget(2, 6)):
        g = rng.sample(GRIDS, 4)
        # always one which agrees and one which only differs in spacing
        g = [g[0], dict(g[0]), dict(g[0], scale=g[0]['scale'] + 1)] + g[1:3]
        grids.append(g)
        jobs.append(('KObs', dict(
            constants=dict(Grids=g, Metas={0, 1}),
            invariants=['OneGrid'], properties=['RefusedKeeps'], view='View',
            emit='Emit')))
    n = len(grids)
    lays = [describe(i, chk.seed) for i in range(chk.budget(160, 900))]
    per = 80
    for k in range(0, len(lays), per):
        jobs.append(('KMake', dict(
            constants=dict(Layouts=raw(lays[k:k + per])),
            invariants=['Enough', 'Structure', 'Power'], emit='Emit')))
    jobs.append(('ObsLists', dict(
        constants=dict(
            NL=2, MaxEpoch=2, MaxBand=2, WtPats=[[1]], Img=[[1], [2]],
            Sums=False,
            WrongL={'int', 'none', 'array', 'kobslist', 'kmb', 'obs'},
            WrongM={'int', 'none', 'kobs', 'kmb', 'obslist'}),
        invariants=['TypeOK'], properties=['RejectedUnchanged'],
        view='View', emit='Emit')))
    res = tlc.parallel(jobs)
    for g, r in zip(grids, res):
        chk.tlc(r, 'KObs')
        gr = Graph(r.records)
        replay(chk, gr, lambda st, rr: K(rr, g), list(gr.covering_paths(
            seed=chk.seed, budget=chk.budget(6000, 60000))), 'observation')
    r = res[-1]
    chk.tlc(r, 'ObsLists of Fourier observations')
    gr = Graph(r.records)
    replay(chk, gr, KReal, list(gr.covering_paths(
        seed=chk.seed, budget=chk.budget(4000, 40000))), 'Fourier lists')
    for r in res[n:-1]:
        chk.tlc(r, 'KMake')
        shard(chk, lambda rec, i: one(chk, rec, i), r.records)
