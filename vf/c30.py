"""C30: reading observations from catalogues of cutouts."""
import random
import sys
import types

import numpy as np
import ngmix
from ngmix.gexceptions import GMixFatalError

from . import tlc
from .c06 import raw
from .report import shard

TYPES = ['weight', 'uberseg', 'cweight', 'cseg', 'cseg-canonical']
OPTIONAL = ['bmask', 'ormask', 'noise', 'mfrac']
COLS = ['flux_auto', 'x2', 'y2', 'number']


class Stored:
    """a catalogue in memory with the interface of meds.MEDS"""

    def __init__(self, f):
        self.f = f
        self.asked = []
        self._cat = f['cat']
        self.info = f['info']

    @property
    def size(self):
        return self._cat.size

    def __getitem__(self, name):
        return self._cat[name]

    def cut(self, iobj, icut):
        if not (0 <= iobj < self.size and 0 <= icut <
                self._cat['ncutout'][iobj]):
            raise ValueError('no cutout %r of object %r' % (icut, iobj))
        return self.f['cuts'][iobj][icut]

    def get_cutout(self, iobj, icutout, type='image'):
        self.asked.append(type)
        c = self.cut(iobj, icutout)
        if type not in c:
            raise ValueError('no %r here' % type)
        return c[type].copy()

    def get_uberseg(self, iobj, icutout, fast=True):
        return self.cut(iobj, icutout)['uberseg'].copy()

    def get_cweight_cutout(self, iobj, icutout, restrict_to_seg=False):
        return self.cut(iobj, icutout)[
            'cweight' if restrict_to_seg else 'cweight-open'].copy()

    def get_cseg_weight(self, iobj, icutout, use_canonical_cen=False):
        return self.cut(iobj, icutout)[
            'cseg-canonical' if use_canonical_cen else 'cseg'].copy()

    def get_jacobian(self, iobj, icutout):
        return dict(self.cut(iobj, icutout)['jac'])

    def get_cat(self):
        return self._cat

    def get_image_info(self):
        return self.info.copy()

    def has_psf(self):
        return self.f['psf']

    def get_psf(self, iobj, icutout):
        return self.cut(iobj, icutout)['psf'].copy()


def reader():
    """the module under test, on top of the catalogue above"""
    sys.modules['meds'] = types.ModuleType('meds')
    sys.modules['meds'].MEDS = Stored
    import ngmix.medsreaders
    return ngmix.medsreaders


def stored(fs, rng, gen):
    """the files of a case, with contents which tell where they are from"""
    out = []
    for b, f in enumerate(fs):
        nobj = len(f['objs'])
        top = max([len(o['cuts']) for o in f['objs']] + [1]) + 1
        dt = [('id', 'i8'), ('ncutout', 'i4'), ('file_id', 'i4', (top,))]
        dt += [(n, 'f8', (top,)) for n in (
            'orig_row', 'orig_col', 'psf_cutout_row', 'psf_cutout_col')]
        dt += [(n, 'i4', (top,)) for n in ('orig_start_row',
                                           'orig_start_col')]
        dt += [(n, 'f8') for n in COLS[:3] if n in f['cols']]
        dt += [('number', 'i8')] if 'number' in f['cols'] else []
        cat = np.zeros(nobj, dtype=dt)
        nfile = top + 2
        info = np.zeros(nfile, dtype=[('image_path', 'U60'), ('scale', 'f8')])
        for k in range(nfile):
            info['image_path'][k] = '/some/where/band%d/image%d.fits%s' % (
                b, k, ' ' * rng.randint(0, 3))
            info['scale'][k] = gen.uniform(.5, 2)
        cuts = []
        for n in cat.dtype.names:
            if n in ('ncutout', 'file_id'):
                continue
            cat[n] = gen.randint(1, 10000, size=cat[n].shape)
            if cat[n].dtype.kind == 'f':
                cat[n] += gen.randint(0, 8, size=cat[n].shape) / 8
        for i, o in enumerate(f['objs']):
            cat['ncutout'][i] = len(o['cuts'])
            cat['file_id'][i] = gen.randint(0, nfile, size=top)
            row = []
            for c in o['cuts']:
                dims = (rng.randint(3, 6), rng.randint(3, 6))
                if rng.random() < .5:
                    dims = (4, 4)
                d = dict(image=gen.normal(size=dims))
                for t in TYPES + ['cweight-open']:
                    d[t] = gen.uniform(.5, 2, size=dims)
                    d[t][gen.uniform(size=dims) < .2] = 0
                    d[t][rng.randrange(dims[0]), rng.randrange(dims[1])] = 1
                    if t in c['zero']:
                        d[t][:] = 0
                for t in f['has']:
                    d[t] = (gen.randint(0, 9, size=dims).astype('i4')
                            if 'mask' in t else gen.uniform(size=dims))
                d['psf'] = gen.uniform(.1, 1, size=(rng.randint(3, 5),
                                                    rng.randint(3, 5)))
                d['jac'] = dict(row0=gen.uniform(1, 3), col0=gen.uniform(1, 3),
                                dudrow=gen.uniform(-.1, .1),
                                dudcol=gen.uniform(.5, 1),
                                dvdrow=gen.uniform(.5, 1),
                                dvdcol=gen.uniform(-.1, .1))
                row.append(d)
            cuts.append(row)
        out.append(dict(cat=cat, info=info, cuts=cuts, psf=f['psf'],
                        has=f['has'], cols=f['cols']))
    return out


def same_jac(j, d, row, col):
    return (j.row0 == row and j.col0 == col and all(
        getattr(j, n) == d[n] for n in ('dudrow', 'dudcol', 'dvdrow',
                                        'dvdcol')))


def an_obs(o, w, files, bad, label):
    b, i, k = w['from'][0] - 1, w['from'][1] - 1, w['from'][2] - 1
    f = files[b]
    d = f['cuts'][i][k]
    cat, info = f['cat'], f['info']
    how = {('cutout', 'weight'): 'weight', ('uberseg',): 'uberseg',
           ('cweight', 'inside'): 'cweight', ('cseg', 'object'): 'cseg',
           ('cseg', 'middle'): 'cseg-canonical'}[tuple(w['weight'])]

    def eq(name, x, y):
        if not np.array_equal(x, y):
            bad.append('%s: %s is %r, stored %r' % (label, name, x, y))
    if not isinstance(o, ngmix.Observation):
        bad.append('%s is %r' % (label, o))
        return
    eq('image', o.image, d['image'])
    eq('weight (%s)' % how, o.weight, d[how])
    for t in OPTIONAL:
        there = getattr(o, 'has_' + t)()
        if there != (t in w['with']):
            bad.append('%s: has_%s() is %r' % (label, t, there))
        elif there:
            eq(t, getattr(o, t), d[t])
    if not same_jac(o.jacobian, d['jac'], d['jac']['row0'],
                    d['jac']['col0']):
        bad.append('%s: %r, stored %r' % (label, o.jacobian, d['jac']))
    if o.has_psf() != w['psf']:
        bad.append('%s: has_psf() is %r' % (label, o.has_psf()))
    elif w['psf']:
        eq('psf', o.psf.image, d['psf'])
        n = d['psf'].max() / 1000
        if o.psf.weight.shape != d['psf'].shape or not np.allclose(
                o.psf.weight, 1 / n ** 2, rtol=1e-12, atol=0):
            bad.append('%s: psf weight %r, specification %r'
                       % (label, o.psf.weight, 1 / n ** 2))
        if not same_jac(o.psf.jacobian, d['jac'],
                        cat['psf_cutout_row'][i, k],
                        cat['psf_cutout_col'][i, k]):
            bad.append('%s: psf %r, stored %r' % (
                label, o.psf.jacobian, d['jac']))
    fid = cat['file_id'][i, k]
    meta = dict(id=cat['id'][i], index=i, icut=k, cutout_index=k,
                file_id=fid, scale=info['scale'][fid],
                file_path=str(info['image_path'][fid]).split('/')[-1].strip())
    for n in ('orig_row', 'orig_col', 'orig_start_row', 'orig_start_col'):
        meta[n] = cat[n][i, k]
    if w['flux']:
        meta['flux'] = cat['flux_auto'][i]
    if w['T']:
        meta['T'] = cat['x2'][i] + cat['y2'][i]
    if w['number']:
        meta['number'] = cat['number'][i]
    if set(o.meta) != set(meta):
        bad.append('%s: metadata %r' % (label, sorted(
            set(o.meta) ^ set(meta))))
    else:
        for n in meta:
            if o.meta[n] != meta[n]:
                bad.append('%s: %s is %r, stored %r' % (
                    label, n, o.meta[n], meta[n]))


def a_list(ol, w, files, bad, label):
    if not isinstance(ol, ngmix.ObsList) or len(ol) != len(w['obs']):
        bad.append('%s: %d of %r kept, specification %r' % (
            label, len(ol), [o.meta['icut'] for o in ol],
            [x['from'] for x in w['obs']]))
        return
    for k, (o, x) in enumerate(zip(ol, w['obs'])):
        an_obs(o, x, files, bad, '%s epoch %d' % (label, k))
    want = {}
    if w['flux']:
        b, i = w['flux']
        want['flux'] = files[b - 1]['cat']['flux_auto'][i - 1]
    if w['T']:
        b, i = w['T']
        c = files[b - 1]['cat']
        want['T'] = c['x2'][i - 1] + c['y2'][i - 1]
    if dict(ol.meta) != want:
        bad.append('%s: metadata %r, specification %r' % (
            label, dict(ol.meta), want))


def ask(mod, ms, qy, rng):
    mb = mod.MultiBandNGMixMEDS(ms)
    kw = {} if qy['wt'] == 'weight' and rng.random() < .5 else dict(
        weight_type=qy['wt'])
    objs = [i - 1 for i in qy['objs']]
    if qy['kind'] == 'obs':
        return [[[ms[0].get_obs(objs[0], qy['cut'] - 1, **kw)]]]
    if qy['kind'] == 'list':
        return [[ms[0].get_obslist(objs[0], **kw)]]
    if qy['kind'] == 'mb':
        return [mb.get_mbobs(objs[0], **kw)]
    if qy['kind'] == 'some':
        return mb.get_mbobs_list(
            indices=rng.choice([objs, np.array(objs, dtype='i4'),
                                tuple(objs)]), **kw)
    return mb.get_mbobs_list(**kw)


def frozen(files):
    return [(f['cat'].tobytes(), f['info'].tobytes(),
             [[{k: (v.tobytes() if isinstance(v, np.ndarray) else str(v))
                for k, v in d.items()} for d in r] for r in f['cuts']])
            for f in files]


def one(chk, rec, i, mod):
    rng = random.Random(chk.seed * 100003 + i)
    gen = np.random.RandomState(rng.randrange(2 ** 31))
    fs, qy, out = rec['inp']['fs'], rec['inp']['qy'], rec['out']
    files = stored(fs, rng, gen)
    ms = [mod.NGMixMEDS(f) for f in files]
    before = frozen(files)
    bad = []
    mb = mod.MultiBandNGMixMEDS(ms)
    if mb.nband != len(fs) or mb.size != len(fs[0]['objs']):
        bad.append('%r bands of %r' % (mb.nband, mb.size))
    for again in range(2):
        label = 'again' if again else ''
        try:
            got = ask(mod, ms, qy, rng)
        except (ValueError, GMixFatalError) as err:
            got = None
            want = {'': None, 'type': ValueError,
                    'weight': GMixFatalError}[out['why']]
            if want is None or not isinstance(err, want):
                bad.append('%s failed with %r' % (label, err))
            continue
        if not out['ok']:
            bad.append('%s: answered' % label)
            continue
        if len(got) != len(out['mbs']):
            bad.append('%d objects, specification %d' % (
                len(got), len(out['mbs'])))
            continue
        for n, (g, w) in enumerate(zip(got, out['mbs'])):
            if len(g) != len(w):
                bad.append('%d bands, specification %d' % (len(g), len(w)))
                continue
            for b, (ol, x) in enumerate(zip(g, w)):
                lab = '%s object %d band %d' % (label, n, b)
                if qy['kind'] == 'obs':
                    an_obs(ol[0], x['obs'][0], files, bad, lab)
                else:
                    a_list(ol, x, files, bad, lab)
                if qy['kind'] not in ('obs', 'list') and not isinstance(
                        g, ngmix.MultiBandObsList):
                    bad.append('%s is %r' % (lab, type(g)))
                # what is done to it later is nobody else's
                for o in ol:
                    o.meta['spoiled'] = 1
                    o.meta['id'] = -1
                    with o.writeable():
                        o.image[:] = -7
                        o.weight[:] = 3
                    if o.has_psf():
                        with o.psf.writeable():
                            o.psf.image[:] = -7
                            o.psf.jacobian.set_cen(row=-1, col=-1)
                if isinstance(ol, ngmix.ObsList):
                    ol.meta['flux'] = -1
        if frozen(files) != before:
            bad.append('the catalogue was changed')
            break
    chk.trace(1, 2)
    chk.comparisons += 1
    if i < 3:
        chk.sample(dict(query=qy, bands=len(fs)))
    for x in bad[:3]:
        chk.violation('%r of %r: %s' % (qy, fs, x), rec=rec['inp'])


def a_file(rng, nobj):
    sure = rng.random() < .3
    return dict(
        objs=[dict(cuts=[dict(zero=set() if sure else set(
            t for t in TYPES if rng.random() < .3))
            for _ in range(rng.randint(0, 3))]) for _ in range(nobj)],
        has=set(t for t in OPTIONAL if rng.random() < .5),
        psf=rng.random() < .7,
        cols=set(c for c in COLS if rng.random() < .6))


def check(chk):
    rng = random.Random(chk.seed)
    jobs = []
    for k in range(chk.budget(6, 30)):
        nobj = rng.randint(1, 4)
        sets = [[a_file(rng, nobj) for _ in range(nb)]
                for nb in (1, 1, 2, 3)]
        qs = []
        for _ in range(14):
            kind = rng.choice(['obs', 'list', 'mb', 'some', 'all'])
            objs = {'some': [rng.randint(1, nobj) for _ in range(
                rng.randint(0, 3))], 'all': []}.get(
                    kind, [rng.randint(1, nobj)])
            qs.append(dict(kind=kind, objs=objs, cut=rng.randint(1, 3),
                           wt=rng.choice(TYPES + TYPES + ['blah'])))
        qs = [x for n, x in enumerate(qs) if x not in qs[:n]]
        jobs.append(('Meds', dict(
            constants=dict(Sets=raw(sets), Queries=raw(qs)),
            invariants=['Apart', 'Weighted', 'NoneLost', 'EveryBand'],
            emit='Emit')))
    mod = reader()
    for r in tlc.parallel(jobs):
        chk.tlc(r, 'Meds')
        shard(chk, lambda rec, i: one(chk, rec, i, mod), r.records)
