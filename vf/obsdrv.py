"""Drive a real Observation from Obs.tla transitions."""
import contextlib
import random

import numpy as np
from .replay import replay as _replay
import ngmix

from .term import close

ARRAYS = ('bmask', 'ormask', 'noise', 'mfrac')


def make_jac(j, rng=None):
    kw = dict(dvdrow=j['vr'] / 4., dvdcol=j['vc'] / 4.,
              dudrow=j['ur'] / 4., dudcol=j['uc'] / 4.)
    return ngmix.Jacobian(row=j['r'] / 2., col=j['c'] / 2., **kw)


def part_value(name, v, dims):
    """the v-th value of an optional part"""
    n = dims[0] * dims[1]
    if name in ('bmask', 'ormask'):
        return (np.arange(n, dtype='i4') + 10 * v).reshape(dims)
    if name in ('noise', 'mfrac'):
        return (np.arange(n, dtype='f8') / 4 + v).reshape(dims)
    if name == 'psf':
        return ngmix.Observation(
            np.arange(4.).reshape(2, 2) + v,
            jacobian=ngmix.DiagonalJacobian(row=0.5, col=0.5, scale=0.5))
    if name == 'gmix':
        return ngmix.GMixModel([0.5, 0.25, 0.1, 0.2, 4.0, 2.0 + v], 'gauss')
    raise ValueError(name)


class Mismatch(Exception):
    pass


class ObsReal(object):
    """the real observation, driven by spec actions"""

    def __init__(self, state, cfg, rng):
        self.cfg = cfg
        self.dims = (cfg['R'], cfg['C'])
        self.rng = rng
        self.stack = None
        n = self.dims[0] * self.dims[1]
        # the specification's weights stand for any that are ordered and
        # signed alike: here their powers, in some unit
        self.power = rng.choice([1, 1, 9])
        self.unit = rng.choice([1., 1., 4. ** -20, 4. ** 15])
        kw = {}
        if state['wt'] != [1] * n or self.unit != 1 or rng.random() < 0.5:
            kw['weight'] = self._weight(state['wt'])
        unit = dict(r=self.dims[0] - 1, c=self.dims[1] - 1,
                    vr=4, vc=0, ur=0, uc=4)
        if state['jac'] != unit or rng.random() < 0.5:
            kw['jacobian'] = make_jac(state['jac'])
        if not state['store'] or rng.random() < 0.5:
            kw['store_pixels'] = state['store']
        if not state['ign'] or rng.random() < 0.5:
            kw['ignore_zero_weight'] = state['ign']
        self.obs = ngmix.Observation(self._arr(state['img']), **kw)
        self.refs = {}

    def _arr(self, vals):
        a = np.array(vals, dtype='f8').reshape(self.dims)
        if self.rng.random() < 0.3:
            a = np.asfortranarray(a)
        elif self.rng.random() < 0.3:
            a = a.astype('f4')
        return a

    def wval(self, w):
        return (-1. if w < 0 else 1.) * float(abs(w)) ** self.power * self.unit

    def ierr(self, r):
        return float(r) ** self.power * np.sqrt(self.unit)

    def _weight(self, vals):
        vals = [self.wval(w) for w in vals]
        if self.power == 1:
            return self._arr(vals)
        return np.array(vals).reshape(self.dims)

    # -- actions ---------------------------------------------------------
    def do(self, act):
        """perform the action; returns True if accepted, False if refused"""
        f = getattr(self, 'op_' + act['op'])
        try:
            f(*act['args'])
        except Exception as err:
            self.err = err
            return False
        return True

    def _set(self, name, value):
        if self.rng.random() < 0.5:
            setattr(self.obs, name, value)
        else:
            getattr(self.obs, 'set_' + name)(value)

    def op_set_image(self, n):
        self._set('image', self._arr(self.cfg['ImgPats'][n - 1]))

    def op_set_weight(self, n):
        self._set('weight', self._weight(self.cfg['WtPats'][n - 1]))

    def op_set_weight_default(self):
        if self.unit == 1:
            self._set('weight', None)
        else:
            self._set('weight', np.full(self.dims, self.unit))

    def op_set_jacobian(self, n):
        j = make_jac(self.cfg['JacPats'][n - 1])
        self._set('jacobian', j)
        # the transform handed in is not shared
        j.set_cen(row=-99.0, col=99.0)

    def op_set_jacobian_default(self):
        self._set('jacobian', None)

    def op_store_pixels(self, b):
        self.obs.store_pixels = b

    def op_ignore_zero_weight(self, b):
        self.obs.ignore_zero_weight = b

    def op_update_pixels(self):
        self.obs.update_pixels()

    def op_bad_image(self, how):
        self._set('image', self._bad(how))

    def op_bad_weight(self, how):
        self._set('weight', self._bad(how))

    def _bad(self, how):
        r, c = self.dims
        if how == 'shape':
            return np.ones((r + 1, c))
        if how == 'ndim':
            return np.ones(r * c)
        return np.ones((c, r))

    def op_bad_jacobian(self, how):
        self._set('jacobian', 3.0)

    def op_enter(self):
        self.stack = contextlib.ExitStack()
        self.stack.enter_context(self.obs.writeable())

    def op_exit(self, raising):
        st, self.stack = self.stack, None
        if raising:
            class Body(Exception):
                pass
            e = Body('body')
            try:
                swallowed = False
                with st:
                    raise e
                swallowed = True
            except Body:
                pass
            if swallowed:
                raise Mismatch('an exception in the write context was lost')
        else:
            st.close()

    def op_poke_image(self, k, x):
        self.obs.image[self._cell(k)] = x

    def op_poke_weight(self, k, x):
        self.obs.weight[self._cell(k)] = self.wval(x)

    def op_scale_weight(self, f):
        w = self.obs.weight
        w *= f

    def _cell(self, k):
        return ((k - 1) // self.dims[1], (k - 1) % self.dims[1])

    def op_poke_jacobian(self, r, c):
        self.obs.jacobian.set_cen(row=r / 2., col=c / 2.)

    def op_poke_pixels(self):
        p = self.obs.pixels
        name = self.rng.choice(['val', 'ierr', 'u', 'v', 'area', 'fdiff'])
        p[name][0] = -17.0

    def op_set_part(self, p, v):
        val = part_value(p, v, self.dims)
        self._set(p, val)
        if p == 'gmix':
            # not shared
            val.set_flux(1000.0)

    def op_clear_part(self, p):
        self._set(p, None)

    def op_bad_part(self, p, how):
        if how == 'type':
            self._set(p, 'not a thing')
        else:
            self._set(p, self._bad(how))

    def op_poke_part(self, p):
        a = getattr(self.obs, p)
        a[...] = part_value(p, 2, self.dims)

    def op_poke_gmix(self):
        g = self.obs.gmix
        g.set_flux(77.0)
        g.set_cen(3.0, 3.0)

    def op_get_missing(self, p):
        if getattr(self.obs, 'has_' + p)():
            raise Mismatch('has_%s is true' % p)
        getattr(self.obs, p)

    def op_set_meta(self, m):
        self._set('meta', dict(m))

    def op_update_meta(self, m):
        self.obs.update_meta_data(dict(m))

    def op_bad_meta(self, how):
        if how == 'set':
            self._set('meta', [1, 2])
        else:
            self.obs.update_meta_data([1, 2])

    # -- projection ------------------------------------------------------
    def check_result(self, act):
        return []

    def differences(self, st):
        """compare with a spec state; returns a list of differing parts"""
        o = self.obs
        bad = []
        im, w = o.image, o.weight
        if im.shape != self.dims or w.shape != self.dims:
            return ['shape']
        if im.ravel().tolist() != st['img']:
            bad.append('image %r, spec %r' % (im.ravel().tolist(), st['img']))
        if w.ravel().tolist() != [self.wval(x) for x in st['wt']]:
            bad.append('weight %r, spec %r' % (w.ravel().tolist(), st['wt']))
        j, sj = o.jacobian, st['jac']
        got = [j.row0 * 2, j.col0 * 2, j.dvdrow * 4, j.dvdcol * 4,
               j.dudrow * 4, j.dudcol * 4]
        want = [sj[k] for k in ('r', 'c', 'vr', 'vc', 'ur', 'uc')]
        if not all(close(a, b) for a, b in zip(got, want)):
            bad.append('transform %r, spec %r' % (got, want))
        if bool(o.store_pixels) != st['store']:
            bad.append('store_pixels')
        if bool(o.ignore_zero_weight) != st['ign']:
            bad.append('ignore_zero_weight')
        if im.flags.writeable != st['ctx'] or w.flags.writeable != st['ctx']:
            bad.append('writeable flag, spec %r' % st['ctx'])
        if not st['ctx']:
            bad += self.pixel_differences(st['pix'])
        for p, v in (st['parts'] or {}).items():
            has = getattr(o, 'has_' + p)()
            if has != (v != 0):
                bad.append('has_%s %r, spec value %r' % (p, has, v))
                continue
            forms = [lambda: getattr(o, p)]
            if hasattr(o, 'get_' + p):
                forms.append(getattr(o, 'get_' + p))
            if not has:
                # asking for what is not there fails, it gives nothing
                if p == 'psf':
                    forms.append(o.get_psf_gmix)
                    if o.has_psf_gmix():
                        bad.append('has_psf_gmix without a psf')
                for f in forms:
                    try:
                        bad.append('absent %s gives %r' % (p, f()))
                    except (AttributeError, RuntimeError):
                        pass
                continue
            if p == 'psf' and (o.get_psf() is not o.psf
                               or o.has_psf_gmix() != o.psf.has_gmix()):
                bad.append('forms of psf differ')
            if p == 'gmix' and not np.array_equal(
                    o.get_gmix().get_full_pars(), o.gmix.get_full_pars()):
                bad.append('forms of gmix differ')
            if has:
                ref = part_value(p, v, self.dims)
                got = getattr(o, p)
                if p == 'psf':
                    same = np.array_equal(got.image, ref.image)
                elif p == 'gmix':
                    same = np.allclose(got.get_full_pars(),
                                       ref.get_full_pars(), rtol=1e-12)
                else:
                    same = np.array_equal(got, ref)
                    if got.flags.writeable != st['ctx']:
                        bad.append('%s writeable' % p)
                if not same:
                    bad.append('%s value' % p)
        if dict(o.meta) != dict(st['meta'] or {}):
            bad.append('meta %r, spec %r' % (o.meta, st['meta']))
        return bad

    def pixel_differences(self, spix):
        p = self.obs.pixels
        if not spix['has']:
            return [] if p is None else ['pixel list present, spec: none']
        if p is None:
            return ['no pixel list']
        spix = spix['list']
        if len(p) != len(spix):
            return ['%d pixels, spec %d' % (len(p), len(spix))]
        rows = zip(p['v'].tolist(), p['u'].tolist(), p['area'].tolist(),
                   p['val'].tolist(), p['ierr'].tolist(), spix)
        for i, (v, u, area, x, ie, s) in enumerate(rows):
            if not (close(v, s['v'] / 8.) and close(u, s['u'] / 8.)
                    and close(area, s['area'] / 16.)
                    and close(x, s['val'])
                    and close(ie, self.ierr(s['ierr']))):
                return ['pixel %d is %r, spec %r'
                        % (i, (v, u, area, x, ie), s)]
        return []


def replay(chk, graph, cfg, paths, what):
    """replay spec behaviours; stops at the first mismatch of each path"""
    _replay(chk, graph, lambda st, rng: ObsReal(st, cfg, rng), paths, what)
