"""C09: pixel-to-sky transforms."""
import copy
import random

import numpy as np
import ngmix

from . import tlc, term
from .c05 import q, vec
from .graph import Graph
from .replay import replay, Driver

INVS = ['Inverse', 'Origin', 'Affine', 'AreaLaw']
PROPS = ['CenOnly', 'RefusedUnchanged', 'CopyEqual']
POINTS = [vec(0, 0), vec(1, 0), vec(0, 1), vec(-3, 5), vec((1, 2), (-7, 4)),
          vec(40, 13)]
CENS = [vec(0, 0), vec((3, 2), (-1, 4)), vec(-7, 12), vec(15, (31, 2)),
        vec((1, 3), 2)]
SCALES = [q(1), q(1, 4), q(-2), q(263, 1000)]
VALS = [q(0), q(1), q(-1), q(1, 2), q(-3, 4), q(2), q(263, 1000)]


class Wcs(object):
    """anything with the four derivatives"""
    def __init__(self, vr, vc, ur, uc):
        self.dvdy, self.dvdx, self.dudy, self.dudx = vr, vc, ur, uc


class Real(Driver):
    points = POINTS

    def __init__(self, state, rng):
        self.rng = rng
        self.j = {}
        for r, v in enumerate(state['jac'], 1):
            row, col, vr, vc, ur, uc = [term.qf(x) for x in v]
            self.j[r] = ngmix.Jacobian(row=row, col=col, dvdrow=vr, dvdcol=vc,
                                       dudrow=ur, dudcol=uc)

    def op_make(self, r, how, c, m):
        import galsim
        row, col = [term.qf(x) for x in c]
        vr, vc, ur, uc = [term.qf(x) for x in m]
        if self.rng.random() < .3:
            row, col, vr, vc, ur, uc = [
                np.float64(x) for x in (row, col, vr, vc, ur, uc)]
        rc = dict(row=row, col=col)
        xy = dict(x=col, y=row)
        if how == 'rowcol':
            j = ngmix.Jacobian(dvdrow=vr, dvdcol=vc, dudrow=ur, dudcol=uc,
                               **rc)
        elif how == 'xy':
            j = ngmix.Jacobian(dvdy=vr, dvdx=vc, dudy=ur, dudx=uc, **xy)
        else:
            if how.startswith('wcs'):
                w = Wcs(vr, vc, ur, uc)
            else:
                w = galsim.JacobianWCS(uc, ur, vc, vr)
            j = ngmix.Jacobian(wcs=w, **(rc if how.endswith('rowcol')
                                         else xy))
        self.j[r] = j

    def op_make_diag(self, r, how, c, s):
        row, col = [term.qf(x) for x in c]
        s = term.qf(s)
        if how == 'diag_rowcol':
            j = ngmix.DiagonalJacobian(scale=s, row=row, col=col)
        elif how == 'diag_xy':
            j = ngmix.DiagonalJacobian(scale=s, x=col, y=row)
        elif how == 'unit_rowcol':
            j = ngmix.UnitJacobian(row=row, col=col)
        elif how == 'unit_xy':
            j = ngmix.UnitJacobian(x=col, y=row)
        else:
            j = ngmix.DiagonalJacobian(row=row, col=col)
        self.j[r] = j

    def op_make_bad(self, how):
        J, D = ngmix.Jacobian, ngmix.DiagonalJacobian
        full = dict(row=1, col=2, dvdrow=1, dvdcol=0, dudrow=0, dudcol=1)
        xy = dict(x=1, y=2, dvdy=1, dvdx=0, dudy=0, dudx=1)

        def without(d, k):
            return {n: v for n, v in d.items() if n != k}
        if how == 'nothing':
            J()
        elif how == 'no_cen':
            J(dvdrow=1, dvdcol=0, dudrow=0, dudcol=1)
        elif how in ('no_dvdrow', 'no_dudcol', 'no_col'):
            J(**without(full, how[3:]))
        elif how in ('no_dudx', 'no_dvdy', 'no_y'):
            J(**without(xy, how[3:]))
        elif how == 'diag_nothing':
            self.rng.choice([D, ngmix.UnitJacobian])()
        elif how == 'diag_no_col':
            D(row=3)
        elif how == 'diag_no_y':
            D(x=3)
        elif how == 'mixed':
            J(row=1, col=2, dvdy=1, dvdx=0, dudy=0, dudx=1)

    def op_set_cen(self, r, how, c):
        row, col = [term.qf(x) for x in c]
        if how == 'rowcol':
            self.j[r].set_cen(row=row, col=col)
        else:
            self.j[r].set_cen(x=col, y=row)

    def op_set_cen_bad(self, r, how):
        self.j[r].set_cen(**({} if how == 'nothing' else {how: 77.0}))

    def op_copy(self, r, t, how):
        j = self.j[r]
        if how == 'copy':
            self.j[t] = j.copy()
        elif how == 'copy.copy':
            self.j[t] = copy.copy(j)
        elif how == 'deepcopy':
            self.j[t] = copy.deepcopy(j)
        else:
            a, b = copy.deepcopy([j, j])
            if a is not b:
                raise RuntimeError('one transform became two')
            self.j[t] = a

    def op_export(self, r, t, c):
        row, col = [term.qf(x) for x in c]
        wcs = self.j[r].get_galsim_wcs()
        self.j[t] = ngmix.Jacobian(row=row, col=col, wcs=wcs)

    def op_eval(self, r):
        rng = self.rng
        pts = np.array([[term.qf(x) for x in p] for p in self.points])
        j = self.j[r]
        # one array of any shape, and every point on its own
        shape = rng.choice([(6,), (2, 3), (3, 2), (1, 6)])
        a, b = pts[:, 0].reshape(shape), pts[:, 1].reshape(shape)
        f = rng.choice([j, j.get_vu])
        self.vu = [np.ravel(x) for x in f(a, b)]
        self.rc = [np.ravel(x) for x in j.get_rowcol(a, b)]
        self.scal = [(j.get_vu(x, y), j(x, y), j.get_rowcol(x, y))
                     for x, y in pts]
        self.ints = []
        for k, (x, y) in enumerate(pts):
            if x == int(x) and y == int(y):
                self.ints.append((k, j(int(x), int(y)),
                                  j.get_rowcol(int(x), int(y)),
                                  j(np.array([int(x)]), np.array([int(y)]))))
        r0, c0 = np.mgrid[0:2, 0:2]
        self.grid = [np.asarray(x) for x in j(r0, c0)]
        self.gal = []
        w = j.get_galsim_wcs()
        import galsim
        for x, y in pts:
            p = w.toWorld(galsim.PositionD(y - j.col0, x - j.row0))
            self.gal.append((p.y, p.x))
        self.who = r

    def differences(self, state):
        bad = []
        for r, v in enumerate(state['jac'], 1):
            j = self.j[r]
            want = [term.qf(x) for x in v]
            got = [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol]
            got2 = list(j.get_cen()) + [
                j.get_dvdrow(), j.get_dvdcol(), j.get_dudrow(),
                j.get_dudcol()]
            d = j.get_data()
            got3 = [d[n][0] for n in ('row0', 'col0', 'dvdrow', 'dvdcol',
                                      'dudrow', 'dudcol')]
            if not got == got2 == got3 == want:
                bad.append('transform %d is %r (%r, %r), specification %r'
                           % (r, got, got2, got3, want))
            if 'd' not in state:
                continue
            x = state['d'][r - 1]
            det, area = term.qf(x['det']), term.qf(x['area'])
            for name, g, w in (('det', j.det, det), ('det', j.get_det(), det),
                               ('area', j.area, area),
                               ('area', j.get_area(), area),
                               ('scale', j.scale, area ** .5),
                               ('scale', j.get_scale(), area ** .5)):
                if abs(g - w) > 1e-13 * abs(w):
                    bad.append('%s of %d is %r, specification %r'
                               % (name, r, g, w))
        if 'd' in state:
            same = state['same']
            a, b = self.j[1], self.j[2]
            if bool(a == b) != same or bool(b == a) != same or bool(
                    a != b) == same:
                bad.append('equality says %r, specification %r'
                           % (a == b, same))
        return bad

    def check_result(self, act):
        return []


class RealEval(Real):
    """evaluations are compared where the specification derives them"""
    def differences(self, state):
        bad = Real.differences(self, state)
        who = getattr(self, 'who', None)
        self.who = None
        if who is None or 'd' not in state:
            return bad
        x = state['d'][who - 1]
        big = max(abs(term.qf(v)) for v in state['jac'][who - 1]) + 60
        tol = 1e-13 * big * big / min(1, term.qf(x['area']))
        vu = np.array([[term.qf(v) for v in p] for p in x['vu']])
        rc = np.array([[term.qf(v) for v in p] for p in x['rc']])

        def cmp(name, got, want):
            if not np.all(np.abs(np.asarray(got, dtype='f8') - want) <= tol):
                bad.append('%s of %d is %r, specification %r'
                           % (name, who, np.asarray(got).tolist(),
                              want.tolist()))
        cmp('sky positions of an array', np.transpose(self.vu), vu)
        cmp('pixels of an array', np.transpose(self.rc), rc)
        cmp('sky position', [s[0] for s in self.scal], vu)
        cmp('sky position by call', [s[1] for s in self.scal], vu)
        cmp('pixel', [s[2] for s in self.scal], rc)
        cmp('sky position through galsim', self.gal, vu)
        for k, a, b, c in self.ints:
            cmp('sky position of integers', a, vu[k])
            cmp('pixel of integers', b, rc[k])
            cmp('sky position of an integer array', np.ravel(c), vu[k])
        cmp('sky position on a grid',
            [self.grid[0][1, 0], self.grid[1][1, 0],
             self.grid[0][0, 1], self.grid[1][0, 1]],
            np.concatenate([vu[1], vu[2]]))
        return bad


OPS = ['make', 'diag', 'bad', 'set_cen', 'copy', 'export']


def mats(rng, n):
    out = []
    while len(out) < n:
        m = [rng.choice(VALS) for _ in range(4)]
        a = [term.q(x) for x in m]
        if a[0] * a[3] - a[1] * a[2] != 0 and m not in out:
            out.append(m)
    return out


def check(chk):
    rng = random.Random(chk.seed)
    deep = chk.thorough
    jobs = []
    # histories
    for k in range(chk.budget(4, 28)):
        ops = set(rng.sample(OPS, 3 if deep else 2)) | {'bad'}
        jobs.append(dict(
            Mats=mats(rng, 3), Scales=rng.sample(SCALES, 2),
            Cens=[CENS[0]] + rng.sample(CENS[1:], 1), Points=POINTS, Ops=ops,
            MaxEdits=3 if deep else 2))
    # many transforms, evaluated and moved once
    for k in range(chk.budget(3, 28)):
        jobs.append(dict(
            Mats=mats(rng, 60 if deep else 20), Scales=SCALES[:1], Cens=CENS, Points=POINTS,
            Ops={'set_cen', 'bad'}, MaxEdits=1))
    rs = tlc.parallel([('Jacobian', dict(
        constants=c, invariants=INVS, properties=PROPS, view='View',
        emit='Emit')) for c in jobs])
    j = ngmix.UnitJacobian(row=0, col=0)
    st = {'jac': [[q(0), q(0), q(1), q(0), q(0), q(1)]] * 2}
    RealEval(st, rng).op_eval(1)
    j.get_rowcol(1, 2), j(np.arange(2).reshape(1, 2), np.zeros((1, 2)))
    for c, r in zip(jobs, rs):
        chk.tlc(r, 'Jacobian')
        g = Graph(r.records)
        inits = [s for s, v in g.states.items() if v['edits'] == 0]
        g.inits = inits
        replay(chk, g, RealEval,
               list(g.covering_paths(seed=chk.seed, max_len=40,
                                     budget=chk.budget(2500, 60000)))
               + list(g.random_paths(30, 20, seed=chk.seed)), 'transform')
