"""C01: the pixel list tracks image, weights and coordinates."""
from . import tlc, obsdrv
from .graph import Graph

UNIT = None


def J(r, c, vr, vc, ur, uc):
    return dict(r=r, c=c, vr=vr, vc=vc, ur=ur, uc=uc)


INV = ['PixelsCurrent', 'NoStoreNoPix', 'PositiveOnly']
PROP = ['RejectedUnchanged', 'ReadOnlyOutside']


def configs(thorough):
    base = dict(DataOps=True, PartVals=tlc.Raw('[p \\in {} |-> 0]'),
                MaxParts=0)
    out = []
    out.append(dict(base, R=2, C=3,
                    ImgPats=[[1, 2, 3, 4, 5, 6], [9, 8, 0, -6, 5, 4]],
                    WtPats=[[1, 4, 0, 16, -1, 1], [0, 0, 0, 0, 0, 0]],
                    JacPats=[J(1, 3, 2, 1, -1, 3)],
                    PokeCells={2}, MaxEdits=1))
    out.append(dict(base, R=1, C=2,
                    ImgPats=[[3, -5]],
                    WtPats=[[4, 1], [0, 4]],
                    JacPats=[J(0, 1, 0, 4, -4, 0)],
                    PokeCells={1, 2} if thorough else {2}, MaxEdits=2))
    if thorough:
        out.append(dict(base, R=3, C=2,
                        ImgPats=[[1, 2, 3, 4, 5, 6], [0, 0, 1, 0, 0, 0],
                                 [9, 8, 0, -6, 5, 4]],
                        WtPats=[[1, 4, 0, 16, -1, 1], [0, 0, 0, 0, 0, 0],
                                [-1, -4, 0, 0, 0, 9], [0, -1, 0, 0, 0, 0]],
                        JacPats=[J(1, 3, 2, 1, -1, 3), J(-2, 7, 0, -3, 5, 1)],
                        PokeCells={1, 4}, MaxEdits=1))
        out.append(dict(base, R=2, C=2,
                        ImgPats=[[1, 2, 3, 4]],
                        WtPats=[[1, 0, 4, -1], [0, 0, 0, 0]],
                        JacPats=[J(1, 3, 2, 1, -1, 3)],
                        PokeCells={1, 3}, MaxEdits=3))
    return out


def check(chk):
    cfgs = configs(chk.thorough)
    runs = tlc.parallel([('Obs', dict(
        constants=cfg, invariants=INV, properties=PROP, view='View',
        emit='Emit')) for cfg in cfgs])
    for cfg, r in zip(cfgs, runs):
        chk.tlc(r, 'Obs %dx%d' % (cfg['R'], cfg['C']))
        g = Graph(r.records, init=initial_states(r.records, cfg))
        what = 'Obs %dx%d' % (cfg['R'], cfg['C'])
        obsdrv.replay(chk, g, cfg, g.covering_paths(
            seed=chk.seed, max_len=40, budget=chk.budget(36000, 1500000)),
            what)
        obsdrv.replay(chk, g, cfg, g.random_paths(
            chk.budget(200, 4000), 40, seed=chk.seed), what + ' walk')


def initial_states(records, cfg):
    """states the specification allows at construction"""
    seen, out = set(), []
    n = cfg['R'] * cfg['C']
    for rec in records:
        s = rec['f']
        if s['ctx'] or s['img'] not in cfg['ImgPats']:
            continue
        if s['wt'] not in cfg['WtPats'] and s['wt'] != [1] * n:
            continue
        unit = J(cfg['R'] - 1, cfg['C'] - 1, 4, 0, 0, 4)
        if s['jac'] not in cfg['JacPats'] and s['jac'] != unit:
            continue
        if any((s['parts'] or {}).values()) or s['meta']:
            continue
        if not cfg['DataOps'] and not (s['store'] and s['ign']):
            continue
        if s['store'] and not s['pix']['has']:
            continue
        k = str(s)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out
