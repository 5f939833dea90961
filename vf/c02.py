"""C02: guarded and all-or-nothing observation edits."""
from . import tlc, obsdrv, c01
from .c01 import J
from .graph import Graph


def configs(thorough):
    out = []
    base = dict(R=2, C=3, ImgPats=[[1, 2, 3, 4, 5, 6]], WtPats=[],
                JacPats=[], PokeCells=tlc.Raw('{}'), DataOps=False,
                MaxEdits=0)
    if thorough:
        out.append(dict(base, PartVals=dict(bmask=2, ormask=2, noise=2,
                                            mfrac=2, psf=2, gmix=2),
                        MaxParts=3))
    else:
        out.append(dict(base, PartVals=dict(bmask=2, ormask=2, noise=2,
                                            mfrac=2, psf=2, gmix=2),
                        MaxParts=2))
    # rejected edits of the data, with an optional part along
    out.append(dict(R=2, C=1, ImgPats=[[1, 2]], WtPats=[[0, 0], [4, 0]],
                    JacPats=[J(1, 3, 2, 1, -1, 3)], PokeCells={1},
                    DataOps=True, MaxEdits=1,
                    PartVals=dict(bmask=1), MaxParts=1))
    return out


def check(chk):
    cfgs = configs(chk.thorough)
    runs = tlc.parallel([('Obs', dict(
        constants=cfg, invariants=c01.INV, properties=c01.PROP, view='View',
        emit='Emit')) for cfg in cfgs])
    for cfg, r in zip(cfgs, runs):
        what = 'Obs parts' if not cfg['DataOps'] else 'Obs data'
        chk.tlc(r, what)
        g = Graph(r.records, init=c01.initial_states(r.records, cfg))
        obsdrv.replay(chk, g, cfg, g.covering_paths(
            seed=chk.seed, max_len=40, budget=chk.budget(55000, 1500000)),
            what)
        obsdrv.replay(chk, g, cfg, g.random_paths(
            chk.budget(200, 4000), 40, seed=chk.seed), what + ' walk')
