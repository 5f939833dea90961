"""C12: retrying runners."""
import numpy as np
from . import tlc
from .runnerdrv import run_real, nest, flat, NAMES


def C(kind, target, ntry=1, guesser=True, store=True, mode='psf'):
    return dict(kind=kind, target=target, ntry=ntry, guesser=guesser,
                store=store, mode=mode)


def raw_set(cfgs):
    return tlc.Raw('{' + ', '.join(tlc.tla_value(c) for c in cfgs) + '}')


INVS = ['Alternation', 'BudgetKept', 'StopAtSuccess', 'LastReported',
        'MixOnlyOnSuccess', 'StoredWhenAsked']


def models(deep):
    a = [['a']]
    fit = [C(k, t, n, g, True, 'fit') for k, t in
           (('obs', a), ('list', [['a', 'b']]), ('mb', [['a'], ['b']]))
           for n in (1, 2, 3, 4) for g in (True, False)]
    yield dict(cfgs=fit, Flags={0, 1, 64}, Mixes={True}, MayRaise=True)
    one = [C('obs', a, n, g, s) for n in (1, 2, 3)
           for g in (True, False) for s in (True, False)]
    yield dict(cfgs=one, Flags={0, 1, 2 ** 11}, Mixes={True, False},
               MayRaise=True)
    two = [C(k, t, n, g, s)
           for k, t in (('list', [['a', 'b']]), ('list', [['a', 'a']]),
                        ('mb', [['a'], ['b']]), ('mb', [['a'], ['a']]),
                        ('list', [[]]), ('mb', []), ('mb', [[], ['a']]))
           for n in (1, 2) for g in (True, False) for s in (True, False)]
    yield dict(cfgs=two, Flags={0, 2}, Mixes={True, False}, MayRaise=True)
    three = [C(k, t, n, True, True)
             for k, t in (('list', [['a', 'b', 'c']]),
                          ('mb', [['a', 'b'], ['c']]),
                          ('mb', [['a'], [], ['b', 'a']]))
             for n in ((1, 2, 3) if deep else (1, 2))]
    yield dict(cfgs=three, Flags={0, 2}, Mixes={True}, MayRaise=deep)
    if deep:
        big = [C('mb', [['a', 'b'], ['c', 'd']], n, g, True)
               for n in (1, 2, 3) for g in (True, False)]
        yield dict(cfgs=big, Flags={0, 2}, Mixes={True}, MayRaise=False)


def check(chk):
    rng = np.random.RandomState(chk.seed)
    for m in models(chk.thorough):
        r = tlc.run('Runner', constants=dict(
            Configs=raw_set(m['cfgs']), Flags=m['Flags'], Mixes=m['Mixes'],
            MayRaise=m['MayRaise']), invariants=INVS,
            properties=['Terminates'], spec='Spec', constraint='EmitEnd')
        chk.tlc(r, 'Runner')
        for rec in r.records:
            one(chk, rec, rng)
    traces(chk, rng)


def one(chk, rec, rng):
    cfg = rec['cfg']
    outcomes = [(ev['e'], ev['flags'], ev['mix']) for ev in rec['log']
                if ev['e'] != 'guess']
    for api in ('class', 'function'):
        w, phase, out, meta, mix = run_real(cfg, outcomes, rng, api)
        bad = []
        if w.log != rec['log']:
            bad.append('calls were %r, specification %r' % (w.log, rec['log']))
        if phase != rec['phase']:
            bad.append('ended %s, specification %s' % (phase, rec['phase']))
        if phase == 'done' and not bad:
            want = nest(cfg, rec['results'])
            if out != want:
                bad.append('returned fit %r, specification %r' % (out, want))
        if meta != rec['meta']:
            bad.append('stored results %r, specification %r'
                       % (meta, rec['meta']))
        if mix != rec['mix']:
            bad.append('stored mixtures %r, specification %r'
                       % (mix, rec['mix']))
        chk.comparisons += 1
        chk.trace(1, len(rec['log']))
        if bad:
            chk.violation('runner %s (%r, %s): %s'
                          % (cfg['mode'], cfg, api, '; '.join(bad)), rec=rec)
    if len(rec['log']) > 3:
        chk.sample({'cfg': cfg, 'log': rec['log']})


def traces(chk, rng):
    """recorded runs of bigger inputs, checked against the specification"""
    recs = []
    for _ in range(chk.budget(150, 3000)):
        kind = ['obs', 'list', 'mb'][rng.randint(3)]
        nb = rng.randint(0, 4) if kind == 'mb' else 1
        names = list(NAMES)
        rng.shuffle(names)
        dup = rng.uniform() < 0.2
        target = []
        for _ in range(nb):
            ne = 1 if kind == 'obs' else rng.randint(0, 4)
            band = []
            for _ in range(ne):
                if dup:
                    band.append(NAMES[rng.randint(6)])
                elif names:
                    band.append(names.pop())
            target.append(band)
        if kind == 'obs' and not target[0]:
            continue
        cfg = C(kind, target, int(rng.randint(1, 7)), bool(rng.randint(2)),
                bool(rng.randint(2)), ['psf', 'fit'][rng.randint(2)])
        p = rng.uniform()
        pr = rng.choice([0, 0, 0.05])
        outs = []
        for _ in range(200):
            if rng.uniform() < pr:
                outs.append(('raise', 0, False))
            else:
                outs.append(('fit', 0 if rng.uniform() < p else
                             int(rng.randint(1, 9)), bool(rng.randint(2))))
        w, phase, out, meta, mix = run_real(cfg, outs, rng, 'class')
        if phase == 'done':
            results = flat(out)
        else:
            # what the completed units reported is not returned
            results = None
        recs.append(dict(cfg=cfg, log=w.log, results=results, meta=meta,
                         mix=mix, phase=phase))
    done = [r for r in recs if r['phase'] == 'done']
    raised = [dict(r, results=[]) for r in recs if r['phase'] != 'done']
    for group, acc in ((done, 'Accepted'), (raised, 'AcceptedRaised')):
        if not group:
            continue
        for k in range(0, len(group), 100):
            part = group[k:k + 100]
            r = tlc.run('RunnerTrace', constants=dict(
                Configs=tlc.Raw('{}'), Flags={0}, Mixes={True, False},
                MayRaise=True, Traces=part), init='TInit', next_='TStep',
                constraint='Emit' + acc)
            chk.tlc(r, 'RunnerTrace')
            ok = {x['accepted'] for x in r.records}
            for i, rec in enumerate(part, 1):
                chk.trace(1, len(rec['log']))
                if i not in ok:
                    chk.violation('recorded run is not a behaviour of the '
                                  'specification: %r' % (rec,), rec=rec)
