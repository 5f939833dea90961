"""Verdicts, replay files, evidence and known findings."""
import json
import os
import pickle
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Stop(Exception):
    """enough violations were collected"""


class Check(object):
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.comparisons = 0
        self.samples = []
        self.specs = []
        self.assumptions = []
        self.violations = []
        self.notes = {}
        self.max_violations = 5
        self.known = load_known(prop)
        self.known_hit = {}
        self.sample_pool = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- bookkeeping -----------------------------------------------------
    def tlc(self, r, name):
        """account for a TLC run"""
        self.states += r.states
        self.transitions += max(r.generated, 0)
        self.specs.append({'module': name, 'distinct_states': r.states,
                           'states_generated': r.generated,
                           'wall_s': round(r.wall, 2)})

    def trace(self, n=1, steps=0):
        self.traces += n
        self.steps += steps

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    # -- verdicts --------------------------------------------------------
    def violation(self, what, **detail):
        for k in self.known:
            if k.get('key') and detail.get('known_key') == k['key']:
                self.known_hit[k['key']] = k
                return
        v = dict(what=what)
        v.update(detail)
        self.violations.append(v)
        if len(self.violations) >= self.max_violations:
            raise Stop()

    def finish(self):
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': self.level,
            'coverage': {
                'states': self.states,
                'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'steps_replayed': self.steps,
                'comparisons': self.comparisons,
                'specs': self.specs,
                'samples': self.samples or ['none'],
            },
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
            'assumptions': self.assumptions,
        }
        ev['coverage'].update(self.notes)
        with open(os.path.join(d, self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write('\n')
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if self.violations:
            rd = os.path.join(ROOT, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s.json' % self.prop)
            with open(path, 'w') as fh:
                json.dump(self.violations, fh, indent=1, default=str)
            for v in self.violations:
                print('  ' + v['what'])
            print('VIOLATION property=%s replay=%s'
                  % (self.prop, os.path.relpath(path, ROOT)))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d steps=%d '
              'comparisons=%d wall=%.1fs'
              % (self.prop, self.states, self.transitions, self.traces,
                 self.steps, self.comparisons, time.time() - self.t0))
        return 0


NPROC = 7


def shard(chk, func, items, nproc=None):
    """
    func(item, index) for every item, spread over forked processes; what they
    count and find is added to chk
    """
    items = list(items)
    nproc = min(nproc or NPROC, max(1, len(items)))
    if nproc < 2:
        for i, x in enumerate(items):
            func(x, i)
        return
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for n in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.close(r)
                for _, fd in kids:
                    os.close(fd)
                for k in ('states', 'transitions', 'traces', 'steps',
                          'comparisons'):
                    setattr(chk, k, 0)
                chk.samples, chk.violations, chk.known_hit = [], [], {}
                chk.sample_pool = []
                err = None
                try:
                    for i in range(n, len(items), nproc):
                        func(items[i], i)
                except Stop:
                    pass
                except Exception as e:
                    err = (type(e).__name__, str(e), traceback.format_exc(),
                           repr(items[i])[:4000])
                with os.fdopen(w, 'wb') as fh:
                    pickle.dump((chk.traces, chk.steps, chk.comparisons,
                                 chk.samples, chk.violations, chk.known_hit,
                                 chk.sample_pool, err), fh)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        os.close(w)
        kids.append((pid, r))
    found, errs = [], []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            errs.append(('Died', 'a process replaying cases ended with '
                         'status %d' % status, '', ''))
            continue
        t, st, c, sm, v, k, pool, err = pickle.loads(data)
        chk.traces += t
        chk.steps += st
        chk.comparisons += c
        for x in sm:
            chk.sample(x)
        chk.known_hit.update(k)
        chk.sample_pool += pool
        found += v
        if err:
            errs.append(err)
    for v in found:
        chk.violations.append(v)
    for e in errs:
        traceback_text = e[2]
        sys.stderr.write(traceback_text)
        chk.violations.append(dict(what='unexpected %s: %s' % (e[0], e[1]),
                                   trace=traceback_text, case=e[3]))
    if chk.violations:
        del chk.violations[chk.max_violations:]
        raise Stop()


def load_known(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [k for k in data.get('findings', []) if k['property'] == prop]


def main(prop, func):
    from .tlc import TLCError
    chk = Check(prop)
    try:
        func(chk)
    except Stop:
        pass
    except TLCError as err:
        print('MACHINERY ERROR: %s' % err)
        sys.stdout.flush()
        os._exit(2)
    except Exception as err:
        # the harness expects every outcome the code under test can have on a
        # correct tree, so anything else is a deviation of the code
        traceback.print_exc()
        try:
            chk.violation('unexpected %s: %s' % (type(err).__name__, err),
                          trace=traceback.format_exc())
        except Stop:
            pass
    sys.stdout.flush()
    rc = chk.finish()
    sys.stdout.flush()
    os._exit(rc)
