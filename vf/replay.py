"""Replay behaviours of a specification into the real code, step by step."""
import random
from .report import shard


class Refused(Exception):
    """raised by a driver when the real code refused in the expected way"""


class Driver(object):
    """
    base of the drivers: op_<name>(*args) performs a call of the
    specification on the real objects, differences(state) compares everything
    observable with a state of the specification
    """
    err = None

    def do(self, act):
        f = getattr(self, 'op_' + act['op'])
        self.err = None
        try:
            self.result = f(*act['args'])
        except Exception as err:
            self.err = err
            return False
        return True

    def check_result(self, act):
        """differences between self.result and what act prescribes"""
        return []

    def differences(self, state):
        return []


def replay(chk, graph, factory, paths, what, nproc=None):
    """factory(state, rng) -> Driver"""
    base = chk.traces

    def one(path, i):
        rng = random.Random(chk.seed * 7919 + base + i)
        st0 = graph.states[path[0].src]
        real = factory(st0, rng)
        bad = real.differences(st0)
        hist = []
        if bad:
            chk.violation('%s: at the start: %s' % (what, '; '.join(bad)),
                          state=st0)
            chk.trace(1, 0)
            return
        for e in path:
            hist.append(e.act)
            ok = real.do(e.act)
            want = e.act.get('ok', True)
            if ok != want:
                chk.violation(
                    '%s: %s%r was %s' % (
                        what, e.act['op'], tuple(e.act['args']),
                        'accepted, the specification refuses it' if ok else
                        'refused (%s: %s), the specification accepts it'
                        % (type(real.err).__name__, real.err)),
                    history=hist, initial=st0)
                break
            chk.comparisons += 1
            bad = real.check_result(e.act) + real.differences(
                graph.states[e.dst])
            if bad:
                chk.violation('%s: after %s%r: %s' % (
                    what, e.act['op'], tuple(e.act['args']), '; '.join(bad)),
                    history=hist, initial=st0)
                break
        chk.trace(1, len(path))
        if len(path) > 3:
            chk.sample({'what': what, 'calls': [
                [e.act['op']] + list(e.act['args']) for e in path[:12]]})
    shard(chk, one, paths, nproc)
