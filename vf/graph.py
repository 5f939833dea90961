"""Paths through a transition graph printed by TLC, covering all its edges."""
import json
import random
from collections import deque


def key(s):
    return json.dumps(s, sort_keys=True)


class Edge(object):
    __slots__ = ('src', 'act', 'dst', 'i')

    def __init__(self, src, act, dst, i):
        self.src, self.act, self.dst, self.i = src, act, dst, i


class Graph(object):
    """records are {"f": state, "a": action, "t": state[, "x": derived]}"""

    def __init__(self, records, init=None):
        self.states = {}
        self.out = {}
        self.edges = []
        extra = {}
        seen = set()
        for r in records:
            f, t = key(r['f']), key(r['t'])
            self.states.setdefault(f, r['f'])
            self.states.setdefault(t, r['t'])
            if 'x' in r and f not in extra:
                # what the specification derives from the state
                extra[f] = r['x']
            k = (f, key(r['a']), t)
            if k in seen:
                continue
            seen.add(k)
            e = Edge(f, r['a'], t, len(self.edges))
            self.edges.append(e)
            self.out.setdefault(f, []).append(e)
        for f, x in extra.items():
            self.states[f] = dict(self.states[f], **x)
        if init is None and records:
            self.inits = [key(records[0]['f'])]
        else:
            self.inits = [key(s) for s in (init or [])]

    def covering_paths(self, seed=1, max_len=60, budget=None):
        """
        yield lists of edges; together they cover every edge reachable from
        the initial states (or `budget` steps worth of it)
        """
        rng = random.Random(seed)
        todo = {}
        for s, es in self.out.items():
            es = list(es)
            rng.shuffle(es)
            todo[s] = es
        reach = set(self.inits)
        q = deque(self.inits)
        # how far each node is from an initial state (restart cost)
        parent = {s: None for s in self.inits}
        while q:
            s = q.popleft()
            for e in self.out.get(s, ()):
                if e.dst not in reach:
                    reach.add(e.dst)
                    parent[e.dst] = e
                    q.append(e.dst)
        nleft = sum(len(todo[s]) for s in reach if s in todo)
        pending = [s for s in reach if todo.get(s)]
        pending.sort()
        rng.shuffle(pending)
        steps = 0
        while nleft > 0:
            # start: the tree path from an initial state to some pending node
            while pending and not todo.get(pending[-1]):
                pending.pop()
            if not pending:
                break
            path = []
            e = parent[pending[-1]]
            while e is not None:
                path.append(e)
                e = parent[e.src]
            path.reverse()
            for e in path:
                if e in todo.get(e.src, ()):
                    todo[e.src].remove(e)
                    nleft -= 1
            cur = pending[-1]
            while True:
                if todo.get(cur):
                    e = todo[cur].pop()
                    nleft -= 1
                    path.append(e)
                    cur = e.dst
                else:
                    hop = self._nearest(cur, todo, 4)
                    if hop is None:
                        break
                    path += hop
                    cur = hop[-1].dst
                if len(path) >= max_len:
                    break
            steps += len(path)
            yield path
            if budget is not None and steps >= budget:
                return

    def _nearest(self, cur, todo, depth):
        prev = {cur: None}
        q = deque([(cur, 0)])
        while q:
            s, d = q.popleft()
            if todo.get(s):
                path = []
                while prev[s] is not None:
                    path.append(prev[s])
                    s = prev[s].src
                path.reverse()
                return path or None
            if d >= depth or len(prev) > 3000:
                continue
            for e in self.out.get(s, ()):
                if e.dst not in prev:
                    prev[e.dst] = e
                    q.append((e.dst, d + 1))
        return None

    def random_paths(self, n, length, seed=1):
        rng = random.Random(seed)
        for _ in range(n):
            cur = rng.choice(self.inits)
            path = []
            for _ in range(length):
                es = self.out.get(cur)
                if not es:
                    break
                e = rng.choice(es)
                path.append(e)
                cur = e.dst
            if path:
                yield path
