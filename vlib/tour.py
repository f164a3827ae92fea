"""Walks that take every transition of an explored state graph at least once."""
import json
from collections import defaultdict


def key(x):
    return json.dumps(x, sort_keys=True)


class Graph:
    def __init__(self, edges):
        """edges: iterable of (state, label, state)"""
        self.ids, self.states, self.out = {}, [], defaultdict(list)
        self.n = 0
        for a, o, b in edges:
            self.out[self._id(a)].append((o, self._id(b)))
            self.n += 1

    def _id(self, s):
        k = key(s)
        if k not in self.ids:
            self.ids[k] = len(self.states)
            self.states.append(s)
        return self.ids[k]

    def walks(self, rnd, maxlen=120, anywhere=True, start=None):
        """Greedy walks over untaken edges.  With anywhere=True a walk may begin in
        any state, otherwise it begins in `start` and is led (shortest path)
        to the nearest state with an untaken edge."""
        todo = {}
        for s, es in self.out.items():
            es = es[:]
            rnd.shuffle(es)
            todo[s] = es
        order = list(self.out)
        rnd.shuffle(order)
        if anywhere:
            for s0 in order:
                while todo[s0]:
                    cur, steps = s0, []
                    while len(steps) < maxlen and todo.get(cur):
                        o, b = todo[cur].pop()
                        steps.append((cur, o, b))
                        cur = b
                    yield s0, steps
            return
        s0 = self.ids[key(start)]
        # shortest-path tree from the start
        pred, queue = {s0: None}, [s0]
        for s in queue:
            for o, b in self.out.get(s, ()):
                if b not in pred:
                    pred[b] = (s, o)
                    queue.append(b)
        for goal in queue[::-1]:
            while todo.get(goal):
                path, s = [], goal
                while pred[s] is not None:
                    p, o = pred[s]
                    path.append((p, o, s))
                    s = p
                steps = path[::-1]
                cur = goal
                while len(steps) < maxlen + len(path) and todo.get(cur):
                    o, b = todo[cur].pop()
                    steps.append((cur, o, b))
                    cur = b
                yield s0, steps
