"""Generic minimiser for JSON plans.

A candidate is kept when it still produces a violation of the same class.  The
candidates: drop chunks of any list, drop optional dict keys, hoist a child node
over its parent, simplify strings and numbers.
"""

from __future__ import annotations

import copy
import json
import time

DROPPABLE = {"int", "cbf", "fs", "fault", "opcode", "a", "catch", "head", "libdir"}


def paths(x, pre=()):
    yield pre, x
    if isinstance(x, dict):
        for k in x:
            yield from paths(x[k], pre + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from paths(v, pre + (i,))


def get(x, path):
    for p in path:
        x = x[p]
    return x


def put(x, path, v):
    x = copy.deepcopy(x)
    if not path:
        return v
    y = x
    for p in path[:-1]:
        y = y[p]
    y[path[-1]] = v
    return x


def rem(x, path):
    x = copy.deepcopy(x)
    y = x
    for p in path[:-1]:
        y = y[p]
    del y[path[-1]]
    return x


def size(plan):
    return len(json.dumps(plan))


class Shrinker:
    def __init__(self, test, budget_s=60.0, max_tests=3000, frozen=()):
        self.test = test  # plan -> bool (same violation class)
        # scalars whose edges would change what the plan means
        self.frozen = {"t", "op", "k", "exc", *frozen}
        self.deadline = time.monotonic() + budget_s
        self.left = max_tests
        self.tests = 0

    def ok(self, cand):
        if self.left <= 0 or time.monotonic() > self.deadline:
            return False
        self.left -= 1
        self.tests += 1
        return self.test(cand)

    def lists(self, plan):
        """ddmin on every list, outermost and longest first."""
        changed = False
        todo = sorted(
            [(len(p), -len(v), p) for p, v in paths(plan) if isinstance(v, list) and v],
            key=lambda t: (t[0], t[1], str(t[2])),
        )
        for _, _, p in todo:
            try:
                cur = get(plan, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list):
                continue
            n = len(cur)
            step = n
            while step >= 1:
                i = 0
                while i < len(cur):
                    cand_list = cur[:i] + cur[i + step :]
                    cand = put(plan, p, cand_list)
                    if self.ok(cand):
                        plan, cur, changed = cand, cand_list, True
                    else:
                        i += step
                step //= 2
        return plan, changed

    def keys(self, plan):
        changed = False
        for p, v in sorted(paths(plan), key=lambda t: (len(t[0]), str(t[0]))):
            if p and isinstance(p[-1], str) and p[-1] in DROPPABLE:
                try:
                    cand = rem(plan, p)
                except (KeyError, IndexError, TypeError):
                    continue
                if self.ok(cand):
                    plan, changed = cand, True
        return plan, changed

    def hoist(self, plan):
        """Replace a node by one of its own list elements (same kind of dict)."""
        changed = False
        again = True
        while again:
            again = False
            for p, v in list(paths(plan)):
                if not p or not isinstance(v, dict) or "t" not in v:
                    continue
                for k, sub in v.items():
                    if isinstance(sub, list):
                        for e in sub:
                            if isinstance(e, dict) and "t" in e:
                                cand = put(plan, p, e)
                                if self.ok(cand):
                                    plan, changed, again = cand, True, True
                                    break
                    if again:
                        break
                if again:
                    break
        return plan, changed

    def scalars(self, plan):
        changed = False
        for p, v in list(paths(plan)):
            if not p or p[-1] in self.frozen:
                continue
            cands = []
            if isinstance(v, bool) or v is None:
                continue
            if isinstance(v, str) and len(v) > 0:
                cands = ["", "a", v[: len(v) // 2], v[len(v) // 2 :], v[:1], v[-1:]]
                if len(v) <= 12:
                    cands += [v[:i] + v[i + 1 :] for i in range(len(v))]
            elif isinstance(v, int) and v > 0:
                cands = [0, 1, v // 2, v - 1]
            for c in cands:
                if c == v or (isinstance(c, str) and len(c) >= len(v) and c != "a"):
                    continue
                try:
                    if get(plan, p) != v:
                        break
                except (KeyError, IndexError, TypeError):
                    break
                cand = put(plan, p, c)
                if self.ok(cand):
                    plan, changed = cand, True
                    break
        return plan, changed

    def run(self, plan):
        while True:
            before = size(plan)
            for f in (self.lists, self.keys, self.hoist, self.lists, self.scalars):
                plan, _ = f(plan)
            if size(plan) >= before or self.left <= 0 or time.monotonic() > self.deadline:
                return plan
