"""Scripted random generator: enumerates every outcome of a bounded random choice.

`explore(body)` runs `body(rng_factory)` once per leaf of the tree of random
decisions.  A decision is any call of choice / permutation / shuffle / integers on
the generator; anything else goes to a real seeded generator.  Code that draws its
random numbers elsewhere simply has one leaf.
"""

from __future__ import annotations

import itertools
import math

import numpy as np


class Tree:
    def __init__(self, limit: int = 200000) -> None:
        self.prefix: list = []
        self.trace: list = []
        self.limit = limit

    def pick(self, n: int) -> int:
        """Decide among n alternatives."""
        d = len(self.trace)
        v = self.prefix[d] if d < len(self.prefix) else 0
        self.trace.append((v, n))
        return v

    def advance(self) -> bool:
        while self.trace:
            v, n = self.trace.pop()
            if v + 1 < n:
                self.prefix = [x for x, _ in self.trace] + [v + 1]
                self.trace = []
                return True
        return False


class Generator:
    def __init__(self, tree: Tree) -> None:
        self._tree = tree
        self._real = np.random.Generator(np.random.PCG64(0))

    def _arrangement(self, n: int, size: int) -> list:
        """One of the ordered selections of `size` of n items, without repeats."""
        left = list(range(n))
        return [left.pop(self._tree.pick(len(left))) for _ in range(size)]

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None:
            return self._real.choice(a, size, replace, p, axis, shuffle)
        items = np.arange(int(a)) if np.ndim(a) == 0 else np.asarray(a)
        if len(items) == 0 and (size is None or np.prod(size) > 0):
            raise ValueError("a cannot be empty unless no samples are taken")
        if size is None:
            return items[self._tree.pick(len(items))]
        count = int(np.prod(size))
        if replace:
            idx = [self._tree.pick(len(items)) for _ in range(count)]
        else:
            if count > len(items):
                raise ValueError("Cannot take a larger sample than population")
            idx = self._arrangement(len(items), count)
        return items[np.asarray(idx, dtype=int)].reshape(size)

    def permutation(self, x, axis=0):
        items = np.arange(int(x)) if np.ndim(x) == 0 else np.asarray(x)
        return items[np.asarray(self._arrangement(len(items), len(items)), dtype=int)]

    def shuffle(self, x, axis=0):
        idx = self._arrangement(len(x), len(x))
        x[:] = [x[i] for i in idx] if isinstance(x, list) else x[idx]

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            return self._real.integers(low, high, size, dtype, endpoint)
        n = int(high) - int(low) + int(endpoint)
        if n > 64:
            return self._real.integers(low, high, size, dtype, endpoint)
        if size is None:
            return dtype(low + self._tree.pick(n))
        count = int(np.prod(size))
        out = [low + self._tree.pick(n) for _ in range(count)]
        return np.asarray(out, dtype=dtype).reshape(size)

    def __getattr__(self, name):
        return getattr(self._real, name)


def explore(body, limit: int = 200000):
    """Yield body() for every outcome of the random decisions taken through
    numpy.random.default_rng."""
    tree = Tree(limit)
    original = np.random.default_rng
    runs = 0
    while True:
        tree.trace = []
        np.random.default_rng = lambda *_a, **_k: Generator(tree)
        try:
            result = body()
        finally:
            np.random.default_rng = original
        runs += 1
        decisions = list(tree.trace)
        yield result, decisions
        tree.trace = decisions
        if runs >= limit or not tree.advance():
            return


def subsets(n: int):
    return itertools.chain.from_iterable(
        itertools.combinations(range(n), k) for k in range(n + 1))


def fact(n: int) -> int:
    return math.factorial(n)
