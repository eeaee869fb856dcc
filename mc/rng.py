"""Scripted uniform random numbers: every source of uniform draws is replaced, and all
scripts over a grid of draws are explored as a tree."""
import bisect
import contextlib
import random

import numpy as np


class Exhausted(BaseException):
    """The code asked for more draws than the script allows."""


class Source:
    """Serves draws u in [0, 1) one by one."""

    def __init__(self, draw, index=None):
        self.draw = draw
        self.index = index

    def randint(self, low, high=None, size=None, dtype=int):
        """An integer in [low, high): every one of them is a branch."""
        low, high = (0, low) if high is None else (low, high)
        if size is None:
            return int(low + self.index(int(high - low)))
        shape = (size,) if np.isscalar(size) else tuple(size)
        count = int(np.prod(shape)) if shape else 1
        return np.array(
            [low + self.index(int(high - low)) for _ in range(count)], dtype=int
        ).reshape(shape)

    integers = randint

    def fill(self, size):
        if size is None:
            return float(self.draw())
        shape = (size,) if np.isscalar(size) else tuple(size)
        count = int(np.prod(shape)) if shape else 1
        return np.array([self.draw() for _ in range(count)], dtype=float).reshape(shape)

    # ---- the interfaces through which uniform numbers are drawn

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.fill(size)

    def random(self, size=None, *args, **kw):
        return self.fill(size)

    random_sample = random
    ranf = random
    sample = random

    def rand(self, *shape):
        return self.fill(shape if shape else None)

    def seed(self, *args, **kw):
        pass

    def permutation(self, x):
        x = list(range(x)) if np.isscalar(x) else list(x)
        return np.array([x.pop(self.index(len(x))) for _ in range(len(x))])

    def shuffle(self, x):
        x[:] = list(self.permutation(x))

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.isscalar(a) else np.asarray(a)
        if self.index is not None and p is None:
            if replace or size is None:
                return a[self.randint(0, len(a), size)]
            return a[self.permutation(len(a))[: int(np.prod(size))]].reshape(size)
        p = np.full(len(a), 1.0 / len(a)) if p is None else np.asarray(p, dtype=float)
        cut = np.cumsum(p)
        index = np.searchsorted(cut, self.fill(size), side="right")
        return a[np.minimum(index, len(a) - 1)]


class Library:
    """The same through the interface of Python's random module."""

    def __init__(self, source):
        self.source = source

    def random(self):
        return float(self.source.draw())

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def seed(self, *args, **kw):
        pass

    def randrange(self, start, stop=None, step=1):
        every = range(start) if stop is None else range(start, stop, step)
        return every[self.source.index(len(every))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        return seq[self.source.index(len(seq))]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        if weights is None and cum_weights is None and self.source.index is not None:
            return [self.choice(population) for _ in range(k)]
        cut = list(cum_weights) if cum_weights is not None else np.cumsum(weights if weights is not None else [1] * len(population)).tolist()
        return [population[min(bisect.bisect(cut, self.random() * cut[-1]), len(population) - 1)] for _ in range(k)]

    def sample(self, population, k):
        rest = list(population)
        return [rest.pop(self.source.index(len(rest))) for _ in range(k)]

    def shuffle(self, x):
        x[:] = self.sample(x, len(x))


@contextlib.contextmanager
def replaced(source, *modules):
    """Replaces numpy's and Python's sources of uniform numbers, also where a module has
    imported them by name."""
    names = ["uniform", "random", "random_sample", "ranf", "sample", "rand", "seed", "choice"]
    if source.index is not None:
        names += ["randint", "permutation", "shuffle"]
    saved = []

    def put(owner, name, new):
        saved.append((owner, name, getattr(owner, name)))
        setattr(owner, name, new)

    olds = {}
    for name in names:
        olds[id(getattr(np.random, name))] = getattr(source, name)
    olds[id(np.random.RandomState)] = lambda *a, **k: source
    olds[id(np.random.default_rng)] = lambda *a, **k: source
    library = Library(source)
    std = ["random", "uniform", "seed", "choices"]
    if source.index is not None:
        std += ["randrange", "randint", "choice", "sample", "shuffle"]
    for name in std:
        olds[id(getattr(random, name))] = getattr(library, name)
    olds[id(random.Random)] = lambda *a, **k: library
    for module in modules:
        for name, value in list(vars(module).items()):
            if id(value) in olds and callable(value):
                put(module, name, olds[id(value)])
    for name in names:
        put(np.random, name, getattr(source, name))
    put(np.random, "RandomState", lambda *a, **k: source)
    put(np.random, "default_rng", lambda *a, **k: source)
    for name in std:
        put(random, name, getattr(library, name))
    put(random, "Random", lambda *a, **k: library)
    try:
        yield
    finally:
        for owner, name, old in reversed(saved):
            setattr(owner, name, old)


def tree(values, limit, body, modules=(), integers=False, start=(), choices=False):
    """Runs body() on every script over `values` (and of integers, if they are drawn) that
    begins with the choices `start`; a script that needs more than `limit` draws is cut.
    Yields (number of draws used, result or None if cut), and the choices made if asked."""
    script = list(start)
    sizes = [0] * len(script)
    while True:
        used = 0

        def index(k):
            nonlocal used
            if used >= limit:
                raise Exhausted()
            if used == len(script):
                script.append(0)
                sizes.append(k)
            sizes[used] = k
            used += 1
            return script[used - 1]

        def draw():
            return values[index(len(values))]

        with replaced(Source(draw, index if integers else None), *modules):
            try:
                result = body()
            except Exhausted:
                result = None
        yield (used, result, tuple(script[:used])) if choices else (used, result)
        del script[used:], sizes[used:]
        while len(script) > len(start) and script[-1] == sizes[len(script) - 1] - 1:
            script.pop()
            sizes.pop()
        if len(script) <= len(start):
            return
        script[-1] += 1
