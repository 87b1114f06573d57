"""A controlled random source: every draw of the code under test becomes a choice point which can be enumerated."""
import contextlib
import itertools
import math
import random

import numpy as np

NAMES = ('permutation', 'shuffle', 'choice', 'randint', 'random_integers', 'rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform', 'seed')
REALS = (0., 0.3, 0.5, 0.999999)


class Uncontrolled(Exception):
    pass


class Draws(object):
    """Plays a script of choices and then takes the first option; records what was chosen out of how many."""

    def __init__(self, script=(), menu=None, orders=None):
        """menu: indices of the options of `choice` to explore; orders: permutations to explore, by length."""
        self.script, self.taken = list(script), []
        self.menu, self.orders = menu, orders or {}

    def pick(self, n):
        k = len(self.taken)
        c = self.script[k] % n if k < len(self.script) else 0
        self.taken.append((c, n))
        return c

    def order(self, n):
        opts = self.orders.get(n)
        if opts is not None:
            return opts[self.pick(len(opts))]
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(self.pick(len(left)) if len(left) > 1 else 0))
        return out

    def one(self, n):
        if self.menu is not None and n > len(self.menu):
            return self.menu[self.pick(len(self.menu))]
        return self.pick(n)

    # ------------------------------------------------------------------------------- numpy.random stand-ins
    def permutation(self, x, *args, **kw):
        x = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return x[self.order(len(x))]

    def shuffle(self, x, *args, **kw):
        y = [x[i] for i in self.order(len(x))]
        for i, v in enumerate(y):
            x[i] = v

    def choice(self, a, size=None, replace=True, p=None, **kw):
        a = np.arange(a) if np.ndim(a) == 0 else np.array(a)
        if p is not None:
            raise Uncontrolled('weighted choice')
        if size is None:
            return a[self.one(len(a))]
        n = int(np.prod(size))
        if replace:
            return np.array([a[self.one(len(a))] for _ in range(n)], dtype=a.dtype).reshape(size)
        return a[self.order(len(a))[:n]].reshape(size)

    def randint(self, low, high=None, size=None, dtype=int, **kw):
        lo, hi = (0, low) if high is None else (low, high)
        if size is None:
            return lo + self.one(hi - lo)
        return np.array([lo + self.one(hi - lo) for _ in range(int(np.prod(size)))], dtype=dtype).reshape(size)

    def random_integers(self, low, high=None, size=None):
        lo, hi = (1, low) if high is None else (low, high)
        return self.randint(lo, hi + 1, size)

    def random(self, size=None):
        if size is None:
            return REALS[self.pick(len(REALS))]
        return np.array([REALS[self.pick(len(REALS))] for _ in range(int(np.prod(size)))]).reshape(size)

    random_sample = ranf = sample = random

    def rand(self, *dims):
        return self.random(dims or None)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random(size)

    def seed(self, *args, **kw):
        pass

    integers = randint                                               # Generator interface

    def py_sample(self, population, k, **kw):
        population = list(population)
        return [population[i] for i in self.order(len(population))[:k]]


@contextlib.contextmanager
def controlled(draws):
    """Route every draw through the choice points."""
    saved = []

    def put(obj, name, value):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)
    for name in NAMES:
        if hasattr(np.random, name):
            put(np.random, name, getattr(draws, name))
    for name in ('default_rng', 'RandomState'):
        put(np.random, name, lambda *a, **k: draws)
    put(random, 'shuffle', draws.shuffle)
    put(random, 'choice', lambda seq: seq[draws.one(len(seq))])
    put(random, 'sample', draws.py_sample)
    put(random, 'random', lambda: draws.random())
    put(random, 'randrange', lambda a, b=None: draws.randint(a, b))
    put(random, 'randint', lambda a, b: draws.randint(a, b + 1))
    put(random, 'uniform', lambda a, b: draws.uniform(a, b))
    put(random, 'seed', draws.seed)
    try:
        yield draws
    finally:
        for obj, name, value in reversed(saved):
            setattr(obj, name, value)


def explore(run, prefix=(), **kw):
    """Stateless depth-first exploration of all the choices: run(draws) for each of them; yields the number of executions."""
    script = list(prefix)
    while True:
        draws = Draws(script, **kw)
        run(draws)
        yield draws
        taken = draws.taken
        while len(taken) > len(prefix) and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if len(taken) <= len(prefix):
            return
        script = [c for c, _ in taken[:-1]] + [taken[-1][0] + 1]


def permutations(n):
    return [list(p) for p in itertools.permutations(range(n))]


assert math.factorial(3) == len(permutations(3))
