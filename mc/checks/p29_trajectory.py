"""P29: a sensitivity trajectory starts on the grid and moves every factor exactly once by half the range, inside the interval."""
import itertools

import numpy as np

from pygmo_fwork.optichem.exceptions import MorrisInputsError
from pygmo_fwork.optichem.morris import MorrisMethod

from mc.core import Result, check, chunks, outcome, quiet, same
from mc.models import Setup
from mc.rand import controlled, explore

LEVEL = 'exploration'
RULE = 'the random functions are replaced by choice points; every outcome of every draw is executed on the real code for every ' \
       'number of factors up to the bound (start point, order of the factors, order of the two directions); the trajectories from ' \
       'every start point given by hand, every continuous start value of a fine grid, every invalid start point'
BOUNDS = {'quick': '2 and 3 factors: all 10^n starts, all n! orders, all 2^n directions; larger numbers (4 to 12) with all orders '
                   'of rotation from 4 starts', 'thorough': '2 to 4 factors completely'}
ASSUMPTIONS = ['a trajectory needs at least two factors (as enforced by the code)']
GRID = [0.05, 0.15, 0.25, 0.35, 0.45, 0.55, 0.65, 0.75, 0.85, 0.95]
DELTA = 0.5


def method():
    s = Setup((3, 5), params={'feeds': {}})
    with quiet():
        return MorrisMethod(s.chem, s.params())


def walk(m, x0, given):
    """Run one trajectory and check every step of it."""
    steps = []
    for step in m._trajectory(seed_x=x0):
        same(len(step), 3, 'length of a step')
        i, delta, x = step
        steps.append((int(i), float(delta), [float(v) for v in x]))
    n = len(given)
    same(len(steps), n, 'number of steps from {}'.format(given), key='number of steps')
    same(sorted(s[0] for s in steps), list(range(n)), 'factors changed from {}'.format(given), key='factors')
    prev = list(given)
    for i, delta, x in steps:
        check(abs(delta) == DELTA, 'step {} from {}', delta, given, key='delta')
        same(len(x), n, 'length of the vector', key='length')
        for j in range(n):
            check(x[j] in GRID, 'factor {} left the grid: {} from {}', j, x, given, key='grid')
            if j == i:
                check(abs(x[j] - prev[j] - delta) < 1e-9, 'factor {} moved from {} to {}, announced {}', j, prev[j], x[j], delta,
                      key='announced')
            else:
                check(x[j] == prev[j], 'factor {} moved although {} was to be changed: {} to {}', j, i, prev, x, key='other factor')
        prev = x
    return tuple((s[0], s[1]) for s in steps), tuple(prev)


def all_draws(res, m, n, first):
    """All outcomes of the draws for n factors with the first start value fixed."""
    def run(draws):
        with controlled(draws):
            x0 = m._get_seed_x_random(n)
            start = [float(v) for v in x0]
            same(len(start), n, 'length of the start point', key='start length')
            check(all(v in GRID for v in start), 'the start point {} is not on the grid', start, key='start')
            path = walk(m, x0, start)
            same([float(v) for v in x0], start, 'the start point was changed by the trajectory', key='start changed')
        res.see('start points', tuple(start))
        res.see('distinct_nontrivial', (tuple(start), path))
        res.count('evaluations')
    failed = []
    for draws in explore(guard(res, run, failed, {'kind': 'all', 'n': n, 'first': first}), prefix=[first]):
        if failed:
            return


def guard(res, run, failed, case):
    def go(draws):
        bad = len(res.violations)
        with res.case(dict(case, script=list(draws.script))):
            run(draws)
        if len(res.violations) > bad:
            failed.append(1)
    return go


def by_hand(res, m, x0):
    def run(draws):
        with controlled(draws):
            walk(m, np.array(x0), list(x0))
            if len(draws.taken) % 2:
                walk(m, list(x0), list(x0))
        res.count('evaluations')
    failed = []
    for draws in explore(guard(res, run, failed, {'kind': 'hand', 'x0': list(x0)})):
        if failed:
            return


def long(res, m, n):
    """Many factors: all the rotations of the order, both directions first, a few starts."""
    orders = {n: [[(k + i) % n for i in range(n)] for k in range(n)] + [list(range(n))[::-1]], 2: [[0, 1], [1, 0]]}

    def run(draws):
        with controlled(draws):
            x0 = m._get_seed_x_random(n)
            walk(m, x0, [float(v) for v in x0])
        res.count('evaluations')
    failed = []
    for start in (0, 4, 5, 9):
        # the script fixes the start point; the order is free; the directions are the first of each
        def one(draws):
            draws.pick = first(draws.pick, n)
            run(draws)
        for draws in explore(guard(res, one, failed, {'kind': 'long', 'n': n}), prefix=[(start + i) % 10 for i in range(n)], orders=orders):
            if failed:
                return


def first(pick, n):
    def go(k):
        # directions (two options) are not branched over here
        return 0 if k == 2 and n > 3 else pick(k)
    return go


def inputs(res, m):
    """Start points given by continuous values, and start points which must be refused."""
    with res.case({'kind': 'inputs'}):
        vals = [i / 200. for i in range(201)] + GRID + [0.1 + 1e-9, 0.1 - 1e-9, 1. - 1e-12, 1e-12]
        for v in vals:
            for w in (0.05, v):
                got = [float(x) for x in m._get_seed_x([v, w, 0.5001])]
                for x, g in zip((v, w, 0.5001), got):
                    check(g in GRID, 'start value {} for {} is not on the grid', g, x, key='seed grid')
                    check(abs(g - x) <= min(abs(y - x) for y in GRID) + 1e-9, 'start value {} for {} is not the nearest', g, x, key='nearest')
            res.count('evaluations')
        bad = [[0.05], [], [0.05, 0.1], [0.5, 0.5], [0.05, 1.05], [-0.05, 0.05], [0., 0.05], [1., 0.05], [0.05, 0.45, 0.451],
               [0.05, float('nan')]]
        for x0 in bad:
            for make in (list, np.array):
                same(outcome(lambda: list(m._trajectory(make(x0)))), ('err', 'MorrisInputsError'), 'start point {}'.format(x0), key='refused')
                res.count('evaluations')
    with res.case({'kind': 'inputs', 'part': 'seeded'}):
        for n in (2, 3, 8):
            for seed in range(20):
                runs = []
                for _ in range(2):
                    np.random.seed(seed)
                    x0 = m._get_seed_x_random(n)
                    runs.append((tuple(x0), walk(m, x0, [float(v) for v in x0])))
                same(runs[0], runs[1], 'two trajectories with the same random seed', key='seed')
                res.count('evaluations')


def shards(tier):
    jobs = [{'kind': 'all', 'n': n, 'first': f} for n in ((2, 3) if tier == 'quick' else (2, 3, 4)) for f in range(10)]
    jobs.append({'kind': 'inputs'})
    jobs += [{'kind': 'hands', 'n': 2}] + [{'kind': 'long', 'n': n} for n in ((4, 5, 8, 12) if tier == 'quick' else (5, 6, 8, 12, 20))]
    return [[j] for j in jobs]


def run(shard, tier):
    res = Result()
    m = method()
    for job in shard:
        if job['kind'] == 'all':
            all_draws(res, m, job['n'], job['first'])
        elif job['kind'] == 'long':
            long(res, m, job['n'])
        elif job['kind'] == 'inputs':
            inputs(res, m)
        else:
            for x0 in itertools.product(GRID, repeat=job['n']):
                by_hand(res, m, x0)
                if res.full:
                    break
    return res


def replay(case):
    res = Result()
    m = method()
    if case['kind'] == 'all':
        all_draws(res, m, case['n'], case['first'])
    elif case['kind'] == 'hand':
        by_hand(res, m, case['x0'])
    elif case['kind'] == 'long':
        long(res, m, case['n'])
    else:
        inputs(res, m)
    return res


assert MorrisInputsError
