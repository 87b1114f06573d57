"""P27: the error between a full and a reduced solution is the documented one, at every time, aggregated in both ways."""
import itertools
import math
import warnings
from fractions import Fraction as F

import numpy as np
import pandas as pd

from pygmo_fwork.optichem.errors import SolutionsDiff

from mc.core import Result, check, outcome, same

LEVEL = 'exploration'
RULE = 'all pairs of full and reduced piecewise-linear outputs over a value grid, sampled on different time grids, x sets of times ' \
       '(on and between the samples, at the ends); all selections of one to three outputs; refused times, outputs and tables; ' \
       're-sampling of either table'
BOUNDS = {'quick': 'outputs with 3 samples over 4 and 5 values (1 time step between), all non-empty sets of up to 4 of 6 times',
          'thorough': 'outputs with 4 samples, all non-empty sets of times'}
ASSUMPTIONS = ['the outputs of the full solution are not negative (densities, temperatures, pressures)',
               'NaN values do not occur in the solutions']
T_FULL = [0., 1., 2., 4.]
T_RED = [0., 1.5, 4.]
TIMES = (0., 0.5, 1., 1.5, 3., 4.)
UNIT = {'x': 1., 'y': 2. ** 50, 'z': 2. ** -40}


def interp(ts, vs, t):
    ts, t = [F(x) for x in ts], F(t)
    for i in range(len(ts) - 1):
        if ts[i] <= t <= ts[i + 1]:
            return F(vs[i]) + (F(vs[i + 1]) - F(vs[i])) * (t - ts[i]) / (ts[i + 1] - ts[i])
    raise AssertionError(t)


def errors(full, red, times):
    """Documented mixed relative error: twice the difference over the value and its maximum over the times."""
    a = [interp(full[0], full[1], t) for t in times]
    b = [interp(red[0], red[1], t) for t in times]
    out = []
    for x, y in zip(a, b):
        d = x + max(a)
        out.append(0. if x == y else math.inf if d == 0 else float(2 * (y - x) / d))
    return out


def table(series, order=('x', 'y', 'z'), index=None):
    ts = next(iter(series.values()))[0]
    df = pd.DataFrame({'t': ts})
    for name in order:
        if name in series:
            df[name] = [v * UNIT[name] for v in series[name][1]]
    if index is not None:
        df.index = index
    return df


def near(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)


def judge(case, res):
    full = {k: (case['tf'], v) for k, v in case['full'].items()}
    red = {k: (case['tr'], v) for k, v in case['red'].items()}
    times = case['times']
    if case.get('refine'):
        full = {k: refine(v) for k, v in full.items()}
    fd = table(full, index=case.get('index'))
    rd = table(red, order=('z', 'x', 'y'))
    before = fd.copy(), rd.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        diff = SolutionsDiff(fd) if not case.get('reset') else SolutionsDiff(rd)
        if case.get('reset'):
            diff.reset(fd)
        names = [n for n in full if n in red]
        want = {n: errors(full[n], red[n], times) for n in names}
        w = 'full {} reduced {} at {}'.format(case['full'], case['red'], times)
        for n in names:
            got = [float(x) for x in diff.get_output_errors(rd, n, times)]
            same(len(got), len(times), w + ': number of errors', key='length')
            check(all(near(abs(a) if math.isinf(b) else a, b) for a, b in zip(got, want[n])), '{}: errors of {} are {}, expected {}',
                  w, n, got, want[n], key='errors')
            biggest = max(abs(x) for x in want[n])
            check(near(float(diff.get_output_error_max(rd, n, times)), biggest), '{}: max error of {}', w, n, key='max')
            rms = math.sqrt(sum(x * x for x in want[n]) / len(times))
            check(near(float(diff.get_output_error_rms(rd, n, times)), rms), '{}: rms error of {}: {}', w, n, rms, key='rms')
            if any(want[n]):
                res.see('distinct_nontrivial', w)
        for k in range(1, len(names) + 1):
            for sel in itertools.permutations(names, k):
                biggest = max(abs(x) for n in sel for x in want[n])
                got = float(diff.get_error_max(rd, list(sel), times))
                check(near(got, biggest), '{}: max error over {} is {}, expected {}', w, sel, got, biggest, key='max over outputs')
                rms = math.sqrt(sum(x * x for n in sel for x in want[n]) / len(times) / len(sel))
                got = float(diff.get_error_rms(rd, list(sel), times))
                check(near(got, rms), '{}: rms error over {} is {}, expected {}', w, sel, got, rms, key='rms over outputs')
                res.count('aggregates')
    check(fd.equals(before[0]) and rd.equals(before[1]), '{}: a solution was changed', w, key='changed')
    res.count('evaluations')


def refine(series):
    """The same piecewise-linear function sampled more often."""
    ts, vs = series
    ts2 = sorted(set(ts) | {0.25, 1.75, 2.5, 3.5})
    return ts2, [float(interp(ts, vs, t)) for t in ts2]


def judge_guards(res):
    fd = pd.DataFrame({'t': [0.5, 1., 2.], 'x': [1., 2., 3.], 'only_full': [1., 1., 1.]})
    rd = pd.DataFrame({'t': [0., 1., 1.5], 'x': [1., 2., 2.], 'only_red': [1., 1., 1.]})
    err = ('err', 'AssertionError')
    for bad in (None, {}, {'t': [1.]}, [[0., 1.]], fd.values, fd.drop(columns='t'), pd.Series([0., 1.])):
        same(outcome(SolutionsDiff, bad), err, 'solution {!r}'.format(type(bad)))
        same(outcome(SolutionsDiff(fd).reset, bad), err, 'reset to {!r}'.format(type(bad)))
        res.count('guards')
    diff = SolutionsDiff(fd)
    for t, ok in ((0.5, True), (1.5, True), (1., True), (0.4999, False), (1.5001, False), (0., False), (2., False), (-1., False)):
        for fn in ('get_output_errors', 'get_output_error_max', 'get_output_error_rms'):
            for times in ([t], [1., t], [t, 1.]):
                got = outcome(getattr(diff, fn), rd, 'x', times)
                same(got[0] == 'ok', ok, '{} at times {}: {}'.format(fn, times, got))
                if not ok:
                    same(got, err, '{} at times {}'.format(fn, times))
        for fn in ('get_error_max', 'get_error_rms'):
            got = outcome(getattr(diff, fn), rd, ['x'], [t])
            same(got[0] == 'ok', ok, '{} at time {}: {}'.format(fn, t, got))
        res.count('guards')
    for name in ('only_full', 'only_red', 'neither'):
        for fn in ('get_output_errors', 'get_output_error_max', 'get_output_error_rms'):
            same(outcome(getattr(diff, fn), rd, name, [1.]), err, '{} of {}'.format(fn, name))
        for fn in ('get_error_max', 'get_error_rms'):
            same(outcome(getattr(diff, fn), rd, ['x', name], [1.]), err, '{} of {}'.format(fn, name))
        res.count('guards')


def subsets(k):
    for n in range(1, k + 1):
        yield from (list(c) for c in itertools.combinations(TIMES, n))


def cases(tier):
    quick = tier == 'quick'
    sets = list(subsets(4 if quick else 6)) + [[3., 0.5], [4., 0., 1.]]
    fvals = (0., 1., 2., 5.)
    k = 0
    nf = 3 if quick else 4
    tf = [0., 1., 4.] if quick else T_FULL
    for f in itertools.product(fvals, repeat=nf):
        for r in itertools.product((0., 1., 2., 4.5, -1.), repeat=3):
            for times in sets[k % 9::9] if quick else sets[k % 3::3]:
                yield {'full': {'x': list(f)}, 'red': {'x': list(r)}, 'tf': tf, 'tr': T_RED, 'times': times,
                       'reset': k % 11 == 0, 'index': [7] * nf if k % 13 == 0 else None, 'refine': k % 4 == 0 and k % 13 != 0}
            k += 1
    some = list(itertools.product((0., 1., 3.), repeat=3))
    for a in some:
        for b in some[::2] if quick else some:
            for times in ([0., 1.5, 4.], [1., 3.], [4.]):
                k += 1
                yield {'full': {'x': list(a), 'y': list(b), 'z': [1., 2., 0.]},
                       'red': {'x': list(b), 'y': list(a), 'z': [1., 2., 0.] if k % 2 else [2., 2., 0.]},
                       'tf': [0., 1., 4.], 'tr': [0., 1., 4.] if k % 3 else T_RED, 'times': times}


def shards(tier):
    return [{'i': i, 'n': 32} for i in range(32)]


def run(shard, tier):
    res = Result()
    if shard['i'] == 0:
        with res.case({'guards': True}):
            judge_guards(res)
    for k, case in enumerate(cases(tier)):
        if k % shard['n'] != shard['i']:
            continue
        with res.case(case, 60):
            judge(case, res)
        if res.full:
            return res
        if k % 20000 == 0:
            res.sample(case)
    return res


def replay(case):
    res = Result()
    with res.case(case, 60):
        judge_guards(res) if case.get('guards') else judge(case, res)
    return res
