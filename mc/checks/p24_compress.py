"""P24: compression of logged tables drops only rows which are close to the last kept one, never the ends."""
import itertools
import warnings

import numpy as np
import pandas as pd

from pygmo_fwork.results import ResultsParser

from mc.core import Result, check, chunks, same

LEVEL = 'exploration'
RULE = 'all value sequences over an alphabet around the tolerance (both signs, zero, jumps) x all patterns of short and long ' \
       'time steps, for one and two columns, several tolerances; every dropped and every kept row is judged'
BOUNDS = {'quick': 'tables of up to 5 rows in one column (6 values), 4 rows in two columns',
          'thorough': 'tables of up to 6 rows in one column (7 values), 5 rows in two columns'}
ASSUMPTIONS = ['rows are numbered 0, 1, 2... as in the logs', 'two zeros one after another may count as equal or as undefined']

# (diff_threshold, min_timestep, short and long step in units of t_end=1024, values)
SETTINGS = {
    'default': (None, None, (0.25, 8.), (1., 1.03, 1.06, 0.96, -1., 0.)),
    'binary': (0.5, 2. ** -10, (0.5, 1.), (1., 1.25, 1.5, -1., -1.5, 0.25)),      # exact ties at 1.5 / 1 and at one step
    'strict': (0., 0., (0.5, 1.), (1., 2., -1., 0., 1e18, 1e-18)),
    'wide': (2., 0.25, (2., 512.), (1., 2.5, 3.5, -1.5, 0., -0.5)),
}
COLS = {'x': 1., 'y': -2. ** 63}


def verdicts(rows, t, front, i, tol, step):
    """(may row i be dropped?, may row i be kept?) after the kept row `front`."""
    if t[i] - t[front] < step:
        return True, False
    drop, undefined = True, False
    for a, b in zip(rows[front], rows[i]):
        if a == 0. and b == 0.:
            undefined = True
            drop = drop and tol > 0.
        elif a == 0. or not abs(b - a) / abs(a) < tol:
            return False, True
    return drop, undefined or not drop


def judge(name, rows, steps, scale, res):
    tol, mstep, dts, _ = SETTINGS[name]
    ts = [0.]
    for s in steps:
        ts.append(ts[-1] + dts[s])
    ts.append(1024. if ts[-1] < 1024. else 2 * ts[-1])
    rows = list(rows)
    assert len(rows) == len(ts)
    cols = list(COLS)[:len(rows[0])]
    df = pd.DataFrame([[r * scale * COLS[c] for r, c in zip(row, cols)] for row in rows], columns=cols)
    df.insert(0, 't', ts)
    before = df.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if tol is None:
            got = ResultsParser.compress_solution(df)
            tol, mstep = 0.05, 0.001
        else:
            got = ResultsParser.compress_solution(df, diff_threshold=tol, min_timestep=mstep)
    w = '{} {} at {} (tolerance {}, {})'.format(name, rows, ts, tol, mstep)
    check(df.equals(before), '{}: the full table was changed', w, key='input changed')
    same(list(got.columns), ['t'] + cols, w + ': columns', key='columns')
    kept = [ts.index(x) for x in got['t']]
    check(kept == sorted(set(kept)), '{}: kept rows are {}', w, kept, key='order')
    check(got.reset_index(drop=True).equals(before.iloc[kept].reset_index(drop=True)), '{}: rows were altered', w, key='altered')
    check(kept[0] == 0 and kept[-1] == len(ts) - 1, '{}: ends are not kept: {}', w, kept, key='ends')
    front, step = 0, mstep * ts[-1]
    for i in range(1, len(ts) - 1):
        may_drop, may_keep = verdicts(rows, ts, front, i, tol, step)
        if i in kept:
            check(may_keep, '{}: row {} is close to the kept row {} and was kept', w, i, front, key='kept')
            front = i
        else:
            check(may_drop, '{}: row {} differs from the kept row {} and was dropped', w, i, front, key='dropped')
    res.count('evaluations')
    if 2 < len(kept) < len(ts):
        res.see('distinct_nontrivial', (name, tuple(rows), tuple(steps)))


def cases(tier):
    one = 5 if tier == 'quick' else 6
    for name in SETTINGS:
        vals = SETTINGS[name][3] if tier != 'quick' else SETTINGS[name][3][:5] + SETTINGS[name][3][5:]
        for n in range(2, one + 1):
            seqs = itertools.product(vals, repeat=n) if n < one or tier != 'quick' else itertools.product(vals[:4], repeat=n)
            for seq in seqs:
                for steps in itertools.product((0, 1), repeat=n - 2):
                    if n == one and tier == 'quick' and sum(steps) == 0:
                        continue
                    yield name, [(v,) for v in seq], steps
        pairs = list(itertools.product(vals[:3], repeat=2))
        for n in range(3, (4 if tier == 'quick' else 5) + 1):
            for seq in itertools.product(pairs, repeat=n):
                if seq[0] != pairs[0] and n > 3:
                    continue
                if n == 5 and seq[1] == seq[0]:
                    continue
                for steps in ([1] * (n - 2), [0] + [1] * (n - 3)):
                    yield name, list(seq), tuple(steps)


def shards(tier):
    return [{'i': i, 'n': 32} for i in range(32)]


def run(shard, tier):
    res = Result()
    for k, (name, rows, steps) in enumerate(cases(tier)):
        if k % shard['n'] != shard['i']:
            continue
        for scale in ((1.,) if len(rows) > 3 else (1., 2. ** -100, 2. ** 83)):
            with res.case({'name': name, 'rows': rows, 'steps': list(steps), 'scale': scale}, 60):
                judge(name, rows, steps, scale, res)
            if res.full:
                return res
        if k % 5000 == 0:
            res.sample({'name': name, 'rows': rows, 'steps': list(steps)})
    return res


def replay(case):
    res = Result()
    with res.case(case, 60):
        judge(case['name'], [tuple(r) for r in case['rows']], case['steps'], case['scale'], res)
    return res
