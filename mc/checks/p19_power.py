"""P19: the absorbed power is the prescribed waveform, steps smeared over at most 2e-5 of the simulated time."""
import itertools
import math

import numpy as np

from pygmo_fwork.pygmol.equations import Equations
from pygmo_fwork.pygmol.model_parameters import ModelParameters

from mc.core import Result, check, chunks, outcome, same
from mc.models import SETUPS, Setup

LEVEL = 'exploration'
RULE = 'every non-decreasing sequence of times over a grid (with repeats, given as integers, floats, arrays), every power ' \
       'sequence over a grid, queried at all breakpoints, midpoints and around all steps'
BOUNDS = {'quick': 'sequences of 2-4 times, 3 powers, 4 end times', 'thorough': 'sequences of 2-6 times, 4 powers, 5 end times'}
ASSUMPTIONS = ['non-decreasing times; three equal times or distinct times closer than the smearing may be refused']

E = 1.602176634e-19
# grid of times in units of the end time
GRID = (-2, 0, 0.3, 0.5, 1, 2)
ENDS = [(1., float), (10, int), (1e-3, float), (20, float)]


def sequences(n):
    for c in itertools.combinations_with_replacement(range(len(GRID)), n):
        t = [GRID[i] for i in c]
        if t[0] <= 0 and t[-1] >= 1.1:
            yield t


def shards(tier):
    q = tier == 'quick'
    items = [t for n in range(2, 5 if q else 7) for t in sequences(n)]
    return [{'times': c, 'powers': 3 if q else 4, 'ends': 4 if q else 5} for c in chunks(items, 16 if q else 96)]


_SETUP = None


def setup():
    global _SETUP
    if _SETUP is None:
        _SETUP = Setup(**SETUPS[3])
    return _SETUP


def expected_range(ts, ps, t, d):
    """Interval in which the power at the time t has to lie."""
    slack = 1e-9 * max(ps)
    reps = [i for i in range(len(ts) - 1) if ts[i] == ts[i + 1]]
    for i in reps:
        if abs(t - ts[i]) <= 2 * d * (1 + 1e-9):
            near_ = [ps[i], ps[i + 1]]
            # the neighbouring ramps meet the step inside of its window
            for a, b, base in ((i - 1, i, i), (i + 2, i + 1, i + 1)):
                if 0 <= a < len(ts) and ts[a] != ts[b]:
                    near_.append(ps[base] + (ps[a] - ps[base]) * 4 * d / abs(ts[a] - ts[b]))
            return min(near_) - slack, max(near_) + slack
    for i in range(len(ts) - 1):
        if ts[i] <= t <= ts[i + 1] and ts[i] < ts[i + 1]:
            v = ps[i] + (ps[i + 1] - ps[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
            touched = i in [r + 1 for r in reps] or i + 1 in reps
            eps = abs(ps[i + 1] - ps[i]) * 4 * d / (ts[i + 1] - ts[i]) if touched else 0.
            return v - eps - slack, v + eps + slack
    raise AssertionError


def run_one(units, ps, k, kind, res):
    end, typ = ENDS[k % len(ENDS)] if k < 4 else (0.7, float)
    ts = [typ(u * end) for u in units]
    d = 1e-5 * end
    triple = any(ts[i] == ts[i + 2] for i in range(len(ts) - 2))
    if ts[-1] < 1.1 * end:
        return
    with res.case({'units': list(units), 'powers': list(ps), 'end': k, 'kind': kind}, 60):
        s = setup()
        r, z = [(0.02, 0.05), (0.1, 0.1), (0.005, 0.4)][len(units) % 3]
        give_t = [list(ts), tuple(ts), np.array(ts)][kind % 3]
        give_p = [list(ps), np.array(ps), tuple(float(p) for p in ps)][kind % 3]
        par = dict(s.params(), P=give_p, t_P=give_t, t_end=end, r=r, z=z)
        mp = ModelParameters(par)
        status, eq = outcome(Equations, s.chem, mp if kind % 2 else par)
        if triple and status == 'err':
            res.count('refused_triples')
            return
        if status == 'err':
            eq = Equations(s.chem, par)
        w = 'power {} at times {} (end {})'.format(ps, ts, end)
        volume = math.pi * r ** 2 * z
        queries = {0., end, end / 2, end / 3, 0.999 * end}
        for a, b in zip(ts, ts[1:]):
            queries |= {a, b, (a + b) / 2., a + 0.1 * (b - a), a + 0.9 * (b - a)}
        for a in ts:
            queries |= {a + j * d for j in (-50, -5, -2.5, -2, -1, -0.5, 0, 0.5, 1, 2, 2.5, 5, 50)}
        func = eq.get_objective_functions()[0]
        y = s.vector([1e-4 if s.info[x]['charge'] > 0 else 0.5 for x in s.names], 2.)
        base = None
        for t in sorted(x for x in queries if 0 <= x <= end):
            p = float(eq.get_power_ext(t))
            lo, hi = expected_range(ts, ps, t, d)
            check(lo <= p <= hi, '{}: P({}) = {}, expected {} to {}', w, t, p, lo, hi, key='waveform')
            heat = float(eq.get_drho_dt_ext(t))
            check(abs(heat - p / volume / E) <= 1e-9 * abs(heat), '{}: heating at {} is {}, expected {}', w, t, heat,
                  p / volume / E, key='heating')
            rhs = float(func(t, y.copy())[-1]) - heat
            if base is None:
                base = rhs
            check(abs(rhs - base) <= 1e-6 * (abs(base) + max(ps) / volume / E), '{}: the electron energy balance changes '
                  'by {} in time besides the absorbed power', w, rhs - base, key='balance')
            res.count('evaluations')
        # what was given stays as given
        same([float(x) for x in give_t], [float(x) for x in ts], 'times given by the user')
        same([float(x) for x in mp['t_power']], [float(x) for x in ts], 'times of the parameters')
        if any(ts[i] == ts[i + 1] for i in range(len(ts) - 1)):
            res.see('distinct_nontrivial', (units, ps, k))


def run(shard, tier):
    res = Result()
    powers = (0, 300, 1000, 55.5)[:shard['powers']]
    for units in shard['times']:
        n = 0
        for ps in itertools.product(powers, repeat=len(units)):
            if len(units) > 4 and sum(a != b for a, b in zip(ps, ps[1:])) < 2:
                continue
            n += 1
            for k in range(shard['ends']):
                if len(units) > 3 and (n + k) % (2 if len(units) < 5 else 5):
                    continue
                run_one(tuple(units), ps, k, n + k, res)
                if res.full:
                    return res
    return res


def replay(case):
    res = Result()
    run_one(tuple(case['units']), tuple(case['powers']), case['end'], case['kind'], res)
    return res
