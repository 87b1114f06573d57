"""Sensitivity trajectories on the real code with a stand-in solver and a controlled random source; their reference."""
import contextlib
import itertools
import math
import os
import warnings

import numpy as np
import pandas as pd
import yaml
from scipy.optimize import OptimizeResult

from pygmo_fwork.optichem.morris import MorrisMethod

from mc import refchem as R
from mc import universe as U
from mc.checks.p20_run_success import Solver, solver_in_place
from mc.core import check, quiet, same
from mc.models import Setup
from mc.refphys import near

GRID = [0.05, 0.15, 0.25, 0.35, 0.45, 0.55, 0.65, 0.75, 0.85, 0.95]
BASE = {'H2': 8e19, 'Ar+': 4e17, 'Ar': 1e21, 'H-': 1e16, 'Ar*': 2e18, 'H': 4e19, 'H+': 1e17}
FAILS = {'fail': 'BackendRunUnsuccessfulError', 'valueerror': None, 'runtimeerror': None}


class Stub(Solver):
    """Stand-in for the ODE solver: a made-up solution for every call, and a record of the equations it was given."""

    def __init__(self, setup, fail=(), number=0):
        super().__init__()
        self.setup, self.fail, self.number = setup, dict(fail), number
        self.runs = []                               # one table (or None) and the equations of every call

    def __call__(self, fun, t_span, y0, *args, **kw):
        k = len(self.runs)
        s = self.setup
        names = s.names
        same(len(y0), len(names) + 1, 'length of the initial vector', key='vector')
        same(tuple(float(x) for x in t_span), (0., float(s.par['t_end'])), 'time span', key='span')
        rhs = []
        for j in (1, 2):
            y = self.state(k + j, j)
            with np.errstate(all='ignore'):
                rhs.append((y, np.array(fun(0.01 * j, y), dtype=float)))
        mode = self.fail.get(k, 'ok')
        self.runs.append({'rhs': rhs, 'y0': np.array(y0, dtype=float), 'table': None})
        if mode == 'valueerror':
            raise ValueError('array must not contain infs or NaNs')
        if mode == 'runtimeerror':
            raise RuntimeError('solver broke down')
        if mode == 'interrupt':
            raise KeyboardInterrupt()
        ts = np.array([0., 0.25, 0.5, 1.]) * t_span[1]
        ys = np.array([self.state(k, i) for i in range(4)])
        ok = mode == 'ok'
        if ok:
            self.runs[-1]['table'] = self.table(ts, ys)
        return OptimizeResult(t=ts, y=ys.T.copy(), sol=None, t_events=None, y_events=None, nfev=5, njev=1, nlu=2,
                              status=0 if ok else -1, success=ok, message='end' if ok else 'Required step size is too small')

    def state(self, k, i):
        names, info = self.setup.names, self.setup.info
        k = k + 5 * self.number
        n = np.array([BASE[x] * (1. + 0.0625 * ((7 * k + 3 * j + (2 * k + 5) * i + k * k) % 11)) for j, x in enumerate(names)])
        ne = sum(c * info[x]['charge'] for x, c in zip(names, n))
        return np.r_[n, 1.5 * ne * (2. + 0.125 * ((k * k + 2 * i + k) % 7))]

    def table(self, ts, ys):
        cols = {'t': [float(t) for t in ts]}
        for j, x in enumerate(self.setup.names):
            cols[x] = [float(v) for v in ys[:, j]]
        rows = []
        with np.errstate(all='ignore'):
            for y in ys:
                rows.append(self.setup.phys.state(y))
        tg = float(self.setup.par['Tg'])
        cols['e'] = [r['electron_density'][0] for r in rows]
        cols['Te'] = [r['electron_temperature'][0] for r in rows]
        cols['Tg'] = [tg] * len(ts)
        cols['p'] = [r['total_pressure'][0] for r in rows]
        return cols


@contextlib.contextmanager
def stage(solver):
    with solver_in_place(solver), quiet(), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        yield


def method(setup, backend='pygmol'):
    with quiet():
        return MorrisMethod(setup.chem, setup.params(), model_backend=backend)


def read_meta(traj_dir):
    with open(os.path.join(traj_dir, 'meta.yaml')) as f:
        return yaml.safe_load(f)


def factors_of(setup, kind, ret=()):
    if kind == 'species':
        return list(setup.names)
    if kind == 'reactions':
        return list(setup.rids)
    return ['r({}>{})'.format(s, r) for s, r in ret]


def on_grid(x):
    y = round(x, 5)
    return y if y in GRID and abs(x - y) < 1e-9 else None


def nominal(setup):
    return {r: setup.ref.arrh_of(r, False) for r in setup.rids}


def expected_k(setup, kind, x):
    """Pre-exponential factors for a vector of factors of a reactions or species trajectory."""
    nom = nominal(setup)
    if kind == 'reactions':
        return {r: 2. * v * nom[r] for r, v in zip(setup.rids, x)}
    out = {}
    for r in setup.rids:
        lhs, rhs = setup.net.pool[r]
        f = 1.
        for n, v in zip(setup.names, x):
            if n in lhs or n in rhs:
                f *= 2. * v
        out[r] = nom[r] * f
    return out


def expected_ret(setup, ret, ranges, x):
    """{stuck: {returned: coefficient}} of the species touched by a return_coefficients trajectory."""
    out = {}
    for (stuck, back), rng, v in zip(ret, ranges, x):
        nom = setup.info[stuck]['ret']
        cur = out.setdefault(stuck, dict(nom))
        new = nom[back] * rng ** (2. * v - 1.)
        cur[stuck] = cur.get(stuck, 0.) - (new - nom[back])
        cur[back] = new
    return out


def close(a, b, rel=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b)) or (a == b)


def check_path(setup, kind, seen, meta, ret=(), ranges=()):
    """seen: the reference-readable answers (see refchem.observe) of the chemistry of every run. Returns the start vector."""
    names = factors_of(setup, kind, ret)
    n = len(names)
    ids = meta['factors_ids']
    deltas = meta['deltas']
    same(sorted(map(str, ids)), sorted(map(str, names)), 'factors of the trajectory', key='factors')
    same([type(i) for i in ids], [int if kind == 'reactions' else str] * n, 'types of the factors', key='factors')
    check(all(abs(d) == 0.5 for d in deltas) and len(deltas) == n, 'steps {}', deltas, key='deltas')
    obs = [dict(o['arrh_nominal']) for o in seen]
    starts = []
    if kind == 'reactions':
        nom = nominal(setup)
        starts = [[on_grid(obs[0][r] / nom[r] / 2.) for r in setup.rids]]
        check(None not in starts[0], 'the first run has the factors {}', [obs[0][r] / nom[r] / 2. for r in setup.rids], key='start')
    elif kind == 'species':
        want = [obs[0][r] for r in setup.rids]
        for x in itertools.product(GRID, repeat=n):
            k = expected_k(setup, kind, x)
            if all(close(k[r], w) for r, w in zip(setup.rids, want)):
                starts.append(list(x))
        check(starts, 'no vector of factors gives the rate coefficients {} of the first run', want, key='start')
    else:
        x = []
        for (stuck, back), rng in zip(ret, ranges):
            got = dict(seen[0]['ret'])[setup.net.id_of[stuck]].get(back, 0.)
            x.append(on_grid((math.log(got / setup.info[stuck]['ret'][back]) / math.log(rng) + 1.) / 2.))
        check(None not in x, 'the first run has the factors {}', x, key='start')
        starts = [x]
    good = []
    why = None
    for x0 in starts:
        x, ok = list(x0), True
        path = [list(x)]
        for f, d in zip(ids, deltas):
            i = [str(v) for v in names].index(str(f))
            x[i] = round(x[i] + d, 5)
            path.append(list(x))
            ok = ok and x[i] in GRID
        for k, v in enumerate(path):
            w = differs(setup, kind, seen[k], v, ret, ranges)
            if w:
                why, ok = 'run {} (factors {}): {}'.format(k, v, w), False
                break
        if ok:
            good.append(path)
    check(good, 'the runs do not follow the trajectory {} {} from {}: {}', ids, deltas, starts[0], why, key='path')
    return good[0]


def differs(setup, kind, seen, x, ret, ranges):
    if kind in ('reactions', 'species'):
        want = expected_k(setup, kind, x)
        got = dict(seen['arrh_nominal'])
        bad = [r for r in setup.rids if not close(got[r], want[r])]
        return 'arrh_a of {} is {}, expected {}'.format(bad, [got[r] for r in bad], [want[r] for r in bad]) if bad else None
    for stuck, want in expected_ret(setup, ret, ranges, x).items():
        got = dict(seen['ret'])[setup.net.id_of[stuck]]
        keys = set(got) | set(want)
        if any(abs(got.get(b, 0.) - want.get(b, 0.)) > 1e-9 for b in keys):
            return 'return coefficients of {} are {}, expected {}'.format(stuck, got, want)
    return None


def state_of_run(setup, kind, seen, x, ret=(), ranges=()):
    """The setup of one run: the base with the values of this run (validated before by check_path)."""
    s = setup.fresh()
    if kind in ('reactions', 'species'):
        got = dict(seen['arrh_nominal'])
        for r in s.rids:
            s.ref.arrh[r] = got[r]
    else:
        for stuck in expected_ret(setup, ret, ranges, x):
            i = s.net.id_of[stuck]
            s.ref.ret[i] = dict(dict(seen['ret'])[i])
    s.refresh()
    return s


def check_rhs(setup, run, what):
    for j, (y, got) in zip((1, 2), run['rhs']):
        with np.errstate(all='ignore'):
            st = setup.phys.state(y)
            st.update(setup.phys.timed(0.01 * j, st))
            check(near(got, *st['dy_dt']), '{}: the equations do not belong to the factors of this run', what, key='equations')


def check_solution(path, table, what):
    df = pd.read_csv(path, index_col=0)
    same(list(df.columns), list(table), what + ': columns of the solution', key='columns')
    for c in table:
        check(len(df) == len(table[c]) and all(close(a, b) for a, b in zip(df[c], table[c])), '{}: {} is {}, the model gave {}',
              what, c, list(df[c]), table[c], key='solution')


# ------------------------------------------------------------------------------------------------ statistics
def value_at(table, col, t):
    ts, vs = table['t'], table[col]
    for i in range(len(ts) - 1):
        if ts[i] <= t <= ts[i + 1]:
            return vs[i] + (vs[i + 1] - vs[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
    raise AssertionError(t)


def effects(tables, deltas, ids, t):
    """(elementary effects {factor: {output: value}}, mean outputs {output: value}) of one trajectory at one time."""
    cols = [c for c in tables[0] if c != 't']
    vals = [{c: value_at(tb, c, t) for c in cols} for tb in tables]
    ee = {f: {c: (vals[k + 1][c] - vals[k][c]) / d for c in cols} for k, (f, d) in enumerate(zip(ids, deltas))}
    return ee, {c: math.fsum(v[c] for v in vals) / len(vals) for c in cols}


assert R and U
