"""P28: an iterative reduction keeps exactly the accepted removals, whatever the individual model runs do."""
import contextlib
import itertools
import math
import os
import warnings

import numpy as np
import pandas as pd
import yaml
from scipy.optimize import OptimizeResult

from plaschem.chemistry import Chemistry
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.optichem.reduction import ReductionIterator

from mc import refchem as R
from mc import universe as U
from mc.checks.p20_run_success import Solver, solver_in_place
from mc.core import Result, Violation, check, outcome, quiet, same, scratch
from mc.models import Setup
from mc.refphys import near

LEVEL = 'fault_enumeration'
RULE = 'stateless exploration of the real reduction loop behind a stand-in for the ODE solver: every run which the loop asks for ' \
       'branches over the outcomes (no error, error at the limit, too large an error, failed solution, solver exception, interrupt ' \
       'while solving, interrupt while logging); at every run the chemistry and the equations are compared with the reference, at ' \
       'the end the history, its file, the run directories, the saved chemistries and the restored chemistry'
BOUNDS = {'quick': 'every outcome sequence of up to 3 removals (5 outcomes) and of up to 4 removals (3 outcomes), several orders, '
                   'streaks 0 to 2, static and dynamic rankings, manual sequences with and without backtracking',
          'thorough': 'every outcome sequence of up to 4 removals over 7 outcomes, all orders of the ranking'}
ASSUMPTIONS = ['the model is not touched between the steps (as documented)', 'the interrupt arrives while the model runs or is '
               'logged (elsewhere it ends the program)', 'with backtracking switched on and off in one reduction the state to '
               'restore is not documented: not mixed']
LIMIT = 25.                                      # maximal allowed error in %
SCALE = {'same': 1., 'small': 1.125, 'limit': 1.25, 'large': 1.3125, 'minus': 0.5, 'logint1': 1., 'logint2': 1.}
FAILS = ('fail', 'valueerror', 'interrupt', 'logint1', 'logint2')

CONFIGS = {
    # several ions, cascades, a third body; densities and the electron temperature are important
    'ions': dict(net=dict(rids=(3, 7, 9, 4, 6, 1, 17, 20), params={'feeds': {'Ar': 10}}), imp=['Ar+', 'Te']),
    # removing H would remove the important H- and the feed gas H2 as well
    'implicit': dict(net=dict(rids=(3, 7, 9, 4, 6, 1, 17, 20), params={'feeds': {'Ar': 10, 'H2': 2}}), imp=['H-']),
    # removing H2 removes H-, removing Ar* nothing else; overridden values and a protected species must survive
    'over': dict(net=dict(rids=(3, 5, 8, 7, 9, 6, 1, 2), params={'feeds': {'Ar': 1.}},
                          ops=[('stick', 31, 0.25), ('ret', 31, (('H2', 0.25), ('H', 0.5))), ('arrh', 9, 4e-14), ('prot', 25)]),
                 imp=['e', 'p']),
    # the reduction starts from a reduced chemistry (manual mode only)
    'reduced': dict(net=dict(rids=(3, 5, 8, 7, 9, 10, 4), params={'feeds': {'Ar': 1.}}, ops=[('dis_s', 3)]), imp=['Ar', 'Tg']),
}
BASE = {'H2': 8e19, 'Ar+': 4e17, 'Ar': 1e21, 'H-': 1e16, 'Ar*': 2e18, 'H': 4e19, 'H+': 1e17}


_SETUPS = {}


def setup_of(name):
    if name not in _SETUPS:
        _SETUPS[name] = Setup(**CONFIGS[name]['net'])
    return _SETUPS[name].fresh()


class Script(Solver):
    """Solver stand-in which plays the outcomes of a script; beyond its end it takes the first outcome of the menu."""

    def __init__(self, world, script, menu):
        super().__init__()
        self.world, self.script, self.menu = world, list(script), menu
        self.taken = []

    def __call__(self, fun, t_span, y0, *args, **kw):
        world = self.world
        world.at_run(fun, np.array(y0, dtype=float), t_span)
        if world.base_pending:
            mode = 'same'
        else:
            k = len(self.taken)
            mode = self.script[k] if k < len(self.script) else self.menu[0]
            self.taken.append(mode)
        world.mode = mode
        if mode == 'valueerror':
            raise ValueError('array must not contain infs or NaNs')
        if mode == 'interrupt':
            raise KeyboardInterrupt()
        names = world.setup.names
        scale = SCALE.get(mode, 1.)
        ts = np.array([0., 0.25, 0.5, 1.]) * t_span[1]
        n = np.array([BASE[x] * (scale if x != 'Ar+' or 'Ar+' in world.imp else 1.) for x in names])
        ne = sum(c * world.setup.info[x]['charge'] for x, c in zip(names, n))
        # each removal changes all the densities and so ne; important outputs scale alike, the temperature too
        y = np.r_[n, 1.5 * ne * 2. * scale]
        ys = np.array([y * (0.5 if i == 0 else 1.) for i in range(4)])
        ok = mode != 'fail'
        world.sol = (ts, ys)
        if mode.startswith('logint'):
            world.arm(int(mode[-1]))
        return OptimizeResult(t=ts, y=ys.T.copy(), sol=None, t_events=None, y_events=None, nfev=5, njev=1, nlu=2,
                              status=0 if ok else -1, success=ok, message='end' if ok else 'Required step size is too small')


class World(object):
    """Reference of one reduction: which state the chemistry must be in and what the history must say."""

    def __init__(self, name, max_error=LIMIT):
        c = CONFIGS[name]
        self.name, self.imp = name, list(c['imp'])
        self.setup = setup_of(name)
        self.ref = self.setup.ref
        self.start = self.ref.clone()
        self.max_error = max_error
        self.keep = set(self.imp) | set(self.setup.par['feeds'])
        self.names0 = self.names()
        self.times = [0.5 * self.setup.par['t_end'], 0.75 * self.setup.par['t_end']]
        prot = {self.ref.net.name_of[i] for i in self.ref.prot | self.ref.impl}
        self.eligible = {n for n in self.names0 if n not in self.keep and n not in prot}
        self.attempted, self.rows, self.base_sol, self.last_sol = set(), [], None, None
        self.base_pending, self.mode, self.sol = False, None, None
        self.saved = {}
        self.armed = 0
        self.states = 0

    def names(self, ref=None):
        ref = ref or self.ref
        return [n for n in ref.net.names if n not in U.SPECIAL and ref.net.id_of[n] in ref.sp]

    def arm(self, n):
        self.armed = n

    def to_csv(self, real, *args, **kw):
        if self.armed:
            self.armed -= 1
            if not self.armed:
                raise KeyboardInterrupt()
        return real(*args, **kw)

    def at_run(self, fun, y0, span):
        """The model is being solved: with the chemistry the reference expects?"""
        self.states += 1
        R.compare(R.observe(self.setup.chem), self.ref.observe(), 'chemistry at run {}'.format(len(self.rows)))
        self.setup.ref = self.ref
        self.setup.refresh()
        s = self.setup
        same(len(y0), len(s.names) + 1, 'length of the initial vector', key='vector')
        same(tuple(float(x) for x in span), (0., float(s.par['t_end'])), 'time span', key='span')
        with np.errstate(all='ignore'):
            st = s.phys.state(y0)
            st.update(s.phys.timed(0.01, st))
            check(near(fun(0.01, y0), *st['dy_dt']), 'the equations do not belong to the current chemistry', key='stale equations')

    def outputs(self):
        """{important output: values at the important times (the solution is constant there)}"""
        ts, ys = self.sol
        names = self.setup.names
        y = ys[-1]
        ne = float(sum(c * self.setup.info[x]['charge'] for x, c in zip(names, y)))
        tg = self.setup.par['Tg']
        te = 2. / 3. * y[-1] / ne
        out = {n: float(v) for n, v in zip(names, y)}
        with np.errstate(all='ignore'):
            st = self.setup.phys.state(y)
        out.update(e=st['electron_density'][0], Te=st['electron_temperature'][0], Tg=tg, p=st['total_pressure'][0])
        return {k: float(out[k]) for k in self.imp}

    @staticmethod
    def errors(full, red):
        each = [abs(2 * (red[k] - full[k]) / (full[k] + full[k])) for k in full]
        return max(each), math.sqrt(sum(x * x for x in each) / len(each))

    # ------------------------------------------------------------------------------------------------
    def expect_base(self):
        self.base_sol = self.last_sol = self.outputs()
        n = len(self.names())
        self.rows.append({'run_id': '00_full_chemistry', 'rm_success': True, 'total_removed': 0, 'total_left': n,
                          'error_base_max': 0., 'error_base_rms': 0., 'error_last_max': 0., 'error_last_rms': 0.})
        self.saved['00_full_chemistry'] = self.ref.clone()

    def try_remove(self, sp):
        """Reference state during the run of the removal, or None if the species cannot be removed."""
        self.attempted.add(sp)
        self.before = self.ref.clone()
        trial = self.ref.clone()
        if trial.apply(('dis_s', trial.net.id_of[sp]), {}) != 'ok':
            return None
        if (set(self.names()) - set(self.names(trial))) & self.keep:
            return None
        return trial

    def settle(self, sp, score, trial, mode, backtrack):
        """Outcome of the attempt is known: what must the history say, and which chemistry is left?"""
        row = {'species': sp, 'ranking_score': score}
        accepted = False
        if trial is None or mode in FAILS:
            self.ref = self.before
            row['rm_success'] = False
            left = self.names()
        else:
            self.ref = trial
            left = self.names()
            row['rm_success'] = True
            extra = set(self.names(self.before)) - set(left) - {sp}
            row['rm_additional'] = extra
            row['run_id'] = '{:02d}_disabled_{}'.format(len(self.attempted), sp)
            sol = self.outputs()
            row['error_base_max'], row['error_base_rms'] = self.errors(self.base_sol, sol)
            row['error_last_max'], row['error_last_rms'] = self.errors(self.last_sol, sol)
            self.saved[row['run_id']] = self.ref.clone()
            if backtrack and row['error_base_max'] > self.max_error / 100:
                self.ref = self.before
                accepted = 'over'
            else:
                accepted = True
                self.last_sol = sol
                self.eligible -= {sp} | extra
        row['total_left'] = len(left)
        row['total_removed'] = len(self.names0) - len(left)
        self.rows.append(row)
        return accepted


COLUMNS = ['run_id', 'species', 'ranking_score', 'rm_success', 'rm_additional', 'total_removed', 'total_left', 'error_base_max',
           'error_base_rms', 'error_last_max', 'error_last_rms']


def compare_history(df, rows, what):
    same(list(df.columns), COLUMNS, what + ': columns', key='columns')
    same([int(i) for i in df.index], list(range(len(rows))), what + ': index', key='index')
    for i, row in enumerate(rows):
        for col in COLUMNS:
            got, want = df.loc[i, col], row.get(col)
            if col == 'rm_additional':
                got = set() if pd.isna(got) else set(str(got).split(', '))
                want = want or set()
                ok = got == want
            elif want is None:
                ok = pd.isna(got)
            elif isinstance(want, bool):
                ok = bool(got) == want and not pd.isna(got)
            elif isinstance(want, (int, float)):
                ok = not pd.isna(got) and abs(float(got) - want) <= 1e-9 * max(1., abs(want))
            else:
                ok = got == want
            check(ok, '{}: {} of row {} is {!r}, expected {!r}', what, col, i, got, want, key='history ' + col)


def compare_files(world, run_dir):
    same(yaml.safe_load(open(os.path.join(run_dir, 'meta.yaml'))),
         {'important_outputs': world.imp, 'important_times': world.times, 'max_error': float(world.max_error)}, 'meta data', key='meta')
    hist = pd.read_csv(os.path.join(run_dir, 'reduction_history.csv'), index_col=0)
    compare_history(hist, world.rows, 'history file')
    runs = {r['run_id'] for r in world.rows if r.get('run_id')}
    failed = {'{:02d}_disabled_{}'.format(i, r['species']) for i, r in enumerate(world.rows) if i and not r['rm_success']}
    dirs = set(os.listdir(run_dir)) - {'meta.yaml', 'reduction_history.csv'}
    check(runs <= dirs and dirs - runs <= failed, 'run directories are {}, expected {}', dirs, runs, key='directories')
    for run in runs:
        files = set(os.listdir(os.path.join(run_dir, run)))
        check({'solution.csv', 'chemistry_attributes.yaml'} <= files, 'logs of {} are {}', run, files, key='logs')
        check(not {'rates.csv', 'wall_fluxes.csv'} & files, 'logs of {} are {}', run, files, key='logs')
        ref = world.saved[run]
        sol = pd.read_csv(os.path.join(run_dir, run, 'solution.csv'), index_col=0)
        same(list(sol.columns), ['t'] + world.names(ref) + ['e', 'Te', 'Tg', 'p'], 'columns of the solution of ' + run, key='columns')
        same([float(sol['t'].iloc[0]), float(sol['t'].iloc[-1])], [0., float(world.setup.par['t_end'])], 'times of ' + run, key='times')
        other = setup_of(world.name).chem
        other.load_chemistry_attributes(os.path.join(run_dir, run, 'chemistry_attributes.yaml'))
        R.compare(R.observe(other), ref.observe(), 'chemistry saved by ' + run)


@contextlib.contextmanager
def in_place(solver, world):
    real = pd.DataFrame.to_csv

    def to_csv(self, *args, **kw):
        return world.to_csv(lambda *a, **k: real(self, *a, **k), *args, **kw)
    pd.DataFrame.to_csv = to_csv
    try:
        with solver_in_place(solver), quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        pd.DataFrame.to_csv = real


def start(case, d, world):
    model = GlobalModel(world.setup.chem, world.setup.params())
    if case.get('mkdir'):
        os.mkdir(os.path.join(d, 'run'))
    limit = {'float': float, 'int': int, 'numpy': np.float64}[case.get('limit', 'float')](world.max_error)
    it = ReductionIterator(model, 'run', list(world.imp), list(world.times), limit, reduction_results_dir=d, verbose_level=0)
    for n in list(world.ref.net.names) + ['X', 'Te']:
        same(bool(it.can_be_removed(n)), n in world.eligible, 'can {} be removed'.format(n), key='can_be_removed')
    return model, it


def play(case, script, res):
    """One execution of a whole reduction; returns the outcomes taken."""
    world = World(case['config'])
    solver = Script(world, script, case['menu'])
    with scratch('red') as d, in_place(solver, world):
        model, it = start(case, d, world)
        if case['kind'] == 'auto':
            auto(case, world, it, model, solver)
        else:
            manual(case, world, it, model, solver)
        compare_history(it.reduction_history, world.rows, 'history')
        compare_files(world, os.path.join(d, 'run'))
    res.count('runs', world.states)
    return solver.taken


class Guide(object):
    """Follows the reduction in the reference while the real loop runs: stepped lazily at the observable events."""

    def __init__(self, case, world, order):
        self.case, self.world = case, world
        self.pending = list(order)
        self.queue = None
        self.streak = 0
        self.current = None
        self.over = False

    def advance(self):
        """Reference decisions up to the next model run (or the end)."""
        w = self.world
        while self.pending:
            sp, score = self.pending.pop(0)
            if sp in w.attempted or sp not in w.eligible:
                continue
            trial = w.try_remove(sp)
            if trial is None:
                w.settle(sp, score, None, None, True)
                if self.finished():
                    break
                continue
            self.current = (sp, score, trial)
            w.ref = trial
            return True
        self.over = True
        return False

    def finished(self):
        return self.streak > self.case['streak'] or not self.world.eligible

    def conclude(self):
        """The run of the current removal is over."""
        w = self.world
        sp, score, trial = self.current
        self.current = None
        got = w.settle(sp, score, trial, w.mode, True)
        if got == 'over':
            self.streak += 1
        elif got:
            self.streak = 0
            if self.case['dynamic']:
                self.pending = ranking_of(self.case, w)
        if self.finished():
            self.over = True


def ranking_of(case, world):
    """The ranking in the current state of the reference: [(species, score)], ascending."""
    left = set(world.names())
    order = [n for n in case['order'] if not case['dynamic'] or n in left or n in ('X', 'e')]
    if case['dynamic'] and len(left) % 2:
        order = order[1:] + order[:1]
    return [(n, 0.125 * i) for i, n in enumerate(order)]


def auto(case, world, it, model, solver):
    guide = Guide(case, world, [])
    state = {'n': 0}
    inner_at_run = world.at_run

    def at_run(fun, y0, span):
        if state['n'] == 0:
            world.base_pending = True
        else:
            world.base_pending = False
            settle_until_run()
        state['n'] += 1
        inner_at_run(fun, y0, span)

    def settle_until_run():
        """Bring the reference to the run which the real loop is doing now."""
        if state['n'] == 1 and not world.rows:
            first()
        if guide.current is not None:
            guide.conclude()
        check(not guide.over, 'the reduction goes on after it should have ended: {}', world.rows, key='goes on')
        check(guide.advance(), 'a run nobody asked for: {}', world.rows, key='extra run')

    def first():
        world.expect_base()
        if not guide.pending and state['n'] == 1:
            guide.pending = ranking_of(case, world)

    def ranking(m):
        """Dynamic ranking: called after the base run and after every accepted removal with the solved model."""
        check(m is model, 'the ranking function got another model', key='model')
        if not world.rows:
            world.expect_base()
            guide.pending = ranking_of(case, world)
        else:
            check(guide.current is not None, 'the ranking was asked for without an accepted removal', key='ranking')
            guide.conclude()
            check(world.rows[-1]['rm_success'] and guide.streak == 0, 'ranking after {}', world.rows[-1], key='ranking')
        R.compare(R.observe(world.setup.chem), world.ref.observe(), 'chemistry when the ranking is asked for')
        m.get_solution()
        want = ranking_of(case, world)
        guide.over = guide.finished() and len(world.rows) > 1
        return pd.Series([s for _, s in want], index=[n for n, _ in want], dtype=float)

    world.at_run = at_run
    if case['dynamic']:
        arg = ranking
    else:
        want = ranking_of(case, world)
        arg = pd.Series([s for _, s in want], index=[n for n, _ in want], dtype=float)
        kept = arg.copy()
    it.run_reduction(arg, max_unsuccess_streak=case['streak'])
    world.base_pending = False
    if not world.rows:
        first()
    if guide.current is not None:
        guide.conclude()
    if not guide.over:
        check(not guide.advance(), 'the reduction ended before {} was tried: {}', guide.current, world.rows, key='ended early')
    if not case['dynamic']:
        check(arg.equals(kept), 'the ranking passed was changed', key='ranking changed')
    R.compare(R.observe(world.setup.chem), world.start.observe(), 'chemistry after the reduction')


def manual(case, world, it, model, solver):
    err = ('err', 'ReductionRunError')
    first = sorted(world.eligible)[0]
    same(outcome(it.remove_one_species_and_run, first), err, 'removal before the base run')
    world.base_pending = True
    it.run_base_case()
    world.base_pending = False
    world.expect_base()
    same(outcome(it.run_base_case), err, 'second base run')
    for k, sp in enumerate(case['order']):
        if sp in world.attempted or sp not in world.eligible:
            if sp not in world.eligible:
                same(outcome(it.remove_one_species_and_run, sp), err, 'removal of {}'.format(sp))
                R.compare(R.observe(world.setup.chem), world.ref.observe(), 'chemistry after the refused removal of ' + sp)
            continue
        trial = world.try_remove(sp)
        if trial is not None:
            world.ref = trial
        n = world.states
        kw = {} if k % 2 else {'sp_ranking_score': 0.5 + k}
        if case['backtrack']:
            kw['backtrack_if_over_max_error'] = True
        row = it.remove_one_species_and_run(sp, **kw)
        same(world.states - n, 0 if trial is None else 1, 'model runs for the removal of {}'.format(sp), key='runs')
        world.settle(sp, None if k % 2 else 0.5 + k, trial, world.mode, case['backtrack'])
        R.compare(R.observe(world.setup.chem), world.ref.observe(), 'chemistry after the removal of ' + sp)
        compare_history(it.reduction_history, world.rows, 'history')
        same(row['species'], sp, 'returned row', key='row')
        same(bool(row['rm_success']), world.rows[-1]['rm_success'], 'returned row', key='row')
        for n in world.ref.net.names:
            if n not in world.attempted:
                same(bool(it.can_be_removed(n)), n in world.eligible, 'can {} be removed'.format(n), key='can_be_removed')


# ------------------------------------------------------------------------------------------------
def judge_guards(res):
    for config in ('ions', 'implicit', 'over'):
        world = World(config)
        solver = Script(world, [], ['same'])
        with scratch('red') as d, in_place(solver, world):
            model = GlobalModel(world.setup.chem, world.setup.params())

            def make(run_id='run', imp=world.imp, where=d):
                return ReductionIterator(model, run_id, imp, world.times, LIMIT, reduction_results_dir=where, verbose_level=0)
            same(outcome(make, where=os.path.join(d, 'none')), ('err', 'ReductionInitError'), 'missing parent directory')
            os.mkdir(os.path.join(d, 'full'))
            open(os.path.join(d, 'full', 'x'), 'w').close()
            same(outcome(make, run_id='full'), ('err', 'ReductionInitError'), 'directory in use')
            same(os.listdir(os.path.join(d, 'full')), ['x'], 'directory in use')
            same(outcome(make, run_id='all', imp=list(world.names())), ('err', 'ReductionInitError'), 'nothing to remove')
            it = make(run_id=17)
            check(os.path.isdir(os.path.join(d, '17')), 'directory of run 17', key='directory')
            same(outcome(make, run_id=17), ('err', 'ReductionInitError'), 'second reduction in the same directory')
            # a chemistry which is reduced already is refused by the automatic reduction
            sp = sorted(world.eligible)[-1]
            if world.setup.chem.disable(species=[sp]) is None:
                same(outcome(it.run_reduction, pd.Series({sp: 1.})), ('err', 'AssertionError'), 'reduced chemistry')
                world.setup.chem.reset()
            world.base_pending = True
            names = sorted(world.eligible)
            if len(names) > 1:
                same(outcome(it.run_reduction, pd.Series([2., 1.], index=names[:2])), ('err', 'AssertionError'), 'unsorted ranking')
        res.count('guards')


def explore(case, res):
    """Every sequence of outcomes: replay with a growing prefix of choices."""
    menu, depth = case['menu'], case['depth']
    stack = [[]]
    while stack:
        script = stack.pop()
        info = dict(case, script=script)
        taken = []
        with res.case(info, 120):
            taken = play(case, script, res)
            res.count('evaluations')
            res.see('distinct_nontrivial', (case['config'], case['kind'], tuple(case['order']), case.get('streak'), case.get('dynamic'),
                                  case.get('backtrack'), tuple(taken)))
        if res.full:
            return
        for k in range(len(script), min(len(taken), depth)):
            for m in menu[1:]:
                stack.append(taken[:k] + [m])


def cases(tier):
    quick = tier == 'quick'
    out = []
    wide = ['same', 'large', 'fail', 'interrupt', 'limit']
    full = ['same', 'large', 'fail', 'interrupt', 'limit', 'valueerror', 'logint1', 'logint2', 'minus']
    narrow = ['small', 'large', 'fail']
    eligible = {'ions': ['H2', 'H', 'H+', 'H-'], 'implicit': ['H', 'H+', 'Ar+'], 'over': ['H', 'Ar*', 'H2', 'H+', 'H-'],
                'reduced': ['H', 'H+', 'H2', 'Ar+']}
    k = 0
    for config in ('ions', 'implicit', 'over'):
        el = eligible[config]
        perms = list(itertools.permutations(el))
        perms = perms if len(perms) < 25 else perms[::5]
        chosen = perms[::5] if quick and config == 'ions' else perms[::8] if quick and config == 'over' else perms
        for i, p in enumerate(chosen):
            for dynamic in (False, True):
                for streak in (0, 1, 2):
                    if quick and (i + streak + dynamic) % 3 and config != 'implicit':
                        continue
                    k += 1
                    order = list(p)
                    order.insert(i % 3, 'e')
                    order.insert(k % 4, ('Ar', 'X', 'M')[k % 3])
                    menu, depth = (narrow, 3) if quick and k % 2 else (wide, 2) if quick else (wide, 4)
                    out.append({'kind': 'auto', 'config': config, 'order': order, 'dynamic': dynamic, 'streak': streak,
                                'menu': menu, 'depth': depth, 'mkdir': k % 4 == 0,
                                'limit': ('float', 'int', 'numpy')[k % 3]})
    for config in eligible:
        perms = list(itertools.permutations(eligible[config]))
        for i, p in enumerate(perms[::7] if quick else perms):
            for backtrack in (True, False):
                k += 1
                out.append({'kind': 'manual', 'config': config, 'order': list(p[:3]) + ['Ar', 'e', 'X'] + list(p[3:]) + [p[0]],
                            'backtrack': backtrack, 'menu': full, 'depth': 1 if quick and i else 2, 'mkdir': k % 4 == 0,
                            'limit': ('float', 'int', 'numpy')[k % 3]})
    return out


def shards(tier):
    out = cases(tier)
    return [{'guards': True}] + out


def run(shard, tier):
    res = Result()
    if shard.get('guards'):
        with res.case({'guards': True}):
            judge_guards(res)
        return res
    explore(shard, res)
    if shard['config'] == 'over':
        res.sample(shard)
    return res


def replay(case):
    res = Result()
    if case.get('guards'):
        with res.case(case):
            judge_guards(res)
        return res
    with res.case(case, 120):
        play(case, case.get('script', []), res)
    return res
