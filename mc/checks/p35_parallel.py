"""P35: sensitivity trajectories which run in parallel, or are cut short by a crash, neither get lost nor spoil the analysis."""
import itertools
import multiprocessing
import os
import shutil

import numpy as np
import pandas as pd
import yaml

from pygmo_fwork.optichem.morris import MorrisMethod
from pygmo_fwork.pygmol.model_parameters import ModelParameters

from mc import morris as M
from mc import refchem as R
from mc import sched as S
from mc.checks.p31_morris_logs import TIMES, snapshot
from mc.core import Result, check, outcome, same, scratch
from mc.models import Setup
from mc.rand import Draws, NAMES, controlled

LEVEL = 'model_checking'
RULE = 'the real run_morris on simulated worker processes (threads with separate, pickled data and one baton): every interleaving of ' \
       'their file operations in the shared directories up to the preemption bound, every failing run; and a crash of the whole ' \
       'program at every file operation (with torn files), followed by another analysis with the same or with other settings'
BOUNDS = {'quick': '2 workers x 2 and x 3 trajectories with up to 2 preemptions, 3 workers with 1; crashes at every operation of '
                   'sequential runs of 2 trajectories; real worker processes in 7 configurations',
          'thorough': '2 workers with up to 3 preemptions, 3 workers with 2; crashes at every operation of runs with 1 preemption'}
ASSUMPTIONS = ['operations inside the directory of a trajectory are independent of the other trajectories (checked: no two trajectories '
               'write into one directory)', 'renaming a file is atomic', 'a file written but not yet closed may be seen with a part of '
               'its contents']
NET = dict(rids=(3, 14), params={'feeds': {'Ar': 5.}})
_BASE = []


def base():
    if not _BASE:
        _BASE.append(Setup(**NET))
    return _BASE[0].fresh()


class Stage(object):
    """One analysis directory with per-worker solvers and random draws."""

    def __init__(self, d, sched, fails=None):
        self.dir, self.sched, self.fails = d, sched, fails or {}
        self.setup = base()
        self.stubs, self.draws = {}, {}
        self.offset = 0
        self.writers = {}

    def stub(self, w):
        if w not in self.stubs:
            k = 0 if w is None else w + 1
            self.stubs[w] = M.Stub(self.setup, self.fails.get(w, {}), number=k + self.offset)
        return self.stubs[w]

    def solve(self, *args, **kw):
        w = self.sched.me()
        with self.sched.unhooked():
            return self.stub(w)(*args, **kw)

    def dispatch(self, name):
        def call(*args, **kw):
            w = self.sched.me()
            if w not in self.draws:
                k = 0 if w is None else w + 1
                self.draws[w] = Draws([k % 10, (3 * k + 2) % 10, k % 2])
            return getattr(self.draws[w], name)(*args, **kw)
        return call

    def rel(self, path):
        root = os.path.join(self.dir, 'run')
        p = os.path.abspath(path)
        return os.path.relpath(p, root) if p == root or p.startswith(root + os.sep) else None

    def watch(self, path):
        return self.rel(path) is not None

    def shared(self, path, worker):
        r = self.rel(path)
        parts = r.split(os.sep)
        return not (parts[0] == 'logs' and len(parts) > 1)


class Dispatcher(object):
    def __init__(self, stage):
        for n in set(NAMES) | {'py_sample', 'one', 'integers', 'randint', 'random', 'uniform', 'seed'}:
            setattr(self, n, stage.dispatch(n))


def with_stage(st, fn):
    with controlled(Dispatcher(st)), M.stage(st.solve), st.sched.hooked():
        return fn()


def good_trajectory(st, logs, name, tables):
    td = os.path.join(logs, name)
    mt = M.read_meta(td)
    ids = [mt['base_run_id']] + list(mt['run_ids'])
    same(len(ids), 3, 'runs of ' + name, key='runs')
    for rid, tb in zip(ids, tables):
        M.check_solution(os.path.join(td, rid, 'solution.csv'), tb, rid)
    return mt


def good_meta(st, kind='reactions'):
    md = os.path.join(st.dir, 'run', 'meta')
    same(yaml.safe_load(open(os.path.join(md, 'meta.yaml'))), {'trajectory_type': kind, 'model_backend': 'pygmol'}, 'meta data', key='meta')
    same(dict(ModelParameters(yaml.safe_load(open(os.path.join(md, 'model_parameters.yaml'))))), dict(ModelParameters(st.setup.params())),
         'logged parameters', key='meta')
    check(st.setup.chem.check_coherence(os.path.join(md, 'chemistry_attributes.yaml')), 'the logged chemistry is not the current one', key='meta')


def finished(d):
    logs = os.path.join(d, 'run', 'logs')
    return sorted(n for n in (os.listdir(logs) if os.path.isdir(logs) else []) if os.path.isfile(os.path.join(logs, n, 'meta.yaml')))


def matching(st, logs, names):
    """Every finished trajectory holds the results of exactly one worker."""
    left = {w: [r['table'] for r in s.runs] for w, s in st.stubs.items() if s.runs}
    for n in names:
        first = next(i for i in os.listdir(os.path.join(logs, n)) if 'initial' in i)
        df = pd.read_csv(os.path.join(logs, n, first, 'solution.csv'), index_col=0)
        own = [w for w, t in left.items() if t[0] is not None and abs(float(df['Ar'].iloc[0]) / t[0]['Ar'][0] - 1) < 1e-9 and
               abs(float(df['Te'].iloc[-1]) / t[0]['Te'][-1] - 1) < 1e-9]
        same(len(own), 1, 'workers which produced ' + n, key='mixed results')
        good_trajectory(st, logs, n, left.pop(own[0]))


def parallel(case, sched, res):
    """One schedule of run_morris."""
    n, slots = case['trajs'], case['workers']
    fails = {int(k): {int(i): m for i, m in v.items()} for k, v in case.get('fails', {}).items()}
    with scratch('par') as d:
        st = Stage(d, sched, fails)
        sched.watch, sched.shared = st.watch, st.shared
        if case.get('before'):
            prepare(d, case['before'], res)
        m = M.method(st.setup)
        old = snapshot(os.path.join(d, 'run'))
        st.offset = 3 if case.get('before') else 0
        got = with_stage(st, lambda: outcome(m.run_morris, 'run', 'reactions', n, num_cores=slots, morris_results_dir=d, verbosity=0,
                                             compress_solution=False))
        sched.me()
        logs = os.path.join(d, 'run', 'logs')
        done = finished(d)
        pre = ['traj001'] if case.get('before') == 'done' else []
        errors = [repr(e) for e in sched.errors if e is not None]
        same(len(sched.tasks), n, 'trajectories started', key='started')
        if not fails:
            check(not errors, 'trajectories failed when they ran in parallel: {}', errors, key='parallel failure')
            same(got[0], 'ok', 'outcome of the analysis {}'.format(got), key='outcome')
        else:
            same(len(errors), len(fails), 'trajectories failed {}'.format(errors), key='parallel failure')
            same(got[0], 'err', 'an analysis with failed trajectories ended regularly', key='silent failure')
        same(len(done), n - len(fails) + len(pre), 'finished trajectories {}'.format(done), key='lost')
        if not fails:
            same(done, ['traj{:03d}'.format(i + 1) for i in range(n + len(pre))], 'numbers', key='numbers')
        matching(st, logs, [x for x in done if x not in pre])
        new = snapshot(os.path.join(d, 'run'))
        for p in old:
            if p.startswith(os.path.join('logs', 'traj001') + os.sep) and pre:
                same(new.get(p), old[p], 'file {} of a finished trajectory'.format(p), key='overwritten')
        if done:
            good_meta(st)
            same(len(MorrisMethod.get_morris_stats(logs_dir=logs, times=TIMES).mu), len(TIMES), 'statistics', key='statistics')
        writers = {}
        for e in sched.log:
            if len(e) == 3 and e[1] == 'mkdir':
                writers.setdefault(e[2], set()).add(e[0])
        R.compare(R.observe(st.setup.chem), st.setup.ref.observe(), 'the chemistry of the analysis')
        res.count('transitions', len(sched.log))
        res.see('states', tuple(sched.log))
        res.count('traces_validated_against_impl')


def prepare(d, what, res):
    """An earlier finished or failed trajectory."""
    s = S.Scheduler()
    st = Stage(d, s, {None: {1: 'fail'}} if what == 'failed' else {})
    s.watch = lambda p: False
    with controlled(Dispatcher(st)), M.stage(st.solve):
        got = outcome(M.method(st.setup).run_trajectory, 'run', 'reactions', morris_results_dir=d, verbosity=0, compress_solution=False)
    same(got[0], 'err' if what == 'failed' else 'ok', 'earlier trajectory {}'.format(got), key='earlier')


def cover(case, bound, res, part):
    failed = []
    def run(sched):
        bad = len(res.violations)
        with res.case(dict(case, script=list(sched.script))):
            parallel(case, sched, res)
        if len(res.violations) > bad:
            failed.append(1)
    for _ in S.explore(run, bound, part):
        if failed:
            return


# ------------------------------------------------------------------------------------------------------------ crashes
def crash(case, script, kill_at, res):
    """Run the analysis up to the kill; then check what a new program finds. False when the kill never happened."""
    with scratch('kill') as d:
        sched = S.Scheduler(script, kill_at=kill_at)
        st = Stage(d, sched)
        sched.watch, sched.shared = st.watch, st.shared
        m = M.method(st.setup)

        def go():
            try:
                if case['how'] == 'single':
                    for _ in range(2):
                        sched.local.__dict__.pop('x', None)
                        m.run_trajectory('run', 'reactions', morris_results_dir=d, verbosity=0, full_log=case['full'], compress_solution=False)
                else:
                    m.run_morris('run', 'reactions', 2, num_cores=case['workers'], morris_results_dir=d, verbosity=0, full_log=case['full'],
                                 compress_solution=False)
                return False
            except S.Killed:
                return True
        killed = with_stage(st, go)
        if not killed:
            return False
        where = sched.log[-1]
        done = finished(d)
        logs = os.path.join(d, 'run', 'logs')
        if done:
            got = outcome(MorrisMethod.get_morris_stats, logs_dir=logs, times=TIMES)
            same(got[0], 'ok', 'statistics of {} after a crash at {}: {}'.format(done, where, got), key='statistics after crash')
        for name in done:
            good = M.read_meta(os.path.join(logs, name))
            check(isinstance(good, dict) and len(good.get('run_ids', ())) == 2, 'trajectory {} after a crash at {}: {}', name, where, good,
                  key='torn trajectory')
            for rid in [good['base_run_id']] + good['run_ids']:
                got = outcome(pd.read_csv, os.path.join(logs, name, rid, 'solution.csv'), index_col=0)
                check(got[0] == 'ok' and len(got[1]) == 4 and not got[1].isnull().values.any(), 'solution {} of the finished {} after a '
                      'crash at {}: {}', rid, name, where, got, key='torn solution')
        # a new program with other settings: refused if there is a finished trajectory
        for other in (True, False):
            with scratch('next') as d2:
                if os.path.isdir(os.path.join(d, 'run')):
                    shutil.copytree(os.path.join(d, 'run'), os.path.join(d2, 'run'))
                s2 = S.Scheduler()
                s2.watch = lambda p: False
                st2 = Stage(d2, s2)
                st2.offset = 4
                if other:
                    op = ('arrh', 3, 7e-15)
                    st2.setup.ref.apply(op, {})
                    R.Driver(st2.setup.chem, None).apply(op)
                    st2.setup.refresh()
                with controlled(Dispatcher(st2)), M.stage(st2.solve):
                    got = outcome(M.method(st2.setup).run_trajectory, 'run', 'reactions', morris_results_dir=d2, verbosity=0,
                                  full_log=case['full'], compress_solution=False)
                w = 'a trajectory with {} settings after a crash at {} with {} finished: {}'.format('other' if other else 'the same', where, done, got)
                if other and done:
                    same(got, ('err', 'MorrisCoherenceError'), w, key='coherence after crash')
                elif not other:
                    same(got[0], 'ok', w, key='resume after crash')
                    lg = os.path.join(d2, 'run', 'logs')
                    new = [x for x in finished(d2) if x not in done]
                    same(len(new), 1, w + ': new trajectories', key='resume after crash')
                    good_trajectory(st2, lg, new[0], [r['table'] for r in st2.stub(None).runs])
                    good_meta(st2)
                    # nothing of the interrupted attempt among the logs of the runs
                    mt = M.read_meta(os.path.join(lg, new[0]))
                    for rid in [mt['base_run_id']] + mt['run_ids']:
                        files = set(os.listdir(os.path.join(lg, new[0], rid)))
                        check(files == {'solution.csv'} if not case['full'] else 'rates.csv' in files, '{}: files {} in {}', w, files, rid,
                              key='leftovers')
                    same(outcome(MorrisMethod.get_morris_stats, logs_dir=lg, times=TIMES)[0], 'ok', w + ': statistics', key='resume after crash')
        res.count('crashes')
        res.count('traces_validated_against_impl')
        res.see('states', ('crash', case['how'], case['full'], tuple(script), where, tuple(done)))
        res.count('transitions', len(sched.log))
    return True


def crashes(case, res, script=(), start=0, step=1):
    for k in itertools.count(start, step):
        more = [True]
        bad = len(res.violations)
        with res.case(dict(case, script=list(script), kill_at=k)):
            more[0] = crash(case, script, k, res)
        if not more[0] or len(res.violations) > bad:
            return


def real_processes(res):
    """The same analysis with the real multiprocessing pool; the solver stand-in is inherited by the worker processes."""
    with res.case({'kind': 'real'}), scratch('real') as d:
        s = base()

        def solve(fun, span, y0, *a, **k):
            stub = M.Stub(s, number=0)
            stub.runs = [None] * (int(np.random.randint(0, 4)) + 1)
            stub.runs.pop()
            return stub(fun, span, y0, *a, **k)
        multiprocessing.current_process()._config['daemon'] = False      # the process of this check is a worker of a pool itself
        with M.stage(solve):
            M.method(s).run_morris('run', 'reactions', 6, num_cores=3, morris_results_dir=d, verbosity=0, compress_solution=False)
        same(finished(d), ['traj{:03d}'.format(i + 1) for i in range(6)], 'finished trajectories', key='real')
        logs = os.path.join(d, 'run', 'logs')
        metas = [M.read_meta(os.path.join(logs, n)) for n in finished(d)]
        same([len(m['run_ids']) for m in metas], [2] * 6, 'runs', key='real')
        same(outcome(MorrisMethod.get_morris_stats, logs_dir=logs, times=TIMES)[0], 'ok', 'statistics', key='real')
        res.count('real_processes')


BIG = dict(rids=(3, 11, 5, 8, 14, 7, 9, 4, 6, 13, 1), params={'feeds': {'Ar': 5., 'H2': 2.}})


def order_of(td):
    """Order and direction of the steps of a finished trajectory: 11! x 2^11 possibilities."""
    mt = M.read_meta(td)
    return repr([mt[k] for k in sorted(mt) if k not in ('run_ids', 'base_run_id')])


def own_draws(case, res):
    """Trajectories of real worker processes draw their own random numbers; a given seed decides them."""
    with res.case(case), scratch('draws') as d:
        s = Setup(**BIG)

        def solve(fun, span, y0, *a, **k):
            stub = M.Stub(s, number=0)
            stub.runs = [None]
            stub.runs.pop()
            return stub(fun, span, y0, *a, **k)
        multiprocessing.current_process()._config['daemon'] = False
        np.random.seed(3)
        m = M.method(s)
        seeds = case.get('seeds')
        with M.stage(solve):
            if seeds:
                for x in seeds:
                    m.run_trajectory('run', 'reactions', morris_results_dir=d, verbosity=0, compress_solution=False, random_seed=x)
            else:
                m.run_morris('run', 'reactions', case['trajs'], num_cores=case['workers'], morris_results_dir=d, verbosity=0,
                             compress_solution=False)
        logs = os.path.join(d, 'run', 'logs')
        n = len(seeds) if seeds else case['trajs']
        same(finished(d), ['traj{:03d}'.format(i + 1) for i in range(n)], 'finished trajectories', key='real')
        seen = [order_of(os.path.join(logs, x)) for x in finished(d)]
        for i, j in itertools.combinations(range(n), 2):
            equal = bool(seeds) and seeds[i] == seeds[j]
            same(seen[i] == seen[j], equal, 'trajectories {} and {} of {} are equal'.format(i + 1, j + 1, case), key='draws')
        res.count('real_processes')


def arguments(res):
    for kw, typ in (({'traj_id': 'mine'}, 'reactions'), ({}, 'return_coefficients'), ({'ret_species': [('Ar+', 'Ar')]}, 'return_coefficients')):
        with res.case({'kind': 'arguments', 'kw': sorted(kw)}), scratch('arg') as d:
            sched = S.Scheduler()
            st = Stage(d, sched)
            sched.watch = lambda p: False
            m = M.method(st.setup)
            got = with_stage(st, lambda: outcome(m.run_morris, 'run', typ, 2, num_cores=2, morris_results_dir=d, **kw))
            same(got, ('err', 'ValueError'), 'arguments {}'.format(kw), key='arguments')
            same(len(sched.tasks), 0, 'trajectories started with wrong arguments', key='arguments')
            same(os.listdir(d), [], 'files', key='arguments')


def shards(tier):
    q = tier == 'quick'
    jobs = [{'kind': 'par', 'bound': 2 if q else 3, 'case': {'trajs': 2, 'workers': 2}},
            {'kind': 'par', 'bound': 1 if q else 2, 'case': {'trajs': 3, 'workers': 2}},
            {'kind': 'par', 'bound': 1 if q else 2, 'case': {'trajs': 3, 'workers': 3}},
            {'kind': 'par', 'bound': 1 if q else 2, 'case': {'trajs': 2, 'workers': 2, 'before': 'done'}},
            {'kind': 'par', 'bound': 1 if q else 2, 'case': {'trajs': 2, 'workers': 2, 'before': 'failed'}}]
    jobs = [dict(j, part=[k, n]) for j in jobs for n in [16 if j['bound'] > 1 or j['case']['trajs'] > 2 else 2] for k in range(n)]
    for i, m in ((0, 'fail'), (1, 'valueerror'), (2, 'runtimeerror')):
        for w in (0, 1):
            jobs.append({'kind': 'par', 'bound': 0 if q else 1, 'case': {'trajs': 2, 'workers': 2, 'fails': {str(w): {str(i): m}}}})
    jobs.append({'kind': 'par', 'bound': 1, 'case': {'trajs': 2, 'workers': 2, 'fails': {'0': {'2': 'fail'}, '1': {'0': 'fail'}}}})
    for full in (False, True):
        for k in range(8):
            jobs.append({'kind': 'crash', 'case': {'how': 'single', 'workers': 1, 'full': full}, 'start': k, 'step': 8})
            jobs.append({'kind': 'crash', 'case': {'how': 'morris', 'workers': 1, 'full': full}, 'start': k, 'step': 8})
    for script in ([0, 1], [0] * 8 + [1], [0] * 16 + [1]):
        jobs.append({'kind': 'crash', 'case': {'how': 'morris', 'workers': 2, 'full': False}, 'start': 0, 'step': 1, 'script': script})
    jobs += [{'kind': 'real'}, {'kind': 'arguments'}, {'kind': 'draws', 'seeds': [5, 6, 5]}]
    jobs += [{'kind': 'draws', 'trajs': n, 'workers': w} for n, w in ((2, 2), (3, 3), (3, 2), (2, 1), (4, 4))]
    return [[j] for j in jobs]


def run(shard, tier):
    res = Result()
    for j in shard:
        if j['kind'] == 'par':
            cover(j['case'], j['bound'], res, j.get('part', (0, 1)))
        elif j['kind'] == 'crash':
            crashes(j['case'], res, j.get('script', ()), j['start'], j['step'])
        elif j['kind'] == 'real':
            real_processes(res)
        elif j['kind'] == 'draws':
            own_draws(j, res)
        else:
            arguments(res)
    return res


def replay(case):
    res = Result()
    if 'kill_at' in case:
        with res.case(case):
            crash(case, case['script'], case['kill_at'], res)
    elif case.get('kind') == 'draws':
        own_draws(case, res)
    elif 'trajs' in case:
        with res.case(case):
            parallel(case, S.Scheduler(case['script']), res)
    elif case.get('kind') == 'real':
        real_processes(res)
    else:
        arguments(res)
    return res

