"""P21: run logs are complete and faithful, and never replaced or removed unless asked for."""
import itertools
import os

import numpy as np
import yaml

from pygmo_fwork.config import Config
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.results import ResultsParser

from mc import refchem as R
from mc.checks.p20_run_success import Solver, solver_in_place
from mc.core import Result, check, outcome, quiet, same, scratch
from mc.models import SETUPS, Setup

LEVEL = 'model_checking'
RULE = 'all sequences of logged and unlogged, successful and failed runs, explicit log requests, parameter reloads, chemistry ' \
       'changes and refused requests up to the depth bound, on real directories, against a reference store of logs; after ' \
       'every action every file of every log is compared byte for byte with its content when it was written, and a new log ' \
       'is read back and compared with the run'
BOUNDS = {'quick': 'sequences of length 2 over 30 actions for 2 chemistries and of length 3 over 14 actions for 1',
          'thorough': 'sequences of length 3 over 30 actions for 2 chemistries and of length 4 over 14 actions for 1'}
ASSUMPTIONS = ['numbers read back from text agree to 1e-12', 'the file system does not fail']

FILES = ['chemistry_attributes.yaml', 'model_attributes.yaml', 'rates.csv', 'solution.csv', 'solver_log.yaml',
         'wall_fluxes.csv']

# ('run', run id, overwrite, solver outcome, compress, initial data)
CORE = [('run', 'A', False, 'ok', False, None), ('run', 'A', True, 'ok', False, None), ('run', 'A', True, 'valueerror', False, None),
        ('run', 'B', False, 'ok', False, 'np'), ('run', 'A', True, 'early', False, None), ('run', 'B', True, 'ok', True, None),
        ('unlogged', 'ok'), ('unlogged', 'valueerror'), ('log', 'A', False), ('log', 'A', True), ('change', 0),
        ('reload', 'np'), ('run', '', True, 'ok', False, None), ('run', 'A', True, 'ok', False, 'bad')]
MORE = [('run', '..', True, 'ok', False, None), ('run', '.', True, 'ok', False, None), ('run', 'A/', True, 'ok', False, None),
        ('run', 'A/.', False, 'ok', False, None), ('run', None, False, 'ok', False, None), ('nodir', 'A', True),
        ('run', 'A', False, 'interrupt', False, None), ('run', 'A', False, 'runtimeerror', False, None),
        ('log', 'B', False), ('log', '', True), ('log', 'B', True), ('change', 1), ('reload', 'tuple'),
        ('run', 'a run, 1', False, 'ok', False, 'int'), ('default', 'A', False), ('run', 'A', False, 'ok', True, None)]
ALL = CORE + MORE
CHANGES = {0: [('stick', 12, 0.25), ('dis_r', 2)], 5: [('arrh', 7, 3e-15), ('dis_s', 25)]}


class World(object):
    def __init__(self, i, base, tag):
        self.i, self.base, self.tag = i, base, tag
        self.s = Setup(**SETUPS[i])
        self.solver = Solver()
        self.solver.setup = self.s
        self.gm = GlobalModel(self.s.chem, self.s.params())
        self.drv = R.Driver(self.s.chem, None)
        self.outer = os.path.join(base, 'outer')
        self.dir = os.path.join(self.outer, 'results')
        os.makedirs(self.dir)
        with open(os.path.join(self.outer, 'precious.txt'), 'w') as f:
            f.write('do not remove')
        with open(os.path.join(self.dir, 'notes.txt'), 'w') as f:
            f.write('notes')
        self.state, self.fresh, self.touched = None, None, False
        self.default_dir = None
        self.now = self.snapshot()

    def snapshot(self):
        out = {}
        for top in (self.outer,):
            for d, _, files in os.walk(top):
                for f in files:
                    p = os.path.join(d, f)
                    with open(p, 'rb') as h:
                        out[os.path.relpath(p, self.base)] = h.read()
                if d != self.outer:
                    out[os.path.relpath(d, self.base)] = None
        return out

    # ---------------------------------------------------------------------------------------------------- one action
    def do(self, act):
        before = self.now
        written = getattr(self, 'do_' + act[0])(act)
        after = self.snapshot()
        gone = sorted(set(before) - set(after))
        rel = None if written is None else os.path.join('outer', 'results', written)

        def inside(p):
            return rel is not None and (p == rel or p.startswith(rel + os.sep))

        check(not [p for p in gone if not inside(p)], 'files lost after {}: {}', act, gone, key='files lost')
        for p in after:
            if inside(p):
                continue
            check(p in before, '{} appeared after {}', p, act, key='unexpected file')
            check(after[p] == before[p], '{} changed after {}', p, act, key='file changed')
        if written is not None:
            same(sorted(p[len(rel) + 1:] for p in after if p.startswith(rel + os.sep)), FILES, 'files in the log', key='files')
            self.verify(self.dir, written)
        self.now = after

    def attempt(self, f, *a, **kw):
        try:
            with quiet(), np.errstate(all='ignore'):
                f(*a, **kw)
            return 'ok'
        except KeyboardInterrupt:
            return 'KeyboardInterrupt'
        except Exception as e:
            return type(e).__name__

    def init_of(self, kind):
        s = self.s
        dens = {n: 1.25e19 if s.info[n]['charge'] == 0 else 3e15 if s.info[n]['charge'] > 0 else 1e13 for n in s.names}
        if kind == 'np':
            return {'init_n': {n: np.float64(v) for n, v in dens.items()}, 'init_el_temp': np.float64(2.5)}
        if kind == 'int':
            return {'init_n': {n: int(v) for n, v in dens.items()}, 'init_el_temp': 2}
        if kind == 'bad':
            return {'init_el_temp': -1.}
        return {}

    def after_run(self, ok, kw, compress=False):
        self.state = ok
        self.init = {'init_el_temp': float(kw.get('init_el_temp', 1.)),
                     'init_n': {n: float(v) for n, v in kw['init_n'].items()} if 'init_n' in kw else None}
        self.compress = compress
        if ok:
            self.last = self.solver.last
            self.params = {k: v for k, v in self.plain().items()}
            self.ref = self.s.ref.clone()

    def plain(self):
        p = self.s.par
        return {'radius': p['r'], 'length': p['z'], 'pressure': p['p'], 'power': list(p['P']), 't_power': list(p['t_P']),
                'temp_gas': p['Tg'], 'feeds': dict(p['feeds']), 't_end': p['t_end']}

    def do_run(self, act):
        _, rid, over, mode, compress, init = act
        self.solver.mode = mode
        kw = self.init_of(init)
        calls = self.solver.calls
        got = self.attempt(self.gm.run, rid, log_results=True, log_to=self.dir, verbose=False, overwrite=over,
                           compress_logs=compress, **kw)
        if rid is None:
            same(got, 'GlobalModelAttributeError', 'outcome of a logged run without a name', key='outcome')
            same(self.solver.calls, calls, 'calls of the solver', key='calls')
            self.state = False
            return None
        if init == 'bad':
            same(got, 'GlobalModelInitialGuessError', 'outcome of a run with wrong initial data', key='outcome')
            self.state = False
            return None
        if mode != 'ok':
            same(got, {'valueerror': 'ModelSolutionError', 'early': 'ModelSolutionError', 'runtimeerror': 'RuntimeError',
                       'interrupt': 'KeyboardInterrupt'}[mode], 'outcome of {}'.format(act), key='outcome')
            self.state = False
            return None
        self.after_run(True, kw, compress)
        return self.expect_log(got, rid, over, act)

    def expect_log(self, got, rid, over, act):
        name = os.path.normpath(rid) if rid else '.'
        exists = os.path.join('outer', 'results', name) in self.now
        if name in ('.', '..') or (exists and not over):
            same(got, 'GlobalModelLogError', 'outcome of {} (log exists: {})'.format(act, exists), key='outcome')
            return None
        if rid == 'A/.' and not exists:
            # os.mkdir refuses it on some systems; both outcomes are fine as long as nothing else changes
            if got != 'ok':
                return None
        same(got, 'ok', 'outcome of {} (log exists: {})'.format(act, exists), key='outcome')
        return name

    def do_unlogged(self, act):
        self.solver.mode = act[1]
        got = self.attempt(self.gm.run, log_results=False, verbose=False)
        same(got == 'ok', act[1] == 'ok', 'outcome of {}: {}'.format(act, got), key='outcome')
        self.state = got == 'ok'
        if self.state:
            self.after_run(True, {})
        return None

    def do_log(self, act):
        _, rid, over = act
        init = {'init_el_temp': 1., 'init_n': None}
        if self.state and self.last[2] is not self.s.phys:
            return None   # the chemistry or the parameters were changed since: logging now is the caller's mistake
        got = self.attempt(self.gm.log_results, rid, self.dir, init, overwrite=over, compress=False)
        if self.state is None or not self.state:
            same(got, 'BackendNoRunError' if self.state is None else 'BackendRunUnsuccessfulError', 'outcome of {} without a '
                 'successful run'.format(act), key='outcome')
            return None
        self.init, self.compress = init, False
        return self.expect_log(got, rid, over, act)

    def do_nodir(self, act):
        calls = self.solver.calls
        got = self.attempt(self.gm.run, act[1], log_results=True, log_to=os.path.join(self.base, 'nowhere'), verbose=False,
                           overwrite=act[2])
        same(got, 'GlobalModelLogError', 'outcome of logging to a missing directory', key='outcome')
        same(self.solver.calls, calls, 'calls of the solver', key='calls')
        check(not os.path.exists(os.path.join(self.base, 'nowhere')), 'a missing log directory was created')
        self.state = False
        return None

    def do_default(self, act):
        """Log to the workspace of the configuration."""
        rid = '{}-{}-{}'.format(act[1], os.getpid(), self.tag)
        self.solver.mode = 'ok'
        root = Config().get_results_dir('pygmol')
        exists = os.path.isdir(os.path.join(root, rid))
        got = self.attempt(self.gm.run, rid, verbose=False, overwrite=act[2])
        self.after_run(True, {})
        if exists and not act[2]:
            same(got, 'GlobalModelLogError', 'outcome of a second log to the workspace', key='outcome')
            return None
        same(got, 'ok', 'outcome of a log to the workspace', key='outcome')
        check(os.path.isdir(os.path.join(root, rid)), 'no log in the workspace')
        self.verify(None, rid)
        return None

    def do_change(self, act):
        op = CHANGES[self.i][act[1]]
        if self.s.ref.apply(op, {}) == 'ok':
            self.drv.apply(op)
            self.s.refresh()
        return None

    def do_reload(self, act):
        par = dict(self.s.par)
        num = np.float64 if act[1] == 'np' else float
        seq = np.array if act[1] == 'np' else tuple
        par.update(p=num(par['p'] * 1.5), Tg=num(par['Tg'] + 10), P=seq([num(300.), num(400.)]), t_P=seq([num(0.), num(3.)]),
                   feeds={k: num(v) for k, v in par['feeds'].items()})
        self.gm.reload_model_parameters(par)
        self.s.par = {k: v if k not in ('P', 't_P') else [float(x) for x in v] for k, v in par.items()}
        self.s.refresh()
        self.state = None
        return None

    # ------------------------------------------------------------------------------------------------------ read back
    def verify(self, directory, rid):
        if directory is None:
            rp = ResultsParser()
            rp2, kw2 = ResultsParser(nominal_results_dir=self.dir), {'backend': 'PyGMol'}
            path = os.path.join(str(Config().get_results_dir('pygmol')), rid)
        else:
            rp = ResultsParser(nominal_results_dir=directory)
            rp2, kw2 = ResultsParser(nominal_results_dir=self.outer), {'results_dir': directory}
            path = os.path.join(directory, rid)
        gm = self.gm
        t, ys, phys, names, rids, tg = self.last
        tables = {'solution': gm.get_solution(), 'rates': gm.get_rates(), 'wall_fluxes': gm.get_wall_fluxes()}
        same(list(tables['solution']['t']), list(t), 'times of the run', key='log times')
        for name, want in tables.items():
            got = getattr(rp, 'fetch_' + name)(rid)
            got2 = getattr(rp2, 'fetch_' + name)(rid, **kw2)
            check(got.equals(got2), 'the {} depends on how the log is found', name, key='fetch')
            same(list(got.columns), list(want.columns), 'columns of the logged {}'.format(name), key='log columns')
            if self.compress:
                check(set(got.index) <= set(want.index) and list(got.index) == sorted(got.index) and got.index[0] == 0 and
                      got.index[-1] == want.index[-1], 'rows {} of the compressed {}', list(got.index), name, key='log rows')
                want = want.loc[got.index]
            else:
                same(list(got.index), list(want.index), 'rows of the logged {}'.format(name), key='log rows')
            check(np.allclose(got.values.astype(float), want.values.astype(float), rtol=1e-12, atol=0., equal_nan=True),
                  'the logged {} differs: {} expected {}', name, got.values.tolist(), want.values.tolist(), key='log values')
        got = rp.fetch_model_params(rid)
        same({k: list(v) if k in ('power', 't_power') else v for k, v in got.items()}, self.params, 'logged parameters',
             key='log parameters')
        got = rp.fetch_initial_params(rid)
        same(set(got), {'init_el_temp', 'init_n'}, 'logged initial parameters', key='log initial')
        if directory is not None and self.init['init_n'] is None and got['init_n'] is None:
            pass      # an explicit log request with its own initial parameters
        else:
            same(got['init_el_temp'], self.init['init_el_temp'], 'logged initial electron temperature', key='log initial')
            y0 = {n: float(v) for n, v in zip(names, ys[0])}
            same(set(got['init_n']), set(names), 'species of the logged initial densities', key='log initial')
            check(all(abs(got['init_n'][n] - y0[n]) <= 1e-12 * abs(y0[n]) for n in names), 'logged initial densities {}, the run '
                  'started from {}', got['init_n'], y0, key='log initial')
        log = yaml.safe_load(open(os.path.join(path, 'solver_log.yaml')))
        same((log['success'], log['nfev'], log['message']), (True, 5, 'reached the end'), 'solver log', key='log solver')
        kw = SETUPS[self.i]
        fresh = Setup(kw['rids']).chem
        fresh.load_chemistry_attributes(os.path.join(path, 'chemistry_attributes.yaml'))
        R.compare(R.observe(fresh), self.ref.observe(), 'chemistry loaded from the log')
        same(outcome(rp.fetch_solution, rid + 'x'), ('err', 'ResultsNotFoundError'), 'fetching a log which is not there',
             key='fetch')


def run_one(setup, seq, tag, res):
    with res.case({'setup': setup, 'seq': seq}, 60), scratch() as base:
        w = World(setup, base, tag)
        with solver_in_place(w.solver):
            for a in seq:
                w.do(ALL[a])
                res.count('transitions')
        res.see('states', (setup, repr(sorted(w.now)), w.state, w.s.ref.key()))
        if len(set(seq)) > 1:
            res.see('distinct_nontrivial', (setup, seq))
            res.sample({'actions': [ALL[a] for a in seq]})
    res.count('traces_validated_against_impl')


def shards(tier):
    q = tier == 'quick'
    out = []
    for setup in (0, 5):
        out += [{'setup': setup, 'first': f, 'depth': 2 if q else 3, 'over': len(ALL)} for f in range(len(ALL))]
        out += [{'setup': setup, 'first': f, 'depth': 3 if q else 4, 'over': len(CORE)} for f in range(len(CORE))
                if setup == 0]
    return out


def run(shard, tier):
    res = Result()
    for n, rest in enumerate(itertools.product(range(shard['over']), repeat=shard['depth'] - 1)):
        run_one(shard['setup'], (shard['first'],) + rest, '{}-{}-{}'.format(shard['first'], shard['depth'], n), res)
        if res.full:
            break
    return res


def replay(case):
    res = Result()
    run_one(case['setup'], tuple(case['seq']), 'replay', res)
    return res
