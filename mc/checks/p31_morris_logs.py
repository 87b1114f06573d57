"""P31: logged sensitivity trajectories are coherent, complete and never overwritten; their statistics are exact."""
import itertools
import math
import os
import shutil

import numpy as np
import pandas as pd
import yaml

from pygmo_fwork.optichem.morris import MorrisMethod
from pygmo_fwork.pygmol.model_parameters import ModelParameters

from mc import morris as M
from mc import refchem as R
from mc.core import Result, Violation, check, outcome, same, scratch
from mc.models import Setup
from mc.rand import Draws, controlled

LEVEL = 'model_checking'
RULE = 'all sequences of trajectories (kinds, logs, explicit and default identifiers), failing runs at every position, changes of the ' \
       'chemistry, of the parameters and of the backend, executed on real files in a scratch directory; after every action the ' \
       'outcome, the files of every trajectory and (after every complete one) the statistics and rankings are compared with the reference'
BOUNDS = {'quick': 'all sequences of 3 actions over 18 actions; rankings for every choice of outputs', 'thorough': 'all sequences of 4 actions'}
ASSUMPTIONS = ['a ranking or a deviation needs at least two trajectories', 'trajectories running at the same time have different '
               'identifiers (as in run_morris; see P35)']
TIMES = [0.0, 0.3, 0.5, 0.625, 1.0]
RET = {'ret_species': [('H+', 'H'), ('H', 'H2')], 'rel_ranges': 1.25}
NET = dict(rids=(7, 9, 20), params={'feeds': {'H2': 5.}}, ops=[('ret', 31, (('H2', 0.25), ('H', 0.5))), ('ret', 18, (('H', 0.25), ('H+', 0.5)))])
_BASE = []


def base():
    if not _BASE:
        _BASE.append(Setup(**NET))
    return _BASE[0].fresh()


# t: trajectory (kind, identifier, full log, failing run, failure); c: change of the chemistry; p: of the parameters; b: of the backend
ACTIONS = [('t', 'reactions', None, False, None, None), ('t', 'species', None, False, None, None),
           ('t', 'return_coefficients', None, True, None, None), ('t', 'reactions', None, True, None, None),
           ('t', 'reactions', 'mine', False, None, None), ('t', 'reactions', 'traj002', False, None, None),
           ('t', 'reactions', None, False, 0, 'fail'), ('t', 'reactions', None, False, 2, 'valueerror'),
           ('t', 'reactions', None, True, 1, 'fail'), ('t', 'reactions', None, True, 3, 'runtimeerror'),
           ('t', 'species', 'mine', False, 1, 'interrupt'), ('t', 'nonsense', None, False, None, None),
           ('c', 'arrh', 9, 4e-14), ('c', 'rst_r', 'all'), ('c', 'stick', 18, 0.5),
           ('p', 'p', 20.), ('p', 'p', 10.), ('b', 'PyGMol'), ('n',)]


class World(object):
    def __init__(self, d):
        self.dir, self.setup, self.backend = d, base(), 'pygmol'
        self.number = 0
        self.done = {}                   # identifier: (kind, tables, deltas, factors)
        self.claimed = None              # (kind, chemistry, parameters) of the Morris run
        self.method = M.method(self.setup)

    def renew(self):
        self.method = M.method(self.setup, self.backend)

    def settings(self, kind):
        return kind, self.setup.ref.key(), tuple(sorted(repr(x) for x in self.setup.par.items()))


def default_id(world):
    return next('traj{:03d}'.format(i) for i in range(1, 999) if 'traj{:03d}'.format(i) not in world.done)


def act(world, a, res):
    if a[0] == 'c':
        op = tuple(a[1:])
        if world.setup.ref.apply(op, {}) != 'ok':
            raise AssertionError(op)
        R.Driver(world.setup.chem, None).apply(op)
        world.setup.refresh()
    elif a[0] == 'p':
        world.setup.par[a[1]] = a[2]
        world.setup.refresh()
        world.renew()
    elif a[0] == 'b':
        world.backend = a[1]
        world.renew()
    elif a[0] == 'n':
        world.renew()
    else:
        trajectory(world, a, res)


def snapshot(path):
    out = {}
    for root, _, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as s:
                out[os.path.relpath(p, path)] = s.read()
    return out


def trajectory(world, a, res):
    _, kind, tid, full, fail_at, mode = a
    name = tid or default_id(world)
    logs = os.path.join(world.dir, 'run', 'logs')
    before = snapshot(os.path.join(world.dir, 'run'))
    stub = M.Stub(world.setup, {fail_at: mode} if mode else {}, world.number)
    world.number += 1
    draws = Draws([world.number % 10, (3 * world.number) % 10, (7 * world.number) % 10])
    kw = dict(RET) if kind == 'return_coefficients' else {}
    err = None
    with controlled(draws), M.stage(stub):
        try:
            world.method.run_trajectory('run', kind, morris_results_dir=world.dir, traj_id=tid, full_log=full, verbosity=0,
                                        compress_solution=False, **kw)
        except KeyboardInterrupt:
            err = 'KeyboardInterrupt'
        except Exception as e:
            err = type(e).__name__
    after = snapshot(os.path.join(world.dir, 'run'))
    mine = os.path.join('logs', name) + os.sep
    meta = 'meta' + os.sep
    R.compare(R.observe(world.setup.chem), world.setup.ref.observe(), 'the chemistry of the analysis')
    # what was there before is still there
    for p, content in before.items():
        if not p.startswith(mine) and not p.startswith(meta):
            same(after.get(p), content, 'file {} of an earlier trajectory'.format(p), key='overwritten')
    new = {p for p in after if p not in before}
    check(all(p.startswith(mine) or p.startswith(meta) for p in new), 'new files {}', new, key='new files')
    incoherent = world.claimed is not None and world.claimed != world.settings(kind)
    if tid is not None and tid in world.done:
        same(err, 'MorrisLogError', 'a trajectory into an existing directory', key='existing')
        same(after, before, 'files after the refused trajectory', key='existing')
        same(len(stub.runs), 0, 'runs of the refused trajectory', key='existing')
    elif incoherent:
        same(err, 'MorrisCoherenceError', 'a trajectory with other settings than {} before: {}'.format(world.claimed, world.settings(kind)),
             key='coherence')
        same(len(stub.runs), 0, 'runs of the refused trajectory', key='coherence')
    elif kind == 'nonsense':
        same(err, 'ValueError', 'unknown type', key='type')
    elif mode:
        check(err is not None, 'a trajectory with a failed run ended regularly', key='failure')
        if mode == 'interrupt':
            same(err, 'KeyboardInterrupt', 'interrupted trajectory', key='failure')
        same(len(stub.runs), fail_at + 1, 'runs of a failing trajectory', key='failure')
    else:
        same(err, None, 'outcome of trajectory {}'.format(a), key='outcome')
        complete(world, name, kind, full, stub, logs)
    if err is not None:
        check(not os.path.exists(os.path.join(logs, name, 'meta.yaml')) or name in world.done, 'a failed trajectory counts as finished',
              key='failed meta')
        for p in {p for p in after if p.startswith(meta)} | {p for p in before if p.startswith(meta)}:
            same(after.get(p), before.get(p), 'meta data after a failed trajectory', key='failed meta')
    res.count('transitions')


def complete(world, name, kind, full, stub, logs):
    td = os.path.join(logs, name)
    mt = M.read_meta(td)
    same(set(mt), {'base_run_id', 'run_ids', 'deltas', 'factors_ids'}, 'meta data of the trajectory', key='meta')
    ids = [mt['base_run_id']] + list(mt['run_ids'])
    n = len(M.factors_of(world.setup, kind, RET['ret_species']))
    same(len(stub.runs), n + 1, 'number of runs', key='runs')
    same(len(set(ids)), n + 1, 'identifiers of the runs', key='runs')
    width = len(str(n))
    want = ['{:0{}d}_initial_run'.format(0, width)] + ['{:0{}d}_elem_effect_of_{}'.format(i + 1, width, f) for i, f in enumerate(mt['factors_ids'])]
    same(ids, want, 'names of the runs', key='names')
    for rid, run in zip(ids, stub.runs):
        M.check_solution(os.path.join(td, rid, 'solution.csv'), run['table'], rid)
        files = set(os.listdir(os.path.join(td, rid)))
        if full:
            check({'solution.csv', 'rates.csv', 'wall_fluxes.csv', 'chemistry_attributes.yaml', 'model_attributes.yaml'} <= files,
                  'logs of {} are {}', rid, files, key='logs')
        else:
            same(files, {'solution.csv'}, 'logs of ' + rid, key='logs')
    md = os.path.join(world.dir, 'run', 'meta')
    same(yaml.safe_load(open(os.path.join(md, 'meta.yaml'))), {'trajectory_type': kind, 'model_backend': 'pygmol'}, 'meta data', key='meta')
    same(dict(ModelParameters(yaml.safe_load(open(os.path.join(md, 'model_parameters.yaml'))))), dict(ModelParameters(world.setup.params())),
         'logged parameters', key='meta')
    check(world.setup.chem.check_coherence(os.path.join(md, 'chemistry_attributes.yaml')), 'the logged chemistry is not the current one',
          key='meta')
    world.claimed = world.settings(kind)
    world.done[name] = (kind, [r['table'] for r in stub.runs], list(mt['deltas']), list(mt['factors_ids']))


# ----------------------------------------------------------------------------------------------------- statistics
def close(a, b):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return (math.isnan(a) and math.isnan(b)) or a == b
    return abs(a - b) <= 1e-8 * max(abs(a), abs(b), 1e-300)


def statistics(world, res, deep=False):
    logs = os.path.join(world.dir, 'run', 'logs')
    if not world.done:
        return
    per = {}
    for name, (kind, tables, deltas, ids) in world.done.items():
        per[name] = [M.effects(tables, deltas, ids, t) for t in TIMES]
        got = MorrisMethod.evaluate_trajectory(os.path.join(logs, name), TIMES)
        same(list(got.times), TIMES, 'times', key='times')
        for k, (ee, mean) in enumerate(per[name]):
            frame = got.elementary_effects[k]
            same(sorted(map(str, frame.index)), sorted(map(str, ids)), 'factors', key='effects')
            scale = {c: max(abs(M.value_at(tb, c, TIMES[k])) for tb in tables) for c in mean}
            for f in ids:
                for c, v in ee[f].items():
                    check(abs(frame.loc[f, c] - v) <= 1e-9 * scale[c] * 4, 'elementary effect of {} on {} at {}: {}, expected {}', f, c,
                          TIMES[k], frame.loc[f, c], v, key='effects')
            for c, v in mean.items():
                check(close(got.mean_outputs[k][c], v), 'mean {} at {}: {}, expected {}', c, TIMES[k], got.mean_outputs[k][c], v, key='mean')
    ids = sorted(next(iter(world.done.values()))[3], key=str)
    st = MorrisMethod.get_morris_stats(logs_dir=logs, times=TIMES)
    cols = [c for c in next(iter(world.done.values()))[1][0] if c != 't']
    ref = []
    n = len(per)
    for k, t in enumerate(TIMES):
        out = {'mean': {}, 'mu': {}, 'sd': {}, 'scale': {}}
        for c in cols:
            out['mean'][c] = math.fsum(v[k][1][c] for v in per.values()) / n
            out['scale'][c] = max(abs(M.value_at(tb, c, t)) for d in world.done.values() for tb in d[1]) * 4
            for f in ids:
                vals = [v[k][0][f][c] for v in per.values()]
                mu = math.fsum(vals) / n
                out['mu'][f, c] = mu
                out['sd'][f, c] = math.sqrt(math.fsum((x - mu) ** 2 for x in vals) / (n - 1)) if n > 1 else float('nan')
        ref.append(out)
        same(sorted(map(str, st.mu[k].index)), sorted(map(str, ids)), 'factors of the statistics', key='mu')
        for c in cols:
            check(close(st.mean_outputs[k][c], out['mean'][c]), 'mean {} of all trajectories at {}', c, t, key='mean')
            for f in ids:
                tol = 1e-9 * out['scale'][c]
                rel = tol / abs(out['mean'][c])
                for got, want, eps, what in ((st.mu[k], out['mu'][f, c], tol, 'mu'), (st.sigma[k], out['sd'][f, c], 10 * tol, 'sigma'),
                                             (st.mu_rel[k], out['mu'][f, c] / out['mean'][c], rel, 'mu_rel'),
                                             (st.sigma_rel[k], out['sd'][f, c] / out['mean'][c], 10 * rel, 'sigma_rel')):
                    g = float(got.loc[f, c])
                    check(abs(g - want) <= eps or (math.isnan(g) and math.isnan(want)), '{} of {} on {} at {}: {}, expected {}', what, f, c, t, g,
                          want, key=what)
    if n > 1:
        rankings(world, logs, ids, cols, ref, res, deep)
    res.count('statistics')


def rankings(world, logs, ids, cols, ref, res, deep):
    choices = list(itertools.chain.from_iterable(itertools.combinations(cols, k) for k in (1, 2, len(cols)))) if deep else [('Te', cols[1])]
    for outs in choices:
        for times, hows in (([3], ('max',)), ([1, 4], ('mean', 'max')), ([0, 2, 3], (None,))) if deep else (([1, 4], ('mean', None)),):
            ts = [TIMES[k] for k in times]
            for how in hows:
                want = {}
                for f in ids:
                    per = []
                    for k in times:
                        mu = [abs(ref[k]['mu'][f, c] / ref[k]['mean'][c]) for c in outs]
                        sd = [ref[k]['sd'][f, c] / ref[k]['mean'][c] for c in outs]
                        per.append(math.fsum(mu) + math.fsum(sd) if how == 'mean' else max(mu) + max(sd))
                    want[f] = math.fsum(per) / len(times) / len(outs) if how == 'mean' else max(per)
                kw = {} if how is None else {'method': how}
                got = MorrisMethod.get_ranking(list(outs), ts, logs_dir=logs, **kw)
                same(sorted(map(str, got.index)), sorted(map(str, ids)), 'ranked factors', key='ranking')
                for f in ids:
                    check(abs(float(got[f]) - want[f]) <= 1e-7 * max(1., abs(want[f])), 'score of {} for {} at {} ({}): {}, expected {}', f, outs,
                          ts, how, got[f], want[f], key='ranking')
                vals = [float(v) for v in got]
                same(vals, sorted(vals), 'order of the ranking', key='ranking order')
                res.count('rankings')
    for bad in () if not deep else (['X'], ['Te', 'X']):
        same(outcome(MorrisMethod.get_ranking, bad, [TIMES[0]], logs_dir=logs), ('err', 'ValueError'), 'ranking for unknown outputs', key='unknown')
    if not deep:
        return
    same(outcome(MorrisMethod.get_ranking, [cols[0]], [TIMES[0]], logs_dir=logs, method='median'), ('err', 'ValueError'), 'unknown method', key='unknown')
    check(outcome(MorrisMethod.get_ranking, [cols[0]], [2.5], logs_dir=logs)[0] == 'err', 'time outside of the solutions', key='unknown')


def replay_history(hist, d, res):
    w = World(d)
    for a in hist[:-1]:
        act(w, a, Result())
    return w


def sequences(res, depth, first):
    """Depth-first over all sequences; the directory is copied at every branch so that each action is executed once per history."""
    def go(w, hist):
        if len(hist) == depth or res.full:
            return
        for i, a in enumerate(ACTIONS):
            if not hist and i not in first:
                continue
            if len(hist) == depth - 1 and a[0] != 't':
                continue                                    # nothing to observe after a last change
            h = hist + [a]
            with scratch('seq') as d:
                t = World.__new__(World)
                t.__dict__.update(w.__dict__)
                t.dir, t.setup, t.done = d, w.setup.fresh(), dict(w.done)
                if os.path.isdir(os.path.join(w.dir, 'run')):
                    shutil.copytree(os.path.join(w.dir, 'run'), os.path.join(d, 'run'))
                t.renew()
                ok = False
                with res.case({'history': h}):
                    n = len(t.done)
                    act(t, a, res)
                    if len(t.done) > n or (a[0] == 't' and a[5]):
                        statistics(t, res)
                    ok = True
                res.see('states', (sorted((k, v[0]) for k, v in t.done.items()), t.claimed, t.setup.ref.key(), t.setup.par['p'], t.backend))
                if ok:
                    go(t, h)
                if len(h) == depth:
                    res.count('traces_validated_against_impl')
    with scratch('root') as d:
        go(World(d), [])


def deep_statistics(res, kind, number):
    """Many trajectories of one kind, one after another; all choices of outputs for the rankings."""
    with res.case({'kind': 'deep', 'type': kind, 'number': number}, timeout=600), scratch('deep') as d:
        w = World(d)
        for k in range(number):
            trajectory(w, ('t', kind, None, k % 2 == 0, None, None), res)
        same(sorted(w.done), ['traj{:03d}'.format(i + 1) for i in range(number)], 'identifiers', key='numbering')
        statistics(w, res, deep=True)
        same(outcome(MorrisMethod.get_morris_stats, times=[0.]), ('err', 'ValueError'), 'statistics of nothing', key='arguments')
        same(outcome(MorrisMethod.get_morris_stats, 'run', w.dir, times=[0.]), ('err', 'ValueError'), 'statistics of two runs', key='arguments')
        same(outcome(MorrisMethod.get_morris_stats, logs_dir=w.dir), ('err', 'ValueError'), 'statistics without times', key='arguments')


def workspace(res):
    """The default place of the results is the workspace of the config, found again by the identifier of the run."""
    with res.case({'kind': 'workspace'}):
        w = World(os.environ.get('MC_SCRATCH', '/nonexistent'))
        name = 'ws{}'.format(os.getpid())
        for k in range(2):
            stub = M.Stub(w.setup, number=k)
            with controlled(Draws([k, 3, 5])), M.stage(stub):
                w.method.run_trajectory(name, 'reactions', verbosity=0)
        logs = os.path.join(os.environ['MC_SCRATCH'], 'workspace', 'results', 'morris_sensitivity', name, 'logs')
        same(sorted(os.listdir(logs)), ['traj001', 'traj002'], 'trajectories in the workspace', key='workspace')
        a = MorrisMethod.get_morris_stats(name, times=[0.5])
        b = MorrisMethod.get_morris_stats(logs_dir=logs, times=[0.5])
        check(a.mu[0].equals(b.mu[0]) and a.sigma[0].equals(b.sigma[0]), 'statistics by identifier and by directory', key='workspace')
        r = MorrisMethod.get_ranking(['Te'], [0.5], name)
        check(r.equals(MorrisMethod.get_ranking(['Te'], [0.5], logs_dir=logs)), 'rankings by identifier and by directory', key='workspace')
        same(os.path.isdir(os.path.join(w.dir, 'run')), False, 'a directory somewhere else', key='workspace')


def shards(tier):
    jobs = [{'kind': 'seq', 'depth': 3 if tier == 'quick' else 4, 'first': [i]} for i in range(len(ACTIONS))]
    jobs += [{'kind': 'deep', 'type': k, 'number': 4} for k in ('reactions', 'species', 'return_coefficients')]
    jobs += [{'kind': 'workspace'}]
    return [[j] for j in jobs]


def run(shard, tier):
    res = Result()
    for j in shard:
        if j['kind'] == 'seq':
            sequences(res, j['depth'], j['first'])
        elif j['kind'] == 'deep':
            deep_statistics(res, j['type'], j['number'])
        else:
            workspace(res)
    return res


def replay(case):
    res = Result()
    if case.get('kind') == 'deep':
        deep_statistics(res, case['type'], case['number'])
    elif case.get('kind') == 'workspace':
        workspace(res)
    else:
        with scratch('replay') as d, res.case(case):
            w = World(d)
            for a in case['history']:
                act(w, tuple(a), res)
                statistics(w, res)
    return res


assert Violation and np and pd
