"""P20: a run is reported successful exactly when the solver really succeeded; results belong to the run that made them."""
import contextlib
import itertools
import sys

import numpy as np
import scipy.integrate
from scipy.optimize import OptimizeResult

from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.pygmol.model import Model
from pygmo_fwork.pygmol.neutral_model import NeutralModel

from mc import refchem as R
from mc import universe as U
from mc.core import Result, check, chunks, outcome, quiet, same
from mc.models import NEUTRAL_POOL, NEUTRAL_SETUPS, SETUPS, Setup
from mc.refphys import near

LEVEL = 'fault_enumeration'
RULE = 'all sequences of runs with every solver outcome of the menu (success, early stop, three exceptions, interrupt), ' \
       'refused initial data, accepted and refused parameter reloads and chemistry changes, up to the depth bound; after ' \
       'every action the reported success and every results table are compared with a reference; the solver is replaced ' \
       'by a stand-in which also checks the right-hand side it was given'
BOUNDS = {'quick': 'sequences of length 3 over 14 actions for 2 chemistries; all networks of up to 2 reactions for the labels; '
                   '3 runs with the real solver',
          'thorough': 'sequences of length 4 over 14 actions for 2 chemistries and of length 3 for 6; all networks of up to 3 '
                      'reactions for the labels; 7 runs with the real solver'}
ASSUMPTIONS = ['the integrator of scipy reports its own success truthfully', 'results tables are compared at the time steps the '
               'solver returned']
REAL = scipy.integrate.solve_ivp


class Solver(object):
    """Stand-in for scipy.integrate.solve_ivp."""

    def __init__(self):
        self.mode, self.calls, self.setup = 'ok', 0, None
        self.last = None

    def __call__(self, fun, t_span, y0, *args, **kw):
        self.calls += 1
        y0 = np.array(y0, dtype=float)
        s = self.setup
        self.span = tuple(float(x) for x in t_span)
        same(self.span, (0., float(s.par['t_end'])), 'time span of the solution')
        same(len(y0), len(s.names) + 1, 'length of the initial vector')
        with np.errstate(all='ignore'):
            st = s.phys.state(y0)
            st.update(s.phys.timed(0.01, st))
            check(near(fun(0.01, y0), *st['dy_dt']), 'the right-hand side given to the solver does not belong to the current '
                  'chemistry and parameters', key='stale equations')
        mode = self.mode
        if mode == 'valueerror':
            raise ValueError('array must not contain infs or NaNs')
        if mode == 'runtimeerror':
            raise RuntimeError('solver broke down')
        if mode == 'interrupt':
            raise KeyboardInterrupt()
        c = 1. + 0.07 * self.calls
        ts = [0., 0.25, 1.] if mode == 'ok' else [0., 0.125]
        ys = np.array([y0 * (1. if i == 0 else c + 0.5 * i) for i in range(len(ts))])
        t = np.array(ts) * self.span[1]
        ok = mode == 'ok'
        self.last = (t, ys, s.phys, list(s.names), list(s.rids), float(s.par['Tg']))
        return OptimizeResult(t=t, y=ys.T.copy(), sol=None, t_events=None, y_events=None, nfev=5, njev=1, nlu=2,
                              status=0 if ok else -1, success=ok,
                              message='reached the end' if ok else 'Required step size is less than spacing')


@contextlib.contextmanager
def solver_in_place(solver):
    """Put the stand-in wherever the code under test may look the solver up."""
    saved = []
    mods = [scipy.integrate] + [m for k, m in list(sys.modules.items()) if m is not None
                                and k.split('.')[0] in ('pygmo_fwork', 'plaschem')]
    for m in mods:
        for k, v in list(vars(m).items()):
            if v is REAL:
                saved.append((m, k))
                setattr(m, k, solver)
    try:
        yield solver
    finally:
        for m, k in saved:
            setattr(m, k, REAL)


# ------------------------------------------------------------------------------------------------------------ tables
def check_tables(model, last, every=False):
    t, ys, phys, names, rids, tg = last
    neutral = phys.neutral
    sol = model.get_solution()
    same(list(sol.columns), ['t'] + names + ['e', 'Te', 'Tg', 'p'], 'columns of the solution', key='columns')
    rates, fluxes = model.get_rates(), model.get_wall_fluxes()
    same(list(rates.columns), ['t'] + rids, 'columns of the rates', key='columns')
    same(list(fluxes.columns), ['t'] + names, 'columns of the wall fluxes', key='columns')
    for tab, what in ((sol, 'solution'), (rates, 'rates'), (fluxes, 'fluxes')):
        same(len(tab), len(t), 'number of times in the ' + what, key='times')
        check(np.array_equal(np.asarray(tab['t'], dtype=float), t), 'times of the {}: {}, expected {}', what, list(tab['t']),
              list(t), key='times')
    for i, y in enumerate(ys):
        st = phys.state(y)
        row = sol.iloc[i]
        check(near([row[n] for n in names], *st['density_vector']), 'densities at step {} differ', i, key='densities')
        for col, q in (('e', 'electron_density'), ('Te', 'electron_temperature'), ('p', 'total_pressure')):
            check(near(row[col], *st[q]), '{} at step {}: {}, expected {}', col, i, row[col], st[q][0], key=col)
        same(float(row['Tg']), tg, 'gas temperature', key='Tg')
        check(near([rates.iloc[i][r] for r in rids], *st['reaction_rates']), 'rates at step {}: {}, expected {}', i,
              dict(rates.iloc[i]), st['reaction_rates'][0], key='rates')
        check(near([fluxes.iloc[i][n] for n in names], *st['wall_fluxes']), 'fluxes at step {}: {}, expected {}', i,
              dict(fluxes.iloc[i]), st['wall_fluxes'][0], key='fluxes')
    for full, final, drop in ((sol, model.get_solution_final(), False), (rates, model.get_rates_final(), True),
                              (fluxes, model.get_wall_fluxes_final(), True)):
        want = full.iloc[-1].drop('t') if drop else full.iloc[-1]
        same(list(final.index), list(want.index), 'index of the final values', key='final')
        check(np.array_equal(np.asarray(final, dtype=float), np.asarray(want, dtype=float), equal_nan=True),
              'final values {}, expected {}', dict(final), dict(want), key='final')
    # a table handed out belongs to the caller
    n0 = sol.copy()
    sol.iloc[:, 1:] = -1.
    check(model.get_solution().equals(n0), 'the solution changed with a table handed out before', key='aliased')
    if every:
        inner = getattr(model, 'model', model)
        per_species = ['density_vector', 'volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'mean_free_paths',
                       'free_diffusivities', 'diffusivities', 'wall_fluxes', 'diffusion_sinks', 'diffusion_sources',
                       'diffusion_source_rates', 'min_n_correction', 'dn_dt']
        per_reaction = ['reaction_rate_coefficients', 'reaction_rates'] + ([] if neutral else ['el_en_losses'])
        scalar = ['total_density', 'total_pressure', 'ion_temperature', 'electron_density']
        scalar += [] if neutral else ['electron_temperature', 'debye_length', 'ambipolar_diffusivity_pos',
                                      'ambipolar_diffusivity_neg', 'drho_dt_el_inel', 'drho_dt_gain_loss', 'drho_dt_el_walls',
                                      'drho_dt_ions_walls', 'sheath_voltage', 'min_rho_correction']
        states = [phys.state(y) for y in ys]
        for group, cols in ((per_species, names), (per_reaction, rids), (scalar, ['value'])):
            for q in group:
                for totals in (False, True):
                    d = inner.diagnose(q, totals=totals)
                    same(list(d.columns), ['t'] + cols + (['total'] if totals else []), 'columns of {}'.format(q), key='columns')
                    check(np.array_equal(np.asarray(d['t'], dtype=float), t), 'times of {}', q, key='times')
                    for i, st in enumerate(states):
                        want, scale = st[q]
                        got = d.iloc[i]['value'] if cols == ['value'] else [d.iloc[i][c] for c in cols]
                        check(near(got, want, scale), '{} at step {}: {}, expected {}', q, i, got, want, key=q)
                        if totals:
                            vals = [d.iloc[i][c] for c in cols]
                            if all(np.isfinite(vals)):
                                check(near(d.iloc[i]['total'], float(np.sum(vals)), float(np.sum(np.abs(vals)))),
                                      'total of {}: {}, expected {}', q, d.iloc[i]['total'], np.sum(vals), key='total')


GETTERS = ('get_solution', 'get_solution_final', 'get_rates', 'get_rates_final', 'get_wall_fluxes', 'get_wall_fluxes_final')

# ------------------------------------------------------------------------------------------------- sequences of actions
RUNS = [('run', m, v) for m, v in (('ok', False), ('ok', True), ('early', False), ('valueerror', True), ('runtimeerror', False),
                                   ('interrupt', False))]
BAD = [('bad_te',), ('bad_keys',), ('bad_charge',)]
RELOAD = [('reload', {'p': 40., 'Tg': 500.}), ('reload_bad', 'value'), ('reload_bad', 'feed')]
CHANGES = {0: [('dis_r', 2), ('arrh', 3, 7e-15), ('stick', 12, 0.25)], 1: [('dis_r', 16), ('dis_r', 20), ('arrh', 7, 3e-15)],
           2: [('dis_r', 17), ('dis_r', 4), ('stick', 12, 0.25)], 3: [('dis_r', 14), ('arrh', 3, 7e-15), ('stick', 12, .25)],
           4: [('dis_r', 10), ('arrh', 7, 3e-15), ('ret', 18, (('H2', 1.),))],
           5: [('dis_r', 4), ('arrh', 7, 3e-15), ('stick', 31, 0.5)],
           6: [('dis_r', 13), ('arrh', 7, 3e-15), ('ret', 18, (('H2', 1.),))]}


def actions_of(i):
    """(reduction), (override): the changes offered for the setup; a third that makes the feed gas disappear is implicit."""
    return RUNS + BAD + RELOAD + CHANGES[i][:2]


class World(object):
    def __init__(self, i):
        self.s = Setup(**SETUPS[i])
        self.solver = Solver()
        self.solver.setup = self.s
        self.gm = GlobalModel(self.s.chem, self.s.params())
        self.drv = R.Driver(self.s.chem, None)
        self.state, self.last = None, None

    def do(self, act):
        s, gm, solver = self.s, self.gm, self.solver
        kind = act[0]
        calls = solver.calls
        if kind == 'run':
            solver.mode = act[1]
            res = self.attempt(log_results=False, verbose=act[2])
            same(solver.calls, calls + 1, 'number of calls of the solver', key='solver calls')
            same(res, {'ok': 'ok', 'early': 'ModelSolutionError', 'valueerror': 'ModelSolutionError',
                       'runtimeerror': 'RuntimeError', 'interrupt': 'KeyboardInterrupt'}[act[1]], 'outcome of the run',
                 key='outcome')
            self.state = act[1] == 'ok'
            self.last = solver.last if self.state else None
        elif kind in ('bad_te', 'bad_keys', 'bad_charge'):
            solver.mode = 'ok'
            good = {n: 1e19 if s.info[n]['charge'] == 0 else 1e15 if s.info[n]['charge'] > 0 else 1e13 for n in s.names}
            kw = {'init_n': good}
            if kind == 'bad_te':
                kw['init_el_temp'] = 0.
            elif kind == 'bad_keys':
                good.pop(s.names[-1])
            else:
                for n in s.names:
                    if s.info[n]['charge'] > 0:
                        good[n] = 0.
            same(self.attempt(log_results=False, verbose=False, **kw), 'GlobalModelInitialGuessError', 'outcome of the run',
                 key='outcome')
            same(solver.calls, calls, 'number of calls of the solver', key='solver calls')
            self.state, self.last = False, None
        elif kind == 'reload':
            par = dict(s.par, **act[1])
            gm.reload_model_parameters(par)
            s.par = par
            s.refresh()
            self.state, self.last = None, None
        elif kind == 'reload_bad':
            par = dict(s.par, p='high') if act[1] == 'value' else dict(s.par, feeds={'Xe': 3.})
            res = outcome(gm.reload_model_parameters, par)
            check(res[0] == 'err', 'parameters {} were accepted', par, key='bad parameters accepted')
        else:
            if s.ref.apply(act, {}) == 'ok':
                self.drv.apply(act)
                s.refresh()
        self.observe()

    def attempt(self, **kw):
        try:
            with quiet(), np.errstate(all='ignore'):
                self.gm.run(**kw)
            return 'ok'
        except KeyboardInterrupt:
            return 'KeyboardInterrupt'
        except Exception as e:
            return type(e).__name__

    def observe(self):
        gm = self.gm
        if self.state is None:
            same(outcome(gm.success), ('err', 'BackendNoRunError'), 'success before any run', key='success')
            for g in GETTERS:
                same(outcome(getattr(gm, g))[0], 'err', g + ' before any run', key='success')
        elif not self.state:
            same(outcome(gm.success), ('ok', False), 'success after a failed run', key='success')
            for g in GETTERS:
                same(outcome(getattr(gm, g)), ('err', 'BackendRunUnsuccessfulError'), g + ' after a failed run', key='success')
        else:
            same(outcome(gm.success), ('ok', True), 'success after a successful run', key='success')
            check_tables(gm, self.last)
        same((gm.num_species(), gm.num_reactions()), (len(self.s.names), len(self.s.rids)), 'size of the model', key='size')


def run_sequences(shard, res):
    acts = actions_of(shard['setup'])
    for first in shard['firsts']:
        for rest in itertools.product(range(len(acts)), repeat=shard['depth'] - 1):
            seq = (first,) + rest
            # a sequence ending with actions that do not run anything is covered by its prefixes, except for the changes
            with res.case({'kind': 'sequence', 'setup': shard['setup'], 'seq': seq}, 60):
                w = World(shard['setup'])
                with solver_in_place(w.solver):
                    for a in seq:
                        w.do(acts[a])
                        res.count('transitions')
                res.count('evaluations')
                if 0 < sum(acts[a][0] == 'run' for a in seq) < len(seq):
                    res.see('distinct_nontrivial', (shard['setup'], seq))
                    res.sample({'actions': [acts[a] for a in seq]})
            if res.full:
                return


# --------------------------------------------------------------------------- backend models on their own, plasma and neutral
def run_backend(kw, key, depth, res):
    modes = ('ok', 'early', 'valueerror', 'runtimeerror', 'interrupt', 'bad_y0')
    for seq in itertools.product(modes, repeat=depth):
        with res.case({'kind': 'backend', 'setup': kw, 'key': key, 'depth': depth}, 60):
            s = Setup(**kw)
            solver = Solver()
            solver.setup = s
            m = (NeutralModel if s.neutral else Model)(s.chem, s.params())
            same(outcome(m.success), ('ok', False), 'success of a model which has not been run', key='success')
            with solver_in_place(solver), np.errstate(all='ignore'):
                for mode in seq:
                    solver.mode = mode
                    try:
                        with quiet():
                            m.run(init_n={'X': 1.} if mode == 'bad_y0' else None)
                        got = 'ok'
                    except KeyboardInterrupt:
                        got = 'KeyboardInterrupt'
                    except Exception as e:
                        got = type(e).__name__
                    same(got, {'ok': 'ok', 'early': 'ModelSolutionError', 'valueerror': 'ModelSolutionError', 'runtimeerror':
                               'RuntimeError', 'interrupt': 'KeyboardInterrupt', 'bad_y0': 'InitialSolutionError'}[mode],
                         'outcome of the backend run', key='outcome')
                    same(m.success(), mode == 'ok', 'success of the backend model after {}'.format(mode), key='success')
                    if mode == 'ok':
                        check_tables(m, solver.last, every=seq == ('ok',) * depth)
                    elif mode != 'early':
                        for g in GETTERS:
                            same(outcome(getattr(m, g)), ('err', 'ModelSolutionError'), g + ' after ' + mode, key='success')
                    res.count('transitions')
            res.count('evaluations')
        if res.full:
            return


def run_labels(rids, neutral, res):
    """Tables of every quantity for a network, whatever the numbers of its species and reactions are."""
    with res.case({'kind': 'labels', 'rids': rids, 'neutral': neutral}, 60):
        s = Setup(rids, neutral=neutral)
        solver = Solver()
        solver.setup = s
        m = (NeutralModel if neutral else Model)(s.chem, s.params())
        with solver_in_place(solver), np.errstate(all='ignore'):
            m.run()
            check_tables(m, solver.last, every=True)
        res.see('distinct_nontrivial', ('labels', rids, neutral))
        res.see('shapes', (len(s.names), len(s.rids)))


# ----------------------------------------------------------------------------------------------------- the real solver
REAL_PARAMS = [{}, {'P': [600., 600., 100., 100.], 't_P': [0., 2e-3, 2e-3, 1.]}, {'p': 60.}, {'feeds': {}}, {'Tg': 600., 'r': 0.1}]


def run_real(i, neutral, res):
    with res.case({'kind': 'real', 'setup': i, 'neutral': neutral}, 600), np.errstate(all='ignore'), quiet():
        kw = dict(NEUTRAL_SETUPS[i] if neutral else SETUPS[0])
        kw['params'] = dict(kw.get('params') or {}, t_end=5e-3, t_P=[0., 0.01])
        if not neutral:
            kw['params'].update(REAL_PARAMS[i])
        s = Setup(**kw)
        n_gas = s.n0
        init = {x: n_gas * (0.5 if s.info[x]['charge'] == 0 else 1e-4 if s.info[x]['charge'] > 0 else 1e-8) for x in s.names}
        if neutral:
            m = NeutralModel(s.chem, s.params())
            m.run(init_n=init)
        else:
            m = GlobalModel(s.chem, s.params())
            m.run(log_results=False, verbose=False, init_n=init, init_el_temp=2.)
        check(m.success(), 'the run did not succeed')
        sol = m.get_solution()
        t = np.asarray(sol['t'], dtype=float)
        check(t[0] == 0. and abs(t[-1] - 5e-3) < 1e-12 and (np.diff(t) > 0).all(), 'times of the solution', key='times')

        def rhs(tt, y):
            st = s.phys.state(y)
            return np.array(s.phys.timed(tt, st)['dy_dt'][0])

        y0 = [init[x] for x in s.names]
        rho0 = 0. if neutral else 1.5 * 2. * sum(init[x] * s.info[x]['charge'] for x in s.names)
        want = REAL(rhs, (0., 5e-3), y0 + [rho0], method='BDF', rtol=1e-5, atol=1e-6 * n_gas * 1e-9)
        check(want.success, 'the reference solution did not succeed', key='reference')
        end = m.get_solution_final()
        for j, x in enumerate(s.names):
            a, b = float(end[x]), float(want.y[j, -1])
            check(abs(a - b) <= 0.02 * abs(b) + 1e-9 * n_gas, 'final density of {}: {}, the independent solution gives {}', x, a, b,
                  key='final density')
        ys = np.c_[np.array([sol[x] for x in s.names]).T, np.zeros(len(t)) if neutral else
                   1.5 * np.asarray(sol['e']) * np.asarray(sol['Te'])]
        check_tables(m, (t, ys, s.phys, list(s.names), list(s.rids), float(s.par['Tg'])))
        res.count('real_runs')


def shards(tier):
    q = tier == 'quick'
    out = []
    for i in range(7):
        if q and i not in (0, 1):
            continue
        depths = (3,) if q or i > 1 else (4,)
        for d in depths:
            out += [{'kind': 'sequences', 'setup': i, 'depth': d, 'firsts': [f]} for f in range(len(actions_of(i)))]
    out += [{'kind': 'real', 'setup': i, 'neutral': False} for i in range(2 if q else len(REAL_PARAMS))]
    out += [{'kind': 'real', 'setup': i, 'neutral': True} for i in ((1,) if q else (0, 1))]
    out += [{'kind': 'backend', 'setup': dict(SETUPS[i]), 'depth': 2 if q else 3, 'key': i} for i in (0, 1, 3)]
    out += [{'kind': 'backend', 'setup': dict(NEUTRAL_SETUPS[i]), 'depth': 2 if q else 3, 'key': 'n%d' % i} for i in (0, 1)]
    nets = [n.rids for n in U.networks((1, 2) if q else (1, 2, 3))]
    out += [{'kind': 'labels', 'nets': c, 'neutral': False} for c in chunks(nets, 8)]
    npool = sorted(NEUTRAL_POOL)
    nnets = [c for k in ((1, 2) if q else (1, 2, 3)) for c in itertools.combinations(npool, k)]
    out += [{'kind': 'labels', 'nets': c, 'neutral': True} for c in chunks(nnets, 4)]
    return out


def run(shard, tier):
    res = Result()
    if shard['kind'] == 'sequences':
        run_sequences(shard, res)
    elif shard['kind'] == 'real':
        run_real(shard['setup'], shard['neutral'], res)
    elif shard['kind'] == 'backend':
        run_backend(shard['setup'], shard['key'], shard['depth'], res)
    else:
        for rids in shard['nets']:
            run_labels(tuple(rids), shard['neutral'], res)
            if res.full:
                break
    return res


def replay(case):
    res = Result()
    if case['kind'] == 'sequence':
        acts = actions_of(case['setup'])
        with res.case(case):
            w = World(case['setup'])
            with solver_in_place(w.solver):
                for a in case['seq']:
                    w.do(acts[a])
    elif case['kind'] == 'real':
        run_real(case['setup'], case['neutral'], res)
    elif case['kind'] == 'backend':
        run_backend(case['setup'], case['key'], case['depth'], res)
    else:
        run_labels(tuple(case['rids']), case['neutral'], res)
    return res
