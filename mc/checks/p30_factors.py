"""P30: sensitivity factors scale only their own quantity; the runs of a trajectory do not influence each other or the chemistry."""
import itertools
import os

import numpy as np

from pygmo_fwork.optichem.morris import MorrisMethod

from mc import morris as M
from mc import refchem as R
from mc.core import Result, check, outcome, quiet, same, scratch
from mc.models import Setup
from mc.rand import controlled, explore

LEVEL = 'exploration'
RULE = 'whole trajectories on the real code with a stand-in solver: every start point from a menu of grid values, every order of the ' \
       'factors; in every run the equations given to the solver, the chemistry saved with the logs and the logged solution are ' \
       'compared with the reference; all sequences of changes of return coefficients, accepted and refused'
BOUNDS = {'quick': '2 or 3 factors, 3 start values each, all orders, 12 chemistries (plain, reduced, overridden); sequences of up to '
                   '3 changes of return coefficients', 'thorough': '2 to 4 factors, up to 6 start values, sequences of up to 4 changes'}
ASSUMPTIONS = ['the pre-exponential factors are not zero']

CASES = {
    'r2': dict(kind='reactions', net=dict(rids=(3, 14), params={'feeds': {'Ar': 5.}})),
    'r3': dict(kind='reactions', net=dict(rids=(3, 5, 2), params={'feeds': {'Ar': 5.}})),
    'r3over': dict(kind='reactions', net=dict(rids=(7, 9, 20), params={'feeds': {'H2': 5.}}, ops=[('arrh', 9, 4e-14), ('arrh', 20, 2e-12),
                                                                                               ('stick', 31, 0.25)])),
    'r2red': dict(kind='reactions', net=dict(rids=(3, 5, 8, 14), params={'feeds': {'Ar': 5.}}, ops=[('arrh', 8, 1e-14), ('dis_s', 3)])),
    's2': dict(kind='species', net=dict(rids=(3, 14, 11), params={'feeds': {'Ar': 5.}})),
    's3': dict(kind='species', net=dict(rids=(3, 5, 8, 2, 11), params={'feeds': {'Ar': 5.}})),
    's3h': dict(kind='species', net=dict(rids=(7, 9, 20, 10), params={'feeds': {'H2': 5.}}, ops=[('arrh', 7, 4e-12)])),
    's2red': dict(kind='species', net=dict(rids=(3, 5, 8, 14), params={'feeds': {'Ar': 5.}}, ops=[('dis_s', 3), ('arrh', 3, 7e-15)])),
    'c2': dict(kind='return_coefficients', net=dict(rids=(7, 9, 20, 6, 13), params={'feeds': {'H2': 5.}}),
               ret=[('H+', 'H'), ('H-', 'H')], ops=[('ret', 18, (('H', 0.25), ('H+', 0.75))), ('ret', 5, (('H', 0.5), ('H-', 0.5)))],
               ranges=[1.5, 1.25]),
    'c2one': dict(kind='return_coefficients', net=dict(rids=(7, 9, 20, 6, 13), params={'feeds': {'H2': 5.}}),
                  ret=[('H', 'H2'), ('H', 'H-')], ops=[('ret', 31, (('H2', 0.25), ('H', 0.5), ('H-', 0.125)))], ranges=1.5),
    'c3': dict(kind='return_coefficients', net=dict(rids=(7, 9, 20, 6, 13), params={'feeds': {'H2': 5.}}),
               ret=[('H', 'H2'), ('H+', 'H'), ('H', 'H+')], ranges=[1.25, 2., 1.5],
               ops=[('ret', 31, (('H2', 0.25), ('H', 0.5), ('H+', 0.125))), ('ret', 18, (('H', 0.125), ('H+', 0.75))), ('arrh', 9, 4e-14)]),
    'c2red': dict(kind='return_coefficients', net=dict(rids=(3, 5, 8, 7, 9, 4, 20), params={'feeds': {'H2': 5., 'Ar': 1.}}),
                  ret=[('H', 'H2'), ('Ar+', 'Ar')], ranges=[2, 1.5],
                  ops=[('ret', 31, (('H2', 0.25), ('H', 0.5), ('Ar*', 0.25))), ('ret', 25, (('Ar', 0.5), ('Ar+', 0.5))), ('dis_s', 3)]),
    # more factors (thorough)
    'r4': dict(kind='reactions', net=dict(rids=(3, 5, 8, 2), params={'feeds': {'Ar': 5.}}), deep=True),
    's4': dict(kind='species', net=dict(rids=(7, 9, 20, 6, 13), params={'feeds': {'H2': 5.}}), deep=True),
}
_SETUPS = {}


def setup_of(name):
    if name not in _SETUPS:
        c = CASES[name]
        net = dict(c['net'])
        net['ops'] = list(net.get('ops', ())) + list(c.get('ops', ()))
        _SETUPS[name] = Setup(**net)
    return _SETUPS[name].fresh()


def ranges_of(case):
    r = case['ranges']
    return [float(r)] * len(case['ret']) if isinstance(r, (int, float)) else [float(x) for x in r]


def play(name, script, menu, orders, res, full_first):
    case = CASES[name]
    kind = case['kind']
    base = setup_of(name)
    n = len(M.factors_of(base, kind, case.get('ret', ())))
    kw = {}
    if kind == 'return_coefficients':
        kw = {'ret_species': [tuple(x) for x in case['ret']], 'rel_ranges': case['ranges']}
    records, draws = [], None
    # the same random draws with full and with short logs; the second trajectory is done by the same object
    s = setup_of(name)
    m = M.method(s)
    with scratch('mor') as d:
        for number, full in enumerate((True, False)):
            from mc.rand import Draws
            draws = Draws(script, menu=menu, orders=orders)
            stub = M.Stub(s, number=number)
            with controlled(draws), M.stage(stub):
                m.run_trajectory('run', kind, morris_results_dir=d, full_log=full, verbosity=0, compress_solution=False, **kw)
            R.compare(R.observe(s.chem), s.ref.observe(), 'the chemistry of the analysis after a trajectory')
            same(s.par, base.par, 'model parameters after a trajectory', key='params')
            records.append(stub.runs)
            same(len(stub.runs), n + 1, 'number of model runs', key='runs')
        meta = []
        for traj, runs in zip(('traj001', 'traj002'), records):
            td = os.path.join(d, 'run', 'logs', traj)
            mt = M.read_meta(td)
            meta.append(mt)
            ids = [mt['base_run_id']] + list(mt['run_ids'])
            same(len(set(ids)), n + 1, 'runs of the trajectory', key='run ids')
            same(sorted(os.listdir(td)), sorted(ids + ['meta.yaml']), 'contents of the trajectory directory', key='directory')
            for rid, run in zip(ids, runs):
                M.check_solution(os.path.join(td, rid, 'solution.csv'), run['table'], rid)
        same({k: meta[0][k] for k in ('deltas', 'factors_ids')}, {k: meta[1][k] for k in ('deltas', 'factors_ids')},
             'trajectories with the same draws', key='same draws')
        td = os.path.join(d, 'run', 'logs', 'traj001')
        seen = []
        for rid in [meta[0]['base_run_id']] + list(meta[0]['run_ids']):
            other = setup_of(name)
            other.chem.load_chemistry_attributes(os.path.join(td, rid, 'chemistry_attributes.yaml'))
            seen.append(R.observe(other.chem))
        ranges = ranges_of(case) if kw else ()
        path = M.check_path(base, kind, seen, meta[0], case.get('ret', ()), ranges)
        for k, x in enumerate(path):
            t = M.state_of_run(base, kind, seen[k], x, case.get('ret', ()), ranges)
            R.compare(seen[k], t.ref.observe(), 'chemistry of run {}'.format(k))
            for runs in records:
                M.check_rhs(t, runs[k], 'run {}'.format(k))
        res.count('runs', 2 * (n + 1))
        res.see('distinct_nontrivial', (name, tuple(map(tuple, path))))
        res.see('start points', (name, tuple(path[0])))
        res.count('evaluations')
    return draws


def cover(name, menu, orders, res, first=None):
    """Every script: all the choices of the menu."""
    from mc.rand import Draws
    failed = []

    def run(draws):
        with res.case({'kind': 'play', 'name': name, 'script': list(draws.script), 'menu': list(menu)}):
            got = play(name, draws.script, menu, orders, res, True)
            draws.taken = got.taken
            return
        failed.append(1)

    for _ in explore(run, prefix=[first] if first is not None else []):
        if failed or res.full:
            return
    assert Draws


def orders_for(n):
    """Keep the two directions of a step in one order when there are many factors (the other one is explored by P29)."""
    return {} if n == 2 else {2: [[0, 1]]}


# --------------------------------------------------------------------------------------- changes of return coefficients
CHANGES = [('H', 'H2', 0.95, 2.), ('H', 'H2', 0.05, 4.), ('H', 'H2', 0.5, 4.), ('H', 'H-', 0.95, 8.), ('H', 'H-', 0., 2.), ('H', 'H2', 1., 2.5),
           ('H+', 'H', 0.75, 3.), ('H+', 'H', 1., 1.5)]
REFUSED = [('H', 'H2', 0.95, 1.), ('H', 'H2', 0.95, 0.5), ('H', 'H', 0.95, 2.), ('H', 'H+', 0.95, 2.), ('H2', 'H', 0.95, 2.), ('e', 'H', 0.5, 2.),
           ('H', 'e', 0.5, 2.)]


def change_sequences(res, depth, first):
    """All sequences of mapped factors on one chemistry, with the nominal values of its start (documented use)."""
    base = Setup((7, 9, 20, 6, 13), params={'feeds': {'H2': 5.}},
                 ops=[('ret', 31, (('H2', 0.25), ('H', 0.5), ('H-', 0.125))), ('ret', 18, (('H', 0.25), ('H+', 0.5)))])
    m = M.method(base)
    nom = {n: dict(base.info[n]['ret']) for n in base.names}
    acts = [('ok',) + c for c in CHANGES] + [('no',) + c for c in REFUSED]

    def go(s, hist):
        if len(hist) == depth or res.full:
            return
        for a in (acts if hist else acts[first::8]):
            t = s.fresh()
            h = hist + [a]
            done = False
            with res.case({'kind': 'changes', 'history': h}):
                change(m, t, nom, a)
                res.count('evaluations')
                res.see('distinct_nontrivial', tuple(h))
                done = True
            if done and a[0] == 'ok':
                go(t, h)
    go(base, [])
    with res.case({'kind': 'changes', 'history': ['end']}):
        R.compare(R.observe(base.chem), base.ref.observe(), 'the chemistry of the analysis')


def change(m, s, nom, a):
    kind, stuck, back, x, rng = a
    cur = dict(s.info.get(stuck, {}).get('ret', {}))
    refused = kind == 'no'
    nominal = nom.get(stuck, {}).get(back, 0.)
    if not refused:
        new = nominal * rng ** (2. * x - 1.)
        own = cur.get(stuck, 0.) - (new - cur.get(back, 0.))
        refused = own < 0
        check(abs(own) > 1e-9, 'ambiguous case {}', a)
    if stuck in s.names and back in s.names and M.on_grid(x) is None:
        stuck_arg, back_arg = s.net.id_of[stuck], s.chem.get_rp(back)                       # identified in other ways
    else:
        stuck_arg, back_arg = stuck, back
    got = outcome(m._map_a_factor_to_ret_coef, x, stuck_arg, back_arg, nominal, s.chem, rng)
    if refused:
        same(got, ('err', 'MorrisInputsError'), 'change {} of {}'.format(a, cur), key='refused')
    else:
        same(got[0], 'ok', 'change {} of {}: {}'.format(a, cur, got), key='accepted')
        now = dict(s.chem.get_species_ret_coefs()[s.net.id_of[stuck]])
        want = dict(cur, **{back: new, stuck: own})
        check(set(now) == set(want) and all(abs(now[k] - want[k]) < 1e-12 for k in want), 'change {}: coefficients are {}, expected {}', a,
              now, want, key='coefficients')
        check(abs(sum(now.values()) - sum(nom[stuck].values())) < 1e-12, 'the total number returned changed: {}', now, key='total')
        rep = {k: {b: v for b, v in d.items()} for k, d in got[1].items()}
        check(set(rep) == {stuck} and set(rep[stuck]) == {stuck, back} and abs(rep[stuck][back] - new) < 1e-12 and
              abs(rep[stuck][stuck] - own) < 1e-12, 'reported changes {}', rep, key='reported')
        s.ref.ret[s.net.id_of[stuck]] = now
        s.refresh()
    R.compare(R.observe(s.chem), s.ref.observe(), 'after the change {}'.format(a))
    if got[0] == 'ok':
        # what was reported or read belongs to the caller
        for d in got[1].values():
            d.clear()
        R.compare(R.observe(s.chem), s.ref.observe(), 'after the reported change {} was modified'.format(a))


def guards(res):
    """Arguments of a trajectory which must be refused before anything is run."""
    bad = [('c2', {}, 'AssertionError'), ('c2', {'ret_species': [('H+', 'H')] * 2, 'rel_ranges': 2.}, 'AssertionError'),
           ('c2', {'ret_species': [('H+', 'H'), ('H-', 'H')]}, 'AssertionError'), ('r2', {'rel_ranges': 2.}, 'AssertionError'),
           ('s2', {'ret_species': [('H+', 'H')]}, 'AssertionError')]
    for name, kw, err in bad:
        with res.case({'kind': 'guards', 'name': name, 'kw': sorted(kw)}), scratch('mor') as d:
            s = setup_of(name)
            stub = M.Stub(s)
            with M.stage(stub):
                got = outcome(M.method(s).run_trajectory, 'run', CASES[name]['kind'], morris_results_dir=d, verbosity=0, **kw)
            check(got[0] == 'err', 'arguments {} were accepted', kw, key='guards')
            same(stub.runs, [], 'runs in spite of wrong arguments', key='guards')
            R.compare(R.observe(s.chem), s.ref.observe(), 'after refused arguments')
            res.count('guards')
    for kind in ('model_params', 'nonsense'):
        with res.case({'kind': 'guards', 'name': kind}), scratch('mor') as d:
            s = setup_of('r2')
            stub = M.Stub(s)
            with M.stage(stub):
                got = outcome(M.method(s).run_trajectory, 'run', kind, morris_results_dir=d, verbosity=0)
            same(got[0], 'err', 'trajectory type ' + kind, key='guards')
            same(stub.runs, [], 'runs in spite of a wrong type', key='guards')
    with res.case({'kind': 'guards', 'name': 'saved object'}):
        # the saved chemistry itself must never be modified
        s = setup_of('c2')
        m = M.method(s)
        check(outcome(m._map_a_factor_to_ret_coef, 0.75, 'H+', 'H', 0.25, m.chemistry, 1.5)[0] == 'err', 'the chemistry of the analysis was '
              'changed', key='guards')
        R.compare(R.observe(s.chem), s.ref.observe(), 'after a change of the saved object was attempted')


def shards(tier):
    jobs = []
    for name, c in CASES.items():
        if c.get('deep') and tier == 'quick':
            continue
        n = len(M.factors_of(setup_of(name), c['kind'], c.get('ret', ())))
        menu = [0, 4, 9] if tier == 'quick' or n > 3 else [0, 2, 4, 5, 7, 9]
        for f in range(len(menu)):
            jobs.append({'kind': 'play', 'name': name, 'menu': menu, 'first': f, 'n': n})
    jobs += [{'kind': 'changes', 'first': i, 'depth': 3 if tier == 'quick' else 4} for i in range(8)]
    jobs.append({'kind': 'guards'})
    return [[j] for j in jobs]


def run(shard, tier):
    res = Result()
    for j in shard:
        if j['kind'] == 'play':
            cover(j['name'], j['menu'], orders_for(j['n']), res, j['first'])
        elif j['kind'] == 'changes':
            change_sequences(res, j['depth'], j['first'])
        else:
            guards(res)
    return res


def replay(case):
    res = Result()
    if case['kind'] == 'play':
        n = len(M.factors_of(setup_of(case['name']), CASES[case['name']]['kind'], CASES[case['name']].get('ret', ())))
        with res.case(case):
            play(case['name'], case['script'], case['menu'], orders_for(n), res, True)
    elif case['kind'] == 'changes':
        for i in range(8):
            change_sequences(res, 3, i)
    else:
        guards(res)
    return res


assert MorrisMethod and itertools and np and quiet
