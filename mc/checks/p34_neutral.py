"""P34: chemistries and models without electrons keep all the guarantees of those with them."""
import collections
import copy
import itertools
import math
import os

import numpy as np
import pandas as pd

from plaschem.chemistry import Chemistry
from plaschem.exceptions import ChemistryConsistencyError
from pygmo_fwork.pygmol.neutral_model import NeutralChemistry, NeutralEquations, NeutralModel

from mc import refchem as R
from mc import universe as U
from mc.checks import p20_run_success as P20
from mc.checks import p22_initial_state as P22
from mc.checks.p17_rhs import digest
from mc.core import Result, check, chunks, outcome, quiet, same, scratch
from mc.models import NEUTRAL_POOL, NEUTRAL_SETUPS, POOL, Setup
from mc.refphys import near

LEVEL = 'model_checking'
RULE = 'operation sequences on all electron-free networks up to a number of reactions, the real chemistry in lockstep with ' \
       'the reference state machine (outcome and everything observable after every operation; every state is copied, saved ' \
       'and restored into a fresh chemistry); acceptance of every selection of reactions with and without charged ' \
       'participants; the object states of the equations under evaluation of every quantity until closure; the value of ' \
       'every quantity on product grids for every network, every single reduction and several overrides; every sequence of ' \
       'solver outcomes'
BOUNDS = {'quick': 'networks of 1-2 reactions to depth 2 and 3 networks of 3 to depth 3; acceptance of 1-2 of 23 reactions; '
                   'values for all networks of 1-2 reactions; run sequences of length 3',
          'thorough': 'networks of 1-3 reactions to depth 3 and 3 networks to depth 4; acceptance of 1-3 of 23 reactions; '
                      'values for all networks of 1-4 reactions; run sequences of length 4'}
ASSUMPTIONS = ['at least one species stays enabled', 'agreement with the reference to 1e-9 of the largest contribution',
               'the state of an equations object is what it stores in its attributes']

BOTH = dict(POOL)
BOTH.update(NEUTRAL_POOL)
BOTH[30] = (('e', 'Ar*'), ('e', 'Ar'))
BOTH[31] = (('e', 'H2'), ('e', 'H', 'H'))
BOTH[32] = (('e', 'Ar'), ('e', 'Ar*'))
_SHARED = {}


def make(net):
    """Neutral chemistry over shared objects."""
    if not _SHARED:
        _SHARED['sp'] = U.build_species()
        _SHARED['r'] = {r: U.build_reaction(r, l, h, _SHARED['sp']) for r, (l, h) in BOTH.items()}
    return NeutralChemistry(species=[_SHARED['sp'][n] for n in net.names], reactions=[_SHARED['r'][r] for r in net.rids])


def complete(net):
    return all(x in net.names for n in net.names for x in U.DEFAULT_RET.get(n, {}))


def nets(sizes):
    for k in sizes:
        for rids in itertools.combinations(sorted(NEUTRAL_POOL), k):
            net = U.Net(rids, NEUTRAL_POOL)
            if complete(net):
                yield net


# ----------------------------------------------------------------------------------------------------------- histories
def alphabet(net, wide):
    heavy = [net.id_of[n] for n in net.names if n not in U.SPECIAL]
    names = [net.name_of[i] for i in heavy]
    ops = [('dis_r', r) for r in net.rids] + [('dis_s', i) for i in net.sids]
    ops += [('stick', heavy[0], 0.25), ('ret', heavy[-1], tuple((n, 0.25) for n in names[:2])), ('arrh', net.rids[-1], 7e-16),
            ('prot', heavy[0]), ('reset',), ('rst_sp', 'all'), ('rst_r', 'all'), ('copy',), ('dump', 'a'), ('load', 'a')]
    if wide:
        ops += [('stick', heavy[-1], 0.), ('ret', heavy[0], ((names[-1], 1.),)), ('prot', 99), ('dis_s', 99), ('dis_r', 99),
                ('dis', (heavy[0],), (net.rids[-1],)), ('prot',) + tuple(heavy[1:]), ('stick', 99, 1.), ('ret', heavy[0], (('e', 1.),))]
    return [op for op in ops]


def on_state(net, d, res):
    def go(drv, ref, slots, hist):
        chem = drv.chem
        where = 'after {!r}'.format(hist)
        saved = R.saved(chem, d)
        # copies
        cp = chem.copy()
        check(type(cp) is NeutralChemistry, '{}: the copy is a {}', where, type(cp).__name__, key='type of the copy')
        R.compare(R.observe(cp), ref.observe(), where + ': copy')
        same(R.saved(cp, d), saved, where + ': saved state of the copy', key='copy')
        cp2 = cp.copy()
        for op in [('prot',) + tuple(net.sids), ('stick', net.sids[0], 0.5), ('arrh', net.rids[0], 1e-11), ('reset',)]:
            r2 = ref.clone()
            if r2.apply(op, {}) == 'ok' and net.name_of.get(op[1] if len(op) > 1 else 0) not in U.SPECIAL:
                R.Driver(cp2, d).apply(op)
                R.compare(R.observe(cp2), r2.observe(), where + ': copy of the copy, then ' + repr(op))
                R.compare(R.observe(chem), ref.observe(), where + ': original after ' + repr(op) + ' on a copy')
                cp2 = cp.copy()
        # restoring into a new chemistry, and coherence
        other = make(net)
        path = os.path.join(d, 'state.yaml')
        chem.dump_chemistry_attributes(path)
        same(other.check_coherence(path), ref.key() == R.Ref(net, False).key(), where + ': coherence with a new chemistry',
             key='coherence')
        other.load_chemistry_attributes(path)
        R.compare(R.observe(other), ref.observe(), where + ': restored')
        same(other.check_coherence(path), True, where + ': coherence after restoring', key='coherence')
        # there are no electrons, however they are asked for
        for disabled in (True, False):
            ids = [r for r in net.rids if disabled or r in ref.rs]
            for kw in ({}, {'method': 'lhs'}, {'method': 'rhs'}, {'method': 'net'}):
                el = chem.get_reactions_stoich_coefs_electron(disabled=disabled, **kw)
                check(isinstance(el, pd.Series) and [int(i) for i in el.index] == ids and [float(v) for v in el] == [0.] * len(ids),
                      '{}: electrons in the reactions {}: {}', where, ids, el, key='electrons')
            names = [n for n in net.names if n not in U.SPECIAL and (disabled or net.id_of[n] in ref.sp)]
            same([str(n) for n in chem.get_species_name(disabled=disabled)], names, where + ': names', key='names')
            same([int(q) for q in chem.get_species_charge(disabled=disabled)], [0] * len(names), where + ': charges', key='charges')
            for method in ('lhs', 'rhs', 'net'):
                mat = chem.get_stoichiomatrix(disabled=disabled, method=method)
                for r in ids:
                    for n in names:
                        l, h = [side.count(n) for side in net.pool[r]]
                        same(int(mat.at[r, net.id_of[n]]), {'lhs': l, 'rhs': h, 'net': h - l}[method],
                             '{}: {} stoichiometry of {} in {}'.format(where, method, n, r), key='stoichiometry')
                arb = chem.get_reactions_stoich_coefs_arbitrary(disabled=disabled, method=method)
                for r in ids:
                    l, h = [side.count('M') for side in net.pool[r]]
                    same(int(arb.at[r]), {'lhs': l, 'rhs': h, 'net': h - l}[method], where + ': third body', key='stoichiometry')
        # what returns from the walls
        names = [n for n in net.names if n not in U.SPECIAL and net.id_of[n] in ref.sp]
        mat = chem.get_return_matrix()
        for n in names:
            ret = ref.ret_of(net.id_of[n])
            for m in names:
                same(float(mat.at[net.id_of[m], net.id_of[n]]), ret.get(m, 0.), '{}: return of {} from {}'.format(where, m, n),
                     key='return matrix')
        res.count('traces_validated_against_impl')
    return go


def run_hist(rids, depth, wide, res):
    net = U.Net(rids, NEUTRAL_POOL)
    with scratch() as d:
        ops = [op for op in alphabet(net, wide)]
        R.explore(net, ops, depth, res, d, None, on_state(net, d, res), make=lambda n: make(n), requires_charge=False,
                  case_extra={'kind': 'hist', 'depth': depth, 'wide': wide})


# ---------------------------------------------------------------------------------------------------------- acceptance
def run_accept(rids, res):
    with res.case({'kind': 'accept', 'rids': rids}):
        net = U.Net(rids, BOTH)
        electron = 'e' in net.names
        charged = any(U.SPECIES[n][1] for n in net.names)
        ok = complete(net) and not electron and not charged
        got = outcome(make, net)
        if ok:
            same(got[0], 'ok', 'neutral chemistry of {}: {}'.format(net.names, got), key='refused')
        else:
            same(got, ('err', 'ChemistryConsistencyError'), 'neutral chemistry of {}'.format(net.names), key='accepted')
        if ok:
            par = {'r': 0.02, 'z': 0.05, 'p': 10., 't_end': 1., 'P': [0., 0.], 't_P': [0., 2.], 'feeds': {}, 'Tg': 400.}
            same(outcome(NeutralModel, got[1], par)[0], 'ok', 'model of {}'.format(net.names), key='model refused')
        # one species more or less than the reactions have
        for extra in U.SPECIES:
            if extra not in net.names:
                more = U.Net(rids, BOTH, extra_species=(extra,))
                same(outcome(make, more), ('err', 'ChemistryConsistencyError'),
                     'neutral chemistry of {} and {}, which is in no reaction'.format(net.names, extra), key='accepted')
        for less in net.names:
            part = copy.copy(net)
            part.names = [n for n in net.names if n != less]
            if part.names:
                same(outcome(make, part), ('err', 'ChemistryConsistencyError'), 'neutral chemistry of {} without {}'.format(
                    net.names, less), key='accepted')
        # the plasma chemistry of the same species is not for the neutral model
        plasma = outcome(lambda: Chemistry(species=[_SHARED['sp'][n] for n in net.names],
                                           reactions=[_SHARED['r'][r] for r in net.rids]))
        same(plasma[0], 'ok' if complete(net) and electron and net.ions else 'err', 'plasma chemistry of {}'.format(net.names),
             key='plasma')
        if plasma[0] == 'ok':
            par = {'r': 0.02, 'z': 0.05, 'p': 10., 't_end': 1., 'P': [0., 0.], 't_P': [0., 2.], 'feeds': {}, 'Tg': 400.}
            same(outcome(NeutralModel, plasma[1], par)[0], 'err', 'neutral model of a plasma', key='plasma in a neutral model')
        res.see('distinct_nontrivial', ('accept', rids))


# -------------------------------------------------------------------------------------------------------------- values
Y = ['density_vector', 'electron_energy_density', 'total_density', 'total_pressure', 'ion_temperature', 'electron_density',
     'electron_temperature', 'reaction_rate_coefficients', 'reaction_rates', 'volumetric_source_rates', 'flow_source_rates',
     'mean_speeds', 'sigma_sc', 'mean_free_paths', 'free_diffusivities', 'diffusivities', 'wall_fluxes', 'diffusion_sinks',
     'diffusion_sources', 'diffusion_source_rates', 'min_n_correction', 'dn_dt', 'rhs', 'drho_dt', 'dy_dt']
TIME = 0.25


def evaluate(eq, q, y):
    if q == 'rhs':
        return eq.get_objective_functions()[0](TIME, y)
    return getattr(eq, 'get_' + q)(*((TIME, y) if q in ('drho_dt', 'dy_dt') else (y,)))


def expected(s, y):
    st = s.phys.state(y)
    st['dy_dt'] = s.phys.timed(TIME, st)['dy_dt']
    st['rhs'] = st['dy_dt']
    st['drho_dt'] = (0., 0.)
    return st


def states_of(s):
    def vec(f, shift):
        return s.vector([f * (1 + 0.13 * i) * (1 + shift * (i % 2)) for i in range(len(s.names))], 0.)

    single = s.vector([0.9 if i == 0 else 0. for i in range(len(s.names))], 0.)
    return [vec(0.5, 0.), vec(0.05, 4.), vec(1e-7, 0.), np.array([0.25] * len(s.names) + [0.]), single]


def build(kw):
    s = Setup(**kw)
    eq = NeutralEquations(s.chem, s.params())
    eq.diffusion_model = s.wall_model
    return s, eq


def run_closure(i, res, max_states=2000):
    s, eq0 = build(NEUTRAL_SETUPS[i])
    states = states_of(s)
    with np.errstate(all='ignore'):
        want = [expected(s, y) for y in states]
    seen = {digest(eq0)}
    frontier = collections.deque([((), eq0)])
    while frontier:
        hist, eq = frontier.popleft()
        res.see('states', ('object', i, digest(eq).hex()))
        for q in Y:
            for j, y0 in enumerate(states):
                with res.case({'kind': 'closure', 'setup': i, 'hist': list(hist) + [(q, j)]}, 30), np.errstate(all='ignore'):
                    e2, y = copy.deepcopy(eq), y0.copy()
                    got = evaluate(e2, q, y)
                    check(near(got, *want[j][q]), '{} in state {} after {}: {}, expected {}', q, j, hist, got, want[j][q][0], key=q)
                    same(y.tobytes(), y0.tobytes(), 'the state given to {}'.format(q), key='input modified')
                    res.count('transitions')
                    k = digest(e2)
                    if k not in seen and len(seen) < max_states:
                        seen.add(k)
                        frontier.append((hist + ((q, j),), e2))
                if res.full:
                    return


def run_values(kw, key, levels, res):
    with res.case({'kind': 'values', 'setup': kw, 'key': key, 'levels': levels}, 120), np.errstate(all='ignore'):
        s, eq = build(kw)
        func = eq.get_objective_functions()[0]
        for y in itertools.chain(s.grid(levels), states_of(s)):
            st = expected(s, y)
            check(near(func(TIME, y), *st['rhs']), 'right-hand side {}: {}, expected {}', list(y), func(TIME, y), st['rhs'][0],
                  key='rhs')
            for q in Y:
                got = evaluate(eq, q, y)
                check(near(got, *st[q]), '{} {}: {}, expected {}', q, list(y), got, st[q][0], key=q)
            # atoms: reactions conserve them (independent of the reference)
            vol = eq.get_volumetric_source_rates(y)
            rates = eq.get_reaction_rates(y)
            for el in ('H', 'Ar'):
                tot = math.fsum(float(v) * U.SPECIES[n][3].get(el, 0) for v, n in zip(vol, s.names))
                check(abs(tot) <= 1e-9 * 6 * math.fsum(abs(float(r)) for r in rates) + 1e-300, 'reactions produce {} of {}', tot, el,
                      key='atoms')
            res.see('distinct_nontrivial', (key, y.tobytes()))
            res.count('traces_validated_against_impl')


OVERRIDES = [(), (('stick', 12, 0.5), ('ret', 12, (('Ar*', 0.5), ('H', 0.25)))), (('stick', 31, 1.), ('ret', 31, ())),
             (('stick', 3, 0.),), (('stick', 9, 0.125), ('ret', 9, (('H', 2.),)), ('arrh', 23, 1e-3), ('arrh', 22, 5e-17))]


def variants(rids):
    net = U.Net(rids, NEUTRAL_POOL)
    seen = set()
    cands = [tuple(op for op in ov if (op[1] in net.rids if op[0] == 'arrh' else op[1] in net.sids) and
                   (op[0] != 'ret' or all(a in net.names for a, _ in op[2]))) for ov in OVERRIDES]
    cands += [(('dis_s', i),) for i in net.sids] + [(('dis_r', r),) for r in net.rids]
    for ops in cands:
        ref = R.Ref(net, False)
        if all(ref.apply(op, {}) == 'ok' for op in ops) and any(net.name_of[i] not in U.SPECIAL for i in ref.sp):
            if ref.key() not in seen:
                seen.add(ref.key())
                yield ops, [n for n in net.names if net.id_of[n] in ref.sp and n not in U.SPECIAL]


PARAMS = [({}, 1), ({'Tg': 650., 'p': 0.02, 'r': 0.3, 'z': 0.1}, 0), ({'p': 100.}, 0), ({'r': 0.005, 'Tg': 290}, 1)]


def run_net(rids, quick, res):
    for k, (ops, names) in enumerate(variants(rids)):
        for j, (p, wall) in enumerate(PARAMS):
            if quick and (j + k) % 2:
                continue
            feeds = {n: 2.5 + 3 * i for i, n in enumerate(names)} if j == 1 else {names[-1]: 4} if j == 2 else {}
            kw = dict(rids=rids, ops=ops, params=dict(p, feeds=feeds), wall_model=wall, neutral=True)
            run_values(kw, (rids, k, j), (1e-3, 0.8) if quick else (1e-6, 0.1, 0.9), res)
            if res.full:
                return


# ---------------------------------------------------------------------------------------------------------------- runs
def run_start(i, res):
    """Initial densities given by the user: every order of the names, every way of giving too few or too many."""
    with res.case({'kind': 'start', 'setup': i}, 120), np.errstate(all='ignore'):
        s = Setup(**dict(NEUTRAL_SETUPS[i], wall_model=1))
        solver = P20.Solver()
        solver.setup = s
        m = NeutralModel(s.chem, s.params())
        vals = {n: 1e19 * (j + 1) for j, n in enumerate(s.names)}
        vals[s.names[0]] = 0.
        with P20.solver_in_place(solver), quiet():
            for perm in itertools.permutations(s.names):
                for form in (dict, pd.Series):
                    init = form({n: vals[n] for n in perm})
                    m.run(init_n=init)
                    y0 = solver.last[1][0]
                    same([float(v) for v in y0], [vals[n] for n in s.names] + [0.], 'start with {}'.format(init), key='start')
                    same([float(init[n]) for n in perm], [vals[n] for n in perm], 'the densities given', key='input modified')
                    P20.check_tables(m, solver.last)
                    res.count('transitions')
            for names in [s.names[1:], s.names + ['e'], s.names + ['M'], s.names[:-1] + ['X'], []]:
                calls = solver.calls
                same(outcome(m.run, init_n={n: 1e19 for n in names}), ('err', 'InitialSolutionError'), 'start with {}'.format(names),
                     key='start accepted')
                same((solver.calls, m.success()), (calls, False), 'after a refused start', key='success')
                m.run()
                res.count('transitions')
        res.see('distinct_nontrivial', ('start', i))


def shards(tier):
    q = tier == 'quick'
    small = [n.rids for n in nets((1, 2) if q else (1, 2, 3))]
    out = [{'kind': 'hist', 'nets': c, 'depth': 2 if q else 3, 'wide': True} for c in chunks(small, 8 if q else 64)]
    out += [{'kind': 'hist', 'nets': [r], 'depth': 3 if q else 4, 'wide': False} for r in ((2, 20, 23), (22, 24, 25), (21, 24, 26))]
    sel = [c for k in ((1, 2) if q else (1, 2, 3)) for c in itertools.combinations(sorted(BOTH), k)]
    out += [{'kind': 'accept', 'nets': c} for c in chunks(sel, 4 if q else 32)]
    out += [{'kind': 'closure', 'setup': i} for i in range(len(NEUTRAL_SETUPS))]
    vals = [n.rids for n in nets((1, 2) if q else (1, 2, 3, 4))]
    out += [{'kind': 'values', 'nets': c} for c in chunks(vals, 8 if q else 48)]
    out += [{'kind': 'default', 'nets': c} for c in chunks(small, 8)]
    out += [{'kind': 'start', 'setup': i} for i in range(len(NEUTRAL_SETUPS))]
    out += [{'kind': 'backend', 'setup': i, 'depth': 3 if q else 4} for i in range(len(NEUTRAL_SETUPS))]
    return out


def run(shard, tier):
    res = Result()
    kind = shard['kind']
    if kind == 'hist':
        for rids in shard['nets']:
            run_hist(tuple(rids), shard['depth'], shard['wide'], res)
            if res.full:
                break
    elif kind == 'default':
        for rids in shard['nets']:
            P22.run_net(tuple(rids), True, res)
            if res.full:
                break
    elif kind == 'accept':
        make(U.Net((21,), NEUTRAL_POOL))
        for rids in shard['nets']:
            run_accept(tuple(rids), res)
            if res.full:
                break
    elif kind == 'values':
        for rids in shard['nets']:
            run_net(tuple(rids), tier == 'quick', res)
            if res.full:
                break
    elif kind == 'closure':
        run_closure(shard['setup'], res)
    elif kind == 'start':
        run_start(shard['setup'], res)
    else:
        i = shard['setup']
        P20.run_backend(dict(NEUTRAL_SETUPS[i], wall_model=1), i, shard['depth'], res)
    return res


def replay(case):
    res = Result()
    kind = case.get('kind')
    if kind == 'hist':
        net = U.Net(case['rids'], NEUTRAL_POOL)
        with scratch() as d, res.case(case):
            drv, ref, slots = R.Driver(make(net), d), R.Ref(net, False), {}
            hist = [R.tup(o) for o in case['hist']]
            for k, op in enumerate(hist):
                R.step(drv, ref, op, slots, 'after {!r}'.format(hist[:k]))
                R.compare(R.observe(drv.chem), ref.observe(), 'after {!r}'.format(hist[:k + 1]))
            on_state(net, d, res)(drv, ref, slots, hist)
    elif kind == 'net':
        P22.run_net(tuple(case['rids']), True, res)
    elif kind == 'accept':
        make(U.Net((21,), NEUTRAL_POOL))
        run_accept(tuple(case['rids']), res)
    elif kind == 'values':
        kw = dict(case['setup'])
        kw['rids'] = tuple(kw['rids'])
        run_values(kw, R.tup(case['key']), tuple(case['levels']), res)
    elif kind == 'start':
        run_start(case['setup'], res)
    elif kind == 'backend':
        P20.run_backend(dict(NEUTRAL_SETUPS[case['key']], wall_model=1), case['key'], case['depth'], res)
    else:
        run_closure(case['setup'], res)
    return res
