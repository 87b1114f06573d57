"""P17: the right-hand side has no memory, is the composition of its diagnostics, and is the documented physics."""
import collections
import copy
import hashlib
import itertools

import numpy as np

from pygmo_fwork.pygmol.equations import Equations
from pygmo_fwork.pygmol.model_parameters import ModelParameters

from mc.core import Result, check, chunks, same
from mc.models import SETUPS, Setup
from mc.refphys import near
from mc import universe as U

LEVEL = 'model_checking'
RULE = 'the reachable states of an equations object (everything it stores) under evaluation of any quantity at any of the ' \
       'chosen plasma states are explored until no new state appears; in addition all short call sequences on one object ' \
       'and one right-hand side function; values compared with a stateless reference on product grids of plasma states'
BOUNDS = {'quick': '36 quantities x 3-4 plasma states to closure for 2 chemistries; call sequences of length 2 for 1 chemistry; '
                   'value grids for all networks of up to 2 reactions and 8 larger ones',
          'thorough': '36 quantities x 6 plasma states to closure for 8 chemistries; call sequences of length 3 for 1 and '
                      'length 2 for 8 chemistries; value grids for all networks of up to 3 reactions'}
ASSUMPTIONS = ['agreement with the reference to 1e-9 of the largest contribution', 'the state of an object is what it stores '
               'in its attributes (call sequences on one object cover other places to depth 2 or 3)']

Y = ['density_vector', 'electron_energy_density', 'total_density', 'total_pressure', 'ion_temperature', 'electron_density',
     'electron_temperature', 'debye_length', 'reaction_rate_coefficients', 'reaction_rates', 'volumetric_source_rates',
     'flow_source_rates', 'mean_speeds', 'sigma_sc', 'mean_free_paths', 'free_diffusivities', 'ambipolar_diffusivity_pos',
     'ambipolar_diffusivity_neg', 'diffusivities', 'wall_fluxes', 'diffusion_sinks', 'diffusion_sources',
     'diffusion_source_rates', 'min_n_correction', 'dn_dt', 'el_en_losses', 'drho_dt_el_inel', 'drho_dt_gain_loss',
     'drho_dt_el_walls', 'sheath_voltage', 'drho_dt_ions_walls', 'min_rho_correction']
T = ['power_ext', 'drho_dt_ext']
TY = ['drho_dt', 'dy_dt']
QUANTITIES = Y + T + TY
TIME = 0.35


def evaluate(eq, q, y, t=TIME):
    f = getattr(eq, 'get_' + q)
    return f(t) if q in T else f(t, y) if q in TY else f(y)


def states_of(s):
    """(label, vector, physical?)"""
    def frac(pos, neu, shift=0.):
        out = []
        for i, x in enumerate(s.names):
            c = s.info[x]['charge']
            out.append((neu if c == 0 else pos if c > 0 else pos * 1e-3) * (1 + 0.13 * i) * (1 + shift * (i % 2)))
        return out

    a = s.vector(frac(1e-4, 0.5), 2.)
    b = s.vector(frac(1e-6, 0.9, 2.), 5.5)
    low = s.vector(frac(1e-4, 1e-7), 3.)        # below the 1 mtorr branch
    bad = a.copy()
    for i, x in enumerate(s.names):
        if s.info[x]['charge'] > 0:
            bad[i] = -bad[i]                     # negative electron density: what a solver may probe
    tiny = np.array([0.25 if s.info[x]['charge'] <= 0 else 3. for x in s.names] + [0.5])
    cold = s.vector(frac(1e-4, 0.2), 1e-3)      # below the floor of the electron temperature
    return [('a', a, True), ('b', b, True), ('low', low, True), ('bad', bad, False), ('tiny', tiny, True),
            ('cold', cold, True)]


def shards(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(SETUPS)):
        if not q or i in (1, 5):
            out.append({'kind': 'closure', 'setup': i, 'states': 4 if q and i == 5 else 3 if q else 6})
    for i in range(len(SETUPS)):
        if not q or i == 0:
            n = 3 if q else 4
            firsts = list(range(len(ops_of(Setup(**SETUPS[i]), n))))
            out += [{'kind': 'calls', 'setup': i, 'firsts': c, 'depth': 2, 'states': n} for c in chunks(firsts, 8)]
    if not q:
        firsts = list(range(len(ops_of(Setup(**SETUPS[0]), 3))))
        out += [{'kind': 'calls', 'setup': 0, 'firsts': c, 'depth': 3, 'states': 3} for c in chunks(firsts, 64)]
    nets = [n.rids for n in U.networks((1, 2) if q else (1, 2, 3))]
    out += [{'kind': 'values', 'nets': c} for c in chunks(nets, 8 if q else 32)]
    out += [{'kind': 'values', 'setup': i} for i in range(len(SETUPS))]
    return out


def build(kw):
    s = Setup(**kw)
    eq = Equations(s.chem, s.params())
    if s.wall_model != Equations.diffusion_model:
        eq.diffusion_model = s.wall_model
    return s, eq


def ops_of(s, n_states):
    ops = []
    for j in range(n_states):
        for q in QUANTITIES:
            if q in T and j:
                continue
            ops.append((q, j))
        ops.append(('rhs', j))
    return ops


def reference(s, eq0, states):
    """Expected value of every (quantity, state): the physics reference, or a fresh object for unphysical states."""
    want = {}
    for j, (label, y, good) in enumerate(states):
        if good:
            st = s.phys.state(y)
            st.update(s.phys.timed(TIME, st))
            for q in QUANTITIES:
                want[q, j] = ('ref',) + st[q]
            want['rhs', j] = want['dy_dt', j]
        else:
            for q in QUANTITIES:
                with np.errstate(all='ignore'):
                    want[q, j] = ('fresh', np.array(evaluate(copy.deepcopy(eq0), q, y.copy()), dtype=float))
            want['rhs', j] = want['dy_dt', j]
    return want


def compare(got, want, what):
    if want[0] == 'ref':
        check(near(got, want[1], want[2]), '{}: got {}, expected {}', what, got, want[1], key=what.split(' after')[0])
    else:
        check(np.allclose(np.asarray(got, dtype=float), want[1], rtol=1e-9, atol=0., equal_nan=True),
              '{}: got {}, but a fresh object gives {}', what, got, want[1], key=what.split(' after')[0])


def digest(eq):
    h = hashlib.blake2b(digest_size=16)
    for k, v in sorted(vars(eq).items()):
        h.update(k.encode())
        if isinstance(v, np.ndarray):
            h.update(str(v.dtype).encode() + str(v.shape).encode())
            h.update(v.tobytes() if v.dtype != object else repr(v.tolist()).encode())
        elif isinstance(v, ModelParameters):
            h.update(repr(sorted((a, str(v[a])) for a in v)).encode())
        else:
            h.update(repr(v).encode())
    return h.digest()


def run_closure(shard, res, max_states=4000, max_depth=12):
    s, eq0 = build(SETUPS[shard['setup']])
    states = states_of(s)[:shard['states']]
    want = reference(s, eq0, states)
    ops = ops_of(s, len(states))
    seen = {digest(eq0)}
    frontier = collections.deque([((), eq0)])
    while frontier:
        hist, eq = frontier.popleft()
        res.see('states', (shard['setup'], digest(eq).hex()))
        for op in ops:
            q, j = op
            case = {'kind': 'history', 'setup': shard['setup'], 'states': len(states), 'hist': list(hist) + [op]}
            with res.case(case, 30), np.errstate(all='ignore'):
                e2 = copy.deepcopy(eq)
                y = states[j][1].copy()
                got = e2.get_objective_functions()[0](TIME, y) if q == 'rhs' else evaluate(e2, q, y)
                got = np.array(got, dtype=float)
                same(y.tobytes(), states[j][1].tobytes(), 'the state given to {}'.format(q), key='input modified')
                compare(got, want[op], '{} at {} after {}'.format(q, states[j][0], hist))
                res.count('transitions')
                d = digest(e2)
                if d not in seen:
                    seen.add(d)
                    if len(seen) <= max_states and len(hist) < max_depth:
                        frontier.append((hist + (op,), e2))
                    else:
                        res.count('states_beyond_bound')
            if res.full:
                return
    res.count('closed_state_spaces')
    res.sample({'setup': shard['setup'], 'reachable_object_states': len(seen)})


def run_history(shard, hist, res, built):
    """One call sequence on one object, with one right-hand side function made at the start and one at the end."""
    s, states, want = built
    eq = Equations(s.chem, s.params())
    if s.wall_model != Equations.diffusion_model:
        eq.diffusion_model = s.wall_model
    with np.errstate(all='ignore'):
        func = eq.get_objective_functions()[0]
        for q, j in hist:
            y = states[j][1].copy()
            got = func(TIME, y) if q == 'rhs' else evaluate(eq, q, y)
            compare(np.array(got, dtype=float), want[q, j], '{} at {} after {}'.format(q, states[j][0], hist))
            same(y.tobytes(), states[j][1].tobytes(), 'the state given to {}'.format(q), key='input modified')
        for j in (0, 1):
            y = states[j][1].copy()
            compare(func(TIME, y), want['rhs', j], 'rhs at {} after {}'.format(states[j][0], hist))
    res.count('transitions', len(hist) + 2)
    res.see('distinct_nontrivial', (shard['setup'], hist))


def run_calls(shard, res):
    s, eq0 = build(SETUPS[shard['setup']])
    states = states_of(s)[:shard.get('states', 4)]
    want = reference(s, eq0, states)
    ops = ops_of(s, len(states))
    before = [s.chem.get_stoichiomatrix().values.tobytes(), repr(s.chem.get_species_ret_coefs().tolist()),
              s.chem.get_reactions_arrh_a().values.tobytes()]
    for i in shard['firsts']:
        for rest in itertools.product(ops, repeat=shard['depth'] - 1):
            hist = (ops[i],) + rest
            with res.case({'kind': 'calls', 'setup': shard['setup'], 'states': len(states), 'hist': hist}, 30):
                run_history(shard, hist, res, (s, states, want))
            if res.full:
                return
    with res.case({'kind': 'chemistry', 'setup': shard['setup']}):
        after = [s.chem.get_stoichiomatrix().values.tobytes(), repr(s.chem.get_species_ret_coefs().tolist()),
                 s.chem.get_reactions_arrh_a().values.tobytes()]
        same(after, before, 'the chemistry after the evaluations')
        # changes of the chemistry made later do not reach an existing set of equations
        eq = Equations(s.chem, s.params())
        eq.diffusion_model = s.wall_model
        func = eq.get_objective_functions()[0]
        s.chem.set_adhoc_reactions_attributes('arrh_a', int(s.rids[0]), 1e-11)
        names = [x for x in s.names if s.info[x]['charge'] == 0]
        s.chem.set_adhoc_species_attributes('stick_coef', names[0], 0.75)
        try:
            s.chem.disable(species=[names[-1]])
        except Exception:
            pass
        for j in (0, 1):
            compare(func(TIME, states[j][1].copy()), want['rhs', j], 'rhs at {} after changes of the chemistry'.format(j))


def run_values(kw, res, key, fine=False):
    with res.case({'kind': 'values', 'key': key}, 300), np.errstate(all='ignore'):
        s, eq = build(kw)
        func = eq.get_objective_functions()[0]
        big = len(s.names) > 5 or not fine
        for y in s.grid(levels_neutral=(1e-3, 0.7) if big else (1e-8, 1e-2, 0.8),
                        levels_pos=(1e-5, 1e-3) if big else (1e-7, 1e-4, 1e-2), levels_neg=(1e-9,),
                        tes=(1.7,) if len(s.names) > 5 else (0.01, 4.) if big else (0.01, 1.7, 12.)):
            st = s.phys.state(y)
            for t in (0., TIME):
                st.update(s.phys.timed(t, st))
                compare(func(t, y), ('ref',) + st['dy_dt'], 'right-hand side')
            for q in QUANTITIES:
                compare(evaluate(eq, q, y), ('ref',) + st[q], q)
            res.count('traces_validated_against_impl', len(QUANTITIES) + 2)
            res.see('distinct_nontrivial', (key, y.tobytes()))


PARAMS = [{'feeds': {}}, {'Tg': 650., 'p': 0.02, 'r': 0.3, 'z': 0.1}, {'P': [0., 0., 900., 900.], 't_P': [0, 0.2, 0.2, 1.2]}]


def run(shard, tier):
    res = Result()
    if shard['kind'] == 'closure':
        run_closure(shard, res)
    elif shard['kind'] == 'calls':
        run_calls(shard, res)
    elif 'setup' in shard:
        run_values(SETUPS[shard['setup']], res, shard['setup'], True)
    else:
        for rids in shard['nets']:
            for k, p in enumerate(PARAMS):
                for wall in (0, 1):
                    net = U.Net(rids)
                    feeds = {n: 3. + i for i, n in enumerate(net.names) if n in ('Ar', 'H2')} if k else {}
                    kw = dict(rids=rids, params=dict(p, feeds=feeds), wall_model=wall)
                    run_values(kw, res, (tuple(rids), k, wall), tier != 'quick')
            if res.full:
                break
    return res


def replay(case):
    res = Result()
    if case['kind'] == 'values':
        key = case['key']
        if isinstance(key, int):
            run_values(SETUPS[key], res, key)
        else:
            return run({'kind': 'values', 'nets': [key[0]]}, 'quick')
    elif case['kind'] == 'chemistry':
        run_calls({'setup': case['setup'], 'firsts': [], 'depth': 1}, res)
    else:
        s, eq0 = build(SETUPS[case['setup']])
        states = states_of(s)[:case['states']]
        want = reference(s, eq0, states)
        with res.case(case):
            run_history(case, tuple(tuple(x) for x in case['hist']), res, (s, states, want))
    return res
