"""P11: species attributes - acceptance, defaults, special species, setter."""
import itertools

import numpy as np

from plaschem.species import RP

from mc.core import Result, check, outcome, same

LEVEL = 'exploration'
RULE = 'full product of name, mass, charge, state, stateless, sticking and return data; pairwise product of all other ' \
       'attributes with units; every getter read and compared; setter tried with every value and unit on every kind'
BOUNDS = {'quick': '12 names x 5 x 7 x 3 x 3 x 8 x 7 values; pairwise product for the rest',
          'thorough': '12 names x 5 x 7 x 3 x 3 x 8 x 7 values; triple-wise product for the rest'}
ASSUMPTIONS = ['None for a mandatory attribute and an empty state are not decided (undocumented)']

# name: (stateless name, neutral stateless name)
NAMES = {'e': (None, None), 'M': (None, None), 'Ar': ('Ar', 'Ar'), 'Ar+': ('Ar+', 'Ar'), 'Ar*': ('Ar', 'Ar'),
         'Ar+2': ('Ar+2', 'Ar'), 'O2-': ('O2-', 'O2'), 'O2(a1)': ('O2', 'O2'), 'ArH+(v=1)': ('ArH+', 'ArH'),
         'SF6--*': ('SF6--', 'SF6'), 'Ar2-12': ('Ar2-12', 'Ar2'), 'C2H4+++': ('C2H4+++', 'C2H4')}
NO = Ellipsis
GOOD_FLOATS = [1.5, '39.25', 4, np.float64(0.5), 0, '0', 0.]
MASS = [NO, 1.5, '39.25', 4, [1.]]
CHARGE = [NO, None, 0, 2, '-1', 1.0, '0']
STATE = [NO, None, 'v=1']
STICK = [NO, None, 0, '0.25', 1., np.float64(0.5), [1], 0.]
RET = [NO, None, {}, {'X': 1}, {'X': '0.5', 'Y': np.float64(0.25)}, '{}', {'X': 0}]

OPTIONAL = {
    'h_form': ([NO, None, 0, -1.5, '15.76', np.float64(2), {}], float, 0., 'eV'),
    'lj_epsilon': ([NO, None, 93.3, '0', (1,)], float, 0., 'K'),
    'lj_sigma': ([NO, None, 2.5, '3.5', 4, 0., [2]], float, 3., 'A'),
    'hpem_name': ([NO, None, 'AR', '', 5], str, None, None),
    'qdb_id': ([NO, None, 0, '17', 1.5], int, None, None),
    'comments': ([NO, None, '', 'note', 3], str, None, None),
    'latex': ([NO, None, 'x', 1], str, NO, None),
}
UNITS = {'mass': 'amu', 'charge': 'e', 'h_form': 'eV', 'lj_epsilon': 'K', 'lj_sigma': 'A'}
TYPES = {'mass': float, 'charge': int, 'h_form': float, 'lj_epsilon': float, 'lj_sigma': float, 'qdb_id': int,
         'stick_coef': float, 'hpem_name': str, 'comments': str, 'latex': str, 'state': str, 'stateless': str,
         'ret_coefs': dict}


def type_ok(attr, v):
    if v is None:
        return True
    kind = TYPES[attr]
    return {float: type(v) in (float, np.float64, str, int), int: type(v) in (int, str), str: type(v) is str,
            dict: type(v) is dict}[kind]


def shards(tier):
    return [{'name': n} for n in NAMES] + [{'rest': n, 'k': 2 if tier == 'quick' else 3} for n in NAMES] + [{'edges': 1}]


def expected(name, kw):
    if name != 'M' and 'mass' not in kw:
        return False
    if kw.get('state') and 'stateless' not in kw:
        return False
    return all(type_ok(k, v) for k, v in kw.items())


def given(kw, key, kind, default):
    v = kw.get(key)
    return default if v is None else kind(v)


def read(rp, name, kw, res):
    """Every getter against the documented defaults."""
    special = name in ('e', 'M')
    w = '{} with {}'.format(name, kw)
    same(rp.get_name(), name, w + ': name')
    same(str(rp), name, w + ': text')
    same(rp.is_special(), special, w + ': special')
    same(rp.get_mass(), None if name == 'M' else float(kw['mass']), w + ': mass', key='mass')
    charge = given(kw, 'charge', int, 0)
    same(rp.get_charge(), None if name == 'M' else charge, w + ': charge', key='charge')
    state = None if special else kw.get('state')
    same(rp.get_state(), state, w + ': state')
    same(rp.is_stateless(), state is None, w + ': stateless')
    for key, (_, kind, default, _) in OPTIONAL.items():
        if default is NO:
            if kw.get(key) is not None:
                same(rp.get_latex(), kw[key], w + ': ' + key)
            continue
        want = given(kw, key, kind, default)
        if special and key in ('h_form', 'lj_epsilon', 'lj_sigma'):
            want = None
        got = getattr(rp, 'get_' + key)()
        check(got == want and type(got) is type(want), '{}: {} reads {!r}, expected {!r}', w, key, got, want, key=key)
    if special:
        same(rp.get_stateless(), name, w + ': stateless name')
        same((rp.get_stick_coef(), rp.get_ret_coefs()), (None, None), w + ': surface data of a special species')
        return
    stateless = kw.get('stateless')
    neutral = NAMES[name][1]
    if stateless is None:
        if state is not None:
            return   # undecided, see ASSUMPTIONS
        stateless = name
        if name.endswith(('*', ')')):
            neutral = None   # name of an excited state given without state: nothing documented about its neutral
    same(rp.get_stateless(), stateless, w + ': stateless name', key='stateless name')
    plain = state is None and charge == 0
    same(rp.get_stick_coef(), given(kw, 'stick_coef', float, 0. if plain else 1.), w + ': sticking coefficient',
         key='stick_coef')
    ret = kw.get('ret_coefs')
    if ret is None:
        if plain:
            same(rp.get_ret_coefs(), {}, w + ': return coefficients', key='ret_coefs')
        elif neutral is not None:
            same(rp.get_ret_coefs(), {neutral: 1.}, w + ': return coefficients', key='ret_coefs')
    else:
        got = rp.get_ret_coefs()
        same(got, {k: float(v) for k, v in ret.items()}, w + ': return coefficients', key='ret_coefs')
        got['other'] = 1.
        same(rp.get_ret_coefs(), {k: float(v) for k, v in ret.items()}, w + ': return coefficients after changing a copy')


def attempt(name, kw, units, want, res):
    attrs = dict(kw, name=name)
    for style in (0, 1):   # attributes in the dictionary, or as keyword arguments
        kind, rp = outcome(RP, 5, attributes=attrs, units=units) if style == 0 else \
            outcome(RP, 5, attributes={'name': name}, units=units, **kw)
        check((kind == 'ok') == want, 'species {} with {} and units {} was {}', name, kw, units,
              'accepted' if kind == 'ok' else 'refused ({})'.format(rp), key='acceptance')
        res.count('evaluations')
        if kind == 'ok':
            same(rp.id, 5, 'species id')
            read(rp, name, kw, res)
            for u, default in UNITS.items():
                same(rp.get_unit(u), default, 'unit of ' + u)
    if want:
        res.see('distinct_nontrivial', (name, repr(sorted(kw.items(), key=lambda x: x[0])), repr(units)))


def drop(**kw):
    return {k: v for k, v in kw.items() if v is not NO}


def check_name(name, res):
    stateless = NAMES[name][0] or 'X'
    for m, c, s, sl, st, rt in itertools.product(MASS, CHARGE, STATE, [NO, None, stateless], STICK, RET):
        kw = drop(mass=m, charge=c, state=s, stateless=sl, stick_coef=st, ret_coefs=rt)
        with res.case({'name': name, 'kw': repr(kw)}):
            attempt(name, kw, None, expected(name, kw), res)
        if res.full:
            return


def check_rest(name, k, res):
    base = {'mass': 2.5}
    if name.endswith(('*', ')')):
        base.update(state='x', stateless=NAMES[name][0])
    for keys in itertools.combinations(OPTIONAL, k):
        for values in itertools.product(*[OPTIONAL[x][0] for x in keys]):
            kw = dict(base, **{x: v for x, v in zip(keys, values) if v is not NO})
            with res.case({'name': name, 'kw': repr(kw)}):
                attempt(name, kw, None, expected(name, kw), res)
            if res.full:
                return
    # units
    every = dict(base, charge=1, h_form=1., lj_epsilon=2., lj_sigma=3., comments='c')
    allkeys = list(UNITS) + ['comments', 'bogus']
    for a in allkeys:
        for u in ('amu', 'e', 'eV', 'K', 'A', 'J', None):
            for kw in (every, base):
                ok = a in UNITS and u in (None, UNITS[a]) and a in kw
                with res.case({'name': name, 'unit': [a, u]}):
                    attempt(name, kw, {a: u}, ok, res)
    for attr in list(OPTIONAL) + ['mass', 'charge', 'stick_coef', 'ret_coefs', 'bogus', 'id']:
        values = OPTIONAL[attr][0] if attr in OPTIONAL else \
            {'mass': MASS, 'charge': CHARGE, 'stick_coef': STICK, 'ret_coefs': RET}.get(attr, [1])
        for v in values[1:]:
            for u in (None, 'amu', 'e', 'eV', 'K', 'A', 'J'):
                if v is None and (attr == 'mass' or u is not None):
                    continue
                with res.case({'name': name, 'setter': [attr, repr(v), u]}):
                    rp = RP(5, name=name, **every)
                    ok = attr in TYPES and type_ok(attr, v) and (u is None or UNITS.get(attr) == u)
                    kind, x = outcome(rp.set_species_attribute, attr, v, unit=u)
                    check((kind == 'ok') == ok, 'setting {}={!r} [{}] of {} was {}', attr, v, u, name, kind,
                          key='setter acceptance')
                    kw = dict(every)
                    if ok:
                        kw[attr] = v
                    read(rp, name, kw, res)
                    res.count('evaluations')
        if res.full:
            return


def check_edges(res):
    cases = []
    for rid, ok in ((0, True), (999, True), (-1, False), (1.0, False), ('1', False), (None, False)):
        cases.append((rid, {'name': 'Ar', 'mass': 1.}, ok))
    for name, ok in (('A<r', False), ('Ar>', False), ('<', False), ('Ar', True), ('O2(a 1)', True)):
        cases.append((1, {'name': name, 'mass': 1.}, ok))
    cases += [(1, {'mass': 1.}, False), (1, {}, False), (1, {'name': 'M'}, True), (1, {'name': 'e'}, False),
              (1, {'name': 'Ar', 'mass': 1., 'bogus': 1}, False), (1, {'name': 'M', 'mass': 2.}, True),
              (1, {'name': 'Ar', 'mass': 1., 'id': 4}, False)]
    for rid, kw, ok in cases:
        with res.case({'edges': [repr(rid), repr(kw)]}):
            kind, x = outcome(RP, rid, **kw)
            check((kind == 'ok') == ok, 'species id {!r}, {}: {}', rid, kw, kind, key='edge acceptance')
            res.count('evaluations')


def run(shard, tier):
    res = Result()
    if 'name' in shard:
        check_name(shard['name'], res)
    elif 'rest' in shard:
        check_rest(shard['rest'], shard['k'], res)
    else:
        check_edges(res)
    return res


def replay(case):
    res = Result()
    if 'edges' in case:
        check_edges(res)
    else:
        check_name(case['name'], res)
        check_rest(case['name'], 2, res)
    return res
