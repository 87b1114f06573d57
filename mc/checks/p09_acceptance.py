"""P09: a reaction is accepted exactly when charge, atoms, units and sign are right."""
import itertools

import numpy as np

from plaschem.reactions import Reaction
from plaschem.species import RP

from mc.core import Result, check, chunks, outcome, same

LEVEL = 'exploration'
RULE = 'all pairs of reactant and product multisets over an alphabet of species; then all value/unit/type combinations of ' \
       'the rate parameters for one reaction of each kind, at construction and through the setter'
BOUNDS = {'quick': '11 species, up to 3 reactants and 3 products (4 for balanced left sides); 5 kinds x ~9000 attribute sets',
          'thorough': '16 species; the same attribute product with both orders of participants'}
ASSUMPTIONS = ['element counts of the alphabet are written down by hand']

# name -> charge, elements, extra
ALPHABET = [
    ('e', -1, {}, {}), ('M', 0, {'M': 1}, {}), ('H', 0, {'H': 1}, {}), ('H2', 0, {'H': 2}, {}),
    ('H+', 1, {'H': 1}, {}), ('H-', -1, {'H': 1}, {}), ('Ar*', 0, {'Ar': 1}, {'state': '*', 'stateless': 'Ar'}),
    ('Ar+2', 2, {'Ar': 1}, {}), ('CH4', 0, {'C': 1, 'H': 4}, {}), ('CH3+', 1, {'C': 1, 'H': 3}, {}),
    ('ArH+(v=1)', 1, {'Ar': 1, 'H': 1}, {'state': 'v=1', 'stateless': 'ArH+'}),
    # thorough only
    ('C2H10', 0, {'C': 2, 'H': 10}, {}), ('Cl', 0, {'Cl': 1}, {}), ('CCl--', -2, {'C': 1, 'Cl': 1}, {}),
    ('Ar', 0, {'Ar': 1}, {}), ('Ar2+', 1, {'Ar': 2}, {}),
]
_SP = {}


def sp(name):
    if not _SP:
        for i, (n, c, _, x) in enumerate(ALPHABET):
            kw = dict(x)
            if n != 'M':
                kw.update(mass=1. + i, charge=c)
            _SP[n] = RP(3 + 7 * (len(ALPHABET) - i), name=n, **kw)
    return _SP[name]


def balance(side):
    d = dict((n, (c, a)) for n, c, a, _ in ALPHABET)
    atoms = {}
    for n in side:
        for k, v in d[n][1].items():
            atoms[k] = atoms.get(k, 0) + v
    return sum(d[n][0] for n in side), tuple(sorted(atoms.items()))


def multisets(names, kmax):
    for k in range(1, kmax + 1):
        for m in itertools.combinations_with_replacement(names, k):
            yield m


UNIT = {1: 's-1', 2: 'cm3.s-1', 3: 'm6.s-1'}


def shards(tier):
    names = [a[0] for a in ALPHABET[:11 if tier == 'quick' else 16]]
    out = [{'kind': 'balance', 'names': names, 'lhs': c} for c in chunks(multisets(names, 3), 48)]
    for k in range(len(KINDS)):
        for sub in range(6):
            out.append({'kind': 'attrs', 'reaction': k, 'part': sub, 'of': 6, 'both': tier != 'quick'})
    out.append({'kind': 'edges'})
    return out


def make(lhs, rhs, rid=4, **kw):
    kw.setdefault('attributes', {'arrh_a': 1e-15})
    kw.setdefault('units', {'arrh_a': UNIT.get(len(lhs), 's-1')})
    return Reaction(rid, [sp(x) for x in lhs], [sp(x) for x in rhs], **kw)


def check_pair(lhs, rhs, res):
    want = balance(lhs) == balance(rhs)
    kind, r = outcome(make, lhs, rhs)
    check((kind == 'ok') == want, '{} > {}: {}, but the sides are {}balanced', lhs, rhs,
          'accepted' if kind == 'ok' else 'refused ({})'.format(r), '' if want else 'not ',
          key='acceptance of ' + ('balanced' if want else 'unbalanced'))
    res.count('evaluations')
    if want:
        res.see('distinct_nontrivial', (lhs, rhs))
        same(sorted(x.get_name() for x in r.get_reactants()), sorted(lhs), 'reactants')
        same(sorted(x.get_name() for x in r.get_products()), sorted(rhs), 'products')
        same(r.is_electron_process(), 'e' in lhs, 'electron process {}'.format(r))


# one reaction of each kind: number of reactants, with and without electron
KINDS = [(('H2',), ('H', 'H')), (('e', 'H2'), ('e', 'H', 'H')), (('H', 'H'), ('H2',)),
         (('e', 'H', 'M'), ('H-', 'M')), (('H', 'H', 'M'), ('H2', 'M')), (('H', 'e'), ('H-',))]
ABSENT = '<absent>'
A_VALUES = [ABSENT, 0, 0., 1e-15, '1e-15', -1e-30, '-2', -0., np.float64(2e-9), -3, (1.,), True]
A_UNITS = [ABSENT, 's-1', 'cm3.s-1', 'm3.s-1', 'cm6.s-1', 'm6.s-1', 'm9.s-1', 'eV']
B_VALUES = [ABSENT, 0.5, '-1', [1]]
C_VALUES = [ABSENT, 0.3, '2', -1, {}]
C_UNITS = [ABSENT, 'eV', 'K', 'J']
S_VALUES = [ABSENT, 3, '10']


def numeric(v):
    return type(v) in (float, np.float64, str, int)


def expected(lhs, a, au, b, c, cu, s):
    """May this attribute set be accepted for this left side?"""
    if a == ABSENT and s == ABSENT:
        return False
    if (au != ABSENT) != (a != ABSENT) or (cu != ABSENT) != (c != ABSENT):
        return False
    if a != ABSENT:
        if not numeric(a) or float(a) < 0:
            return False
        if au not in {1: ('s-1',), 2: ('cm3.s-1', 'm3.s-1'), 3: ('cm6.s-1', 'm6.s-1')}[len(lhs)]:
            return False
    if b != ABSENT and not numeric(b):
        return False
    if c != ABSENT:
        if not numeric(c) or cu != ('eV' if 'e' in lhs else 'K'):
            return False
    return True


def check_attrs(k, part, of, both, res):
    base_lhs, base_rhs = KINDS[k]
    for n, combo in enumerate(itertools.product(A_VALUES, A_UNITS, B_VALUES, C_VALUES, C_UNITS, S_VALUES)):
        if n % of != part:
            continue
        for flip in ((False, True) if both else (False,)):
            with res.case({'kind': 'attr', 'reaction': k, 'combo': list(combo), 'flip': flip}):
                check_attr(k, combo, flip, res)
        if res.full:
            return


def check_attr(k, combo, flip, res):
    lhs, rhs = KINDS[k]
    if flip:
        lhs, rhs = lhs[::-1], rhs[::-1]
    a, au, b, c, cu, s = combo
    attrs = {n: v for n, v in (('arrh_a', a), ('arrh_b', b), ('arrh_c', c), ('special_number', s)) if v is not ABSENT}
    units = {n: v for n, v in (('arrh_a', au), ('arrh_c', cu)) if v is not ABSENT}
    want = expected(lhs, *combo)
    kind, r = outcome(make, lhs, rhs, attributes=attrs, units=units)
    check((kind == 'ok') == want, '{} with {} and units {} was {}', lhs, attrs, units,
          'accepted' if kind == 'ok' else 'refused ({})'.format(r), key='attribute acceptance')
    res.count('evaluations')
    if want:
        res.see('distinct_nontrivial', (k, repr(combo)))
        for n, u in units.items():
            same(r.get_unit(n), u, 'unit of {}'.format(n))
        if b is ABSENT and c is ABSENT and s is ABSENT:
            # the setter obeys the same rule, and a refusal changes nothing
            for a2, u2 in itertools.product(A_VALUES[1:], A_UNITS):
                ok = expected(lhs, a2, u2, ABSENT, ABSENT, ABSENT, 1)
                before = (r.get_arrh_a(), r.get_unit('arrh_a'))
                kind, x = outcome(r.set_reaction_attribute, 'arrh_a', a2, unit=None if u2 is ABSENT else u2)
                check((kind == 'ok') == ok, 'setting arrh_a={!r} [{}] on {} was {}', a2, u2, lhs, kind,
                      key='setter acceptance')
                after = (r.get_arrh_a(), r.get_unit('arrh_a'))
                if not ok:
                    same(after, before, 'arrh_a after a refused change')
                else:
                    same(after[1], u2, 'unit after the change')
                    same(r.get_arrh_a(si_units=False), float(a2), 'arrh_a after the change')
                res.count('evaluations')


def check_edges(res):
    a = {'attributes': {'arrh_a': 1e-15}, 'units': {'arrh_a': 'cm3.s-1'}}
    cases = []
    for rid, ok in ((1, True), (999, True), (0, False), (-1, False), (1.0, False), ('1', False), (None, False)):
        cases.append((('H', 'H'), ('H2',), rid, a, ok))
    for lhs, rhs in (((), ('H',)), (('H',), ()), ((), ())):
        for unit in UNIT.values():
            cases.append((lhs, rhs, 4, {'attributes': {'arrh_a': 0.}, 'units': {'arrh_a': unit}}, False))
    for unit in A_UNITS[1:6]:
        cases.append((('H', 'H', 'H', 'H'), ('H2', 'H2'), 4, {'attributes': {'arrh_a': 0.}, 'units': {'arrh_a': unit}},
                      False))
    cases.append((('H', 'H', 'H', 'H'), ('H2', 'H2'), 4, {'attributes': {'special_number': 1}, 'units': {}}, False))
    for name, value, ok in (('bogus', 1, False), ('elastic', 'true', True), ('elastic', True, True),
                            ('elastic', 'maybe', False), ('elastic', 'False', True), ('el_en_loss', 1.5, True),
                            ('el_en_loss', [1], False), ('doi', 'x', True), ('doi', 5, False), ('qdb_r_id', 5, True),
                            ('qdb_r_id', 1.5, False), ('gas_heat_contrib', '0.5', True), ('comments', 3, False),
                            ('latex', 'x', True)):
        kw = {'attributes': {'arrh_a': 1e-15, name: value}, 'units': {'arrh_a': 'cm3.s-1'}}
        cases.append((('H', 'H'), ('H2',), 4, kw, ok))
    for unit, ok in (('eV', True), ('K', False), ('J', False)):
        kw = {'attributes': {'arrh_a': 1e-15, 'el_en_loss': 1.}, 'units': {'arrh_a': 'cm3.s-1', 'el_en_loss': unit}}
        cases.append((('H', 'H'), ('H2',), 4, kw, ok))
    kw = {'attributes': {'arrh_a': 1e-15}, 'units': {'arrh_a': 'cm3.s-1', 'el_en_loss': 'eV'}}
    cases.append((('H', 'H'), ('H2',), 4, kw, False))
    kw = {'attributes': {'arrh_a': 1e-15, 'comments': 'x'}, 'units': {'arrh_a': 'cm3.s-1', 'comments': 'eV'}}
    cases.append((('H', 'H'), ('H2',), 4, kw, False))
    for lhs, rhs, rid, kw, ok in cases:
        with res.case({'kind': 'edges'}):
            kind, r = outcome(make, lhs, rhs, rid, **kw)
            check((kind == 'ok') == ok, '{} > {}, id {!r}, {}: {}', lhs, rhs, rid, kw, kind, key='edge acceptance')
            if ok:
                same(r.id, rid, 'reaction id')
            res.count('evaluations')
        if res.full:
            return


def run(shard, tier):
    res = Result()
    if shard['kind'] == 'balance':
        by_balance = {}
        for rhs in multisets(shard['names'], 4):
            by_balance.setdefault(balance(rhs), []).append(rhs)
        for n, lhs in enumerate(shard['lhs']):
            for m, rhs in enumerate(multisets(shard['names'], 3)):
                a, b = tuple(lhs), tuple(rhs)
                if (n + m) % 2:   # both written orders occur
                    a, b = a[::-1], b[::-1]
                with res.case({'kind': 'pair', 'lhs': list(a), 'rhs': list(b)}):
                    check_pair(a, b, res)
                if res.full:
                    return res
            for rhs in by_balance.get(balance(lhs), []):
                if len(rhs) == 4:
                    with res.case({'kind': 'pair', 'lhs': list(lhs), 'rhs': list(rhs)}):
                        check_pair(tuple(lhs), rhs, res)
    elif shard['kind'] == 'attrs':
        check_attrs(shard['reaction'], shard['part'], shard['of'], shard['both'], res)
    else:
        check_edges(res)
    return res


def replay(case):
    res = Result()
    if case['kind'] == 'pair':
        with res.case(case):
            check_pair(tuple(case['lhs']), tuple(case['rhs']), res)
    elif case['kind'] == 'attr':
        for part in range(6):
            check_attrs(case['reaction'], part, 6, True, res)
    else:
        check_edges(res)
    return res
