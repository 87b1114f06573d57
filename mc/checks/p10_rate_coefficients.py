"""P10: rate coefficients - reaction, chemistry and model agree with the Arrhenius form, in both unit systems."""
import itertools
import math

import numpy as np

from plaschem.chemistry import Chemistry
from plaschem.reactions import Reaction
from pygmo_fwork.pygmol.equations import Equations

from mc import universe as U
from mc.core import Result, check, chunks, same

LEVEL = 'exploration'
RULE = 'full product of reaction kinds, units, representations (number, text, numpy, missing) of the three parameters and ' \
       'temperatures; the reaction, a chemistry holding it (also reduced and overridden) and the model equations are read'
BOUNDS = {'quick': '8 kinds x 2 units x 6 x 5 x 6 parameter values x 6 temperatures',
          'thorough': '8 kinds x 2 units x 9 x 8 x 9 parameter values x 9 temperatures'}
ASSUMPTIONS = ['floats agree to 1e-9 relative']

KINDS = [(('e', 'Ar'), ('e', 'e', 'Ar+')), (('H2',), ('H', 'H')), (('Ar+', 'H'), ('Ar', 'H+')),
         (('H', 'H', 'M'), ('H2', 'M')), (('e', 'e', 'H+'), ('e', 'H')), (('Ar', 'e'), ('e', 'Ar')),
         (('e', 'H+', 'M'), ('H', 'M')), (('H+',), ('H+',))]
A = [0, 1.5e-15, '2.5e-9', 3, np.float64(4e-10), '7']
B = [None, 0, -0.5, '1.5', 2]
C = [None, 0, 0.3, '2', -0.5, 11600]
A2, B2, C2 = ['0', 1e-300, 123456.789], ['-2', np.float64(0.7), 3], ['0', np.float64(15.76), 1e-9]
T = [0.03, 1., 3.7, 300., 600, 1000.]
T2 = [0.5, 100, 29.97]
UNITS = {1: ['s-1'], 2: ['cm3.s-1', 'm3.s-1'], 3: ['cm6.s-1', 'm6.s-1']}
FACTOR = {'s-1': 1., 'm3.s-1': 1., 'm6.s-1': 1., 'cm3.s-1': 1e-6, 'cm6.s-1': 1e-12}
PARAMS = {'r': 0.02, 'z': 0.05, 'p': 10., 't_end': 1., 'P': [500., 500.], 't_P': [0., 2.], 'feeds': {}}


def shards(tier):
    q = tier == 'quick'
    combos = [(k, u, a, b, c) for k in range(len(KINDS)) for u in range(len(UNITS[len(KINDS[k][0])]))
              for a in range(len(A if q else A + A2)) for b in range(len(B if q else B + B2))
              for c in range(len(C if q else C + C2))]
    return [{'combos': c, 't': T if q else T + T2} for c in chunks(combos, 48)] + [{'numeric': True}]


def near(got, want):
    return got is not None and (got == want or abs(got - want) <= 1e-9 * abs(want))


def check_combo(k, u, a, b, c, temps, res):
    lhs, rhs = KINDS[k]
    unit = UNITS[len(lhs)][u]
    a, b, c = (A + A2)[a], (B + B2)[b], (C + C2)[c]
    electron = 'e' in lhs
    sp, base = U.shared_species()
    attrs, units = {'arrh_a': a}, {'arrh_a': unit}
    if b is not None:
        attrs['arrh_b'] = b
    if c is not None:
        attrs['arrh_c'], units['arrh_c'] = c, 'eV' if electron else 'K'
    r = Reaction(17, [sp[x] for x in lhs], [sp[x] for x in rhs], attributes=attrs, units=units)
    fa, fb, fc = float(a), float(b or 0), float(c or 0)
    w = '{} A={!r} [{}] b={!r} c={!r}'.format(r, a, unit, b, c)
    same(r.get_unit('arrh_a'), unit, w + ': unit')
    check(near(r.get_arrh_a(si_units=False), fa), '{}: nominal A reads {!r}', w, r.get_arrh_a(si_units=False))
    check(near(r.get_arrh_a(), fa * FACTOR[unit]), '{}: SI A reads {!r}', w, r.get_arrh_a(), key='SI A')
    check(near(r.get_arrh_b(), fb) and near(r.get_arrh_c(), fc), '{}: b, c read {!r}, {!r}', w, r.get_arrh_b(),
          r.get_arrh_c())

    def law(t, nominal=False, pre=fa):
        scale = 1. if nominal else FACTOR[unit]
        return pre * scale * (t if electron else t / 300.) ** fb * math.exp(-fc / t)

    for t in temps:
        check(near(r.get_rate_coefficient(t), law(t)), '{}: k({}) = {!r}, expected {!r}', w, t,
              r.get_rate_coefficient(t), law(t), key='rate coefficient')
        check(near(r.get_rate_coefficient(t, si_units=False), law(t, True)), '{}: nominal k({}) = {!r}, expected {!r}', w,
              t, r.get_rate_coefficient(t, si_units=False), law(t, True), key='nominal rate coefficient')
        res.count('evaluations', 2)

    # the same reaction inside a chemistry with an unrelated ionisation and H2/H/Ar chemistry
    rest = [base[i] for i in (9, 7, 3, 20, 14)]
    net = U.Net((9, 7, 3, 20, 14), extra_species=set(lhs) | set(rhs))
    reactions = rest[:2] + [r] + rest[2:]
    chem = Chemistry(species=[sp[n] for n in net.names], reactions=reactions)
    for stage in ('plain', 'overridden', 'reset'):
        pre = fa
        if stage == 'overridden':
            pre = 6.5e-11
            chem.set_adhoc_reactions_attributes('arrh_a', 17, pre)
        elif stage == 'reset':
            chem.reset_adhoc_reactions_attributes('arrh_a')
        for disabled in (False, True):
            si = chem.get_reactions_arrh_a(disabled=disabled)
            nom = chem.get_reactions_arrh_a(disabled=disabled, si_units=False)
            same([int(i) for i in si.index], [9, 7, 17, 3, 20, 14], w + ': index of A')
            check(near(si.at[17], pre * FACTOR[unit]) and near(nom.at[17], pre), '{} ({}): chemistry reads A as {!r}, {!r}',
                  w, stage, si.at[17], nom.at[17], key='chemistry A')
            check(near(chem.get_reactions_arrh_b(disabled=disabled).at[17], fb), '{}: chemistry b', w)
            check(near(chem.get_reactions_arrh_c(disabled=disabled).at[17], fc), '{}: chemistry c', w)
        if stage == 'reset':
            continue
        for tg in ((300., 650.) if stage == 'plain' else (420.,)):
            eq = Equations(chem, dict(PARAMS, Tg=tg))
            for te in temps[:3]:
                k = eq.get_reaction_rate_coefficients(np.ones(len(eq.species_name) + 1), temp_e=te)
                same(len(k), 6, 'number of coefficients')
                want = law(te if electron else tg, pre=pre)
                check(near(k[2], want), '{} ({}): model coefficient at Te={}, Tg={} is {!r}, expected {!r}', w, stage, te,
                      tg, k[2], want, key='model coefficient')
                for j, rr in ((0, rest[0]), (4, rest[3])):
                    t = te if rr.is_electron_process() else tg
                    check(near(k[j], rr.get_rate_coefficient(t)), '{}: model coefficient of {}', w, rr,
                          key='model and reaction disagree')
                res.count('evaluations', 3)
    res.see('distinct_nontrivial', (k.tobytes(), w))


NUMERIC = [('el_en_loss', [None, 0, 15.76, '11.5', -2, np.float64(3.3)], float, 0.),
           ('gas_heat_contrib', [None, 0, 1.5, '2.5', -1, np.float64(0.2)], float, 0.),
           ('special_number', [None, 3, '12'], int, Ellipsis), ('qdb_r_id', [None, 0, 5, '77'], int, None),
           ('qdb_ds_id', [None, 4, '0'], int, None), ('doi', [None, 'x'], str, None), ('comments', [None, '', 'c'], str, None)]


def check_numeric(res):
    """Other attributes: number and text read the same, missing ones read as the default."""
    sp, _ = U.shared_species()
    for (lhs, rhs), given in itertools.product(KINDS, (True, False)):
        for name, values, kind, default in NUMERIC:
            for v in values:
                attrs = {'arrh_a': 1e-15}
                if v is not None or given:
                    attrs[name] = v
                r = Reaction(3, [sp[x] for x in lhs], [sp[x] for x in rhs], attributes=attrs,
                             units={'arrh_a': UNITS[len(lhs)][0]})
                want = default if v is None else kind(v)
                if want is Ellipsis:
                    want = 10 if 'e' in lhs else 20
                got = getattr(r, 'get_' + name)()
                check(type(got) is type(want) and got == want, '{} with {}={!r} reads {!r}, expected {!r}', r, name, v,
                      got, want, key='attribute ' + name)
                res.count('evaluations')
        for v, want in ((None, set(lhs) == set(rhs)), (True, True), (False, False), ('true', True), ('TRUE', True),
                        ('True', True), ('false', False), ('False', False), ('FALSE', False)):
            r = Reaction(3, [sp[x] for x in lhs], [sp[x] for x in rhs], attributes={'arrh_a': 1., 'elastic': v},
                         units={'arrh_a': UNITS[len(lhs)][0]})
            check(bool(r.get_elastic()) is want and bool(r.is_elastic_process()) is want, '{}: elastic={!r} reads {!r}', r,
                  v, r.get_elastic(), key='elastic')
            res.count('evaluations')


def run(shard, tier):
    res = Result()
    if shard.get('numeric'):
        with res.case({'numeric': True}):
            check_numeric(res)
        return res
    for combo in shard['combos']:
        with res.case({'combo': list(combo), 't': shard['t']}):
            check_combo(*combo, shard['t'], res)
        if res.full:
            break
    return res


def replay(case):
    res = Result()
    with res.case(case):
        if case.get('numeric'):
            check_numeric(res)
        else:
            check_combo(*case['combo'], case['t'], res)
    return res
