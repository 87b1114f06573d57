"""P06: overrides change exactly the overridden values; vectors are indexed by exactly the selected items."""
import numpy as np

from mc import refchem as R
from mc import universe as U
from mc.core import Result, Violation, check, same, scratch

LEVEL = 'model_checking'
RULE = 'breadth-first search over sequences of overrides, resets, disabling and protection; in every state every getter ' \
       'is read with every filter combination'
BOUNDS = {'quick': '5 networks, sequences to depth 3 over 13-15 operations', 'thorough': '11 networks, depth 4'}
ASSUMPTIONS = ['comparison of floats to 10 significant digits']

NETS = [(3, 8, 5), (3, 14, 7, 9, 4), (7, 9, 20), (5, 2, 8, 3), (3, 4, 9, 7)]
MORE = [(3, 1, 6), (3, 8, 5, 2), (7, 9, 20, 10), (3, 14, 5), (3, 6, 13, 9)]


def alphabet(net):
    neutral = [i for n, i in net.id_of.items() if n not in U.SPECIAL and i not in net.ions]
    ion = sorted(net.ions)[-1]
    names = [net.name_of[i] for i in neutral]
    ops = [('stick', ion, 0.), ('stick', ion, np.float64(0.25)), ('stick', neutral[0], 1),
           ('ret', neutral[0], ((names[-1], 2),)), ('ret', ion, tuple((n, '0.25') for n in names[:2])),
           ('ret', ion, ()),
           ('arrh', net.rids[0], 7e-16), ('arrh', net.rids[1], 2), ('rst_sp', 'stick_coef'), ('rst_sp', 'ret_coefs'),
           ('rst_r', 'arrh_a'), ('dis_r', net.rids[-1]), ('dis_s', neutral[-1]), ('prot', neutral[0]), ('reset',)]
    return ops


TEXT = [('stick', 0, '0.25'), ('stick', 0, '0'), ('arrh', 1, '7e-16'), ('arrh', 0, np.float64(3e-17))]


def shards(tier):
    q = tier == 'quick'
    n = 4 if q else 16
    out = [{'rids': r, 'depth': 3 if q else 4, 'part': p, 'of': n} for r in NETS + ([] if q else MORE)
           for p in range(n)]
    out.append({'text': True})
    return out


def run(shard, tier):
    res = Result()
    if shard.get('text'):
        run_text(res)
        return res
    net = U.Net(shard['rids'])
    ops = alphabet(net)
    mine = ops[shard['part']::shard['of']]   # first operation decides the part
    with scratch() as d:
        def on_state(drv, ref, slots, hist):
            read_all(drv.chem, ref, net, 'after {}'.format(hist))
            res.count('getter_reads', 8 * 15)
            if len(hist) == shard['depth']:
                drv2, ref2 = R.Driver(U.make(net), d), R.Ref(net)
                for op in hist:
                    R.step(drv2, ref2, op, {}, 'replay')
                read_all(drv2.chem, ref2, net, 'replayed {}'.format(hist))
                res.count('traces_validated_against_impl')
        explore_from(net, ops, mine, shard['depth'], res, d, on_state)
    return res


def explore_from(net, ops, first, depth, res, d, on_state):
    for op in first:
        start_drv, start_ref = R.Driver(U.make(net), d), R.Ref(net)
        with res.case({'rids': list(net.rids), 'hist': [op]}):
            R.step(start_drv, start_ref, op, {}, 'first')
        if res.full:
            return

        def prefixed(n, hist, directory, make, rc):
            return start_drv, start_ref, {}

        old = R.rebuild
        R.rebuild = prefixed
        try:
            R.explore(net, ops, depth - 1, res, d, None, lambda a, b, c, h: on_state(a, b, c, (op,) + h),
                      case_extra={'first': op})
        finally:
            R.rebuild = old


def close(a, b):
    if a is None or b is None:
        an = a is None or (isinstance(a, float) and np.isnan(a))
        bn = b is None or (isinstance(b, float) and np.isnan(b))
        return an and bn
    return R.rnd(a) == R.rnd(b)


def read_all(chem, ref, net, where):
    for k in range(8):
        f = dict(disabled=bool(k & 1), special=bool(k & 2), protected=not k & 4)
        sel = ref.selected(**f)
        w = '{}, filters {}'.format(where, f)
        same([int(i) for i in chem.get_species_id(**f)], sel, w + ': species ids')
        same([s.id for s in chem.get_species(**f)], sel, w + ': species')
        same(chem.num_species(**f), len(sel), w + ': number of species')
        name = chem.get_species_name(**f)
        same(list(zip(map(int, name.index), name)), [(i, net.name_of[i]) for i in sel], w + ': names')
        for getter, want in (
                ('charge', lambda i: U.SPECIES[net.name_of[i]][1]),
                ('mass', lambda i: U.SPECIES[net.name_of[i]][2]),
                ('lj_sigma', lambda i: None if net.name_of[i] in U.SPECIAL else
                    U.SPECIES[net.name_of[i]][4].get('lj_sigma', 3.)),
                ('lj_epsilon', lambda i: None if net.name_of[i] in U.SPECIAL else 0.),
                ('h_form', lambda i: None if net.name_of[i] in U.SPECIAL else 0.),
                ('stick_coef', ref.stick_of)):
            got = getattr(chem, 'get_species_' + getter)(**f)
            same([int(i) for i in got.index], sel, '{}: index of {}'.format(w, getter))
            for i in sel:
                check(close(got.at[i], want(i)), '{}: {} of {} is {!r}, expected {!r}', w, getter, i, got.at[i], want(i),
                      key='value of ' + getter)
        got = chem.get_species_ret_coefs(**f)
        same([(int(i), got.at[i]) for i in got.index], [(i, ref.ret_of(i)) for i in sel], w + ': return coefficients')
    for disabled in (False, True):
        sel = [r for r in net.rids if disabled or r in ref.rs]
        w = '{}, disabled={}'.format(where, disabled)
        same([int(i) for i in chem.get_reactions_id(disabled=disabled)], sel, w + ': reaction ids')
        for getter, kw, want in (
                ('arrh_a', {'si_units': True}, lambda r: ref.arrh_of(r, True)),
                ('arrh_a', {'si_units': False}, lambda r: ref.arrh_of(r, False)),
                ('arrh_b', {}, lambda r: U.arrh(r)['arrh_b']),
                ('arrh_c', {}, lambda r: U.arrh(r)['arrh_c']),
                ('el_en_loss', {}, lambda r: 0.),
                ('elastic', {}, lambda r: set(net.pool[r][0]) == set(net.pool[r][1]))):
            got = getattr(chem, 'get_reactions_' + getter)(disabled=disabled, **kw)
            same([int(i) for i in got.index], sel, '{}: index of {}'.format(w, getter))
            for r in sel:
                check(close(float(got.at[r]), float(want(r))), '{}: {} of {} is {!r}, expected {!r}', w, getter, r,
                      got.at[r], want(r), key='value of ' + getter)


def run_text(res):
    """Values of every permitted type; the numbers must come out the same."""
    net = U.Net((3, 8, 5))
    with scratch() as d:
        for kind, which, value in TEXT:
            target = (net.rids if kind == 'arrh' else sorted(net.ions))[which]
            with res.case({'text': [kind, target, value]}):
                drv, ref = R.Driver(U.make(net), d), R.Ref(net)
                R.step(drv, ref, (kind, target, float(value)), {}, 'number')
                read_all(drv.chem, ref, net, 'given as number')
                drv = R.Driver(U.make(net), d)
                drv.apply((kind, target, value))
                read_all(drv.chem, ref, net, 'given as {!r}'.format(value))
                vec = drv.chem.get_reactions_arrh_a() if kind == 'arrh' else drv.chem.get_species_stick_coef()
                check(all(isinstance(v, (int, float)) for v in vec), 'given as {!r}: the vector {} is not numeric',
                      value, list(vec))
                same(R.saved(drv.chem, d) is not None, True, 'saved')
                res.count('transitions')
                res.see('states', (kind, target, value))


def replay(case):
    res = Result()
    if 'text' in case:
        run_text(res)
        return res
    net = U.Net(case['rids'])
    hist = ([R.tup(case['first'])] if 'first' in case else []) + [R.tup(o) for o in case['hist']]
    with scratch() as d, res.case(case):
        drv, ref = R.Driver(U.make(net), d), R.Ref(net)
        for op in hist:
            R.step(drv, ref, op, {}, 'replay')
        read_all(drv.chem, ref, net, 'replayed {}'.format(hist))
    return res
