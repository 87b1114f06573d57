"""P05: a copy is identical and independent."""
import numpy as np
import pandas as pd

from mc import refchem as R
from mc import universe as U
from mc.core import Result, Violation, check, same, scratch
from mc.checks.p04_roundtrip import alphabet

LEVEL = 'model_checking'
RULE = 'every state reachable within the depth bound is copied, and every operation is run on the copy and on the ' \
       'original while the other side is compared with the reference; every value returned by a getter is overwritten'
BOUNDS = {'quick': '2 networks, states to depth 2, 6 to depth 1; one operation after the copy on either side, copies of copies',
          'thorough': '2 networks to depth 3, 11 to depth 2'}

NETS = [(3, 8, 5), (7, 9, 20)]
SHALLOW = [(3, 14, 7, 9, 4), (3, 6, 13, 9), (5, 2, 8, 3), (3, 4, 9, 7), (3, 9, 20, 7), (3, 1, 6)]
MORE = [(3, 8, 5, 2), (7, 9, 20, 10), (3, 14, 5), (3, 4, 10, 9, 7), (3, 11)]


def shards(tier):
    q = tier == 'quick'
    n = 4 if q else 16
    out = [{'rids': r, 'depth': 2 if q else 3, 'part': p, 'of': 16} for r in NETS for p in range(16)]
    out += [{'rids': r, 'depth': 1 if q else 2, 'part': p, 'of': n} for r in SHALLOW + ([] if q else MORE)
            for p in range(n)]
    return out


class Quiet(object):
    def __init__(self, res):
        self._r = res

    def __getattr__(self, k):
        return getattr(self._r, k)

    def count(self, name, n=1):
        pass


def build(net, hist, d):
    drv, ref = R.Driver(U.make(net), d), R.Ref(net)
    for op in hist:
        R.step(drv, ref, op, {}, 'setup')
    return drv, ref


def run(shard, tier):
    res = Result()
    net = U.Net(shard['rids'])
    n = [0]
    with scratch() as d:
        def on_state(drv, ref, slots, hist):
            n[0] += 1
            if n[0] % shard['of'] != shard['part']:
                return
            probe(net, hist, d, res)

        R.explore(net, alphabet(net), shard['depth'], Quiet(res), d, None, on_state)
    return res


def probe(net, hist, d, res):
    drv, ref = build(net, hist, d)
    where = 'copied after {}'.format(hist)
    cp = drv.chem.copy()
    check(cp is not drv.chem, where + ': the copy is the same object')
    R.compare(R.observe(cp), ref.observe(), where)
    same(R.saved(cp, d), R.saved(drv.chem, d), where + ': saved state of the copy')
    same(cp.requires_charge, drv.chem.requires_charge, where)
    check(type(cp) is type(drv.chem), where + ': type')
    # the original is driven, the copy must stay; then the roles are swapped
    for side in ('original', 'copy'):
        for op in alphabet(net):
            base, ref0 = build(net, hist, d)
            other = R.Driver(base.chem.copy(), d)
            if side == 'copy':
                base, other = other, base
            ref1 = ref0.clone()
            R.step(base, ref1, op, {}, where + ' on the ' + side)
            R.compare(R.observe(base.chem), ref1.observe(), '{}, then {} on the {}'.format(where, op, side))
            R.compare(R.observe(other.chem), ref0.observe(), '{}, then {} on the {}: the other side'.format(where, op, side))
            same(R.saved(other.chem, d), R.saved(cp, d), where + ': the other side after {} on the {}'.format(op, side))
            res.count('transitions')
    # values handed out are not the chemistry's own
    for chem in (drv.chem, cp.copy()):
        for name, get in getters(chem):
            v = get()
            vandalise(v)
            R.compare(R.observe(chem), ref.observe(), '{}: after overwriting what {} returned'.format(where, name))
            res.count('transitions')
    # nor are values handed in
    d2, r2 = build(net, hist, d)
    names = [net.name_of[i] for i in net.sids if i in r2.sp and net.name_of[i] not in U.SPECIAL]
    target = [i for i in net.sids if net.name_of[i] not in U.SPECIAL][0]
    given = {names[0]: 0.5}
    d2.chem.set_adhoc_species_attributes('ret_coefs', target, given)
    r2.apply(('ret', target, ((names[0], 0.5),)), {})
    given['Xe'] = 3.
    given[names[0]] = 7.
    R.compare(R.observe(d2.chem), r2.observe(), where + ': after changing the dictionary that was handed in')
    res.count('traces_validated_against_impl')


def getters(c):
    kw = dict(disabled=True, special=True)
    return [
        ('get_species', lambda: c.get_species(**kw)), ('get_reactions', lambda: c.get_reactions(disabled=True)),
        ('get_protected_species', c.get_protected_species), ('get_disabled_species', c.get_disabled_species),
        ('get_disabled_reactions', c.get_disabled_reactions), ('get_special_species', c.get_special_species),
        ('get_species_stick_coef', lambda: c.get_species_stick_coef(disabled=True)),
        ('get_species_ret_coefs', lambda: c.get_species_ret_coefs(disabled=True)),
        ('get_reactions_arrh_a', lambda: c.get_reactions_arrh_a(disabled=True, si_units=False)),
        ('get_return_matrix', c.get_return_matrix), ('get_stoichiomatrix', c.get_stoichiomatrix),
        ('get_species_mask', lambda: c.get_species_mask(disabled=True, special=True, protected=True)),
        ('get_species_mask (enabled)', lambda: c.get_species_mask(disabled=False, special=True, protected=True)),
        ('get_reactions_mask', lambda: c.get_reactions_mask(disabled=False)),
        ('get_species_id', lambda: c.get_species_id(disabled=True)),
    ]


def vandalise(v):
    if isinstance(v, pd.Series):
        for i in list(v.index):
            if isinstance(v.at[i], dict):
                v.at[i]['Xe'] = 9.
                for k in list(v.at[i]):
                    v.at[i][k] = 9.
        try:
            v.values[:] = v.values[::-1].copy()
        except ValueError:
            pass
        for i in list(v.index):
            v.at[i] = None if v.dtype == object else 9
        v.at[12345] = None
    elif isinstance(v, pd.DataFrame):
        v.loc[:, :] = 9
    elif isinstance(v, np.ndarray):
        v[:] = False


def replay(case):
    res = Result()
    net = U.Net(case['rids'])
    with scratch() as d, res.case(case):
        probe(net, [R.tup(o) for o in case['hist']], d, res)
    return res
