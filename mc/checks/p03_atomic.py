"""P03: a rejected operation leaves the chemistry untouched."""
import copy
import os

import numpy as np
import yaml

from plaschem.chemistry import Chemistry

from mc import refchem as R
from mc import universe as U
from mc.core import Result, Violation, check, same, scratch

LEVEL = 'model_checking'
RULE = 'every state reachable within the depth bound crossed with every invalid call of the menu; a transition is one ' \
       'rejected (or wrongly accepted) call on the real object, compared before and after'
BOUNDS = {'quick': '8 networks, states to depth 2, ~60 invalid calls per state',
          'thorough': '16 networks, states to depth 3'}
ASSUMPTIONS = ['observable state = all public getters plus the saved-state file']

NETS = [(3, 8, 5), (3, 14, 7, 9, 4), (7, 9, 20), (3, 6, 13, 9), (3, 1, 6), (5, 2, 8, 3, 11), (3, 4, 10, 9, 7), (3, 11)]
MORE = [(3, 8, 5, 2), (7, 9, 20, 10), (3, 14, 5), (3, 8, 5, 14), (7, 9, 6, 13), (3, 4, 9, 7), (3, 11, 7, 9), (3, 9, 20, 7)]


def alphabet(net):
    """Operations that reach interesting states."""
    neutral = [i for n, i in net.id_of.items() if n not in U.SPECIAL and i not in net.ions]
    ion = sorted(net.ions)[-1]
    ret = net.name_of[neutral[0]]
    ops = [('dis_s', i) for i in net.sids if net.name_of[i] != 'e'] + [('dis_r', i) for i in net.rids]
    ops += [('prot', neutral[0]), ('stick', ion, 0.25), ('ret', ion, ((ret, 0.5),)), ('arrh', net.rids[-1], 7e-16),
            ('reset',)]
    return ops


def shards(tier):
    nets = NETS if tier == 'quick' else NETS + MORE
    return [{'rids': n, 'depth': 2 if tier == 'quick' else 3, 'part': p, 'of': 4 if tier == 'quick' else 8}
            for n in nets for p in range(4 if tier == 'quick' else 8)]


def menu(net, ref, drv, d):
    """(label, callable on chem) of calls that must be rejected in this state."""
    good_s, good_r = net.sids[0], net.rids[0]
    enabled = [i for i in net.sids if i in ref.sp]
    other = [i for i in enabled if net.name_of[i] != 'e']
    e = net.id_of['e']
    out = []

    def add(label, fn):
        out.append((label, fn))

    add('disable electron', lambda c: c.disable(species=['e']))
    add('disable electron by id with a reaction', lambda c: c.disable(species=[e], reactions=list(net.rids)[:1]))
    for i in other[:2]:
        add('disable species {} and electron'.format(i), lambda c, i=i: c.disable(species=[i, 'e']))
        add('disable species {} and unknown'.format(i), lambda c, i=i: c.disable(species=[i, 'Xe']))
        add('disable species {} and unknown id'.format(i), lambda c, i=i: c.disable(species=[i, 997]))
        add('disable species {} and unknown reaction'.format(i), lambda c, i=i: c.disable(species=[i], reactions=[997]))
    add('disable everything', lambda c: c.disable(reactions=list(net.rids)))
    add('disable all ions', lambda c: c.disable(species=[i for i in net.sids if i in net.ions]))
    add('disable unknown reaction', lambda c: c.disable(reactions=[good_r, 997]))
    add('protect unknown', lambda c: c.set_protected_species('Xe'))
    add('protect valid and unknown name', lambda c: c.set_protected_species(net.name_of[good_s], 'Xe'))
    add('protect valid id and unknown id', lambda c: c.set_protected_species(*([i for i in net.sids if i not in ref.prot][:1] + [997])))
    add('protect unknown id', lambda c: c.set_protected_species(997))
    add('stick of unknown', lambda c: c.set_adhoc_species_attributes('stick_coef', 'Xe', 0.5))
    add('stick of bad type', lambda c: c.set_adhoc_species_attributes('stick_coef', good_s, [0.5]))
    add('unsupported species attribute', lambda c: c.set_adhoc_species_attributes('mass', good_s, 1.0))
    add('return unknown species', lambda c: c.set_adhoc_species_attributes('ret_coefs', good_s, {'Xe': 1.0}))
    add('return known and unknown species',
        lambda c: c.set_adhoc_species_attributes('ret_coefs', good_s, {net.name_of[enabled[0]]: 1.0, 'Xe': 1.0}))
    add('return coefficients of bad type', lambda c: c.set_adhoc_species_attributes('ret_coefs', good_s, 0.5))
    add('return coefficient not a number',
        lambda c: c.set_adhoc_species_attributes('ret_coefs', good_s, {net.name_of[enabled[0]]: 'many'}))
    for i in net.sids:
        if i not in ref.sp:
            add('return the disabled {}'.format(i),
                lambda c, i=i: c.set_adhoc_species_attributes('ret_coefs', good_s, {net.name_of[i]: 1.0}))
            break
    add('arrh of unknown reaction', lambda c: c.set_adhoc_reactions_attributes('arrh_a', 997, 1e-15))
    add('arrh of bad type', lambda c: c.set_adhoc_reactions_attributes('arrh_a', good_r, [1e-15]))
    add('unsupported reaction attribute', lambda c: c.set_adhoc_reactions_attributes('arrh_b', good_r, 1.0))
    add('reset unsupported species override', lambda c: c.reset_adhoc_species_attributes('mass'))
    add('reset unsupported reaction override', lambda c: c.reset_adhoc_reactions_attributes('arrh_b'))
    add('restore missing file', lambda c: c.load_chemistry_attributes(os.path.join(d, 'no-such.yaml')))

    # saved states derived from a valid one of the *pristine* chemistry, so that an accidental partial restore shows
    base = R.saved(U.make(net), d)
    variants = {}
    for k in ('species_ids', 'reactions_ids', 'adhoc_species_attributes', 'adhoc_reactions_attributes', 'xml_path',
              'xml_hash'):
        v = copy.deepcopy(base)
        del v[k]
        variants['without ' + k] = v
    for k in ('species_ids', 'reactions_ids'):
        for k2 in ('enabled', 'disabled', 'protected'):
            if k2 in base[k]:
                v = copy.deepcopy(base)
                del v[k][k2]
                variants['without {}/{}'.format(k, k2)] = v
    for k, k2 in (('species_ids', 'enabled'), ('species_ids', 'disabled'), ('species_ids', 'protected'),
                  ('species_ids', 'adhoc_protected'), ('reactions_ids', 'enabled'), ('reactions_ids', 'disabled')):
        v = copy.deepcopy(base)
        v[k][k2] = list(v[k][k2]) + [997]
        variants['unknown id in {}/{}'.format(k, k2)] = v
    v = copy.deepcopy(base)
    v['adhoc_species_attributes'] = [['stick_coef', good_s, 0.125], ['stick_coef', 997, 0.5]]
    variants['override of unknown species'] = v
    v = copy.deepcopy(base)
    v['adhoc_species_attributes'] = [['ret_coefs', good_s, {'Xe': 0.5}]]
    variants['override with unknown return species'] = v
    v = copy.deepcopy(base)
    v['adhoc_reactions_attributes'] = [['arrh_a', good_r, 1e-17], ['arrh_a', 997, 1e-15]]
    variants['override of unknown reaction'] = v
    v = copy.deepcopy(base)
    v['species_ids']['enabled'] = [i for i in net.sids if i != e]
    v['species_ids']['disabled'] = [e]
    variants['electron disabled'] = v
    v = copy.deepcopy(base)
    v['xml_hash'] = 'x'
    variants['other hash'] = v
    v = copy.deepcopy(base)
    v['xml_path'] = '/nowhere.xml'
    variants['other path'] = v
    for n, (label, v) in enumerate(variants.items()):
        path = os.path.join(d, 'bad{}.yaml'.format(n))
        with open(path, 'w') as f:
            yaml.safe_dump(v, f)
        add('restore ' + label, lambda c, path=path: c.load_chemistry_attributes(path))
        if label not in ('other hash', 'other path', 'without xml_path', 'without xml_hash'):
            add('restore unchecked ' + label, lambda c, path=path: c.load_chemistry_attributes(path, check_hash=False))
    return out


def probe(drv, ref, net, d, hist, res, only=None):
    for n, (label, fn) in enumerate(menu(net, ref, drv, d)):
        if only is not None and label != only:
            continue
        case = {'rids': list(net.rids), 'hist': list(hist), 'call': label}
        with res.case(case):
            # `drv` is reused until a call damages it: afterwards the exploration of this state stops
            before = R.saved(drv.chem, d)
            try:
                fn(drv.chem)
                got = 'accepted'
            except Exception as e:
                got = type(e).__name__
            res.count('transitions')
            same(R.saved(drv.chem, d), before, 'saved state after rejected "{}" ({})'.format(label, got),
                 key='rejected call left a trace: ' + label)
            R.compare(R.observe(drv.chem), ref.observe(), 'after rejected "{}" ({})'.format(label, got))
            if got == 'accepted':
                raise Violation('"{}" was accepted'.format(label), key='accepted: ' + label)
            res.see('distinct_rejections', (label.split(' ')[0:3], got))
        if res.full:
            return


def run(shard, tier):
    res = Result()
    net = U.Net(shard['rids'])
    counter = [0]
    with scratch() as d:
        def on_state(drv, ref, slots, hist):
            counter[0] += 1
            if counter[0] % shard['of'] != shard['part']:
                return
            d2, ref2 = rebuild(net, hist, d)
            probe(d2, ref2, net, d, hist, res)
            res.count('traces_validated_against_impl')

        R.explore(net, alphabet(net), shard['depth'], _Quiet(res), d, None, on_state)
    return res


class _Quiet(object):
    """Every part of a network walks the same graph; only part 0 would need to count it, so the walk counts nothing but
    the states it probes."""

    def __init__(self, res):
        self._r = res

    def __getattr__(self, k):
        return getattr(self._r, k)

    def count(self, name, n=1):
        pass


def rebuild(net, hist, d):
    drv, ref, slots = R.Driver(U.make(net), d), R.Ref(net), {}
    for op in hist:
        R.step(drv, ref, op, slots, 'setup')
    return drv, ref


def replay(case):
    res = Result()
    net = U.Net(case['rids'])
    with scratch() as d:
        drv, ref = rebuild(net, [R.tup(o) for o in case['hist']], d)
        probe(drv, ref, net, d, case['hist'], res, only=case.get('call'))
    return res
