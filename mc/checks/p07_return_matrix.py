"""P07: the return matrix."""
import itertools

import numpy as np

from plaschem.chemistry import Chemistry
from plaschem.exceptions import ChemistryConsistencyError

from mc import refchem as R
from mc import universe as U
from mc.core import Result, check, chunks, same

LEVEL = 'exploration'
RULE = 'full product of sticking/return definitions of three species, one override, one disabling, all filters; a case ' \
       'is non-trivial when the expected matrix has a non-zero entry; distinct by expected matrix and filters'
BOUNDS = {'quick': '15x15x6 definitions, 3 disablings, 7 overrides rotated', 'thorough': '15x15x15, all overrides'}

RIDS = (7, 9, 20, 10)
RETS = (Ellipsis, {}, {'H2': 0.5}, {'H': 1}, {'H2': '0.25', 'H': 0.5})
STICKS = (Ellipsis, 0, 0.3)
OVERRIDES = (None, ('stick', 'H', 0.), ('stick', 'H2', 1.), ('ret', 'H', {'H2': 0.75}), ('ret', 'H+', {}),
             ('ret', 'H2', {'H2': 1.0, 'H': 0.125}), ('ret', 'H+', {'e': 0.1, 'H': 0.9}))
DISABLE = (None, ('s', 'H2'), ('r', 20))


def shards(tier):
    h2_rets = RETS[:3] if tier == 'quick' else RETS
    h2_st = STICKS[1:] if tier == 'quick' else STICKS
    cases = []
    n = 0
    for sh, rh, sp, rp_, s2, r2 in itertools.product(STICKS, RETS, STICKS, RETS, h2_st, h2_rets):
        n += 1
        ovs = [OVERRIDES[0], OVERRIDES[1 + n % (len(OVERRIDES) - 1)]] if tier == 'quick' else OVERRIDES
        for dis in DISABLE:
            for ov in ovs:
                cases.append({'defs': {'H': [sh, rh], 'H+': [sp, rp_], 'H2': [s2, r2]}, 'dis': dis, 'ov': ov})
    return chunks(cases, 64)


def run(shard, tier):
    res = Result()
    for case in shard:
        with res.case(enc(case)):
            run_case(case, res)
        if res.full:
            break
    return res


def enc(case):
    c = dict(case)
    c['defs'] = {k: [None if x is Ellipsis else x for x in v] for k, v in case['defs'].items()}
    return c


def dec(case):
    c = dict(case)
    c['defs'] = {k: [Ellipsis if x is None else x for x in v] for k, v in case['defs'].items()}
    return c


def run_case(case, res):
    net = U.Net(RIDS)
    sp = U.build_species(net.names, {n: {'stick_coef': v[0], 'ret_coefs': v[1]} for n, v in case['defs'].items()})
    _, rs = U.shared_species()
    reactions = [U.build_reaction(r, *U.POOL[r], sp) for r in RIDS]
    chem = Chemistry(species=[sp[n] for n in net.names], reactions=reactions)
    default_stick = {'H': 0., 'H2': 0., 'H+': 1.}
    default_ret = {'H': {}, 'H2': {}, 'H+': {'H': 1.}}
    stick = {n: default_stick[n] if v[0] is Ellipsis else float(v[0]) for n, v in case['defs'].items()}
    ret = {n: default_ret[n] if v[1] is Ellipsis else {k: float(x) for k, x in v[1].items()}
           for n, v in case['defs'].items()}
    if case['ov']:
        kind, n, v = case['ov']
        if kind == 'stick':
            chem.set_adhoc_species_attributes('stick_coef', n, v)
            stick[n] = v
        else:
            chem.set_adhoc_species_attributes('ret_coefs', n, v)
            ret[n] = v
    enabled = set(net.names)
    if case['dis']:
        kind, what = case['dis']
        chem.disable(**({'species': [what]} if kind == 's' else {'reactions': [what]}))
        s, _ = net.closure(net.sids, net.rids, [net.id_of[what]] if kind == 's' else (), [what] if kind == 'r' else ())
        enabled = {net.name_of[i] for i in s}
    for disabled in (False, True):
        for special in (False, True):
            sel = [n for n in net.names if (disabled or n in enabled) and (special or n not in U.SPECIAL)]
            want = np.zeros((len(sel), len(sel)))
            for j, nj in enumerate(sel):
                for i, ni in enumerate(sel):
                    if ni in U.SPECIAL or nj in U.SPECIAL:
                        want[i, j] = np.nan
                    elif stick[nj] != 0 and ni in enabled:
                        want[i, j] = ret[nj].get(ni, 0.)
            got = chem.get_return_matrix(disabled=disabled, special=special)
            w = 'return matrix (disabled={}, special={})'.format(disabled, special)
            ids = [net.id_of[n] for n in sel]
            same([int(i) for i in got.index], ids, w + ': rows')
            same([int(i) for i in got.columns], ids, w + ': columns')
            check(np.allclose(got.values.astype(float), want, rtol=1e-12, atol=0, equal_nan=True),
                  '{}: got {}, expected {}', w, got.values.tolist(), want.tolist(), key=w)
            rc = chem.get_species_ret_coefs(disabled=disabled, special=special)
            for n in sel:
                if n not in U.SPECIAL:
                    same(rc.at[net.id_of[n]], {} if stick[n] == 0 else {k: v for k, v in ret[n].items() if k in enabled},
                         'return coefficients of ' + n)
            res.count('evaluations')
            if np.nansum(want):
                res.see('distinct_nontrivial', (disabled, special, tuple(sel), want.tobytes()))
    res.sample(enc(case))


def replay(case):
    res = Result()
    with res.case(case):
        run_case(dec(case), res)
    return res
