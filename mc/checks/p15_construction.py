"""P15: a chemistry can be constructed exactly when its network is consistent, and starts with everything enabled."""
import itertools

from plaschem.chemistry import Chemistry
from plaschem.species import RP
from plaschem.reactions import Reaction
from pygmo_fwork.pygmol.neutral_model import NeutralChemistry

from mc.core import Result, check, chunks, outcome, same
from mc.universe import (DEFAULT_RET, Net, POOL, SPECIAL, SPECIES, build_reaction, build_species, networks,
                         shared_species)

LEVEL = 'exploration'
RULE = 'every subset of the species crossed with every small subset of the reactions; every single-defect mutation of ' \
       'every small consistent network; all orders of the lists of the smallest networks'
BOUNDS = {'quick': '9 species, up to 2 of 14 reactions; mutations of networks of up to 3 reactions',
          'thorough': '9 species, up to 3 of 14 reactions; mutations of networks of up to 4 reactions'}
ASSUMPTIONS = ['species and reaction objects are themselves valid', 'an empty electron-free chemistry is out of scope']


def shards(tier):
    k = 2 if tier == 'quick' else 3
    sets = [r for n in range(k + 1) for r in itertools.combinations(POOL, n)]
    out = [{'kind': 'product', 'sets': c} for c in chunks(sets, 24 if tier == 'quick' else 64)]
    nets = [n.rids for n in networks((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    out += [{'kind': 'mutations', 'nets': c} for c in chunks(nets, 24 if tier == 'quick' else 96)]
    out += [{'kind': 'orders', 'nets': c} for c in chunks([n.rids for n in networks((1, 2))], 8)]
    return out


def allowed(names, rids, needs_charge=True):
    """Definition of a consistent network (ids and names unique, objects shared)."""
    names = list(names)
    if needs_charge and ('e' not in names or not any((SPECIES[n][1] or 0) > 0 for n in names)):
        return False
    used = set()
    for r in rids:
        used |= set(POOL[r][0]) | set(POOL[r][1])
    if used != set(names):
        return False
    return all(ret in names for n in names for ret in DEFAULT_RET.get(n, {}))


def examine(chem, names, rids, needs_charge=True):
    """State of a freshly constructed chemistry."""
    ids = [SPECIES[n][0] for n in names]
    same([int(i) for i in chem.get_species_id(special=True)], ids, 'species of the new chemistry')
    same([int(i) for i in chem.get_reactions().index], list(rids), 'reactions of the new chemistry')
    same(list(chem.get_species_name(special=True)), list(names), 'names of the species')
    same((len(chem.get_disabled_species()), len(chem.get_disabled_reactions())), (0, 0), 'what is disabled at first')
    ions = [SPECIES[n][0] for n in names if (SPECIES[n][1] or 0) > 0]
    want = set()
    if needs_charge:
        want = {SPECIES['e'][0]} | (set(ions) if len(ions) == 1 else set())
    same({int(i) for i in chem.get_protected_species().index}, want, 'initially protected species')


def attempt(cls, names, rids, expected, what):
    sp, rs = shared_species()
    status, chem = outcome(cls, species=[sp[n] for n in names], reactions=[rs[r] for r in rids])
    same(status, 'ok' if expected else 'err', 'construction of {} ({})'.format(what, chem if status == 'err' else ''),
         key='construction verdict')
    if expected:
        examine(chem, names, rids, cls is Chemistry)
    return status


def run_product(rids, res):
    all_names = list(SPECIES)
    for k in range(len(all_names) + 1):
        for n, names in enumerate(itertools.combinations(all_names, k)):
            names = names[::-1] if n % 2 else names
            rr = rids[::-1] if n % 3 == 1 else rids
            with res.case({'kind': 'product', 'names': list(names), 'rids': list(rr)}, 60):
                ok = allowed(names, rr)
                attempt(Chemistry, names, rr, ok, 'species {} with reactions {}'.format(names, rr))
                res.count('evaluations')
                if ok:
                    res.see('distinct_nontrivial', (names, rr))
                neutral_names = {'Ar', 'Ar*', 'H', 'H2', 'M'}
                if names and set(names) <= neutral_names:
                    attempt(NeutralChemistry, names, rr, allowed(names, rr, False), 'neutral {} with {}'.format(names, rr))
                    res.count('evaluations')
            if res.full:
                return


# ------------------------------------------------------------------------------------------------------ mutations
def fresh(net, overrides=None, ids=None):
    sp = build_species(net.names, overrides, ids)
    return sp, {r: build_reaction(r, POOL[r][0], POOL[r][1], sp) for r in net.rids}


def clone(sp, name, new_id=None):
    sid, charge, mass, _, extra = SPECIES[name]
    kw = dict(extra)
    if mass is not None:
        kw['mass'] = mass
    if charge is not None:
        kw['charge'] = charge
    return RP(sid if new_id is None else new_id, name=name, **kw)


def mutations(net):
    """(label, species list, reactions list, expected verdict)"""
    sp, rs = fresh(net)
    S, R = [sp[n] for n in net.names], [rs[r] for r in net.rids]
    yield 'nominal', S, R, True
    for i in range(len(S)):
        yield 'species {} twice'.format(net.names[i]), S + [S[i]], R, False
        yield 'species {} missing'.format(net.names[i]), S[:i] + S[i + 1:], R, False
        yield 'unused species with the name {}'.format(net.names[i]), [clone(sp, net.names[i], 77)] + S, R, False
    for i in range(len(R)):
        yield 'reaction {} twice'.format(net.rids[i]), S, R + [R[i]], False
    yield 'unused species', S + [RP(78, name='Xe', mass=131., charge=0)], R, False
    yield 'unused species first', [RP(78, name='Xe', mass=131., charge=0)] + S, R, False
    # equal ids of two species / two reactions, everything else in order
    for a, b in itertools.combinations(net.names, 2):
        sp2, rs2 = fresh(net, ids={a: SPECIES[b][0]})
        yield 'same id of {} and {}'.format(a, b), [sp2[n] for n in net.names], [rs2[r] for r in net.rids], False
    for a, b in itertools.permutations(net.rids, 2):
        other = build_reaction(a, POOL[b][0], POOL[b][1], sp)
        yield 'same id of two reactions', S, [rs[r] if r != b else other for r in net.rids], False
    # a participant which is an equal, but a different object than the listed one
    for r in net.rids:
        for side in (0, 1):
            for pos, name in enumerate(POOL[r][side]):
                sides = [[sp[x] for x in POOL[r][0]], [sp[x] for x in POOL[r][1]]]
                sides[side][pos] = clone(sp, name)
                unit = {1: 's-1', 2: 'cm3.s-1', 3: 'cm6.s-1'}[len(sides[0])]
                alien = Reaction(r, sides[0], sides[1], attributes={'arrh_a': 1e-15}, units={'arrh_a': unit})
                yield 'foreign {} in reaction {}'.format(name, r), S, [rs[x] if x != r else alien for x in net.rids], False
    # two different objects of the same name, both listed and both used
    for name in net.names:
        users = [r for r in net.rids if name in POOL[r][0] + POOL[r][1]]
        if len(users) < 2:
            continue
        for r in users:
            twin = clone(sp, name, 77)
            sp2 = dict(sp)
            sp2[name] = twin
            yield 'two species called {}'.format(name), S + [twin], \
                [rs[x] if x != r else build_reaction(r, POOL[r][0], POOL[r][1], sp2) for x in net.rids], False
    # return species outside of the chemistry with a coefficient of zero
    for name in net.names:
        if name in SPECIAL:
            continue
        for coefs in ({'He': 0.}, {'He': 0, ('H2' if name != 'H2' else 'Ar'): 0.5}, {'He': '0'}):
            status, made = outcome(fresh, net, {name: {'ret_coefs': coefs, 'stick_coef': 1.}})
            if status == 'ok':
                yield '{} returned as {}'.format(name, coefs), [made[0][n] for n in net.names], \
                    [made[1][r] for r in net.rids], False
    # return species outside and inside of the chemistry
    for name in net.names:
        if name in SPECIAL:
            continue
        for ret in ('He', 'H2', 'Ar', 'e', 'M'):
            if ret == name:
                continue
            status, made = outcome(fresh, net, {name: {'ret_coefs': {ret: 1.}, 'stick_coef': 1.}})
            if status == 'err':
                continue
            sp2, rs2 = made
            yield '{} returned as {}'.format(name, ret), [sp2[n] for n in net.names], [rs2[r] for r in net.rids], \
                ret in net.names
        status, made = outcome(fresh, net, {name: {'ret_coefs': {'He': 0.5, 'H2' if name != 'H2' else 'Ar': 0.5},
                                                   'stick_coef': 1.}})
        if status == 'ok':
            yield '{} returned partly as He'.format(name), [made[0][n] for n in net.names], \
                [made[1][r] for r in net.rids], False


def run_mutations(net, res):
    for label, S, R, want in mutations(net):
        with res.case({'kind': 'mutation', 'rids': list(net.rids), 'label': label}, 60):
            status, chem = outcome(Chemistry, species=S, reactions=R)
            same(status, 'ok' if want else 'err', 'construction of {} with the defect: {}'.format(net.rids, label),
                 key='construction verdict')
            if want:
                examine(chem, net.names, net.rids)
                # inputs are not modified and the lists are not shared
                same(len(S), len(net.names), 'the list of species given by the user')
            res.count('evaluations')
            if label != 'nominal':
                res.see('distinct_nontrivial', (net.rids, label))
        if res.full:
            return
    with res.case({'kind': 'arguments', 'rids': list(net.rids)}, 60):
        sp, rs = fresh(net)
        S, R = [sp[n] for n in net.names], [rs[r] for r in net.rids]
        for kw in ({}, {'species': S}, {'reactions': R}):
            same(outcome(Chemistry, **kw)[0], 'err', 'construction with {}'.format(sorted(kw)))
            res.count('evaluations')


def run_orders(net, res):
    for names in itertools.islice(itertools.permutations(net.names), 120):
        for rr in itertools.permutations(net.rids):
            with res.case({'kind': 'orders', 'rids': list(rr), 'names': list(names)}, 60):
                attempt(Chemistry, names, rr, True, '{} {}'.format(names, rr))
                res.count('evaluations')
                res.see('distinct_nontrivial', (names, rr))
            if res.full:
                return


def run(shard, tier):
    res = Result()
    if shard['kind'] == 'product':
        for rids in shard['sets']:
            run_product(tuple(rids), res)
            if res.full:
                break
    elif shard['kind'] == 'mutations':
        for rids in shard['nets']:
            run_mutations(Net(rids), res)
            if res.full:
                break
    else:
        for rids in shard['nets']:
            run_orders(Net(rids), res)
            if res.full:
                break
    return res


def replay(case):
    res = Result()
    if case['kind'] == 'product':
        run_product(tuple(case['rids']), res)
    elif case['kind'] in ('mutation', 'arguments'):
        run_mutations(Net(case['rids']), res)
    else:
        run_orders(Net(case['rids']), res)
    return res
