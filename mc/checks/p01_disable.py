"""P01: disabling leaves the largest consistent sub-network, or refuses."""
import itertools

from plaschem.exceptions import ChemistryDisableError

from mc import universe as U
from mc.core import Result, check, chunks, same

LEVEL = 'model_checking'
RULE = ('every consistent network of <=k pool reactions x protection x request; a case is a (reduced state, request) '
        'pair; states are distinct (network, protection, enabled set) reached, transitions are requests executed')
BOUNDS = {'quick': 'networks of 2..4 reactions; requests of 1-2 items on 2..3, of 1 item plus every second request '
                   'from every once-reduced state on 2; identifiers id/name/object rotated',
          'thorough': 'networks of 2..5 reactions; requests of 1-3 items; two consecutive requests on 2..4'}
ASSUMPTIONS = ['networks outside the 14-reaction pool behave like those inside it']


def items(net):
    return [('s', i) for i in net.sids] + [('r', i) for i in net.rids]


def shards(tier):
    cases = []
    sizes = (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5)
    for net in U.networks(sizes):
        n = len(net.rids)
        if tier == 'quick':
            req = 2 if n <= 3 else 1
            prot = 1 if n <= 3 else 0
            depth = 2 if n <= 2 else 1
        else:
            req = 3 if n <= 3 else (2 if n == 4 else 1)
            prot = 1
            depth = 2 if n <= 3 else 1
        cases.append({'rids': list(net.rids), 'req': req, 'prot': prot, 'depth': depth})
    return chunks(cases, 128)


def run(shard, tier):
    res = Result()
    for c in shard:
        net = U.Net(c['rids'])
        prots = [()] + [(i,) for i in net.sids if c['prot']]
        for prot in prots:
            its = items(net)
            reqs = [q for k in range(1, (c['req'] if len(prot) == 0 else 1) + 1) for q in itertools.combinations(its, k)]
            for q in reqs:
                case = {'rids': c['rids'], 'prot': list(prot), 'reqs': [q]}
                with res.case(case):
                    run_case(case, res)
                if c['depth'] > 1:
                    for q2 in [(x,) for x in its]:
                        case = {'rids': c['rids'], 'prot': list(prot), 'reqs': [q, q2]}
                        with res.case(case):
                            run_case(case, res)
                if res.full:
                    return res
    return res


def identifier(chem, net, i, how):
    if how == 0:
        return i
    if how == 1:
        return net.name_of[i]
    return chem.get_rp(net.name_of[i])


def run_case(case, res):
    net = U.Net(case['rids'])
    chem = U.make(net)
    prot = net.initially_protected() | set(case['prot'])
    if case['prot']:
        chem.set_protected_species(*case['prot'])
    sp, rs = frozenset(net.sids), frozenset(net.rids)
    implicit = set()
    for k, q in enumerate(case['reqs']):
        rsp = [i for t, i in q if t == 's']
        rr = [i for t, i in q if t == 'r']
        fsp, fr = net.closure(sp, rs, rsp, rr)
        same((fsp, fr), net.closure_brute(sp, rs, rsp, rr), 'reference model disagrees with its own definition')
        lost = sp - fsp
        nothing = not (set(rsp) & sp) and not (set(rr) & rs)
        refuse = not nothing and (bool(lost & (prot | implicit)) or not (net.ions & fsp))
        ambiguous = not nothing and not refuse and bool(set(rsp) & (prot | implicit) - sp)
        how = (sum(case['rids']) + len(rsp) + sum(rsp)) % 3
        ident = [identifier(chem, net, i, (how + j) % 3) for j, i in enumerate(rsp)]
        try:
            chem.disable(species=ident, reactions=rr)
            got = 'ok'
        except ChemistryDisableError:
            got = 'refused'
        res.count('transitions')
        if not ambiguous:
            same(got, 'refused' if refuse else 'ok',
                 'disabling {} in {} (protected {})'.format(q, case['rids'], sorted(prot | implicit)))
        if got == 'ok':
            sp, rs = fsp, fr
            if not nothing and len(net.ions & sp) == 1:
                implicit |= net.ions & sp
        verify(chem, net, sp, rs, prot | implicit)
        if res.see('states', (case['rids'], sorted(prot), sorted(sp), sorted(rs), sorted(implicit))):
            pass
    res.count('traces_validated_against_impl')
    if len(case['reqs']) > 1 or len(case['reqs'][0]) > 1:
        res.sample({'network': case['rids'], 'protected': case['prot'], 'requests': case['reqs'],
                    'left_species': sorted(sp), 'left_reactions': sorted(rs)})


def verify(chem, net, sp, rs, prot):
    same(list(chem.get_species(special=True).index), [i for i in net.sids if i in sp], 'enabled species')
    same([s.id for s in chem.get_species(special=True)], [i for i in net.sids if i in sp], 'enabled species objects')
    same(list(chem.get_reactions().index), [i for i in net.rids if i in rs], 'enabled reactions')
    same([r.id for r in chem.get_reactions()], [i for i in net.rids if i in rs], 'enabled reactions objects')
    same(list(chem.get_disabled_species().index), [i for i in net.sids if i not in sp], 'disabled species')
    same(list(chem.get_disabled_reactions().index), [i for i in net.rids if i not in rs], 'disabled reactions')
    same(set(chem.get_protected_species().index), set(prot), 'protected species')
    same(chem.num_reactions(), len(rs), 'number of reactions')
    same(chem.num_species(special=True), len(sp), 'number of species')


def replay(case):
    res = Result()
    with res.case(case):
        run_case(case, res)
    return res
