"""P08: stoichiometric matrices and vectors count exactly, are labelled exactly, and filters only drop rows/columns."""
import itertools

from mc import universe as U
from mc.core import Result, check, chunks, outcome, same

LEVEL = 'exploration'
RULE = 'all networks of the pool up to a size, all consistent sub-networks of each (reached by disabling), all filters ' \
       'and methods; each entry is compared to a count over the written reaction'
BOUNDS = {'quick': 'networks of 1-3 reactions out of 20', 'thorough': 'networks of 1-4 reactions out of 20'}
ASSUMPTIONS = []

EXTRA = {
    21: (('e', 'e', 'H+'), ('e', 'H')),
    22: (('M', 'M', 'H2'), ('M', 'M', 'H', 'H')),
    23: (('Ar', 'Ar+', 'Ar'), ('Ar+', 'Ar', 'Ar')),
    24: (('H', 'H', 'H'), ('H', 'H2')),
    25: (('M', 'H2'), ('H', 'M', 'H')),
    26: (('H2',), ('e', 'e', 'H+', 'H+')),
}
POOL = dict(U.POOL)
POOL.update(EXTRA)
# order: extras in between, so that reaction ids are not sorted
POOL = {k: POOL[k] for k in (26, 3, 22, 11, 5, 24, 8, 2, 14, 21, 7, 9, 25, 4, 20, 6, 13, 1, 10, 23)}

_C = {}


def objects():
    if not _C:
        sp = U.build_species()
        _C['sp'] = sp
        _C['r'] = {rid: U.build_reaction(rid, l, r, sp) for rid, (l, r) in POOL.items()}
    return _C['sp'], _C['r']


def shards(tier):
    sizes = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    allr = [rids for k in sizes for rids in itertools.combinations(POOL, k) if U.Net(rids, POOL).consistent()]
    return [{'nets': c} for c in chunks(allr, 32)]


def counts(rid, net, method):
    l, r = POOL[rid]
    out = {}
    for n in net.names:
        a, b = l.count(n), r.count(n)
        out[net.id_of[n]] = {'lhs': a, 'rhs': b, 'net': b - a}[method]
    return out


def check_net(rids, res):
    sp, rs = objects()
    net = U.Net(rids, POOL)
    chem = U.Chemistry(species=[sp[n] for n in net.names], reactions=[rs[r] for r in rids])
    want = {(m, r): counts(r, net, m) for m in ('lhs', 'rhs', 'net') for r in rids}
    for r in rids:
        for m in ('lhs', 'rhs', 'net'):
            got = rs[r].get_stoich_coefs(method=m)
            check(set(got) <= set(net.sids), 'coefficients of {} name foreign species {}', r, got)
            for i in net.sids:
                same(int(got.get(i, 0)), want[m, r][i], 'coefficient {} of species {} in reaction {}'.format(m, i, r))
                res.count('evaluations')
    states = set()
    for k in range(len(rids)):
        for drop in itertools.combinations(rids, k):
            s, r = net.closure(net.sids, rids, drop_r=drop)
            if (s, r) in states or not (s & net.ions) or net.id_of['e'] not in s:
                continue
            chem.reset()
            if drop:
                kind, _ = outcome(chem.disable, reactions=list(drop))
                if kind == 'err':
                    continue   # refused: the business of the disabling check
                s = {int(i) for i in chem.get_species_id(disabled=False, special=True)}
                r = {int(i) for i in chem.get_reactions_id(disabled=False)}
            states.add((frozenset(s), frozenset(r)))
            res.see('distinct_nontrivial', (rids, tuple(sorted(r))))
            observe(chem, net, rids, s, r, want, res)
    chem.reset()


def observe(chem, net, rids, s, r, want, res):
    e = net.id_of['e']
    m_id = net.id_of.get('M')
    for method in ('lhs', 'rhs', 'net'):
        for disabled in (False, True):
            rows = [x for x in rids if disabled or x in r]
            for special in (False, True):
                cols = [i for i in net.sids if (disabled or i in s) and
                        (special or net.name_of[i] not in U.SPECIAL)]
                w = 'matrix {}, disabled={}, special={}, enabled {}/{}'.format(method, disabled, special, sorted(s),
                                                                            sorted(r))
                mat = chem.get_stoichiomatrix(disabled=disabled, special=special, method=method)
                same([int(x) for x in mat.index], rows, w + ': rows', key='matrix rows')
                same([int(x) for x in mat.columns], cols, w + ': columns', key='matrix columns')
                for x in rows:
                    same([mat.at[x, i] for i in cols], [want[method, x][i] for i in cols],
                         '{}: row of reaction {}'.format(w, x), key='matrix row')
                res.count('evaluations', len(rows) * len(cols))
            for name, sid in (('electron', e), ('arbitrary', m_id)):
                vec = getattr(chem, 'get_reactions_stoich_coefs_' + name)(disabled=disabled, method=method)
                same([int(x) for x in vec.index], rows, '{} vector {}: index'.format(name, method), key=name + ' index')
                same([float(x) for x in vec], [float(want[method, x].get(sid, 0)) for x in rows],
                     '{} vector {} disabled={}'.format(name, method, disabled), key=name + ' vector')
                res.count('evaluations', len(rows))


def run(shard, tier):
    res = Result()
    for rids in shard['nets']:
        with res.case({'rids': list(rids)}):
            check_net(tuple(rids), res)
            res.count('networks')
            res.sample({'rids': list(rids)})
        if res.full:
            break
    return res


def replay(case):
    res = Result()
    with res.case(case):
        check_net(tuple(case['rids']), res)
    return res
