"""P04: dump / load / coherence over all ordered pairs of reachable states."""
import itertools
import os

from mc import refchem as R
from mc import universe as U
from mc.core import Result, check, same, scratch

from plaschem.chemistry import Chemistry
from plaschem.exceptions import ChemistryConsistencyError

LEVEL = 'model_checking'
RULE = 'states reached by breadth-first search; every ordered pair (saved state, state restored over) is executed; every ' \
       'restored state is then driven through every operation in lockstep'
BOUNDS = {'quick': '7 networks, states to depth 2 (at most 44 per network), all pairs',
          'thorough': '12 networks, states to depth 3 (at most 400 per network), all pairs'}
ASSUMPTIONS = ['the YAML library is trusted']

NETS = [(3, 8, 5), (3, 14, 7, 9, 4), (7, 9, 20), (3, 6, 13, 9), (5, 2, 8, 3), (3, 4, 9, 7), (3, 9, 20, 7)]
MORE = [(3, 1, 6), (3, 8, 5, 2), (7, 9, 20, 10), (3, 14, 5), (3, 4, 10, 9, 7)]


def alphabet(net):
    neutral = [i for n, i in net.id_of.items() if n not in U.SPECIAL and i not in net.ions]
    ion = sorted(net.ions)[-1]
    names = [net.name_of[i] for i in neutral]
    ops = [('stick', ion, 0.), ('stick', neutral[0], 1), ('ret', ion, tuple((n, 0.25) for n in names[:2])),
           ('ret', neutral[-1], ()), ('ret', ion, ((names[-1], 1),)),
           ('arrh', net.rids[0], 7e-16), ('arrh', net.rids[-1], 0), ('prot', neutral[0]), ('reset',)]
    ops += [('dis_r', i) for i in net.rids] + [('dis_s', i) for i in neutral + sorted(net.ions)]
    return ops


def reach(net, depth, cap, d):
    """Reference states only (the machine itself is bound to the code by P02/P06 and by the dumps compared here)."""
    out = {}
    frontier = [()]
    start = R.Ref(net)
    out[start.key()] = ((), start)
    for _ in range(depth):
        nxt = []
        for hist in frontier:
            for op in alphabet(net):
                ref = R.Ref(net)
                for o in hist:
                    ref.apply(o, {})
                if ref.apply(op, {}) == 'ok' and ref.key() not in out:
                    out[ref.key()] = (hist + (op,), ref)
                    nxt.append(hist + (op,))
        frontier = nxt
    items = list(out.values())
    if len(items) > cap:  # keep the deterministic spread over the depth levels (bound stated in the evidence)
        step = len(items) / cap
        items = [items[int(i * step)] for i in range(cap)]
    return items


def shards(tier):
    q = tier == 'quick'
    n = 4 if q else 16
    out = [{'rids': r, 'depth': 2 if q else 3, 'cap': 44 if q else 400, 'part': p, 'of': n}
           for r in NETS + ([] if q else MORE) for p in range(n)]
    out.append({'hash': True})
    return out


def build(net, hist, d):
    drv, ref = R.Driver(U.make(net), d), R.Ref(net)
    for op in hist:
        R.step(drv, ref, op, {}, 'setup')
    return drv, ref


def run(shard, tier):
    res = Result()
    if shard.get('hash'):
        run_hash(res)
        return res
    net = U.Net(shard['rids'])
    with scratch() as d:
        states = reach(net, shard['depth'], shard['cap'], d)
        live = []
        for k, (hist, ref) in enumerate(states):
            with res.case({'rids': list(net.rids), 'a': list(hist)}):
                drv, _ = build(net, hist, d)
                path = os.path.join(d, 's{}.yaml'.format(k))
                drv.chem.dump_chemistry_attributes(path)
                live.append((hist, ref, drv, path, R.saved(drv.chem, d)))
        for ai, (ha, ra, da, path, saved) in enumerate(live):
            if ai % shard['of'] != shard['part']:
                continue
            res.see('states', (net.rids, ra.key()))
            for hb, rb, db, _, saved_b in live:
                case = {'rids': list(net.rids), 'a': list(ha), 'b': list(hb)}
                with res.case(case):
                    pair(net, ra, rb, db.clone(), path, saved, d, case, res, ha == hb)
                if res.full:
                    return res
            with res.case({'rids': list(net.rids), 'a': list(ha), 'then': True}):
                then(net, ra, path, d, res)
            res.sample({'network': net.rids, 'saved_state_history': ha})
    return res


def pair(net, ra, rb, db, path, saved, d, case, res, same_state):
    where = 'saved after {}, restored over {}'.format(case['a'], case['b'])
    same(db.chem.check_coherence(path), same_state or ra.key() == rb.key(), where + ': coherence before restoring')
    db.chem.load_chemistry_attributes(path)
    res.count('transitions')
    R.compare(R.observe(db.chem), ra.observe(), where)
    same(norm(R.saved(db.chem, d)), norm(saved), where + ': saved again')
    same(db.chem.check_coherence(path), True, where + ': coherence after restoring')


def norm(s):
    """The saved file lists overrides in the order they were made, which is not part of the state."""
    s = dict(s)
    for k in ('adhoc_species_attributes', 'adhoc_reactions_attributes'):
        s[k] = sorted(s[k], key=repr)
    return s


def then(net, ra, path, d, res):
    """Hidden state: what was restored behaves as the original under every further operation."""
    for op in alphabet(net):
        drv, ref = R.Driver(U.make(net), d), ra.clone()
        drv.chem.load_chemistry_attributes(path)
        R.step(drv, ref, op, {}, 'restored')
        R.compare(R.observe(drv.chem), ref.observe(), 'restored, then ' + repr(op))
        res.count('transitions')
    # the same overrides made in any other order are the same state
    over = [('stick', i, v) for i, v in ra.stick.items()] + [('ret', i, tuple(v.items())) for i, v in ra.ret.items()] + \
           [('arrh', i, v) for i, v in ra.arrh.items()]
    if 1 < len(over) < 4:
        for perm in itertools.permutations(over):
            drv = R.Driver(U.make(net), d)
            drv.chem.load_chemistry_attributes(path)
            drv.chem.reset_adhoc_species_attributes('all')
            drv.chem.reset_adhoc_reactions_attributes('all')
            try:
                for op in perm:
                    drv.apply(op)
            except ChemistryConsistencyError:
                continue  # an override that returns a species disabled since then
            same(drv.chem.check_coherence(path), True, 'coherence after the overrides {}'.format(perm))
            res.count('transitions')
    res.count('traces_validated_against_impl')


def run_hash(res):
    """All combinations of input file (same/other path, same/other content, none) between saving and restoring."""
    net = U.Net((3, 8, 5))
    sp, rs = U.shared_species()

    def chem(p):
        return Chemistry(species=[sp[n] for n in net.names], reactions=[rs[r] for r in net.rids], xml_path=p)

    with scratch() as d:
        p1, p2 = os.path.join(d, 'one.xml'), os.path.join(d, 'two.xml')
        for saved_path in (None, p1, p2):
            for load_path in (None, p1, p2):
                for c1 in ('a', 'b'):
                    for c2 in ('a', 'b'):
                        for check_hash in (True, False):
                            case = {'hash': [saved_path, load_path, c1, c2, check_hash]}
                            with res.case(case):
                                for p in (p1, p2):
                                    with open(p, 'w') as f:
                                        f.write(c1)
                                a = chem(saved_path)
                                a.disable(reactions=[5])
                                y = os.path.join(d, 'y.yaml')
                                a.dump_chemistry_attributes(y)
                                for p in (p1, p2):
                                    with open(p, 'w') as f:
                                        f.write(c2)
                                b = chem(load_path)
                                match = saved_path == load_path and (saved_path is None or c1 == c2)
                                before = R.observe(b)
                                try:
                                    b.load_chemistry_attributes(y, check_hash=check_hash)
                                    got = True
                                except Exception as e:
                                    got = type(e).__name__
                                want = True if match or not check_hash else 'ChemistryAttributeError'
                                same(got, want, 'restoring with input {} instead of {}'.format(
                                    (load_path, c2), (saved_path, c1)))
                                R.compare(R.observe(b), R.observe(a) if want is True else before, 'after restoring')
                                same(b.check_coherence(y), want is True and match, 'coherence with other input')
                                res.count('transitions')
                                res.see('states', repr(case))


def replay(case):
    res = Result()
    if 'hash' in case:
        run_hash(res)
        return res
    net = U.Net(case['rids'])
    with scratch() as d, res.case(case):
        a, b = [R.tup(o) for o in case['a']], [R.tup(o) for o in case.get('b', [])]
        da, ra = build(net, a, d)
        path = os.path.join(d, 'a.yaml')
        da.chem.dump_chemistry_attributes(path)
        db, rb = build(net, b, d)
        if 'b' in case:
            pair(net, ra, rb, db, path, R.saved(da.chem, d), d, {'a': a, 'b': b}, res, a == b)
        if case.get('then'):
            then(net, ra, path, d, res)
    return res
