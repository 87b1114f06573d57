"""P02: protected species, electron and last positive ion survive every history."""
from mc import refchem as R
from mc import universe as U
from mc.core import Result, check, same, scratch

LEVEL = 'model_checking'
RULE = 'breadth-first search over operation histories; a state is the reference state (masks, protections, overrides, ' \
       'saved slot); every transition is executed on the real object and compared'
BOUNDS = {'quick': '16 networks; structural alphabet to depth 4, full alphabet with save/restore/copy to depth 3',
          'thorough': '24 networks; structural alphabet to depth 6, full alphabet to depth 4'}
ASSUMPTIONS = ['a deep copy of the object (sharing species and reaction objects) stands for the state after a history; '
               'every history that reaches a state first seen at full depth is also replayed from scratch']

NETS = [
    (3, 11), (3, 8, 5), (3, 8, 5, 2), (3, 14, 7, 9, 4), (7, 9, 20), (7, 9, 20, 10), (3, 6, 13, 9), (3, 1, 6),
    (3, 14, 5), (3, 8, 5, 14), (7, 9, 6, 13), (3, 4, 9, 7), (3, 11, 7, 9), (5, 2, 8, 3, 11), (3, 9, 20, 7), (3, 4, 10, 9, 7),
]
MORE = [(3, 5, 8, 2, 14, 11), (3, 9, 4, 7, 20, 10), (3, 9, 6, 13, 1), (7, 9, 6, 13, 20), (3, 14, 9, 10, 7),
        (3, 1, 6, 7, 9), (5, 8, 2, 3), (3, 7, 9, 11, 20)]


def structural(net):
    neutral = [i for n, i in net.id_of.items() if n not in U.SPECIAL and i not in net.ions]
    prots = [('prot', neutral[0])] + [('prot', i) for i in sorted(net.ions)[-1:]]
    if 'M' in net.id_of:
        prots.append(('prot', net.id_of['M']))
    return [('dis_s', i) for i in net.sids] + [('dis_r', i) for i in net.rids] + prots + [('reset',)]


def full(net):
    ops = structural(net)
    ion = sorted(net.ions)[0]
    ops += [('stick', ion, 0.), ('arrh', net.rids[0], 7e-16), ('dump', 'a'), ('load', 'a'), ('copy',)]
    ops += [('rst_sp', 'all'), ('rst_r', 'all')]
    return ops


def shards(tier):
    q = tier == 'quick'
    out = []
    for n in NETS + ([] if q else MORE):
        out.append({'rids': n, 'ops': 'full', 'depth': 3 if q else 4})
        out.append({'rids': n, 'ops': 'structural', 'depth': 4 if q else 6})
    return out


def invariant(chem, ref, net):
    """Stated directly on the real object, independently of the reference masks."""
    names = set(chem.get_species_name(special=True).values)
    check('e' in names, 'the electron is not enabled')
    check((chem.get_species_charge().values > 0).any(), 'no positive ion is enabled')
    used = set()
    for r in chem.get_reactions():
        parts = {s.get_name() for s in r.get_reactants() + r.get_products()}
        check(parts <= names, 'enabled reaction {} has a disabled participant', r)
        used |= parts
    same(used, names, 'species taking part in enabled reactions')


def run(shard, tier):
    res = Result()
    net = U.Net(shard['rids'])
    ops = (full if shard['ops'] == 'full' else structural)(net)
    with scratch() as d:
        def on_state(drv, ref, slots, hist):
            invariant(drv.chem, ref, net)
            kept = {i for i in ref.prot if i in ref.sp}
            same({int(s.id) for s in drv.chem.get_species(special=True)} >= kept, True, 'protected species enabled')
            if len(hist) == shard['depth']:
                replay_history(net, hist, d, res)

        R.explore(net, ops, shard['depth'], res, d, None, on_state)
    return res


def replay_history(net, hist, d, res):
    """The whole history on a fresh object, no deep copies involved."""
    drv, ref, slots = R.Driver(U.make(net), d), R.Ref(net), {}
    for k, op in enumerate(hist):
        R.step(drv, ref, op, slots, 'replayed ' + repr(hist[:k]))
    R.compare(R.observe(drv.chem), ref.observe(), 'replayed ' + repr(hist))
    invariant(drv.chem, ref, net)
    res.count('traces_validated_against_impl')


def replay(case):
    res = Result()
    net = U.Net(case['rids'])
    with scratch() as d, res.case(case):
        replay_history(net, [R.tup(o) for o in case['hist']], d, res)
    return res
