"""P13: numbering, sorting and overwriting in the XML builder."""
import itertools
import os

from plaschem.xml_inputs import XmlBuilder, XmlParser
from plaschem.species import RP

from mc import universe as U
from mc.core import Result, Violation, check, chunks, outcome, same, scratch

LEVEL = 'model_checking'
RULE = 'all sequences of build steps up to a depth against a list-based reference; all insertion orders of species and of ' \
       'reactions of pool networks before sorting'
BOUNDS = {'quick': 'sequences of up to 4 steps out of 13; all orders of 8 networks of 4 reactions and their species',
          'thorough': 'sequences of up to 5 steps; all orders of 60 networks of 5 reactions and their species'}
ASSUMPTIONS = ['the order of sorting itself is not prescribed, only its independence of the insertion order',
               'reactions with the same participants keep their given order']

OPS = [('r', 3), ('r', 7), ('r', 20), ('sp', 'M'), ('sp', 'Ar+'), ('rattr',), ('xml',), ('ids_s',), ('ids_r',), ('ids',),
       ('sort',), ('dump', False), ('dump', True), ('reset',)]


def shards(tier):
    q = tier == 'quick'
    depth = 4 if q else 5
    firsts = list(itertools.product(range(len(OPS)), repeat=2))
    out = [{'kind': 'seq', 'prefixes': c, 'depth': depth} for c in chunks(firsts, 48)]
    nets = [n.rids for n in U.networks((4,) if q else (5,))]
    n = 8 if q else 60
    nets = nets[::max(1, len(nets) // n)][:n]
    out += [{'kind': 'perm', 'net': r} for r in nets]
    return out


# ------------------------------------------------------------------------------------------------ sequences
class Model(object):
    """species: [id, name]; reactions: [id, string, A]; file: what the target file holds (None: absent)."""

    def __init__(self):
        self.species, self.reactions, self.file = [], [], None

    def names(self):
        return [s[1] for s in self.species]

    def add_sp(self, sid, name):
        if name not in self.names():
            self.species.append([sid, name])

    def key(self):
        return repr((self.species, self.reactions, self.file))


def text(lhs, rhs):
    return ' + '.join(lhs) + ' > ' + ' + '.join(rhs)


_SRC = {}


def source_file(d):
    path = os.path.join(d, 'source.xml')
    if not os.path.exists(path):
        b = XmlBuilder()
        b.add_reaction_from_instance(U.shared_species()[1][14])
        b.dump_xml(path)
    return path


SRC = (14, U.POOL[14])


def number_species(m):
    n = 1
    for s in m.species:
        if s[1] == 'e':
            s[0] = 0
        elif s[1] == 'M':
            s[0] = 999
        else:
            s[0] = n
            n += 1


def number_reactions(m):
    for i, r in enumerate(m.reactions):
        r[0] = i + 1


_ORDER = {}


def canonical(names, strings):
    """The order the code itself gives to these items from one fixed insertion order (by name / by text)."""
    k = (tuple(sorted(names)), tuple(sorted(set(strings))))
    if k not in _ORDER:
        b = XmlBuilder()
        for i, n in enumerate(k[0]):
            add_species(b, n, i + 1)
        for i, s in enumerate(k[1]):
            lhs, rhs = [tuple(side.split(' + ')) for side in s.split(' > ')]
            add_by_names(b, lhs, rhs, i + 1)
        b.sort_elements()
        sp, rs = XmlParser.get_species_and_reactions_from_xml_elements(b.species, b.reactions)
        _ORDER[k] = ([s.get_name() for s in sp], [str(r) for r in rs])
    return _ORDER[k]


def add_species(b, name, sid=None):
    _, charge, mass, _, extra = U.SPECIES[name]
    attrs = {k: v for k, v in extra.items()}
    if mass is not None:
        attrs['mass'] = mass
    if charge is not None:
        attrs['charge'] = charge
    b.add_rp_from_attributes(rp_id=sid, rp_attributes=dict(attrs, name=name))


def add_by_names(b, lhs, rhs, rid=None, a=1e-9):
    unit = {1: 's-1', 2: 'm3.s-1', 3: 'm6.s-1'}[len(lhs)]
    b.add_reaction_from_attributes(lhs, rhs, r_id=rid, r_attributes={'arrh_a': a}, r_units={'arrh_a': unit})


def step(op, b, m, d):
    """Run the step on both; returns ('ok'|'err') of both."""
    path = os.path.join(d, 'out.xml')
    kind = op[0]
    if kind == 'r':
        lhs, rhs = U.POOL[op[1]]
        for n in lhs + rhs:
            m.add_sp(U.SPECIES[n][0], n)
        m.reactions.append([op[1], text(lhs, rhs), U.shared_species()[1][op[1]].get_arrh_a()])
        return 'ok', outcome(b.add_reaction_from_instance, U.shared_species()[1][op[1]])[0]
    if kind == 'sp':
        want = 'err' if op[1] in m.names() else 'ok'
        if want == 'ok':
            m.add_sp(999, op[1])
        return want, outcome(add_species, b, op[1])[0]
    if kind == 'rattr':
        lhs, rhs = ('e', 'Ar+'), ('Ar',)
        want = 'ok' if set(lhs + rhs) <= set(m.names()) else 'err'
        if want == 'ok':
            m.reactions.append([999, text(lhs, rhs), 5e-9])
        return want, outcome(add_by_names, b, lhs, rhs, None, 5e-9)[0]
    if kind == 'xml':
        rid, (lhs, rhs) = SRC
        for n in lhs + rhs:
            m.add_sp(U.SPECIES[n][0], n)
        m.reactions.append([rid, text(lhs, rhs), U.shared_species()[1][rid].get_arrh_a()])
        return 'ok', outcome(b.add_chemistry_from_xml, source_file(d))[0]
    if kind == 'ids_s':
        number_species(m)
        return 'ok', outcome(b.assign_species_ids)[0]
    if kind == 'ids_r':
        number_reactions(m)
        return 'ok', outcome(b.assign_reactions_ids)[0]
    if kind == 'ids':
        number_species(m)
        number_reactions(m)
        return 'ok', outcome(b.assign_ids)[0]
    if kind == 'sort':
        sids, rids = [s[0] for s in m.species], [r[0] for r in m.reactions]
        dup_s, dup_r = len(set(sids)) < len(sids), len(set(rids)) < len(rids)
        sp_order, r_order = canonical(m.names(), [r[1] for r in m.reactions])
        m.species.sort(key=lambda s: sp_order.index(s[1]))
        m.reactions.sort(key=lambda r: r_order.index(r[1]))
        if dup_s:
            number_species(m)
        if dup_r:
            number_reactions(m)
        return 'ok', outcome(b.sort_elements)[0]
    if kind == 'dump':
        want = 'err' if m.file is not None and not op[1] else 'ok'
        before = open(path, 'rb').read() if m.file is not None else None
        got = outcome(b.dump_xml, path, overwrite=op[1])[0]
        if want == 'err':
            same(open(path, 'rb').read(), before, 'the existing file')
        else:
            m.file = repr((m.species, m.reactions))
            check(os.path.isfile(path), 'nothing was written')
        if m.file is not None and got == want:
            sp, rs = XmlParser().get_species_and_reactions(path)
            same(repr(listing(sp, rs)), m.file, 'contents of the file')
        return want, got
    if kind == 'reset':
        m.species, m.reactions = [], []
        return 'ok', outcome(b.reset_chemistry)[0]
    raise AssertionError(op)


def listing(sp, rs):
    return [[s.id, s.get_name()] for s in sp], [[r.id, str(r), r.get_arrh_a()] for r in rs]


def play(seq, d, res, seen):
    path = os.path.join(d, 'out.xml')
    if os.path.exists(path):
        os.remove(path)
    b, m = XmlBuilder(), Model()
    for n, i in enumerate(seq):
        want, got = step(OPS[i], b, m, d)
        last = n == len(seq) - 1
        if last:
            same(got, want, 'outcome of {} after {}'.format(OPS[i], [OPS[j] for j in seq[:n]]))
            sp, rs = XmlParser.get_species_and_reactions_from_xml_elements(b.species, b.reactions)
            same(listing(sp, rs), (m.species, m.reactions), 'contents after {}'.format([OPS[j] for j in seq]))
            same(sorted(b.species_dict), sorted(m.names()), 'species known to the builder')
            res.count('transitions')
        elif got != want:
            return False   # reported on the shorter sequence
    res.see('states', m.key())
    new = len(seq) < seen.get(m.key(), 99)
    if new:
        seen[m.key()] = len(seq)
    return new


def run_sequences(shard, d, res):
    seen = {}
    # breadth first below each two-step prefix; a state reached before in this shard at no greater depth is not extended
    for a, b in shard['prefixes']:
        frontier = [(a, b)]
        with res.case({'seq': [a]}):
            play((a,), d, res, seen)
        while frontier:
            nxt = []
            for seq in frontier:
                new = False
                with res.case({'seq': list(seq)}):
                    new = play(seq, d, res, seen)
                if res.full:
                    return
                if new and len(seq) < shard['depth']:
                    nxt.extend(seq + (i,) for i in range(len(OPS)))
            frontier = nxt


# ------------------------------------------------------------------------------------------------ insertion orders
def build(rids, names):
    b = XmlBuilder()
    sp, rs = U.shared_species()
    for n in names:
        b.add_rp_from_instance(sp[n])
    for r in rids:
        b.add_reaction_from_instance(rs[r])
    return b


def check_order(rids, names, want, res):
    b = build(rids, names)
    before = sorted((e.attrib['id'], e.find('name').text) for e in b.species)
    b.sort_elements()
    sp, rs = XmlParser.get_species_and_reactions_from_xml_elements(b.species, b.reactions)
    got = listing(sp, rs)
    if want is not None:
        same(got, want, 'sorted after inserting {} {}'.format(names, rids), key='order of insertion matters')
    same(sorted((e.attrib['id'], e.find('name').text) for e in b.species), before, 'species after sorting')
    same(sorted(r.id for r in rs), sorted(rids), 'reactions after sorting')
    for r in rs:
        orig = U.shared_species()[1][r.id]
        same((str(r), r.get_arrh_a()), (str(orig), orig.get_arrh_a()), 'reaction after sorting')
    b.sort_elements()
    sp, rs = XmlParser.get_species_and_reactions_from_xml_elements(b.species, b.reactions)
    same(listing(sp, rs), got, 'sorted twice')
    b.assign_ids()
    sp, rs = XmlParser.get_species_and_reactions_from_xml_elements(b.species, b.reactions)
    same([s.get_name() for s in sp], [n for _, n in got[0]], 'species after numbering')
    same([r.id for r in rs], list(range(1, len(rids) + 1)), 'reaction ids')
    n = 1
    for s in sp:
        if s.get_name() in ('e', 'M'):
            same(s.id, 0 if s.get_name() == 'e' else 999, 'id of ' + s.get_name())
        else:
            same(s.id, n, 'id of ' + s.get_name())
            n += 1
    same([(str(r), r.get_arrh_a()) for r in rs], [(t, a) for _, t, a in got[1]], 'reactions after numbering')
    res.count('traces_validated_against_impl')
    return got


def run_orders(rids, res):
    net = U.Net(rids)
    want = None
    with res.case({'net': list(rids), 'order': [list(rids), []]}):
        want = check_order(rids, [], None, res)
    for p in itertools.permutations(rids):
        with res.case({'net': list(rids), 'order': [list(p), []]}):
            check_order(p, [], want, res)
        if res.full:
            return
    names = net.names[:5]
    for p in itertools.permutations(names):
        rest = [n for n in net.names if n not in p]
        with res.case({'net': list(rids), 'order': [list(rids), list(p)]}):
            check_order(rids, rest + list(p), want, res)
        if res.full:
            return
    res.see('distinct_nontrivial', repr(want))


def run(shard, tier):
    res = Result()
    with scratch() as d:
        if shard['kind'] == 'seq':
            run_sequences(shard, d, res)
        else:
            run_orders(tuple(shard['net']), res)
    return res


def replay(case):
    res = Result()
    with scratch() as d:
        if 'seq' in case:
            with res.case(case):
                play(tuple(case['seq']), d, res, {})
        else:
            run_orders(tuple(case['net']), res)
    return res
