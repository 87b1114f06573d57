"""P14: classification is total, single-valued and order independent; sorting permutes; aligned strings read as reactions."""
import itertools

from plaschem.classification import ReactionClassifier
from plaschem.reactions import Reaction
from plaschem.species import RP

from mc.core import Result, check, chunks, outcome, same

LEVEL = 'model_checking'
RULE = 'every conserving reaction over an alphabet, classified alone, among all others, with participants in every order; ' \
       'all permutations of species and reaction sets before sorting; all sequences of classifier calls up to a depth'
BOUNDS = {'quick': 'alphabet of 10 species, 1-3 reactants and products; call sequences to depth 4 over 3 sets of reactions',
          'thorough': 'alphabet of 13 species; call sequences to depth 6 over 8 sets'}
ASSUMPTIONS = ['species of at most three elements (documented limit of the sorting)']

ALPHABET = [('e', -1, {}, {}), ('H', 0, {'H': 1}, {}), ('H+', 1, {'H': 1}, {}), ('H-', -1, {'H': 1}, {}),
            ('H*', 0, {'H': 1}, {'state': '*', 'stateless': 'H'}), ('H2', 0, {'H': 2}, {}), ('H2+', 1, {'H': 2}, {}),
            ('Ar', 0, {'Ar': 1}, {}), ('Ar++', 2, {'Ar': 1}, {}), ('M', None, {'M': 1}, {}),
            ('Ar*', 0, {'Ar': 1}, {'state': '*', 'stateless': 'Ar'}), ('Ar+', 1, {'Ar': 1}, {}),
            ('H2(v=1)', 0, {'H': 2}, {'state': 'v=1', 'stateless': 'H2'})]
INFO = {n: (c or 0, a) for n, c, a, _ in ALPHABET}
SP = {}
for _i, (_n, _c, _a, _x) in enumerate(ALPHABET):
    _kw = dict(_x)
    if _c is not None:
        _kw.update(charge=_c, mass=1. + _i)
    SP[_n] = RP(5 + (7 * _i) % 13, name=_n, **_kw)


def balance(side):
    atoms = {}
    for n in side:
        for k, v in INFO[n][1].items():
            atoms[k] = atoms.get(k, 0) + v
    return sum(INFO[n][0] for n in side), tuple(sorted(atoms.items()))


def reactions_over(names):
    sides = [m for k in (1, 2, 3) for m in itertools.combinations_with_replacement(names, k)]
    by = {}
    for s in sides:
        by.setdefault(balance(s), []).append(s)
    for lhs in sides:
        for rhs in by[balance(lhs)]:
            yield lhs, rhs


def make(rid, lhs, rhs, loss=None):
    attrs, units = {'arrh_a': 1e-15}, {'arrh_a': {1: 's-1', 2: 'cm3.s-1', 3: 'cm6.s-1'}[len(lhs)]}
    if loss is not None:
        attrs['el_en_loss'] = loss
    return Reaction(rid, [SP[x] for x in lhs], [SP[x] for x in rhs], attributes=attrs, units=units)


def shards(tier):
    names = [a[0] for a in ALPHABET[:10 if tier == 'quick' else 13]]
    out = [{'kind': 'each', 'reactions': c, 'names': names} for c in chunks(reactions_over(names), 24)]
    for i in range(3 if tier == 'quick' else len(SETS)):
        for p in range(len(ops_of(SETS[i]))):
            out.append({'kind': 'calls', 'set': i, 'first': p, 'depth': 4 if tier == 'quick' else 6})
    for i in range(len(SETS)):
        out.append({'kind': 'orders', 'set': i})
    for c in chunks(range(len(ORDERED)), 8):
        out.append({'kind': 'documented', 'firsts': c})
    return out


def category(classifier, r):
    """The only place of the reaction in the classified reactions."""
    found = [(t, c) for t, cats in classifier.get_classified_reactions().items() for c, rs in cats.items()
             for x in rs if x is r]
    same(len(found), 1, 'places of {} in the classification: {}'.format(r, found), key='partition')
    scheme = {(t, c) for t, cats in ReactionClassifier.classification_scheme for c in cats}
    check(found[0] in scheme, '{} falls into {}, which is not in the scheme', r, found[0])
    return found[0]


def check_reaction(lhs, rhs, names, res):
    species = [SP[n] for n in names]
    other = make(999, ('e', 'H'), ('e', 'e', 'H+'))
    want = {}
    lefts = set(itertools.permutations(lhs))
    rights = set(itertools.permutations(rhs))
    for loss in (None, 2.5):
        for n, (a, b) in enumerate(itertools.product(sorted(lefts), sorted(rights))):
            r = make(7, a, b, loss)
            sp = species if n % 2 else species[::-1]
            rs = [[r], [other, r], [r, other]][n % 3]
            got = category(ReactionClassifier(sp, rs), r)
            if loss not in want:
                want[loss] = got
            same(got, want[loss], 'class of {} (el. energy loss {})'.format(r, loss), key='order dependent class')
            res.count('traces_validated_against_impl')
    res.see('distinct_nontrivial', (lhs, rhs))


def check_all_together(reactions, names, res):
    rs = [make(i + 1, l, r) for i, (l, r) in enumerate(reactions)]
    alone = {}
    for r in rs:
        alone[r.id] = category(ReactionClassifier(r.get_reactants() + r.get_products(), [r]), r)
    for order in (rs, rs[::-1]):
        cls = ReactionClassifier([SP[n] for n in names], order)
        seen = {}
        for t, cats in cls.get_classified_reactions().items():
            for c, items in cats.items():
                for x in items:
                    check(x.id not in seen, '{} is in {} and {}', x, seen.get(x.id), (t, c))
                    seen[x.id] = (t, c)
        same(seen, alone, 'classes of all reactions together')
        res.count('traces_validated_against_impl', len(rs))


# ------------------------------------------------------------------------------------------------ sets of reactions
SETS = [
    [(('e', 'H'), ('e', 'H')), (('Ar', 'e'), ('Ar', 'e')), (('e', 'H2'), ('H2', 'e')), (('H-', 'H+'), ('H', 'H'))],
    [(('H2+', 'H'), ('H+', 'H2')), (('Ar+', 'H'), ('Ar', 'H+')), (('M', 'H', 'H'), ('H2', 'M'))],
    [(('e', 'H2'), ('H', 'H', 'e')), (('e', 'H2(v=1)'), ('e', 'H', 'H')), (('H*',), ('H',)), (('e', 'H2'), ('e', 'H2'))],
    [(('e', 'Ar'), ('e', 'e', 'Ar+')), (('e', 'H'), ('H+', 'e', 'e')), (('e', 'H2'), ('e', 'e', 'H2+'))],
    [(('H', 'Ar*'), ('H', 'Ar')), (('H2', 'Ar*'), ('Ar', 'H2')), (('H*', 'M'), ('H', 'M')), (('H', 'H2'), ('H2', 'H'))],
    [(('Ar', 'Ar+'), ('Ar+', 'Ar')), (('H+', 'H'), ('H', 'H+')), (('e', 'H+', 'M'), ('H', 'M'))],
    [(('e', 'Ar'), ('e', 'Ar')), (('e', 'Ar'), ('e', 'Ar')), (('e', 'H2(v=1)'), ('e', 'H2(v=1)'))],
    [(('e', 'Ar+'), ('e', 'e', 'Ar++')), (('Ar++', 'Ar'), ('Ar+', 'Ar+')), (('e', 'Ar++'), ('Ar+',))],
    [(('H', 'H'), ('H2',)), (('H*', 'H'), ('H2(v=1)',)), (('H-', 'H'), ('H2', 'e')), (('H-', 'Ar'), ('H', 'Ar', 'e'))],
]


ELEMENTS = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr '
            'Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os '
            'Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf').split()
# name: (charge, (element, count), ..., excited)
ORDERED = [('e', -1, (), 0), ('M', 0, (), 0), ('H', 0, (('H', 1),), 0), ('H+', 1, (('H', 1),), 0),
           ('H-', -1, (('H', 1),), 0), ('H*', 0, (('H', 1),), 1), ('H2', 0, (('H', 2),), 0), ('H2+', 1, (('H', 2),), 0),
           ('H3+', 1, (('H', 3),), 0), ('H9', 0, (('H', 9),), 0), ('Ne', 0, (('Ne', 1),), 0), ('Ne+', 1, (('Ne', 1),), 0),
           ('Ne+2', 2, (('Ne', 1),), 0), ('Ne+3', 3, (('Ne', 1),), 0), ('Ne*', 0, (('Ne', 1),), 1),
           ('O-', -1, (('O', 1),), 0), ('O-2', -2, (('O', 1),), 0), ('O2', 0, (('O', 2),), 0), ('O2-', -1, (('O', 2),), 0),
           ('O2*', 0, (('O', 2),), 1), ('CO', 0, (('C', 1), ('O', 1)), 0), ('CO+', 1, (('C', 1), ('O', 1)), 0),
           ('CO2', 0, (('C', 1), ('O', 2)), 0), ('C2O', 0, (('C', 2), ('O', 1)), 0), ('CH4', 0, (('C', 1), ('H', 4)), 0),
           ('CF', 0, (('C', 1), ('F', 1)), 0), ('CFH', 0, (('C', 1), ('F', 1), ('H', 1)), 0),
           ('CFH2', 0, (('C', 1), ('F', 1), ('H', 2)), 0), ('SiF4', 0, (('Si', 1), ('F', 4)), 0)] + \
    [(x, 0, ((x, 1),), 0) for x in ELEMENTS if x not in ('H', 'Ne')]


def position(entry):
    """The documented order: fewer and lighter elements first, ground state, positive, negative, excited; M last."""
    n, c, atoms, excited = entry
    return (n == 'M', len(atoms), [(ELEMENTS.index(a), k) for a, k in atoms], excited, max(-c, 0), max(c, 0))


def check_documented(entries, res):
    objs = {}
    for i, (n, c, atoms, excited) in enumerate(entries):
        kw = {} if n == 'M' else {'mass': 1. + i, 'charge': c}
        if excited:
            kw.update(state='*', stateless=n[:-1])
        objs[n] = RP(i, name=n, **kw)
    want = [x[0] for x in sorted(entries, key=position)]
    for p in itertools.permutations(entries) if len(entries) < 4 else (entries, entries[::-1]):
        cls = ReactionClassifier([objs[x[0]] for x in p], [])
        cls.sort_species()
        same([s.get_name() for s in cls.species], want, 'species sorted from {}'.format([x[0] for x in p]),
             key='species order')
        res.count('traces_validated_against_impl')


def items(i):
    rs = [make(30 - 3 * n, l, r) for n, (l, r) in enumerate(SETS[i])]
    used = {n for l, r in SETS[i] for n in l + r}
    return [SP[a[0]] for a in ALPHABET if a[0] in used], rs


def ops_of(rset):
    return [('sort_species',), ('sort_reactions',), ('classify',), ('renew', 0), ('renew', 1)] + \
        [('align', n) for n in range(len(rset))]


def unpad(s):
    lhs, rhs = s.split(' > ')
    return tuple(tuple(sorted(x.strip() for x in side.split(' + ') if x.strip())) for side in (lhs, rhs))


def shape(s):
    """Positions of the separators."""
    return [i for i in range(len(s)) if s.startswith((' + ', ' > '), i)] + [len(s)]


_CLASSES = {}


def check_calls(i, seq, res):
    if i not in _CLASSES:
        species, rs = items(i)
        _CLASSES[i] = species, rs, {r.id: category(ReactionClassifier(species, [r]), r) for r in rs}
    species, rs, want_class = _CLASSES[i]
    cls = ReactionClassifier(species[::-1], rs)
    classified = False
    strings = {}
    for n, op in enumerate(seq):
        w = 'after {}'.format(seq[:n + 1])
        if op[0] == 'sort_species':
            cls.sort_species()
            classified, strings = False, {}
        elif op[0] == 'sort_reactions':
            cls.sort_reactions()
            classified, strings = False, {}
        elif op[0] == 'renew':
            cls.set_new_chemistry(species if op[1] else species[::-1], rs[::-1] if op[1] else rs)
            classified, strings = False, {}
        elif op[0] == 'classify':
            got = {x.id: (t, c) for t, cats in cls.get_classified_reactions().items() for c, xs in cats.items()
                   for x in xs}
            same(got, want_class, w + ': classes')
            classified = True
        else:
            r = rs[op[1]]
            kind, s = outcome(cls.get_aligned_reaction_string, r)
            if kind == 'err':
                check(not classified and s == 'KeyError', '{}: aligning {} raised {}', w, r, s)
            else:
                want = (tuple(sorted(x.get_name() for x in r.get_reactants())),
                        tuple(sorted(x.get_name() for x in r.get_products())))
                same(unpad(s), want, '{}: aligned string {!r}'.format(w, s), key='aligned string')
                if classified:
                    strings[op[1]] = s
                    for m, t in strings.items():
                        if want_class[rs[m].id] == want_class[r.id]:
                            same(shape(t), shape(s), '{}: {!r} and {!r} are not aligned'.format(w, t, s), key='alignment')
        same(sorted(x.id for x in cls.species), sorted(x.id for x in species), w + ': species')
        same(sorted(x.id for x in cls.reactions), sorted(x.id for x in rs), w + ': reactions')
        res.count('transitions')
    res.see('states', (i, tuple(x.id for x in cls.species), tuple(x.id for x in cls.reactions), classified,
                       tuple(sorted(strings.items()))))


def check_orders(i, res):
    species, rs = items(i)
    want_s = want_r = None
    for p in itertools.permutations(range(len(species))):
        cls = ReactionClassifier([species[k] for k in p], rs)
        cls.sort_species()
        got = [s.get_name() for s in cls.species]
        if want_s is None:
            want_s = got
        same(got, want_s, 'sorted species from order {}'.format(p), key='species order')
        res.count('traces_validated_against_impl')
    texts = [str(r) for r in rs]
    for p in itertools.permutations(range(len(rs))):
        for sp in (species, species[::-1]):
            cls = ReactionClassifier(sp, [rs[k] for k in p])
            cls.sort_species()
            cls.sort_reactions()
            got = [str(s) for s in cls.reactions]
            if want_r is None:
                want_r = got
            same(got, want_r, 'sorted reactions from order {}'.format(p), key='reaction order')
            same(sorted(got), sorted(texts), 'sorted reactions')
            res.count('traces_validated_against_impl')


def run(shard, tier):
    res = Result()
    if shard['kind'] == 'each':
        for lhs, rhs in shard['reactions']:
            with res.case({'kind': 'each', 'reactions': [[lhs, rhs]], 'names': shard['names']}):
                check_reaction(tuple(lhs), tuple(rhs), shard['names'], res)
            if res.full:
                return res
        with res.case(shard):
            check_all_together(shard['reactions'], shard['names'], res)
    elif shard['kind'] == 'calls':
        ops = ops_of(SETS[shard['set']])
        for rest in itertools.product(range(len(ops)), repeat=shard['depth'] - 1):
            seq = [ops[k] for k in (shard['first'],) + rest]
            with res.case({'kind': 'seq', 'set': shard['set'], 'seq': seq}):
                check_calls(shard['set'], seq, res)
            if res.full:
                return res
    elif shard['kind'] == 'documented':
        with res.case(shard):
            check_documented(ORDERED, res)
            for i in shard['firsts']:
                for j in range(i + 1, len(ORDERED)):
                    check_documented([ORDERED[i], ORDERED[j]], res)
                    for k in range(j + 1, 29):
                        check_documented([ORDERED[i], ORDERED[j], ORDERED[k]], res)
    else:
        with res.case(shard):
            check_orders(shard['set'], res)
    return res


def replay(case):
    if case['kind'] != 'seq':
        return run(case, 'quick')
    res = Result()
    with res.case(case):
        check_calls(case['set'], [tuple(o) for o in case['seq']], res)
    return res
