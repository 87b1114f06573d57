"""A pool of small plasma chemistries, with identifiers chosen so that position, species id and reaction id never
coincide, and the reference (pure Python) notion of a network."""
import itertools

from plaschem.species import RP
from plaschem.reactions import Reaction
from plaschem.chemistry import Chemistry

# name: (id, charge, mass, element counts, extra constructor arguments); dict order is the order in the chemistry
SPECIES = {
    'H2': (9, 0, 2.016, {'H': 2}, {'lj_sigma': 2.92}),
    'Ar+': (25, 1, 39.948, {'Ar': 1}, {'lj_sigma': 3.5}),
    'e': (7, -1, 5.4858e-4, {}, {}),
    'Ar': (12, 0, 39.948, {'Ar': 1}, {'lj_sigma': 3.54}),
    'H-': (5, -1, 1.008, {'H': 1}, {}),
    'M': (40, None, None, {'M': 1}, {}),
    'Ar*': (3, 0, 39.948, {'Ar': 1}, {'state': '*', 'stateless': 'Ar', 'lj_sigma': 3.6}),
    'H': (31, 0, 1.008, {'H': 1}, {'lj_sigma': 2.7, 'stick_coef': 0.5, 'ret_coefs': {'H2': 0.5}}),
    'H+': (18, 1, 1.008, {'H': 1}, {}),
}

POOL = {
    3: (('e', 'Ar'), ('e', 'e', 'Ar+')),
    11: (('e', 'Ar'), ('e', 'Ar')),
    5: (('e', 'Ar'), ('e', 'Ar*')),
    8: (('e', 'Ar*'), ('e', 'e', 'Ar+')),
    2: (('Ar*', 'M'), ('Ar', 'M')),
    14: (('e', 'Ar+'), ('Ar',)),
    7: (('e', 'H2'), ('e', 'H', 'H')),
    9: (('e', 'H'), ('e', 'e', 'H+')),
    4: (('Ar+', 'H'), ('Ar', 'H+')),
    20: (('H', 'H', 'M'), ('H2', 'M')),
    6: (('e', 'H2'), ('H', 'H-')),
    13: (('H-', 'H+'), ('H', 'H')),
    1: (('H-', 'Ar+'), ('H', 'Ar')),
    10: (('e', 'H+', 'M'), ('H', 'M')),
}

DEFAULT_RET = {'Ar+': {'Ar': 1.0}, 'Ar*': {'Ar': 1.0}, 'H+': {'H': 1.0}, 'H-': {'H': 1.0}, 'H': {'H2': 0.5},
               'Ar': {}, 'H2': {}}
DEFAULT_STICK = {'Ar+': 1.0, 'Ar*': 1.0, 'H+': 1.0, 'H-': 1.0, 'H': 0.5, 'Ar': 0.0, 'H2': 0.0}
SPECIAL = {'e', 'M'}

# arrh_a in nominal units by (reaction id); deliberately distinct
def arrh(rid):
    return {'arrh_a': (3.0 + rid) * 1e-15, 'arrh_b': 0.5 * (rid % 3), 'arrh_c': 0.25 * (rid % 5)}


def charge_of(name):
    return SPECIES[name][1]


def build_species(names=None, overrides=None, ids=None):
    overrides = overrides or {}
    out = {}
    for name in (names or SPECIES):
        sid, charge, mass, _, extra = SPECIES[name]
        kw = dict(extra)
        if mass is not None:
            kw['mass'] = mass
        if charge is not None:
            kw['charge'] = charge
        kw.update(overrides.get(name, {}))
        kw = {k: v for k, v in kw.items() if v is not Ellipsis}
        out[name] = RP((ids or {}).get(name, sid), name=name, **kw)
    return out


def build_reaction(rid, lhs, rhs, sp, **attrs):
    unit = {1: 's-1', 2: 'cm3.s-1' if rid % 2 else 'm3.s-1', 3: 'cm6.s-1' if rid % 2 else 'm6.s-1'}[len(lhs)]
    a = dict(arrh(rid))
    a.update(attrs)
    units = {'arrh_a': unit, 'arrh_c': 'eV' if 'e' in lhs else 'K'}
    return Reaction(rid, [sp[x] for x in lhs], [sp[x] for x in rhs], attributes=a,
                    units={k: v for k, v in units.items() if k in a})


class Net(object):
    """Reference network: names, ids, charges, participants. Nothing here uses the code under test."""

    def __init__(self, rids, pool=POOL, species=SPECIES, extra_species=()):
        self.rids = tuple(rids)
        self.pool = pool
        used = set(extra_species)
        for r in self.rids:
            used.update(pool[r][0], pool[r][1])
        self.names = [n for n in species if n in used]
        self.id_of = {n: species[n][0] for n in self.names}
        self.name_of = {i: n for n, i in self.id_of.items()}
        self.sids = [self.id_of[n] for n in self.names]
        self.parts = {r: {self.id_of[x] for x in set(pool[r][0]) | set(pool[r][1])} for r in self.rids}
        self.ions = {self.id_of[n] for n in self.names if n not in SPECIAL and species[n][1] > 0}

    def consistent(self):
        """May this network be constructed at all (with default return species)?"""
        if 'e' not in self.names or not self.ions:
            return False
        for n in self.names:
            for ret in DEFAULT_RET.get(n, {}):
                if ret not in self.names:
                    return False
        return True

    def initially_protected(self):
        p = {self.id_of['e']}
        if len(self.ions) == 1:
            p |= self.ions
        return p

    def closure(self, sp, r, drop_sp=(), drop_r=()):
        """Largest consistent sub-network of (sp, r) avoiding the dropped items."""
        sp, r = set(sp) - set(drop_sp), set(r) - set(drop_r)
        while True:
            r2 = {x for x in r if self.parts[x] <= sp}
            used = set().union(*[self.parts[x] for x in r2]) if r2 else set()
            sp2 = sp & used
            if sp2 == sp and r2 == r:
                return frozenset(sp), frozenset(r)
            sp, r = sp2, r2

    def closure_brute(self, sp, r, drop_sp=(), drop_r=()):
        """The same by definition: union of all consistent sub-networks (used to validate `closure`)."""
        sp, r = set(sp) - set(drop_sp), sorted(set(r) - set(drop_r))
        best_s, best_r = set(), set()
        for k in range(len(r) + 1):
            for rs in itertools.combinations(r, k):
                need = set().union(*[self.parts[x] for x in rs]) if rs else set()
                if need <= sp:
                    best_s |= need
                    best_r |= set(rs)
        return frozenset(best_s), frozenset(best_r)


_CACHE = {}


def shared_species():
    if 'sp' not in _CACHE:
        _CACHE['sp'] = build_species()
        _CACHE['r'] = {rid: build_reaction(rid, l, r, _CACHE['sp']) for rid, (l, r) in POOL.items()}
    return _CACHE['sp'], _CACHE['r']


def make(net, cls=Chemistry):
    """Chemistry for a reference network over the shared pool objects."""
    sp, rs = shared_species()
    return cls(species=[sp[n] for n in net.names], reactions=[rs[r] for r in net.rids])


def networks(sizes, pool=POOL):
    for k in sizes:
        for rids in itertools.combinations(pool, k):
            net = Net(rids, pool)
            if net.consistent():
                yield net
