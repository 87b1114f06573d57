"""Chemistries of the pool (plain, reduced, overridden), their model parameters and the matching physics reference."""
import copy
import itertools

import numpy as np

from plaschem.chemistry import Chemistry
from pygmo_fwork.pygmol.neutral_model import NeutralChemistry

from mc import refchem as R
from mc import universe as U
from mc.refphys import KB, Phys

POOL = dict(U.POOL)
POOL[15] = (('e', 'H2'), ('e', 'H2'))
POOL[16] = (('e', 'H'), ('e', 'H'))
POOL[17] = (('Ar', 'e'), ('Ar', 'e'))
LOSS = {3: 15.76, 5: 11.5, 8: 4.2, 7: 4.5, 9: 13.6, 6: 3.7, 16: 2.5, 15: 9., 14: 1.25}
ELASTIC = {16: False}

NEUTRAL_POOL = {
    2: (('Ar*', 'M'), ('Ar', 'M')), 21: (('Ar*',), ('Ar',)), 22: (('H', 'H'), ('H2',)), 20: (('H', 'H', 'M'), ('H2', 'M')),
    23: (('H2',), ('H', 'H')), 24: (('Ar*', 'H2'), ('Ar', 'H', 'H')), 25: (('Ar', 'M'), ('Ar*', 'M')),
    26: (('H2', 'M'), ('H', 'H', 'M')),
}




class Setup(object):
    """rids: reactions; ops: reference operations (disable, override...) done on the chemistry after construction."""

    def __init__(self, rids, ops=(), params=None, neutral=False, wall_model=1, extra=()):
        self.neutral = neutral
        pool = NEUTRAL_POOL if neutral else POOL
        self.net = U.Net(rids, pool, extra_species=extra)
        self.sp = U.build_species(self.net.names)
        self.rs = {}
        for r in rids:
            attrs = {}
            if r in LOSS and not neutral:
                attrs['el_en_loss'] = LOSS[r]
            if r in ELASTIC and not neutral:
                attrs['elastic'] = ELASTIC[r]
            self.rs[r] = U.build_reaction(r, pool[r][0], pool[r][1], self.sp, **attrs)
        cls = NeutralChemistry if neutral else Chemistry
        self.chem = cls(species=[self.sp[n] for n in self.net.names], reactions=[self.rs[r] for r in rids])
        self.ref = R.Ref(self.net, not neutral)
        drv = R.Driver(self.chem, None)
        for op in ops:
            op = R.tup(op)
            if self.ref.apply(op, {}) != 'ok':
                raise AssertionError('setup operation {} is not possible'.format(op))
            drv.apply(op)
        self.par = dict({'r': 0.02, 'z': 0.05, 'p': 10., 't_end': 1., 'P': [500., 500.], 't_P': [0., 2.], 'feeds': {},
                         'Tg': 400.}, **(params or {}))
        self.wall_model = wall_model
        self.refresh()

    def fresh(self):
        """An independent setup in the same state, sharing only the species and reactions objects."""
        other = copy.copy(self)
        memo = {id(x): x for x in list(self.chem.get_species(disabled=True, special=True)) +
                list(self.chem.get_reactions(disabled=True))}
        other.chem = copy.deepcopy(self.chem, memo)
        other.ref = self.ref.clone()
        other.par = copy.deepcopy(self.par)
        other.refresh()
        return other

    def refresh(self):
        """Rebuild the physics reference from the reference state of the chemistry."""
        ref, net = self.ref, self.net
        self.names = [n for n in net.names if net.id_of[n] in ref.sp and n not in U.SPECIAL]
        info = {}
        for n in self.names:
            _, charge, mass, _, kw = U.SPECIES[n]
            info[n] = {'charge': charge, 'mass': mass, 'sigma': kw.get('lj_sigma', 3.), 'stick': ref.stick_of(net.id_of[n]),
                       'ret': ref.ret_of(net.id_of[n])}
        self.info = info
        self.rids = [r for r in net.rids if r in ref.rs]
        reactions = []
        for r in self.rids:
            lhs, rhs = net.pool[r]
            a = U.arrh(r)
            reactions.append({'id': r, 'lhs': lhs, 'rhs': rhs, 'a': ref.arrh_of(r, True), 'b': a['arrh_b'],
                              'c': a['arrh_c'], 'loss': 0. if self.neutral else LOSS.get(r, 0.),
                              'elastic': (set(lhs) == set(rhs)) if self.neutral or r not in ELASTIC else ELASTIC[r]})
        self.reactions = reactions
        self.phys = Phys(self.names, info, reactions, self.par, self.neutral, self.wall_model)

    @property
    def n0(self):
        return self.par['p'] / KB / self.par['Tg']

    def params(self):
        return dict(self.par)

    def vector(self, fractions, te):
        """State vector from fractions of the nominal total density, and the electron temperature in eV."""
        n = [self.n0 * f for f in fractions]
        ne = sum(a * self.info[x]['charge'] for a, x in zip(n, self.names))
        return np.array(n + [0. if self.neutral else 1.5 * ne * te])

    def grid(self, levels_neutral=(1e-3, 0.7), levels_pos=(1e-5, 1e-3), levels_neg=(3e-7,), tes=(2.3,)):
        """All states of a product grid (positive charge density by construction when the levels are chosen so)."""
        opts = []
        for x in self.names:
            c = self.info[x]['charge']
            opts.append(levels_neutral if c == 0 else levels_pos if c > 0 else levels_neg)
        for te in tes:
            for f in itertools.product(*opts):
                # make the densities of the species distinct
                yield self.vector([v * (1 + 0.1 * i) for i, v in enumerate(f)], te)


# plain, reduced and overridden chemistries used by the model checks (ids of the species: see universe.SPECIES)
SETUPS = [
    dict(rids=(3, 5, 8, 2, 14, 11), params={'feeds': {'Ar': 20}}),
    dict(rids=(7, 9, 20, 6, 13, 16, 15), params={'feeds': {'H2': 5.5}, 'Tg': 350}),
    dict(rids=(3, 7, 9, 4, 6, 1, 17, 20), params={'feeds': {'Ar': 10, 'H2': 2}, 'p': 50.}),
    dict(rids=(3, 14), params={'feeds': {}}),
    dict(rids=(3, 5, 8, 7, 9, 10), ops=[('dis_s', 3)], params={'feeds': {'Ar': 1.}, 'p': 100.}),
    dict(rids=(3, 7, 9, 4, 6, 1), ops=[('stick', 31, 0.), ('ret', 18, (('H', 0.5), ('H2', 0.25))), ('arrh', 9, 4e-14),
                                       ('stick', 12, 0.25), ('ret', 12, (('Ar', 1.),))], params={'feeds': {'H2': 3.}}),
    dict(rids=(3, 7, 9, 13, 6, 11), ops=[('dis_s', 5)], wall_model=0, params={'feeds': {'Ar': 7.}}),
    dict(rids=(7, 9, 10, 20), ops=[('ret', 31, (('H2', 0.25), ('H', 0.5)))], wall_model=0, params={'feeds': {'H2': 30.}}),
]
NEUTRAL_SETUPS = [
    dict(rids=(2, 21, 25), neutral=True, params={'feeds': {'Ar': 3.}}),
    dict(rids=(22, 26, 24, 25), neutral=True, params={'feeds': {'H2': 5., 'Ar': 1.}}),
    dict(rids=(20, 23, 21, 25), neutral=True, ops=[('stick', 12, 0.5), ('ret', 12, (('H2', 0.125), ('Ar', 0.5)))]),
    dict(rids=(20, 23, 21, 25), neutral=True, ops=[('dis_r', 20)], wall_model=0),
]
