"""P12: what is written to XML comes back; disabled items are left out; merged sources keep everything once."""
import itertools
import os

import numpy as np

from plaschem.chemistry import Chemistry
from plaschem.reactions import Reaction
from plaschem.species import RP
from plaschem.xml_inputs import XmlBuilder, XmlParser

from mc import refchem as R
from mc import universe as U
from mc.core import Result, check, chunks, outcome, same, scratch

LEVEL = 'exploration'
RULE = 'single species and reactions with every combination of values for every pair (triple) of attributes and with all ' \
       'presence patterns (at most two missing) of all attributes; every consistent sub-network of pool networks; all ordered pairs of sources ' \
       'merged as object or file'
BOUNDS = {'quick': 'value pairs; networks of 2 and 3 reactions; 14 x 14 merges x 4 kinds of source',
          'thorough': 'value triples; networks of 2 to 4 reactions; 40 x 40 merges x 4 kinds of source'}
ASSUMPTIONS = ['empty texts are written as missing', 'texts with surrounding white space are not considered']

SP_VALUES = {
    'charge': [0, 1, '-1', -2], 'h_form': [0, -2.5, '1.5', 1e-7], 'lj_epsilon': [0., 93.3, '47'],
    'lj_sigma': [0, 3.542, '2.8', np.float64(1) / 3], 'hpem_name': ['AR', 'None'], 'qdb_id': [0, 17, '5'],
    'stick_coef': [0, 0., 1, '0.5', np.float64(2) / 3],
    'ret_coefs': [{}, {'Ar': 1}, {'Ar': 0.}, {'H2': '0.5', 'Ar': 1. / 3}],
    'comments': ['plain', 'a < b & "c" > \'d\'', '\u010de\u0161tina \u03b1', '0'], 'latex': ['\\mathrm{X}^{2+}', 'x'],
    'mass': [39.948, '1.008', 4, 1. / 3],
}
SP_KINDS = {'e': {}, 'M': {}, 'Ar': {}, 'Ar+': {}, 'Ar*': {'state': '*', 'stateless': 'Ar'},
            'H2(v=1,J=2)': {'state': 'v=1,J=2', 'stateless': 'H2'}}
R_VALUES = {
    'arrh_b': [0, -0.5, '1.25', 1. / 3], 'arrh_c': [0, 15.76, '2', -1], 'elastic': [True, False, 'true', 'False'],
    'el_en_loss': [0, 11.5, '3', -0.5, 0.], 'gas_heat_contrib': [0, 1.5, '2', -3.25], 'special_number': [0, 7, '12', -1],
    'qdb_r_id': [5, '6', 0], 'qdb_ds_id': [1, '2', 0], 'doi': ['10.1/x&y<z>'], 'comments': ['note', 'a > b'], 'latex': ['x^2'],
    'arrh_a': [0, 1.5e-15, '2e-9', 1. / 3],
}
R_KINDS = [(('e', 'Ar'), ('e', 'e', 'Ar+')), (('Ar+', 'H'), ('Ar', 'H+')), (('H', 'H', 'M'), ('H2', 'M')),
           (('H2',), ('H', 'H')), (('H2(v=1,J=2)', 'H'), ('H2', 'H')), (('e', 'e', 'Ar+'), ('e', 'Ar'))]
SP_GETTERS = ['name', 'stateless', 'state', 'mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma', 'hpem_name', 'qdb_id',
              'stick_coef', 'ret_coefs', 'comments', 'latex', 'atoms']
R_GETTERS = ['arrh_b', 'arrh_c', 'elastic', 'el_en_loss', 'gas_heat_contrib', 'special_number', 'qdb_r_id', 'qdb_ds_id',
             'doi', 'comments', 'latex', 'string']


def shards(tier):
    q = tier == 'quick'
    k = 2 if q else 3
    out = [{'kind': 'species', 'name': n, 'k': k} for n in SP_KINDS]
    out += [{'kind': 'reaction', 'n': n, 'k': k, 'part': p} for n in range(len(R_KINDS)) for p in range(4)]
    nets = [n.rids for n in U.networks((2, 3) if q else (2, 3, 4))]
    out += [{'kind': 'nets', 'nets': c} for c in chunks(nets, 24)]
    srcs = merge_sources(14 if q else 40)
    out += [{'kind': 'merge', 'pairs': c} for c in chunks(list(itertools.product(range(len(srcs)), repeat=2)), 16)]
    for s in out:
        s['tier'] = tier
    return out


def merge_sources(n):
    nets = [x.rids for x in U.networks((2, 3))]
    return nets[::max(1, len(nets) // n)][:n]


def patterns(values, k):
    """All value combinations for each k-subset of the attributes, and all presence patterns with first values."""
    seen = set()
    for keys in itertools.combinations(sorted(values), k):
        for combo in itertools.product(*[[None] + values[x] for x in keys]):
            kw = {x: v for x, v in zip(keys, combo) if v is not None}
            if repr(sorted(kw.items())) not in seen:
                seen.add(repr(sorted(kw.items())))
                yield kw
    for keys in itertools.product((0, 1), repeat=len(values)):
        if k == 2 and sum(keys) < len(values) - 2:
            continue
        yield {x: values[x][0] for x, on in zip(sorted(values), keys) if on}


def equal(a, b):
    return type(a) is type(b) and a == b


def compare_species(a, b, w):
    same(b.id, a.id, w + ': id')
    for g in SP_GETTERS:
        x, y = getattr(a, 'get_' + g)(), getattr(b, 'get_' + g)()
        check(equal(x, y), '{}: {} was {!r} and came back as {!r}', w, g, x, y, key='species ' + g)
    for u in ('mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma'):
        same(b.get_unit(u), a.get_unit(u), w + ': unit of ' + u)


def compare_reactions(a, b, w):
    same(b.id, a.id, w + ': id')
    for g in R_GETTERS:
        x, y = getattr(a, 'get_' + g)(), getattr(b, 'get_' + g)()
        check(equal(x, y), '{}: {} was {!r} and came back as {!r}', w, g, x, y, key='reaction ' + g)
    for si in (False, True):
        check(equal(a.get_arrh_a(si_units=si), b.get_arrh_a(si_units=si)), '{}: A was {!r} and came back as {!r}', w,
              a.get_arrh_a(si_units=si), b.get_arrh_a(si_units=si))
    for u in ('arrh_a', 'arrh_c', 'el_en_loss', 'gas_heat_contrib'):
        same(b.get_unit(u), a.get_unit(u), w + ': unit of ' + u)
    for side in ('reactants', 'products'):
        same([s.get_name() for s in getattr(b, 'get_' + side)()], [s.get_name() for s in getattr(a, 'get_' + side)()],
             w + ': ' + side)


def parse(builder, d):
    path = os.path.join(d, 'chem.xml')
    builder.dump_xml(path, overwrite=True)
    return XmlParser().get_species_and_reactions(path)


def check_species_batch(name, batch, d, res):
    """A batch of variants of one species, each in a file of its own would be slow: ids tell them apart, names differ."""
    for kw in batch:
        attrs = dict(SP_KINDS[name])
        if name != 'M':
            attrs['mass'] = 2.5
        attrs.update(kw)
        rp = RP(42, name=name, **attrs)
        b = XmlBuilder()
        b.add_rp_from_instance(rp)
        sps, rs = parse(b, d)
        same((len(sps), len(rs)), (1, 0), 'items in the file')
        compare_species(rp, sps[0], '{} with {}'.format(name, attrs))
        # the same from attributes
        b = XmlBuilder()
        b.add_rp_from_attributes(rp_id=42, rp_attributes=dict(attrs, name=name))
        sps, _ = parse(b, d)
        compare_species(rp, sps[0], '{} from attributes {}'.format(name, attrs))
        res.count('evaluations', 2)
        res.see('distinct_nontrivial', (name, repr(sorted(attrs.items()))))


_SP = {}


def objects():
    if not _SP:
        sp = U.build_species()
        sp['H2(v=1,J=2)'] = RP(61, name='H2(v=1,J=2)', mass=2.016, state='v=1,J=2', stateless='H2')
        _SP.update(sp)
    return _SP


def check_reaction(n, kw, d, res):
    lhs, rhs = R_KINDS[n]
    sp = objects()
    attrs = dict(kw)
    if 'arrh_a' not in attrs and 'special_number' not in attrs:
        attrs['arrh_a'] = 1e-15
    units = {}
    if 'arrh_a' in attrs:
        units['arrh_a'] = {1: 's-1', 2: ('cm3.s-1', 'm3.s-1'), 3: ('m6.s-1', 'cm6.s-1')}[len(lhs)]
        if len(lhs) > 1:
            units['arrh_a'] = units['arrh_a'][len(kw) % 2]
    if 'arrh_c' in attrs:
        units['arrh_c'] = 'eV' if 'e' in lhs else 'K'
    if 'el_en_loss' in attrs and len(kw) % 2:
        units['el_en_loss'] = 'eV'
    r = Reaction(77, [sp[x] for x in lhs], [sp[x] for x in rhs], attributes=attrs, units=units)
    b = XmlBuilder()
    b.add_reaction_from_instance(r)
    sps, rs = parse(b, d)
    same(len(rs), 1, 'reactions in the file')
    w = '{} with {}'.format(r, attrs)
    compare_reactions(r, rs[0], w)
    same(sorted(s.get_name() for s in sps), sorted(set(lhs + rhs)), w + ': species')
    for s in sps:
        compare_species(sp[s.get_name()], s, w)
    res.count('evaluations')
    res.see('distinct_nontrivial', (n, repr(sorted(attrs.items()))))


# --------------------------------------------------------------------------------------------- whole chemistries
def model_view(chem):
    """The numbers the model sees, by name and reaction string."""
    f = dict(disabled=False, special=False)
    names = list(chem.get_species_name(**f))
    ret = chem.get_return_matrix()
    view = {'names': list(chem.get_species_name(disabled=False, special=True)),
            'reactions': [str(r) for r in chem.get_reactions(disabled=False)],
            'ids': [list(map(int, chem.get_species_id(disabled=False, special=True))),
                    list(map(int, chem.get_reactions_id(disabled=False)))],
            'ret': np.array(ret, dtype=float).tolist(),
            'net': np.array(chem.get_stoichiomatrix(method='net')).tolist(),
            'lhs': np.array(chem.get_stoichiomatrix(method='lhs')).tolist(),
            'e': list(map(int, chem.get_reactions_stoich_coefs_electron())),
            'M': list(map(int, chem.get_reactions_stoich_coefs_arbitrary(method='lhs'))),
            'elastic': list(map(bool, chem.get_reactions_elastic()))}
    for g in ('charge', 'mass', 'lj_sigma', 'lj_epsilon', 'h_form', 'stick_coef'):
        view[g] = [float(x) for x in getattr(chem, 'get_species_' + g)(**f)]
    for g in ('arrh_a', 'arrh_b', 'arrh_c', 'el_en_loss'):
        view[g] = [float(x) for x in getattr(chem, 'get_reactions_' + g)()]
    assert len(names) == len(view['ret'])
    return view


def check_net(rids, d, res):
    net = U.Net(rids)
    for drop in [()] + [x for k in range(1, len(rids)) for x in itertools.combinations(rids, k)]:
        chem = U.make(net)
        if drop:
            kind, _ = outcome(chem.disable, reactions=list(drop))
            if kind == 'err':
                continue
        b = XmlBuilder()
        b.add_chemistry_from_instance(chem)
        path = os.path.join(d, 'net.xml')
        b.dump_xml(path, overwrite=True)
        w = 'network {} without {}'.format(rids, drop)
        sps, rs = XmlParser().get_species_and_reactions(path)
        enabled_sp = list(chem.get_species(disabled=False, special=True))
        enabled_r = list(chem.get_reactions(disabled=False))
        same([s.id for s in sps], [s.id for s in enabled_sp], w + ': species in the file')
        same([r.id for r in rs], [r.id for r in enabled_r], w + ': reactions in the file')
        whole = len(enabled_sp) == len(net.names)
        for a, x in zip(enabled_r, rs):
            compare_reactions(a, x, w)
        if whole:
            for a, x in zip(enabled_sp, sps):
                compare_species(a, x, w)
        back = Chemistry(xml_path=path)
        got, want = model_view(back), model_view(chem)
        for k in want:
            check(got[k] == want[k], '{}: {} seen by the model is {} in the chemistry and {} from the file', w, k, want[k],
                  got[k], key='model view ' + k)
        # writing is read-only and repeatable
        same(model_view(chem), want, w + ': chemistry after writing')
        path2 = os.path.join(d, 'net2.xml')
        b2 = XmlBuilder()
        b2.add_chemistry_from_xml(path)
        b2.dump_xml(path2, overwrite=True)
        same(model_view(Chemistry(xml_path=path2)), want, w + ': written from the file again')
        res.count('evaluations')
        res.see('distinct_nontrivial', (rids, tuple(got['ids'][1])))


def check_merge(i, j, srcs, d, res):
    for ka, kb in itertools.product(('object', 'file'), repeat=2):
        b = XmlBuilder()
        nets, chems = [], []
        for n, (idx, kind) in enumerate(((i, ka), (j, kb))):
            net = U.Net(srcs[idx])
            # the second source numbers its items differently, some ids clash
            order = list(U.SPECIES)
            ids = {x: U.SPECIES[order[k - 1]][0] for k, x in enumerate(order)} if n else None
            sp = U.build_species(ids=ids)
            rs = [U.build_reaction(r, *U.POOL[r], sp=sp) for r in net.rids]
            chem = Chemistry(species=[sp[x] for x in net.names], reactions=rs)
            if kind == 'object':
                b.add_chemistry_from_instance(chem)
            else:
                one = XmlBuilder()
                one.add_chemistry_from_instance(chem)
                path = os.path.join(d, 'src.xml')
                one.dump_xml(path, overwrite=True)
                b.add_chemistry_from_xml(path)
            nets.append(net)
            chems.append(chem)
        w = 'merging {} ({}) and {} ({})'.format(nets[0].rids, ka, nets[1].rids, kb)
        b.assign_ids()
        path = os.path.join(d, 'merged.xml')
        b.dump_xml(path, overwrite=True)
        sps, rs = XmlParser().get_species_and_reactions(path)
        names = [s.get_name() for s in sps]
        same(sorted(names), sorted(set(nets[0].names) | set(nets[1].names)), w + ': species', key='merged species')
        want = [str(r) for c in chems for r in c.get_reactions()]
        same([str(r) for r in rs], want, w + ': reactions', key='merged reactions')
        for r, (a, rid) in zip(rs, [(c, r.id) for c in chems for r in c.get_reactions()]):
            orig = a.get_reactions().at[rid]
            for g in R_GETTERS:
                same(getattr(r, 'get_' + g)(), getattr(orig, 'get_' + g)(), w + ': ' + g)
            same(r.get_arrh_a(), orig.get_arrh_a(), w + ': A')
        chem = Chemistry(xml_path=path)
        same(chem.num_reactions(), len(want), w + ': number of reactions')
        res.count('evaluations')
        res.see('distinct_nontrivial', ('merge', i, j, ka, kb))


def run(shard, tier):
    res = Result()
    with scratch() as d:
        if shard['kind'] == 'species':
            for kw in patterns(SP_VALUES, shard['k']):
                if shard['name'] == 'M' and 'mass' in kw:
                    pass
                with res.case(dict(shard, kw=repr(kw)), timeout=60):
                    check_species_batch(shard['name'], [kw], d, res)
                if res.full:
                    break
        elif shard['kind'] == 'reaction':
            for m, kw in enumerate(patterns(R_VALUES, shard['k'])):
                if m % 4 != shard['part']:
                    continue
                with res.case(dict(shard, kw=repr(kw)), timeout=60):
                    check_reaction(shard['n'], kw, d, res)
                if res.full:
                    break
        elif shard['kind'] == 'nets':
            for rids in shard['nets']:
                with res.case(dict(shard, nets=[list(rids)])):
                    check_net(tuple(rids), d, res)
                if res.full:
                    break
        else:
            srcs = merge_sources(14 if tier == 'quick' else 40)
            for i, j in shard['pairs']:
                with res.case(dict(shard, pairs=[[i, j]])):
                    check_merge(i, j, srcs, d, res)
                if res.full:
                    break
    return res


def replay(case):
    case = dict(case)
    case.pop('kw', None)
    return run(case, case['tier'])
