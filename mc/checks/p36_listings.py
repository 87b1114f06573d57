"""P36: attribute listings and pretty-printed matrices show what the chemistry reports, and mark what is disabled/derived."""
import contextlib
import io
import itertools

from mc import universe as U
from mc.core import Result, check, chunks, same

LEVEL = 'exploration'
RULE = 'small networks x ways of giving the attributes x every reachable disabled state x overrides x every combination ' \
       'of listing options; every cell and colour compared to a reference computed from the constructor arguments; ' \
       'distinct_nontrivial counts (network, variant, state, override) configurations'
BOUNDS = {'quick': '6 networks of 2-4 reactions, 3 ways of giving attributes, all disabled states, 2 override settings '
                   '(3 pairs of these), all options in the first states of one network, the coloured ones in all',
          'thorough': 'all networks of 1-2 reactions and the 6 bigger ones, otherwise the same'}
ASSUMPTIONS = ['the order of sorted listings and the classification are those of ReactionClassifier (P14)',
               'a matrix whose index and columns fit both kinds of ids is read as a square matrix of one kind if '
               'both labels agree, as reactions x species otherwise']

RED, BLUE, YELLOW, MAGENTA, RESET = '\x1b[31m', '\x1b[34m', '\x1b[33m', '\x1b[35m', '\x1b[39m'
SP_ATTRS = ['name', 'stateless', 'state', 'mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma', 'hpem_name', 'qdb_id',
            'stick_coef', 'ret_coefs', 'comments', 'latex']
SP_UNITS = {'mass': 'amu', 'charge': 'e', 'h_form': 'eV', 'lj_epsilon': 'K', 'lj_sigma': 'A'}
R_ATTRS = ['string', 'arrh_a', 'arrh_b', 'arrh_c', 'elastic', 'el_en_loss', 'gas_heat_contrib', 'special_number',
           'qdb_r_id', 'qdb_ds_id', 'doi', 'comments', 'latex']
R_UNITS = {'arrh_a': None, 'arrh_c': None, 'el_en_loss': 'eV', 'gas_heat_contrib': 'eV'}
FULL = [(3, 2, 5)]
NETS = [(3, 14, 5, 8), (7, 20, 9), (6, 13, 9), (3, 2, 5), (4, 14, 9, 7), (20, 7, 10, 9)]


def given_species(name, variant):
    sid, charge, mass, _, extra = U.SPECIES[name]
    kw = {}
    if variant == 0:        # as little as possible
        kw.update(extra)
        if charge:
            kw['charge'] = charge
        if mass is not None:
            kw['mass'] = mass
        units = {}
    elif variant == 1:      # everything, as numbers
        kw.update(extra)
        if mass is not None:
            kw.update(mass=mass, charge=charge)
        kw.setdefault('lj_sigma', 3)
        kw.update(h_form=sid * 0.25, lj_epsilon=100 + sid, hpem_name=name.replace('+', '^'), qdb_id=sid + 100,
                  comments='about ' + name, latex='\\rm{%s}' % name)
        if name not in U.SPECIAL:
            kw.setdefault('stick_coef', 1)
            kw.setdefault('stateless', name)
        units = {a: u for a, u in SP_UNITS.items() if a in kw}
    else:                   # as texts, defaults spelled out
        kw.update({k: str(v) if isinstance(v, (int, float)) else v for k, v in extra.items()})
        if 'ret_coefs' in kw:
            kw['ret_coefs'] = {k: str(v) for k, v in kw['ret_coefs'].items()}
        elif name in ('Ar+', 'H+'):
            kw['ret_coefs'] = {name[:-1]: '1'}
        if mass is not None:
            kw.update(mass=str(mass), charge=str(charge))
        kw.update(h_form='0', lj_epsilon='0.00', qdb_id=str(sid))
        kw.setdefault('lj_sigma', '3')
        kw.setdefault('stick_coef', '1' if charge or name == 'Ar*' else '0.0')
        units = {'mass': 'amu', 'lj_sigma': 'A'} if mass is not None else {'lj_sigma': 'A'}
    return kw, units


def given_reaction(rid, variant):
    lhs, rhs = U.POOL[rid]
    unit = {1: 's-1', 2: 'cm3.s-1' if rid % 2 else 'm3.s-1', 3: 'cm6.s-1' if rid % 2 else 'm6.s-1'}[len(lhs)]
    cu = 'eV' if 'e' in lhs else 'K'
    if variant == 0:
        if rid % 3 == 0:
            return {'special_number': -1100 - rid}, {}
        return {'arrh_a': (3.0 + rid) * 1e-15}, {'arrh_a': unit}
    kw = {'arrh_a': (3.0 + rid) * 1e-15, 'arrh_b': 0.5 * (rid % 3), 'arrh_c': 0.25 * (rid % 5),
          'elastic': rid % 2 == 0, 'el_en_loss': 1.5, 'gas_heat_contrib': 2, 'special_number': 30, 'qdb_r_id': rid + 50,
          'qdb_ds_id': rid + 60, 'doi': '10.1/%d' % rid, 'comments': 'c%d' % rid, 'latex': '\\rm{R%d}' % rid}
    units = {'arrh_a': unit, 'arrh_c': cu}
    if variant == 2:
        kw.update(arrh_a='{:.6e}'.format(kw['arrh_a']), arrh_b='0', arrh_c='0.0', el_en_loss='0', gas_heat_contrib='0.',
                  elastic=['True', 'FALSE', 'true'][rid % 3], special_number='10' if 'e' in lhs else '20',
                  qdb_r_id=str(rid))
        del kw['doi'], kw['latex'], kw['qdb_ds_id']
        units['el_en_loss'] = 'eV'
    return kw, units


def build(rids, variant):
    from plaschem.chemistry import Chemistry
    from plaschem.reactions import Reaction
    from plaschem.species import RP
    net = U.Net(rids)
    gs = {n: given_species(n, variant) for n in net.names}
    gr = {r: given_reaction(r, variant) for r in rids}
    sp = {n: RP(net.id_of[n], name=n, units=gs[n][1], **gs[n][0]) for n in net.names}
    rs = [Reaction(r, [sp[x] for x in U.POOL[r][0]], [sp[x] for x in U.POOL[r][1]], attributes=gr[r][0], units=gr[r][1])
          for r in rids]
    for n in net.names:
        gs[n][0]['name'] = n
    return net, gs, gr, sp, {r.id: r for r in rs}, Chemistry(species=list(sp.values()), reactions=rs)


# ------------------------------------------------------------------------------------------------ reference values
def num(v):
    return None if v is None else float(v)


def sp_value(n, attr, gs, rp, stick, ret, enabled):
    g = gs[n][0]
    special, v = n in U.SPECIAL, g.get(attr)
    charge = None if n == 'M' else int(g.get('charge', 0))
    if attr == 'stateless':
        return n if special else g.get('stateless', n)
    if attr == 'mass':
        return None if n == 'M' else float(v)
    if attr == 'charge':
        return charge
    if attr == 'qdb_id':
        return None if v is None else int(v)
    if attr == 'latex':
        return rp.get_latex()
    if attr in ('h_form', 'lj_epsilon', 'lj_sigma'):
        return None if special else float(v if v is not None else {'lj_sigma': 3.}.get(attr, 0.))
    if attr in ('stick_coef', 'ret_coefs'):
        if special:
            return None
        ground = charge == 0 and g.get('state') is None
        s = float(stick.get(n, g.get('stick_coef', 0. if ground else 1.)))
        if attr == 'stick_coef':
            return s
        if s == 0.:
            return {}
        own = g.get('ret_coefs')
        if own is None:
            own = {} if ground else {n.rstrip('+-*'): 1.}
        own = ret.get(n, own)
        return {k: float(x) for k, x in own.items() if k in enabled}
    if attr == 'state':
        return None if special else v
    return v


def r_value(r, attr, gr, reaction, arrh):
    g, lhs, rhs = gr[r][0], *U.POOL[r]
    v = g.get(attr)
    if attr == 'string':
        return str(reaction)
    if attr == 'arrh_a':
        return num(arrh.get(r, v))
    if attr in ('arrh_b', 'arrh_c'):
        return num(v) if v is not None else 0. if 'arrh_a' in g else None
    if attr == 'elastic':
        return set(lhs) == set(rhs) if v is None else v in (True, 'True', 'true', 'TRUE')
    if attr in ('el_en_loss', 'gas_heat_contrib'):
        return num(v) or 0.
    if attr == 'special_number':
        return int(v) if v is not None else 10 if 'e' in lhs else 20
    if attr in ('qdb_r_id', 'qdb_ds_id'):
        return None if v is None else int(v)
    if attr == 'latex':
        return reaction.get_latex()
    return v


def missing(v):
    return v is None or (isinstance(v, float) and v != v)


def equal(a, b):
    if missing(a) or missing(b):
        return missing(a) and missing(b)
    return a == b and isinstance(a, str) == isinstance(b, str)


def as_given(given, value):
    """Is the reported value the given one, however it was written?"""
    if missing(given) or missing(value):
        return missing(given) and missing(value)
    if isinstance(value, dict):
        return {k: float(x) for k, x in given.items()} == value
    if isinstance(value, bool):
        return (given in (True, 'True', 'true', 'TRUE')) == value
    if isinstance(value, str):
        return given == value
    return float(given) == float(value)


# ------------------------------------------------------------------------------------------------ checking the listings
def table(fn, kwargs, res):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        df = fn(**kwargs)
    res.count('evaluations')
    text = out.getvalue()
    check(bool(text.strip()) == kwargs['printout'], 'printout={}: printed {} characters', kwargs['printout'], len(text))
    if kwargs['printout']:
        lines = [x for x in text.split('\n') if x.strip()]
        check(len(lines) == len(df.index) + 1, 'printed {} lines for {} rows', len(lines), len(df.index))
    return df


def cell(df, i, j, pretty):
    v = df.iat[i, j]
    if not pretty:
        return v, None
    t = str(v)
    for code in (RED, BLUE, YELLOW, MAGENTA, RESET):
        if t.startswith(code) and t.endswith(RESET):
            return v.value, code
    check(False, 'the cell shows {!r}', t)


def header(df, pretty):
    return [str(c.value) if pretty else str(c) for c in df.columns]


def expected_columns(attrs, units, ignored, with_units):
    out = []
    for a in attrs:
        if a in ignored:
            continue
        out.append(a)
        if with_units and a in units:
            out.append('[{}]'.format(a))
    return out


def sides(text):
    """The participants on both sides of a reaction written in any order with any alignment."""
    return [sorted(x.strip() for x in side.split(' + ')) for side in text.split(' > ')]


def compare_row(df, i, cols, want, given, colour_of, pretty, what):
    for j, c in enumerate(cols):
        v, colour = cell(df, i, j, pretty)
        w = want[c]
        if c == 'string':
            check(isinstance(v, str) and sides(v) == sides(w), '{}: the row reads {!r}, expected {!r}', what, v, w)
            check(v.strip() == w or given.get('classified'), '{}: the row reads {!r}, expected {!r}', what, v, w)
        elif pretty and missing(w):
            same(v, '...', '{}: {} is not defined but'.format(what, c))
        else:
            check(equal(v, w), '{}: {} shows {!r}, expected {!r}', what, c, v, w)
        if pretty:
            same(colour, colour_of(c), '{}: colour of {} (value {!r}, given {!r})'.format(what, c, w, given.get(c)))


OPTS = list(itertools.product((True, False), repeat=5))


def options(full, names):
    """All combinations of the five switches and of the ignored columns, or only those with colours and units."""
    for o in OPTS:
        d = dict(zip(names, o))
        for ignored in IGNORED:
            if full or (d['pretty'] and d['units'] and not ignored):
                yield o, ignored


IGNORED = (('latex',), (), ('latex', 'comments', 'arrh_b', 'charge'))


def check_species(cfg, full, res):
    net, gs, gr, sp, rs, chem, en_s, en_r, stick, ret, arrh = cfg
    from plaschem.classification import ReactionClassifier
    enabled = {net.name_of[i] for i in en_s}
    for (disabled, special, pretty, sort, units), ignored in options(
            full, ('disabled', 'special', 'pretty', 'sort', 'units')):
        what = 'species listing disabled={} special={} pretty={} sort={} units={} ignored={}'.format(
            disabled, special, pretty, sort, units, ignored)
        rows = [n for n in net.names if (disabled or n in enabled) and (special or n not in U.SPECIAL)]
        if not rows:
            continue
        df = table(chem.species_attributes, dict(disabled=disabled, special=special, printout=sort, pretty_print=pretty,
                                                 sort=sort, units=units, ignored=ignored), res)
        if sort:
            cl = ReactionClassifier(species=[sp[n] for n in rows], reactions=[None])
            cl.sort_species()
            rows = [s.get_name() for s in cl.species]
        cols = expected_columns(SP_ATTRS, SP_UNITS, ignored, units)
        same(header(df, pretty), cols, what + ': columns')
        same([int(i) for i in df.index], [net.id_of[n] for n in rows], what + ': rows')
        for i, n in enumerate(rows):
            g, u = gs[n]
            want = {a: sp_value(n, a, gs, sp[n], stick, ret, enabled) for a in SP_ATTRS}
            want.update({'[%s]' % a: SP_UNITS[a] for a in SP_UNITS})
            given = dict(g)
            given.update({'[%s]' % a: u.get(a) for a in SP_UNITS})

            def colour(c):
                return RED if n not in enabled else RESET if as_given(given.get(c), want[c]) else BLUE
            compare_row(df, i, cols, want, given, colour, pretty, '{}: {}'.format(what, n))


def check_reactions(cfg, full, res):
    net, gs, gr, sp, rs, chem, en_s, en_r, stick, ret, arrh = cfg
    from plaschem.classification import ReactionClassifier
    for (disabled, pretty, sort, units, classify), ignored in options(
            full, ('disabled', 'pretty', 'sort', 'units', 'classify')):
        what = 'reaction listing disabled={} pretty={} sort={} units={} classify={} ignored={}'.format(
            disabled, pretty, sort, units, classify, ignored)
        rows = [r for r in net.rids if disabled or r in en_r]
        if not rows:
            continue
        df = table(chem.reactions_attributes, dict(disabled=disabled, printout=sort, pretty_print=pretty, sort=sort,
                                                   classify=classify, units=units, ignored=ignored), res)
        cl = ReactionClassifier(species=[sp[n] for n in net.names if disabled or net.id_of[n] in en_s],
                                reactions=[rs[r] for r in rows])
        if sort:
            cl.sort_species()
            cl.sort_reactions()
        layout = [(None, r.id) for r in cl.reactions]
        if classify:
            layout = []
            for i, (t, cats) in enumerate(cl.get_classified_reactions().items()):
                layout.append(((t, YELLOW), '(C{})'.format(i + 1)))
                for j, (c, members) in enumerate(cats.items()):
                    if c != 'None':
                        layout.append(((c, MAGENTA), '(C{}.{})'.format(i + 1, j + 1)))
                    layout.extend((None, r.id) for r in members)
        check(sorted(k for h, k in layout if h is None) == sorted(rows), 'classification of {} lists {}', rows, layout)
        cols = expected_columns(R_ATTRS, R_UNITS, ignored, units)
        same(header(df, pretty), cols, what + ': columns')
        same([i if isinstance(i, str) else int(i) for i in df.index], [k for _, k in layout], what + ': rows')
        for i, (head, r) in enumerate(layout):
            if head is not None:
                v, colour = cell(df, i, 0, pretty)
                same(str(v).rstrip(), head[0], what + ': heading ' + r)
                if pretty:
                    same(colour, head[1], what + ': colour of heading ' + r)
                same({cell(df, i, j, pretty)[0] for j in range(1, len(cols))}, {''}, what + ': rest of heading ' + r)
                continue
            g, u = gr[r]
            want = {a: r_value(r, a, gr, rs[r], arrh) for a in R_ATTRS}
            given = dict(g, classified=classify)
            for a, d in R_UNITS.items():
                want['[%s]' % a], given['[%s]' % a] = u.get(a, d), u.get(a)

            def colour(c):
                if r not in en_r:
                    return RED
                return RESET if c == 'string' or as_given(given.get(c), want[c]) else BLUE
            compare_row(df, i, cols, want, given, colour, pretty, '{}: reaction {}'.format(what, r))


# ------------------------------------------------------------------------------------------------ pretty-printed matrices
def check_matrix(chem, df, kinds, labels, disabled_ids, what, res):
    """kinds: ('reactions', 'species'); labels: {kind: {id: text}}; disabled_ids: {kind: ids}"""
    from plaschem.pretty_print import PrettyPrint
    before = df.copy(deep=True)
    for annotation in (True, False):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            pp = PrettyPrint(chem).print(df, annotation=annotation)
        res.count('evaluations')
        check(df.equals(before) and list(df.index) == list(before.index) and list(df.columns) == list(before.columns),
              '{}: printing changed the matrix', what)
        k = int(annotation)
        same(pp.shape, (df.shape[0] + k, df.shape[1] + k), what + ': shape')
        idx, cols = list(df.index), list(df.columns)
        same([str(x) for x in pp.index], [''] * k + [str(x) for x in idx], '{} annotation={}: index'.format(what, annotation))
        same([str(getattr(x, 'value', x)) for x in pp.columns], [''] * k + [str(x) for x in cols],
             '{} annotation={}: columns'.format(what, annotation))
        for i, j in itertools.product(range(pp.shape[0]), range(pp.shape[1])):
            v, colour = cell(pp, i, j, True)
            row = idx[i - k] if i >= k else None
            col = cols[j - k] if j >= k else None
            if row is not None and col is not None:
                w = df.iat[i - k, j - k]
                check(equal(v, w), '{}: entry ({}, {}) is {!r}, expected {!r}', what, row, col, v, w)
            elif row is not None:
                same(v, labels[kinds[0]][row], '{}: label of row {}'.format(what, row))
            elif col is not None:
                same(v, labels[kinds[1]][col], '{}: label of column {}'.format(what, col))
            red = (row is not None and row in disabled_ids[kinds[0]]) or (col is not None and col in disabled_ids[kinds[1]])
            same(colour, RED if red else RESET, '{} annotation={}: colour of ({}, {})'.format(what, annotation, row, col))
        lines = [x for x in out.getvalue().split('\n') if x.strip()]
        same(len(lines), pp.shape[0] + 1, what + ': printed lines')


def ambiguous(df, sids, rids):
    idx, cols = list(df.index), list(df.columns)
    return idx == cols and set(idx) <= set(sids) and set(idx) <= set(rids)


def check_matrices(net, chem, en_s, en_r, sp, rs, res):
    labels = {'species': {s.id: str(s) for s in sp.values()}, 'reactions': {i: str(r) for i, r in rs.items()}}
    dis = {'species': {s.id for s in sp.values()} - set(en_s), 'reactions': set(rs) - set(en_r)}
    for disabled, special in itertools.product((True, False), repeat=2):
        for method in ('net', 'lhs', 'rhs'):
            df = chem.get_stoichiomatrix(disabled=disabled, special=special, method=method)
            if df.size and not ambiguous(df, labels['species'], labels['reactions']):
                check_matrix(chem, df, ('reactions', 'species'), labels, dis,
                             'stoichiometric matrix {} disabled={} special={}'.format(method, disabled, special), res)
        df = chem.get_return_matrix(disabled=disabled, special=special)
        if df.size:
            check_matrix(chem, df, ('species', 'species'), labels, dis,
                         'return matrix disabled={} special={}'.format(disabled, special), res)


# ------------------------------------------------------------------------------------------------ cases
def states(net):
    out = {}
    for k in range(len(net.rids)):
        for drop in itertools.combinations(net.rids, k):
            s, r = net.closure(net.sids, net.rids, drop_r=drop)
            if s & net.ions and net.id_of['e'] in s:
                out.setdefault((s, r), drop)
    return out


def listing_case(case, res):
    rids, variant, drop, over = tuple(case['net']), case['variant'], case['drop'], case['over']
    net, gs, gr, sp, rs, chem = build(rids, variant)
    if drop:
        chem.disable(reactions=list(drop))
    en_s = {int(i) for i in chem.get_species_id(disabled=False, special=True)}
    en_r = {int(i) for i in chem.get_reactions_id(disabled=False)}
    stick, ret, arrh = {}, {}, {}
    if over:
        heavy = [n for n in net.names if n not in U.SPECIAL]
        target = [n for n in heavy if net.id_of[n] in en_s]
        stick = {heavy[0]: 0.25, heavy[-1]: 0.0}
        ret = {heavy[0]: {target[-1]: 0.75}}
        with_a = [r for r in rids if 'arrh_a' in gr[r][0]]
        arrh = {with_a[-1]: 4.5e-14} if with_a else {}
        for n, v in stick.items():
            chem.set_adhoc_species_attributes('stick_coef', net.id_of[n], v)
        for n, v in ret.items():
            chem.set_adhoc_species_attributes('ret_coefs', n, v)
        for r, v in arrh.items():
            chem.set_adhoc_reactions_attributes('arrh_a', r, v)
    res.see('distinct_nontrivial', (rids, variant, tuple(sorted(en_r)), over))
    cfg = (net, gs, gr, sp, rs, chem, en_s, en_r, stick, ret, arrh)
    if case['what'] == 'species':
        check_species(cfg, case['full'], res)
    elif case['what'] == 'reactions':
        check_reactions(cfg, case['full'], res)
    else:
        check_matrices(net, chem, en_s, en_r, sp, rs, res)


# ids as a numbering of species and of reactions gives them: both kinds share numbers
NUMBERINGS = {'separate': (100, 1), 'both from 1': (1, 1), 'species from 0': (0, 1), 'shifted': (1, 3)}


def numbered_case(case, res):
    """Matrices of chemistries whose species and reaction ids overlap."""
    from plaschem.chemistry import Chemistry
    from plaschem.reactions import Reaction
    rids = tuple(case['net'])
    net0 = U.Net(rids)
    s0, r0 = NUMBERINGS[case['numbering']]
    names = net0.names if case['order'] else net0.names[::-1]
    ids = {n: s0 + k for k, n in enumerate(names)}
    spo = U.build_species(names=names, ids=ids)
    rs = {r0 + k: U.build_reaction(r0 + k, *U.POOL[r], spo) for k, r in enumerate(rids)}
    chem = Chemistry(species=list(spo.values()), reactions=list(rs.values()))
    for drop in [()] + [(r,) for r in rs]:
        chem.reset()
        if drop:
            try:
                chem.disable(reactions=list(drop))
            except Exception:
                continue
        en_s = {int(i) for i in chem.get_species_id(disabled=False, special=True)}
        en_r = {int(i) for i in chem.get_reactions_id(disabled=False)}
        res.see('distinct_nontrivial', (rids, case['numbering'], case['order'], drop))
        check_matrices(None, chem, en_s, en_r, spo, rs, res)


def nets_of(tier):
    small = [tuple(n.rids) for n in U.networks((1, 2))] if tier == 'thorough' else []
    return NETS + [n for n in small if n not in NETS]


def cases(tier):
    out = []
    for rids in nets_of(tier):
        net = U.Net(rids)
        for variant in (0, 1, 2):
            for (s, r), drop in states(net).items():
                for over in (False, True):
                    for what in ('species', 'reactions', 'matrices'):
                        if what == 'matrices' and (variant or over):
                            continue
                        if tier == 'quick' and over != (variant == 2) and rids not in FULL:
                            continue
                        # every combination of options in the first two states, the colourful ones in all
                        full = over and len(drop) < 2 and drop in ((), rids[:1], rids[-1:])
                        out.append({'what': what, 'net': list(rids), 'variant': variant, 'drop': list(drop), 'over': over,
                                    'full': bool(full and (tier == 'thorough' or rids in FULL))})
        for numbering in NUMBERINGS:
            for order in (True, False):
                out.append({'what': 'numbered', 'net': list(rids), 'numbering': numbering, 'order': order})
    return out


def shards(tier):
    return [{'cases': c} for c in chunks(cases(tier), 48)]


def one(case, res):
    if case['what'] == 'numbered':
        numbered_case(case, res)
    else:
        listing_case(case, res)


def run(shard, tier):
    res = Result()
    for case in shard['cases']:
        if res.full:
            break
        res.sample(case)
        with res.case(case):
            one(case, res)
    return res


def replay(case):
    res = Result()
    with res.case(case):
        one(case, res)
    return res
