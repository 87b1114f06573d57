"""P32: typeset species, reactions, rate coefficients and tables, parsed back."""
import itertools
import math
import re

import pandas as pd

from plaschem.chemistry import Chemistry
from plaschem.latex import ReactionsTable, Texify, TexTable
from plaschem.reactions import Reaction
from plaschem.species import RP

from mc import universe as U
from mc.core import Result, check, same

LEVEL = 'exploration'
RULE = 'every number of the grids, every name of the grammar, every reaction of the pool and every table layout is typeset by the ' \
       'real code; the output is parsed by an independent reader and compared with the data'
BOUNDS = {'quick': '3600 pre-exponential factors, 1000 powers, 1100 energies, product of 12 x 9 x 12 of them in 2 formats; all 118 '
                   'elements x 99 numbers and charges or states, pairs of 12 elements; all reactions of up to 3 + 4 of 9 species; all '
                   'ordered selections of columns',
          'thorough': 'the same with 5 times finer grids and all pairs of elements'}
ASSUMPTIONS = ['species names follow the documented grammar: elements with numbers below 100, then charge signs or stars, then one '
               'bracket', 'the table shows the data of the reactions; overridden values are not typeset']

# --------------------------------------------------------------------------------------------------------- reading of LaTeX
TOK = re.compile(r'\\[A-Za-z]+|\\.|\s+|.', re.S)


def group(toks, i):
    """The balanced group which starts at i (or a single token); returns its tokens and the next position."""
    while toks[i].isspace():
        i += 1
    if toks[i] != '{':
        return [toks[i]], i + 1
    depth, j = 0, i
    while True:
        depth += {'{': 1, '}': -1}.get(toks[j], 0)
        j += 1
        if depth == 0:
            return toks[i + 1:j - 1], j


def visual(toks, style=''):
    """What is seen: a list of (character, style) with style '', '_' or '^'."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.isspace() or t == '~' or t in (r'\,', r'\;', r'\ '):
            i += 1
        elif t in (r'\mathrm', r'\text', r'\rm', r'\mathit'):
            g, i = group(toks, i + 1)
            out += visual(g, style)
        elif t in '_^':
            g, i = group(toks, i + 1)
            out += visual(g, style + t)
        elif t == '{':
            g, i = group(toks, i)
            out += visual(g, style)
        else:
            check(t not in '}', 'unbalanced braces', key='braces')
            out.append((t, style))
            i += 1
    return out


def see(tex):
    return visual(TOK.findall(tex))


def expected_species(name):
    base, state = (name, '') if '(' not in name else (name[:name.index('(')], name[name.index('('):])
    m = re.fullmatch(r'([A-Za-z0-9]+?)(\++|-+|\*+)?', base)
    out = [(ch, '_' if ch.isdigit() else '') for ch in m.group(1)]
    tail = m.group(2) or ''
    if len(tail) > 1 and tail[0] in '+-':
        tail = '{}{}'.format(len(tail), tail[0])
    return out + [(ch, '^') for ch in tail] + [(ch, '') for ch in state if not ch.isspace()]


def check_species(name, tex):
    if '(' in name:                                     # the inside of the bracket is passed on as it is
        check(tex.endswith(name[name.index('('):]), 'state of {} in {}', name, tex, key='state')
        got = see(tex[:len(tex) - len(name) + name.index('(')]) + [(ch, '') for ch in name[name.index('('):] if not ch.isspace()]
    else:
        got = see(tex)
    same(got, expected_species(name), 'typeset {}: {}'.format(name, tex), key='species')


NUM = r'-?\d+(?:\.\d+)?'
TE = r'T_(?:\\mathrm\{e\}|e)'
TG = r'(?:\\mathrm\{T_g\}|T_(?:\\mathrm\{g\}|g))'
COEF = re.compile(
    r'(?P<a>%s)(?: *\\times *10\^\{?(?P<exp>-?\d+)\}?)?'
    r'(?: *(?:(?P<be>%s)\^\{(?P<b1>%s)\}|\\left\( *(?:\\dfrac\{(?P<bg1>%s)\}\{300\}|(?P<bg2>%s) */ *300) *\\right\) *\^\{(?P<b2>%s)\}))?'
    r'(?: *\\exp *\\left\( *(?P<sign>[-+]?) *(?:\\dfrac\{(?P<c1>%s)\}\{(?P<t1>%s|%s)\}|(?P<c2>%s) */ *(?P<t2>%s|%s)) *\\right\))?'
    % (NUM, TE, NUM, TG, TG, NUM, NUM, TE, TG, NUM, TE, TG))


def check_coef(tex, a, b, c, electron, what):
    m = COEF.fullmatch(tex.strip())
    check(m, 'rate coefficient of {} cannot be read: {}', what, tex, key='coefficient form')
    e = int(m.group('exp') or 0)
    shown = float(m.group('a')) * 10. ** e
    order = math.floor(math.log10(abs(a))) if a else 0
    check(abs(shown - a) <= 0.00501 * 10. ** order, 'pre-exponential factor {} of {} typeset as {}', a, what, tex, key='factor')
    sb = float(m.group('b1') or m.group('b2') or 0)
    check(abs(sb - b) <= 0.00501, 'power {} of {} typeset as {}', b, what, tex, key='power')
    sc = float(m.group('c1') or m.group('c2') or 0) * (-1 if m.group('sign') == '-' else 1)
    check(abs(-sc - c) <= 0.00501, 'activation energy {} of {} typeset as {}', c, what, tex, key='energy')
    if sb:
        same(bool(m.group('be')), electron, 'temperature of the power of {} in {}'.format(what, tex), key='temperature')
    if sc:
        t = m.group('t1') or m.group('t2')
        same('e' in t.replace('mathrm', ''), electron, 'temperature of the exponential of {} in {}'.format(what, tex), key='temperature')


def check_number(text, value, what):
    text = text.strip().strip('$').strip()
    if text == '':
        check(abs(value) <= 0.00501, '{} = {} is not shown', what, value, key='loss')
        return
    check(re.fullmatch(NUM, text), '{} = {} shown as {}', what, value, text, key='loss')
    check(abs(float(text) - value) <= 0.00501, '{} = {} shown as {}', what, value, text, key='loss')


def terms(side):
    out = {}
    parts = re.split(r'(?<=\S) \+ (?=\S)', side.strip())
    for p in parts:
        m = re.match(r'(\d+) +', p)
        v = tuple(see(p[m.end():] if m else p))
        out[v] = out.get(v, 0) + (int(m.group(1)) if m else 1)
    return out


def check_reaction(lhs, rhs, tex):
    sides = re.split(r'\\rightarrow|\\to(?![a-z])', tex)
    same(len(sides), 2, 'sides of {}'.format(tex), key='reaction')
    for names, side in zip((lhs, rhs), sides):
        want = {}
        for n in names:
            v = tuple(expected_species(n))
            want[v] = want.get(v, 0) + 1
        same(terms(side), want, '{} -> {} typeset as {}'.format(lhs, rhs, tex), key='reaction')


# --------------------------------------------------------------------------------------------------------- cases
def species():
    return U.shared_species()[0]


UNIT = {1: ('s-1',), 2: ('cm3.s-1', 'm3.s-1'), 3: ('cm6.s-1', 'm6.s-1')}
SI = {'s-1': 1., 'cm3.s-1': 1e-6, 'm3.s-1': 1., 'cm6.s-1': 1e-12, 'm6.s-1': 1.}
KINDS = {'e': ('e', 'Ar'), 'e1': ('e', 'Ar+'), 'h1': ('Ar*',), 'h2': ('Ar*', 'Ar*'), 'h3': ('H', 'H', 'M'), 'e3': ('e', 'H+', 'M')}


def reaction(kind, unit=None, **attrs):
    sp = species()
    lhs = KINDS[kind]
    units = {'arrh_a': unit or UNIT[len(lhs)][0]}
    if 'arrh_c' in attrs:
        units['arrh_c'] = 'eV' if 'e' in lhs else 'K'
    return Reaction(77, [sp[x] for x in lhs], [sp[x] for x in lhs], attributes=attrs, units=units)


def coefficient(kind, unit, a, b, c, fractype, res):
    with res.case({'coef': [kind, unit, a, b, c, fractype]}):
        at = {'arrh_a': a}
        if b is not None:
            at['arrh_b'] = b
        if c is not None:
            at['arrh_c'] = c
        r = reaction(kind, unit, **at)
        for si in (True, False):
            got = Texify.texify_rate_coefficient(r, si_units=si, fractype=fractype)
            check_coef(got, float(a) * (SI[unit] if si else 1.), float(b or 0), float(c or 0), 'e' in KINDS[kind], 'a={} b={} c={} {}'.format(a, b, c, kind))
        res.count('evaluations', 2)
        if b or c or a:
            res.see('distinct_nontrivial', ('c', kind, unit, a, b, c, fractype))


def factors(fine):
    ms = [1., 1.001, 1.004, 1.006, 1.05, 1.2, 1.5, 2., 2.5, 3., 3.33, 4.99, 5., 5.01, 7.05, 7.77, 9., 9.9, 9.96, 9.99, 9.994, 9.996, 9.9999]
    if fine:
        ms = ms + [1 + 0.09 * i for i in range(100)]
    return [m * 10. ** e for m in ms for e in range(-40, 4)] + [0., 10., 20., 100., 300., '2e-15', 4]


def powers(fine):
    n = 5 if fine else 1
    return [i / (10. * n) for i in range(-200 * n, 301 * n)] + [100., -100., 110., 0.001, -0.001, 0.004, 0.006, 0.01, -0.01, 0.05, 0.25, -1.75,
                                                                 1.005, 2.675, '0.5', '10', 20, -30, 0.1, 1.1, 1.01]


def energies(fine):
    n = 5 if fine else 1
    return [i / (4. * n) for i in range(0, 121 * n)] + [float(10 * i) for i in range(0, 121)] + [float(100 * i) for i in range(0, 301, 1)] + [
        -20., -300., -0.5, -4000., 1e5, 1e6, 123456., 1000.1, 12.005, 0.001, 0.004, 0.006, -0.001, '15.76', '30', 40, 1e16, 2e17, 0.1 + 0.2]


def numbers(part, parts, fine, res):
    k = itertools.count()
    for kind in KINDS:
        for unit in UNIT[len(KINDS[kind])]:
            vals = [(a, None, None) for a in factors(fine)] + [(2e-15, b, None) for b in powers(fine)] + \
                   [(2e-15, None, c) for c in energies(fine)]
            if unit != UNIT[len(KINDS[kind])][0]:
                vals = vals[::7]
            for v in vals:
                if next(k) % parts == part:
                    coefficient(kind, unit, *v, '/', res)
            for v in itertools.product([0., 1e-15, 2., 1.5, 10., 2.34e-7], [None, 0, 0.5, -1., 10., 20.], [None, 0., 0.25, 20., -300., 4000.]):
                for fr in ('/', 'dfrac'):
                    if next(k) % parts == part:
                        coefficient(kind, unit, *v, fr, res)


CHARGES = ['', '+', '++', '+++', '-', '--', '---', '*', '**', '***', '****']
STATES = ['', '(v=1)', '(a1)', '(A 3Sigma+u)', '(1s5)', '(B10+)', '(X2)']
ELEMENTS = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh '
            'Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn '
            'Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()
SOME = 'H He C N O F Si S Cl Ar Co Cs Os Sn I In P Po K B'.split()


def a_name(name, res):
    with res.case({'name': name}):
        check_species(name, Texify.texify_species(name))
        res.count('evaluations')
        res.see('distinct_nontrivial', ('n', name))


def names(part, parts, fine, res):
    k = itertools.count()

    def go(n):
        if next(k) % parts == part:
            a_name(n, res)
    for n in ('e', 'M'):
        go(n)
    for el in ELEMENTS:
        for i in [''] + list(range(2, 100)):
            for t in CHARGES if i in ('', 2, 10, 60) else ('', '+', '--', '*') if fine else (['', '+', '--', '*'][i % 4],):
                for st in STATES if i in ('', 12) and (fine or el in SOME) else ('',):
                    go('{}{}{}{}'.format(el, i, t, st))
    some = ELEMENTS if fine else SOME[:12]
    for x, y in itertools.product(some, some):
        for i, j in itertools.product(('', 2, 6, 10, 14) if fine else ('', 2, 14), repeat=2):
            for t in ('', '+', '--'):
                go('{}{}{}{}{}'.format(x, i, y, j, t))
    for x, y, z in itertools.product(('C', 'H', 'Cl', 'O', 'Si'), repeat=3):
        for i, j, m in itertools.product(('', 2, 11), ('', 3) if not fine else ('', 3, 12), ('', 4)):
            for t in ('', '-', '***'):
                go('{}{}{}{}{}{}{}'.format(x, i, y, j, z, m, t))


def rps(res):
    """Species objects with and without their own typeset form."""
    for name, kw in (('Ar', {}), ('Ar*', {'state': '*', 'stateless': 'Ar'}), ('N2(v=1)', {'state': 'v=1', 'stateless': 'N2'}),
                     ('SF6-', {'charge': -1}), ('C10H22', {}), ('e', {}), ('M', {})):
        for own in (None, r'\mathrm{own}^2', 'x'):
            with res.case({'rp': [name, own]}):
                at = dict(kw)
                if name != 'M':
                    at['mass'] = 20.
                if own:
                    at['latex'] = own
                got = RP(3, name=name, **at).get_latex()
                if own:
                    same(got, own, 'own typeset form', key='own form')
                else:
                    check_species(name, got)
                res.count('evaluations')


def reactions(part, parts, res):
    sp = species()
    side = [c for k in (1, 2, 3, 4) for c in itertools.combinations_with_replacement(list(sp), k)]

    def content(c):
        atoms = {}
        for n in c:
            for el, m in U.SPECIES[n][3].items():
                atoms[el] = atoms.get(el, 0) + m
        return sorted(atoms.items()), sum(U.SPECIES[n][1] or 0 for n in c)
    pairs = [(a, b) for a, b in itertools.product(side, side) if len(a) < 4 and content(a) == content(b)]
    twins = {n: RP(100 + i, name=n, mass=1., charge=0, latex=r'\mathrm{X}') if n in ('Ar', 'H') else sp[n] for i, n in enumerate(sp)}
    for k, (lhs, rhs) in enumerate(pairs):
        if k % parts != part:
            continue
        with res.case({'reaction': [lhs, rhs]}):
            for order in (1, -1):
                r = Reaction(5, [sp[x] for x in lhs[::order]], [sp[x] for x in rhs[::order]], attributes={'arrh_a': 1e-15},
                             units={'arrh_a': UNIT[len(lhs)][0]})
                check_reaction(lhs, rhs, r.get_latex())
            res.count('evaluations', 2)
            res.see('distinct_nontrivial', ('r', lhs, rhs))
            if {'Ar', 'H'} & set(lhs + rhs):
                r = Reaction(5, [twins[x] for x in lhs], [twins[x] for x in rhs], attributes={'arrh_a': 1e-15}, units={'arrh_a': UNIT[len(lhs)][0]})
                check_reaction([{'Ar': 'X', 'H': 'X'}.get(x, x) for x in lhs], [{'Ar': 'X', 'H': 'X'}.get(x, x) for x in rhs], r.get_latex())
                r = Reaction(5, [sp[x] for x in lhs], [sp[x] for x in rhs], attributes={'arrh_a': 1e-15, 'latex': 'A \\to B'},
                             units={'arrh_a': UNIT[len(lhs)][0]})
                same(r.get_latex(), 'A \\to B', 'own typeset form', key='own form')


COLUMNS = ('ID', 'Reaction', '$k$', r'$\Delta E_\mathrm{e}$', 'Source')
LOSS = [None, 0., 20., 100., 11.5, 0.25, -30., 0.001, 15.76, 10., '200', 0.125, 5]


def body(text):
    """The cells of the body of a table."""
    lines = [x.strip() for x in text.split('\n')]
    start = max(i for i, x in enumerate(lines) if x == r'\endlastfoot') if r'\endlastfoot' in lines else None
    if start is None:
        start = [i for i, x in enumerate(lines) if x == r'\hline'][0] + 1
        end = [i for i, x in enumerate(lines) if x == r'\hline'][1] - 1
    else:
        end = [i for i, x in enumerate(lines) if x == r'\end{longtable}'][0]
    rows = [x for x in lines[start + 1:end] if x]
    if rows and rows[0].startswith(r'\noalign'):
        rows = rows[1:]
    out = []
    for x in rows:
        check(x.endswith(r'\\'), 'row without end: {}', x, key='rows')
        out.append([c.strip() for c in (' ' + x[:-2] + ' ').split(' & ')])
    return lines, out


def tables(part, parts, fine, res):
    sp = species()
    pool = list(U.POOL)
    k = itertools.count()
    sets = [(), (3, 14, 20, 5), (7, 9, 4, 20, 6, 13), tuple(pool)]
    for rids in sets[1:]:
        for ncol in range(1, 6):
            for cols in itertools.permutations(COLUMNS, ncol) if fine or rids == sets[1] else itertools.combinations(COLUMNS, ncol):
                if next(k) % parts != part:
                    continue
                for off in ((), (rids[1],), tuple(rids[-2:])):
                    with res.case({'table': [rids, cols, off]}):
                        a_table(sp, rids, cols, off, res)


def a_table(sp, rids, cols, off, res):
    data = {}
    rs = []
    for i, rid in enumerate(rids):
        lhs, rhs = U.POOL[rid]
        at = {'arrh_a': (3.0 + rid) * 1e-15, 'arrh_b': float(10 * (rid % 3)), 'arrh_c': [0., 20., 300., 0.25][rid % 4]}
        if LOSS[rid % len(LOSS)] is not None and 'e' in lhs:
            at['el_en_loss'] = LOSS[rid % len(LOSS)]
        if rid % 2:
            at['doi'] = '10.1/r{}_x'.format(rid)
        unit = UNIT[len(lhs)][-1]
        rs.append(Reaction(rid, [sp[x] for x in lhs], [sp[x] for x in rhs], attributes=at,
                           units={'arrh_a': unit, 'arrh_c': 'eV' if 'e' in lhs else 'K'}))
        data[rid] = (at, SI[unit], 'e' in lhs)
    net = U.Net(rids)
    chem = Chemistry(species=[sp[n] for n in net.names], reactions=rs)
    for rid in off:
        try:
            chem.disable(reactions=rid)
        except Exception:                                                  # refused: this is the subject of other checks
            pass
    on = [int(r.id) for r in chem.get_reactions(disabled=False)]
    t = ReactionsTable(chem, columns=cols) if cols != COLUMNS else ReactionsTable(chem)
    lines, rows = body(str(t))
    same(len(rows), len(on), 'rows of the table', key='rows')
    for rid, row in zip(on, rows):
        at, si, el = data[rid]
        same(len(row), len(cols), 'cells of reaction {}: {}'.format(rid, row), key='cells')
        for col, cell in zip(cols, row):
            if col == 'ID':
                same(cell, str(rid), 'number in the table', key='order')
            elif col == 'Reaction':
                check_reaction(*U.POOL[rid], cell.strip('$'))
            elif col == '$k$':
                check_coef(cell.strip('$'), at['arrh_a'] * si, at['arrh_b'], at['arrh_c'], el, 'reaction {}'.format(rid))
            elif col == 'Source':
                if 'doi' in at:
                    same(cell, at['doi'], 'source of {}'.format(rid), key='source')
            else:
                check_number(cell, float(at.get('el_en_loss', 0.)), 'loss of reaction {}'.format(rid))
    heads = [x for x in lines if x.startswith(r'\multicolumn{1}') and r'\textbf' in x]
    same(len(heads), 2, 'headers', key='header')
    for h in heads:
        pos = [h.find(r'\textbf{' + c + '}') for c in cols]
        check(min(pos) >= 0 and pos == sorted(pos), 'columns {} in the header {}', cols, h, key='header')
    res.count('evaluations')
    res.see('distinct_nontrivial', ('t', tuple(on), cols))


def losses(part, parts, fine, res):
    sp = species()
    vals = [v for v in energies(fine)]
    for k, v in enumerate(vals):
        if k % parts != part:
            continue
        with res.case({'loss': v}):
            rs = [Reaction(3, [sp['e'], sp['Ar']], [sp['e'], sp['e'], sp['Ar+']], attributes={'arrh_a': 1e-15, 'el_en_loss': v}, units={'arrh_a': 'm3.s-1'}),
                  Reaction(14, [sp['e'], sp['Ar+']], [sp['Ar']], attributes={'arrh_a': 1e-15}, units={'arrh_a': 'm3.s-1'})]
            chem = Chemistry(species=[sp['e'], sp['Ar'], sp['Ar+']], reactions=rs)
            _, rows = body(str(ReactionsTable(chem, columns=('ID', r'$\Delta E_\mathrm{e}$'))))
            check_number(rows[0][1], float(v), 'loss')
            check_number(rows[1][1], 0., 'loss')
            res.count('evaluations')
            res.see('distinct_nontrivial', ('l', v))


def layouts(res):
    """General tables: every combination of kind, shape, notes, caption, label and decorated cells."""
    for kind, nr, nc in itertools.product(('table', 'longtable'), (1, 2, 4), (1, 2, 3)):
        cells = list(itertools.product(range(nr), range(nc)))
        for deco in [()] + [(c,) for c in cells] + list(itertools.combinations(cells, 2))[:10]:
            for notes, cap, lab in itertools.product((0, 1, 2), ('', 'A caption.'), ('', 'tab:one')):
                with res.case({'layout': [kind, nr, nc, deco, notes, cap, lab]}):
                    idx = ['r{}'.format(7 - i) for i in range(nr)]
                    col = ['c{}'.format(5 - i) for i in range(nc)]
                    df = pd.DataFrame([['x{}y{}'.format(i, j) for j in range(nc)] for i in range(nr)], index=idx, columns=col, dtype='str')
                    t = TexTable(kind)
                    t.load_dataframe(df)
                    t.add_caption(cap)
                    t.add_label(lab)
                    for n in range(notes):
                        t.add_note('ab'[n], 'note {}'.format(n))
                    for n, (i, j) in enumerate(deco):
                        t.add_decorator(idx[i], col[j], TexTable.get_note_decorator(['ab'[n % 2], 'c'][:1 + n]))
                    text = str(t)
                    lines, rows = body(text)
                    want = [['x{}y{}'.format(i, j) for j in range(nc)] for i in range(nr)]
                    for n, (i, j) in enumerate(deco):
                        want[i][j] += r' $^\mathrm{{{}}}$'.format(','.join(['ab'[n % 2], 'c'][:1 + n]))
                    same(rows, want, 'body of the table', key='body')
                    env = 'longtable' if kind == 'longtable' else 'tabular'
                    check(r'\begin{%s}{%s}' % (env, 'l' * nc) in text and text.count(r'\end{%s}' % env) == 1, 'environment of {}', text, key='columns')
                    same(text.count('{'), text.count('}'), 'braces', key='braces')
                    same(text.count(r'\begin'), text.count(r'\end{') + text.count(r'\endgroup'), 'environments', key='environments')
                    check(r'\label{%s}' % lab in text, 'label', key='label')
                    check(cap in text, 'caption', key='caption')
                    got = re.findall(r'^\s*\$\^\\mathrm\{(\w)\}\$ (.*?) \\\\$', text, re.M)
                    same(got, [('ab'[n], 'note {}'.format(n)) for n in range(notes)], 'notes', key='notes')
                    for h in [x for x in lines if r'\textbf' in x]:
                        same(re.findall(r'\\textbf\{(\w+)\}', h), col, 'header', key='header')
                    check(any(r'\textbf' in x for x in lines), 'no header', key='header')
                    res.count('evaluations')
                    res.see('distinct_nontrivial', (kind, nr, nc, deco, notes, cap, lab))


def shards(tier):
    q = tier == 'quick'
    out = [{'kind': 'layouts'}, {'kind': 'rps'}]
    for kind in ('numbers', 'names', 'reactions', 'tables', 'losses'):
        n = {'numbers': 16, 'names': 16 if q else 48, 'reactions': 16, 'tables': 16, 'losses': 8}[kind]
        out += [{'kind': kind, 'part': [i, n]} for i in range(n)]
    return out


def run(shard, tier):
    res = Result()
    fine = tier != 'quick'
    kind = shard['kind']
    if kind == 'layouts':
        layouts(res)
    elif kind == 'rps':
        rps(res)
    elif kind == 'numbers':
        numbers(*shard['part'], fine, res)
    elif kind == 'names':
        names(*shard['part'], fine, res)
    elif kind == 'reactions':
        reactions(*shard['part'], res)
    elif kind == 'tables':
        tables(*shard['part'], fine, res)
    else:
        losses(*shard['part'], fine, res)
    return res


def replay(case):
    res = Result()
    if 'coef' in case:
        coefficient(*case['coef'], res)
    elif 'name' in case:
        a_name(case['name'], res)
    elif 'table' in case:
        rids, cols, off = case['table']
        with res.case(case):
            a_table(species(), tuple(rids), tuple(cols), tuple(off), res)
    elif 'layout' in case:
        layouts(res)
    elif 'rp' in case:
        rps(res)
    elif 'loss' in case:
        losses(0, 1, True, res)
    else:
        reactions(0, 1, res)
    return res

