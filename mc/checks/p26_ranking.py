"""P26: coupling coefficients and species rankings of the chemistry graph, against brute force on the documented definitions."""
import itertools
import math

import numpy as np
import pandas as pd

from pygmo_fwork.optichem.exceptions import GraphInitError
from pygmo_fwork.optichem.graph import ChemistryGraph
from pygmo_fwork.pygmol.model_parameters import ModelParameters

from mc import universe as U
from mc.core import Result, check, outcome, same
from mc.models import NEUTRAL_SETUPS, SETUPS, Setup

LEVEL = 'exploration'
RULE = 'all vectors of rates over a grid (zero, equal, cancelling and unequal) x patterns of wall fluxes x weighting schemes x ' \
       'surface on and off: every edge of every graph; then all search methods x sets of important species x one to three ' \
       'times: every score; re-distribution in every order of two schemes; every kind of inconsistent input'
BOUNDS = {'quick': '8 networks, 3 rates per reaction with up to 6 reactions (2 of them in larger networks), 3 wall flux patterns',
          'thorough': '9 networks, 3 rates per reaction with up to 7 reactions, 4 wall flux patterns'}
ASSUMPTIONS = ['a net rate which cancels only up to rounding may or may not make an edge',
               'products of exactly one in the max_product search are documented as not handled',
               'max_product is used only with the schemes whose coefficients do not exceed one',
               'the order of equally ranked species is free']

NETS = [
    dict(rids=(3, 5, 8, 2)),
    dict(rids=(3, 5, 8, 7, 9), params={'feeds': {'Ar': 1.}}),
    dict(rids=(7, 9, 20, 6, 13, 16)),
    dict(rids=(3, 7, 9, 4, 6, 1), ops=[('stick', 31, 0.), ('ret', 18, (('H', 0.5), ('H2', 0.25))), ('stick', 12, 0.25),
                                       ('ret', 12, (('Ar', 1.),))]),
    dict(rids=(3, 5, 8, 7, 9, 10), ops=[('dis_s', 3)]),
    dict(rids=(7, 9, 10, 20), ops=[('ret', 31, (('H2', 0.25), ('H', 0.5)))]),
    dict(rids=(15, 3, 17)),                     # elastic only for one species: nothing couples it
    NEUTRAL_SETUPS[1],
    SETUPS[1],
]
GRIDS = {'int': (0., 1., 2.), 'float': (0.1, 0.7, 1e-4)}
FLUX = (lambda i, n: 0., lambda i, n: -1., lambda i, n: -0.003 * (i + 1) * (i % 2), lambda i, n: -1e-4 * (n - i))
SCHEMES = ('DRG', 'DRG1', 'DRG2', 'DRGEP')
SEARCHES = ('max_bottleneck', 'shortest_path', 'max_product', 'max_flow')
TINY = 1e-11


class Ref(object):
    """Documented coupling coefficients, one row of rates and wall fluxes at a time."""

    def __init__(self, setup, radius, length):
        self.names = [n for n in setup.net.names if n in setup.names or n in U.SPECIAL]
        self.special = [n for n in self.names if n in U.SPECIAL]
        self.rids = list(setup.rids)
        self.stoich = {}
        for r in self.rids:
            lhs, rhs = setup.net.pool[r]
            self.stoich[r] = {n: (lhs.count(n), rhs.count(n)) for n in set(lhs) | set(rhs)}
        self.ret = {b: dict(setup.info[b]['ret']) if setup.info[b]['stick'] or setup.info[b]['ret'] else {}
                    for b in setup.names}
        self.av = 2 * (radius + length) / (radius * length)

    def surface(self, flux, on):
        """{(b, a): surface source of a due to sticking of b}"""
        out = {}
        if not on:
            return out
        for b, f in flux.items():
            rate = f * self.av
            out[b, b] = out.get((b, b), 0.) + rate
            for a, c in self.ret[b].items():
                out[b, a] = out.get((b, a), 0.) - c * rate
        return out

    def weights(self, rates, flux, scheme, on):
        """{(b, a): (weight, doubtful)} for the edges"""
        surf = self.surface(flux, on)
        out = {}
        for a in self.names:
            net = {r: (self.stoich[r][a][1] - self.stoich[r][a][0]) * rates[r] for r in self.rids if a in self.stoich[r]}
            s = [v for (b, x), v in surf.items() if x == a]
            terms = list(net.values()) + s
            size = sum(abs(x) for x in terms)
            if size == 0.:
                continue
            if scheme == 'DRG':
                norm = size
            elif scheme == 'DRGEP':
                norm = max(sum(x for x in terms if x > 0), -sum(x for x in terms if x < 0))
            else:
                norm = abs(sum(terms))
            for b in self.names:
                if b == a:
                    continue
                part = [v for r, v in net.items() if b in self.stoich[r]]
                extra = surf.get((b, a), 0.)
                if scheme in ('DRG', 'DRG1'):
                    num = sum(abs(v) for v in part) + abs(extra)
                    scale = num
                else:
                    num = abs(sum(part) + extra)
                    scale = sum(abs(v) for v in part) + abs(extra)
                doubt = num <= TINY * scale or norm <= TINY * size
                if doubt and (num == 0. or norm == 0.) and scale == 0.:
                    continue
                out[b, a] = (num / norm if norm else math.nan, doubt)
        return out


def best_scores(names, weights, target, search):
    """{species: best score to the target} by brute force over all simple paths or all cuts."""
    out = {}
    succ = {}
    for (b, a), w in weights.items():
        succ.setdefault(b, {})[a] = w
    if search == 'max_flow':
        for n in names:
            if n == target:
                continue
            rest = [x for x in names if x not in (n, target)]
            best = math.inf
            for k in range(2 ** len(rest)):
                side = {n} | {x for i, x in enumerate(rest) if k >> i & 1}
                best = min(best, sum(w for (u, v), w in weights.items() if u in side and v not in side))
            out[n] = best
        return out
    join = {'max_bottleneck': min, 'shortest_path': lambda x, w: 1 / (1 / x + 1 / w), 'max_product': lambda x, w: x * w}[search]
    # every simple path backwards from the target
    pred = {}
    for (b, a), w in weights.items():
        pred.setdefault(a, {})[b] = w
    out = {n: 0. for n in names if n != target}

    def walk(node, score, seen):
        for b, w in pred.get(node, {}).items():
            if b in seen:
                continue
            s = w if score is None else join(score, w)
            if s > out[b]:
                out[b] = s
                walk(b, s, seen | {b})
            elif search == 'max_bottleneck' and s == out[b]:
                pass
    walk(target, None, {target})
    return out


def frames(setup, ref, rows):
    rf = pd.DataFrame([[t] + [rates[r] for r in ref.rids] for t, rates, _ in rows], columns=['t'] + ref.rids)
    wf = pd.DataFrame([[t] + [flux[n] for n in setup.names] for t, _, flux in rows], columns=['t'] + list(setup.names))
    return rf, wf


def compare_edges(graphs, ref, rows, scheme, on, w):
    same(len(graphs), len(rows), w + ': number of graphs', key='times')
    for g, (t, rates, flux) in zip(graphs, rows):
        want = ref.weights(rates, flux, scheme, on)
        got = {e: dict(g.get_edge_attributes(*e)) for e in g.get_edges()}
        for e in set(want) | set(got):
            if e not in want:
                check(False, '{} at {}: edge {} is not documented', w, t, e, key='extra edge')
            weight, doubt = want[e]
            if doubt:
                continue
            check(e in got, '{} at {}: edge {} of weight {} is missing', w, t, e, weight, key='missing edge')
            have = got[e]['weight']
            check(abs(have - weight) <= 1e-9 * weight, '{} at {}: edge {} weighs {}, expected {}', w, t, e, have, weight,
                  key='weight')
            if scheme in ('DRG', 'DRGEP'):
                check(have <= 1 + 1e-12, '{} at {}: edge {} weighs {}', w, t, e, have, key='above one')


def judge_weights(setup, ref, chem_graph, rows, combos, w, res):
    for scheme, on in combos:
        chem_graph.distribute_weights(scheme, surface=on)
        what = '{} {} surface={}'.format(w, scheme, on)
        compare_edges(chem_graph.graphs, ref, rows, scheme, on, what)
        res.count('distributions')
        if any(g.get_edges() for g in chem_graph.graphs):
            res.see('distinct_nontrivial', (w, scheme, on))


def judge_ranking(setup, ref, chem_graph, rows, scheme, on, important, search, w, res):
    """The graphs hold the weights of the scheme (compared before)."""
    rank = chem_graph.get_ranking(list(important), search_method=search)
    want = {}
    free = set()
    for g, (t, rates, flux) in zip(chem_graph.graphs, rows):
        ws = {e: v for e, v in ref.weights(rates, flux, scheme, on).items()}
        if any(d for _, d in ws.values()):
            ws = {e: (g.get_edge_attributes(*e)['weight'], False) for e in g.get_edges()}
        ws = {e: v for e, (v, _) in ws.items()}
        for imp in important:
            for n, s in best_scores(ref.names, ws, imp, search).items():
                want[n] = max(want.get(n, 0.), s)
                if search == 'max_product' and abs(s - 1) < 1e-9:
                    free.add(n)
    names = [n for n in ref.names if n not in important and n not in ref.special]
    what = '{} {} surface={} {} towards {}'.format(w, scheme, on, search, important)
    same(sorted(rank.index), sorted(names), what + ': ranked species', key='ranked species')
    for n in names:
        if n in free:
            continue
        check(abs(rank[n] - want[n]) <= 1e-9 * max(want[n], 1e-300), '{}: score of {} is {}, expected {}', what, n, rank[n], want[n],
              key='score')
    vals = [v for n, v in zip(rank.index, rank.values) if n not in free]
    check(all(a <= b for a, b in zip(vals, vals[1:])), '{}: not in ascending order: {}', what, list(zip(rank.index, rank.values)),
          key='order')
    res.count('evaluations')
    if len(set(round(v, 12) for v in vals)) > 1:
        res.see('distinct_rankings', (w, scheme, on, search, tuple(important)))


# ------------------------------------------------------------------------------------------------
_CACHE = {}


def get_setup(i):
    if i not in _CACHE:
        s = Setup(**NETS[i])
        _CACHE[i] = (s, Ref(s, 0.02, 0.05))
    return _CACHE[i]


def make_rows(setup, ref, grid, codes, fluxes, times):
    vals = GRIDS[grid]
    rows = []
    for t, code, f in zip(times, codes, fluxes):
        rates = {r: vals[c] for r, c in zip(ref.rids, code)}
        flux = {n: FLUX[f](i, len(setup.names)) for i, n in enumerate(setup.names)}
        rows.append((t, rates, flux))
    return rows


def judge(case, res):
    setup, ref = get_setup(case['net'])
    par = {'radius': 0.02, 'length': 0.05}
    if case['kind'] == 'guards':
        return judge_guards(setup, ref, res)
    if case['params'] == 'object':
        par = ModelParameters(dict(setup.params(), r=0.02, z=0.05))
    rows = make_rows(setup, ref, case['grid'], case['codes'], case['fluxes'], case['times'])
    rf, wf = frames(setup, ref, rows)
    before = rf.copy(), wf.copy()
    g = ChemistryGraph(setup.chem, par, rf, wf)
    w = 'net {} {} {} {}'.format(case['net'], case['grid'], case['codes'], case['fluxes'])
    combos = list(itertools.product(SCHEMES, (True, False)))
    combos = combos[case['rot']:] + combos[:case['rot']]
    if case['kind'] == 'edges':
        judge_weights(setup, ref, g, rows, combos, w, res)
    else:
        same(outcome(g.get_ranking, [setup.names[0]]), ('err', 'ValueError'), w + ': ranking before the weights')
        for scheme, on in combos[:case['schemes']]:
            g.distribute_weights(scheme, surface=on)
            compare_edges(g.graphs, ref, rows, scheme, on, w)
            for search in SEARCHES:
                if search == 'max_product' and scheme in ('DRG1', 'DRG2'):
                    continue
                for important in case['important']:
                    judge_ranking(setup, ref, g, rows, scheme, on, [setup.names[i] for i in important], search, w, res)
    check(rf.equals(before[0]) and wf.equals(before[1]), '{}: the frames were changed', w, key='frames changed')


def judge_guards(setup, ref, res):
    rows = make_rows(setup, ref, 'int', [[1] * 9, [2] * 9], [1, 1], [0.5, 1.])
    rf, wf = frames(setup, ref, rows)
    par = {'radius': 0.02, 'length': 0.05}

    def refuse(what, a, b):
        same(outcome(ChemistryGraph, setup.chem, par, a, b), ('err', GraphInitError.__name__), what)
        res.count('guards')
    rcols, wcols = list(rf.columns), list(wf.columns)
    for cols, frame, pos in ((rcols, rf, 0), (wcols, wf, 1)):
        for i in range(1, len(cols)):
            less = frame[[c for k, c in enumerate(cols) if k != i]]
            more = frame.copy()
            more['extra'] = 1.
            renamed = frame.rename(columns={cols[i]: 'other'})
            variants = [less, more, renamed]
            for j in range(i + 1, len(cols)):
                swapped = list(cols)
                swapped[i], swapped[j] = swapped[j], swapped[i]
                variants.append(frame[swapped])
            for v in variants:
                refuse('inconsistent columns {} of {}'.format(list(v.columns), pos), *((v, wf) if pos == 0 else (rf, v)))
        moved = frame.copy()
        moved.loc[1, 't'] = 1.5
        refuse('other times', *((moved, wf) if pos == 0 else (rf, moved)))
        refuse('fewer times', *((frame.iloc[:1], wf) if pos == 0 else (rf, frame.iloc[:1])))
    g = ChemistryGraph(setup.chem, par, rf, wf)
    for bad in ('drg', 'DRG3', '', None):
        same(outcome(g.distribute_weights, bad), ('err', 'NotImplementedError'), 'scheme {!r}'.format(bad))
    g = ChemistryGraph(setup.chem, par, rf, wf)
    g.distribute_weights()
    default = [dict(x.edge_attributes) for x in g.graphs]
    compare_edges(g.graphs, ref, rows, 'DRG', True, 'default scheme')
    r1 = g.get_ranking([setup.names[0]])
    r2 = g.get_ranking([setup.names[0]], 'shortest_path')
    check(r1.equals(r2), 'the default search is not shortest_path', key='default')
    for bad in ('dfs', '', None):
        same(outcome(g.get_ranking, [setup.names[0]], bad), ('err', 'ValueError'), 'search {!r}'.format(bad))
    same([dict(x.edge_attributes) for x in g.graphs], default, 'weights after rankings')


def cases(tier):
    quick = tier == 'quick'
    k = 0
    for i in range(len(NETS) - (1 if quick else 0)):
        setup, ref = get_setup(i)
        yield {'kind': 'guards', 'net': i}
        n, ns = len(ref.rids), len(setup.names)
        limit = 6 if quick else 7
        for grid in GRIDS:
            levels = range(3 if n <= (limit if grid == 'int' else limit - 1) else 2)
            codes = list(itertools.product(levels, repeat=n))
            for c in codes:
                for f in range(len(FLUX) - (1 if quick else 0)):
                    k += 1
                    if quick and n > 5 and k % 2:
                        continue
                    yield {'kind': 'edges', 'net': i, 'grid': grid, 'codes': [c], 'fluxes': [f], 'times': [1.],
                           'rot': k % 8, 'params': 'dict'}
            # rankings: several times, all important sets of one and two species
            sets = [[x] for x in range(ns)] + ([list(p) for p in itertools.combinations(range(ns), 2)] if ns < 5 or not quick
                                               else [[0, 1], [ns - 1, 2]])
            some = codes[::max(1, len(codes) // (24 if quick else 120))]
            for a, c in enumerate(some):
                k += 1
                other = some[(5 * a + 3) % len(some)]
                times = ([1.], [1., 1.00001], [0.25, 0.5, 0.5000001])[k % 3]
                yield {'kind': 'rank', 'net': i, 'grid': grid, 'codes': [c, other, c][:len(times)],
                       'fluxes': [k % 3, (k + 1) % 3, 0][:len(times)], 'times': times, 'rot': k % 8, 'schemes': 2 if quick else 8,
                       'important': sets, 'params': 'object' if k % 2 else 'dict'}


def shards(tier):
    return [{'i': i, 'n': 64} for i in range(64)]


def run(shard, tier):
    res = Result()
    for k, case in enumerate(cases(tier)):
        if k % shard['n'] != shard['i']:
            continue
        with res.case(case, 120):
            judge(case, res)
        if res.full:
            return res
        if k % 3000 == 0:
            res.sample(case)
    return res


def replay(case):
    res = Result()
    with res.case(case, 120):
        judge(case, res)
    return res
