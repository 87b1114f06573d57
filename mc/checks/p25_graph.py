"""P25: bottleneck, shortest-path and flow searches are optimal on every small weighted directed graph."""
import itertools
import math

from pygmo_fwork.optichem.graph import Graph

from mc.core import Result, check, outcome, same

LEVEL = 'exploration'
RULE = 'all weighted directed graphs of the stated sizes x every target (and source); optimum by brute force over all simple ' \
       'paths and over all cuts'
BOUNDS = {'quick': '3 nodes with 5 weights or no edge on each of the 6 edges; 4 nodes with 1 weight on each of the 12 edges and '
                   '4 weights on the 6 edges of the acyclic orientation and on 6 edges with cycles; flows on 4 and 5 nodes',
          'thorough': '3 nodes with 7 weights; 4 nodes with 2 weights on each of the 12 edges; 5-node graphs with 10 edges'}
ASSUMPTIONS = ['the order of the equally good paths is free', 'a path of length zero (other than to itself) is documented as '
               'not handled by the shortest-path search: no zero lengths are used',
               'a flow from a node to itself is not asked for']

INF = float('inf')
WFUNCS = {
    'plain': (None, None),
    'inverse': (lambda x: 1 / x, lambda x: INF if x == 0 else 1 / x),
    'log': (lambda x: math.log(16 / x), lambda x: 16 * math.exp(-x)),
}


def build(nodes, edges, attr='weight', distributed=True, self_loop=None):
    g = Graph()
    for (u, v), w in edges.items():
        g.add_edge(u, v)
        if attr != 'weight':
            g.update_edge_attributes(u, v, weight=3. / w)           # a decoy: another attribute is asked for
        g.update_edge_attributes(u, v, **{attr: w})
    if self_loop is not None:
        g.add_edge(self_loop, self_loop)
        g.update_edge_attributes(self_loop, self_loop, **{'weight': 99., attr: 99.})
    g.weights_distributed = distributed
    return g


def simple_paths(nodes, edges, target):
    """{source: [every simple path from it to the target]}"""
    pred = {}
    for u, v in edges:
        pred.setdefault(v, []).append(u)
    out = {n: [] for n in nodes}

    def walk(path):
        out[path[0]].append(tuple(path))
        for u in pred.get(path[0], ()):
            if u not in path:
                walk([u] + path)
    walk([target])
    return out


def min_cut(nodes, edges, s, t):
    """Smallest capacity of any cut between s and t."""
    rest = [n for n in nodes if n not in (s, t)]
    best = INF
    for k in range(len(rest) + 1):
        for extra in itertools.combinations(rest, k):
            side = set(extra) | {s}
            best = min(best, sum(w for (u, v), w in edges.items() if u in side and v not in side))
    return best


def dump(g):
    return (sorted(g.nodes), sorted(g.edges), sorted((k, sorted(v.items())) for k, v in g.edge_attributes.items()),
            sorted((k, sorted(v)) for k, v in g.successors.items()), sorted((k, sorted(v)) for k, v in g.predecessors.items()),
            sorted((k, sorted(v.items())) for k, v in g.node_attributes.items()), g.weights_distributed)


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def judge_paths(edges, target, attr, wname, loop, res):
    nodes = sorted({n for e in edges for n in e})
    g = build(nodes, edges, attr, self_loop=loop)
    before = dump(g)
    wf, inv = WFUNCS[wname]
    f = wf or (lambda x: x)
    back = inv or (lambda x: x)
    kw = {} if attr == 'weight' else {'edge_attribute': attr}
    if wf is not None:
        kw.update(weighting_func=wf, inverse=inv)
    every = simple_paths(nodes, edges, target)
    hops = {e: f(w) for e, w in edges.items()}
    for what, search, measure, choose, nothing in (
            ('bottleneck', g.find_max_bottleneck_paths, min, max, 0.), ('shortest', g.find_shortest_paths, sum, min, INF)):
        w = '{} paths to {} in {} ({}, {})'.format(what, target, edges, attr, wname)
        paths, vals = search(target_node=target, **kw)
        same(set(paths), set(nodes), w + ': paths for', key='paths for')
        same(set(vals), set(nodes), w + ': values for', key='values for')
        same(list(paths[target]), [target], w + ': path of the target itself', key='target')
        for n in nodes:
            if n == target:
                continue
            got = list(paths[n])
            check(got and got[0] == n, '{}: the path of {} is {}', w, n, got, key='start')
            if not every[n]:
                check(got[-1] is None and target not in got, '{}: {} cannot reach the target but has {}', w, n, got, key='unreached')
                same(vals[n], back(nothing), w + ': value of the unreachable {}'.format(n), key='unreached value')
                continue
            best = choose(measure([hops[e] for e in zip(p, p[1:])]) for p in every[n])
            check(tuple(got) in every[n], '{}: {} is not a path from {}', w, got, n, key='path')
            check(close(measure([hops[e] for e in zip(got, got[1:])]), best), '{}: path {} is not the best', w, got, key='best')
            check(close(vals[n], back(best)), '{}: value of {} is {}, expected {}', w, n, vals[n], back(best), key='value')
        res.count('evaluations')
    same(dump(g), before, 'graph {} after the searches'.format(edges), key='graph changed')
    if any(len(p) > 1 for p in every.values()):
        res.see('distinct_nontrivial', (tuple(sorted(edges.items())), target))


def judge_flow(edges, s, t, attr, scaled, loop, res):
    nodes = sorted({n for e in edges for n in e})
    g = build(nodes, edges, attr, self_loop=loop)
    before = dump(g)
    kw = {} if attr == 'weight' else {'edge_attribute': attr}
    factor = 1.
    if scaled:
        kw.update(weighting_func=lambda x: 3 * x, inverse=lambda x: x / 6)
        factor = 0.5
    got = g.get_max_flow(s, t, **kw)
    want = factor * min_cut(nodes, edges, s, t)
    check(close(got, want), 'flow from {} to {} in {}: got {}, expected {}', s, t, edges, got, want, key='flow')
    same(dump(g), before, 'graph {} after the flow search'.format(edges), key='graph changed')
    res.count('flow_searches')
    res.see('distinct_flows', (tuple(sorted(edges.items())), s, t))


def judge_guards(res):
    edges = {('A', 'B'): 2., ('B', 'C'): 1.}
    for attr in (None, 'x'):
        kw = {} if attr is None else {'edge_attribute': attr}
        for fn in ('find_max_bottleneck_paths', 'find_shortest_paths'):
            g = build('ABC', edges, attr or 'weight', distributed=False)
            same(outcome(getattr(g, fn), 'C', **kw), ('err', 'AssertionError'), fn + ' before the weights are distributed')
            g.weights_distributed = True
            for w in ({'weighting_func': lambda x: x}, {'inverse': lambda x: x}):
                same(outcome(getattr(g, fn), 'C', **dict(kw, **w)), ('err', 'AssertionError'), fn + ' with only one function')
            same(outcome(getattr(g, fn), 'C', weighting_func=lambda x: -x, inverse=lambda x: -x, **kw),
                 ('err', 'AssertionError'), fn + ' with negative widths or lengths')
        g = build('ABC', edges, attr or 'weight', distributed=False)
        same(outcome(g.get_max_flow, 'A', 'C', **kw), ('err', 'AssertionError'), 'flow before the weights are distributed')
        g.weights_distributed = True
        same(outcome(g.get_max_flow, 'A', 'C', weighting_func=lambda x: x, **kw), ('err', 'AssertionError'), 'one function')
        same(outcome(g.get_max_flow, 'A', 'C', weighting_func=lambda x: -x, inverse=lambda x: -x, **kw),
             ('err', 'AssertionError'), 'flow with negative capacities')
    for bad in (0, 0., -1., -1e-300, float('nan')):
        g = build('ABC', edges)
        same(outcome(g.update_edge_attributes, 'A', 'B', weight=bad), ('err', 'AssertionError'), 'weight {}'.format(bad))
        same(g.get_edge_attributes('A', 'B'), {'weight': 2.}, 'after the refused weight')
        g.update_edge_attributes('A', 'B', x=bad)
        g.update_edge_attributes('A', 'B', weight=3.)
        same(g.get_edge_attributes('A', 'B')['weight'], 3., 'weight')
    g = Graph()
    same((g.get_nodes(), g.get_edges()), (set(), set()), 'empty graph')
    for k in range(2):                      # adding an edge again changes nothing
        g.add_edge('A', 'B')
        g.add_edge('B', 'A')
        if k == 0:
            g.update_edge_attributes('A', 'B', weight=5.)
            g.update_node_attributes('A', size=4.)
    same((g.get_nodes(), g.get_edges()), ({'A', 'B'}, {('A', 'B'), ('B', 'A')}), 'nodes and edges')
    same((g.get_edge_attributes('A', 'B'), g.get_edge_attributes('B', 'A'), g.get_node_attributes('A'),
          g.get_node_attributes('B')), ({'weight': 5.}, {}, {'size': 4.}, {}), 'attributes')
    same([g.has_edge(*e) for e in ('AB', 'BA', 'AA', 'BC')], [True, True, False, False], 'has_edge')
    same((g.successors['A'], g.predecessors['A']), ({'B'}, {'B'}), 'neighbours')
    res.count('guards')


# ------------------------------------------------------------------------------------------------
def all_edges(nodes):
    return [(u, v) for u in nodes for v in nodes if u != v]


FAMILIES = {
    # (edges, weights or absent)
    'three': (all_edges('ABC'), (None, 1., 2., 3., 4., 10.)),
    'four': (all_edges('ABCD'), (None, 1.)),
    'dag': ([('A', 'B'), ('A', 'C'), ('A', 'D'), ('B', 'C'), ('B', 'D'), ('C', 'D')], (None, 1., 2., 3., 5.)),
    'loops': ([('A', 'B'), ('B', 'C'), ('C', 'B'), ('C', 'D'), ('B', 'A'), ('A', 'D')], (None, 1., 2., 4., 7.)),
    'tiny': ([('A', 'B'), ('B', 'C'), ('A', 'C'), ('C', 'D'), ('B', 'D')], (None, 1e-300, 0.1, 1e-12, 1e300)),
    'five': ([('A', 'B'), ('B', 'C'), ('C', 'D'), ('D', 'E'), ('A', 'C'), ('B', 'D'), ('C', 'E'), ('A', 'D'), ('E', 'B')],
             (None, 1., 3.)),
}
DEEP = {
    'three': (all_edges('ABC'), (None, 0.5, 1., 2., 3., 4., 10., 15.)),
    'four': (all_edges('ABCD'), (None, 1., 3.)),
    'five': (FAMILIES['five'][0] + [('D', 'A')], (None, 1., 3., 4.)),
}
FLOWS = {
    # 7 edges of 4 nodes: two routes, a cross edge in both directions, a way back
    'cross': ([('S', 'A'), ('S', 'B'), ('A', 'B'), ('B', 'A'), ('A', 'T'), ('B', 'T')], (None, 1., 2., 3.), [('S', 'T'), ('A', 'T')]),
    'ring': ([('S', 'A'), ('A', 'B'), ('B', 'T'), ('S', 'B'), ('A', 'T'), ('B', 'S'), ('T', 'A'), ('S', 'T')], (None, 1., 2.),
             [('S', 'T')]),
    'six': ([('S', 'A'), ('S', 'B'), ('A', 'C'), ('B', 'C'), ('B', 'D'), ('A', 'D'), ('C', 'T'), ('D', 'T'), ('C', 'D')],
            (None, 1., 2.), [('S', 'T')]),
}


def cases(tier):
    fams = dict(FAMILIES, **(DEEP if tier != 'quick' else {}))
    k = 0
    for name, (edges, weights) in fams.items():
        for ws in itertools.product(weights, repeat=len(edges)):
            es = {e: w for e, w in zip(edges, ws) if w is not None}
            if not es:
                continue
            k += 1
            yield {'kind': 'paths', 'name': name, 'edges': [[u, v, w] for (u, v), w in es.items()],
                   'attr': 'weight' if k % 7 else 'x', 'w': ('plain' if name in ('tiny', 'four') else
                                                            ('plain', 'inverse', 'log')[k % 3]),
                   'loop': None if k % 11 else 'node'}
    flows = FLOWS
    for name, (edges, weights, pairs) in flows.items():
        for ws in itertools.product(weights, repeat=len(edges)):
            if tier == 'quick' and name == 'six' and ws.count(None) > 3:
                continue
            es = {e: w for e, w in zip(edges, ws) if w is not None}
            for s, t in pairs:
                used = {n for e in es for n in e}
                if s not in used or t not in used:
                    continue
                k += 1
                yield {'kind': 'flow', 'name': name, 'edges': [[u, v, w] for (u, v), w in es.items()], 's': s, 't': t,
                       'attr': 'weight' if k % 7 else 'x', 'scaled': k % 5 == 0, 'loop': None if k % 11 else 'node'}


def judge(case, res):
    edges = {(u, v): w for u, v, w in case['edges']}
    nodes = sorted({n for e in edges for n in e})
    loop = nodes[0] if case['loop'] else None
    if case['kind'] == 'paths':
        for target in nodes:
            judge_paths(edges, target, case['attr'], case['w'], loop, res)
    else:
        judge_flow(edges, case['s'], case['t'], case['attr'], case['scaled'], loop, res)


def shards(tier):
    return [{'i': i, 'n': 64} for i in range(64)]


def run(shard, tier):
    res = Result()
    if shard['i'] == 0:
        with res.case({'kind': 'guards'}):
            judge_guards(res)
    for k, case in enumerate(cases(tier)):
        if k % shard['n'] != shard['i']:
            continue
        with res.case(case, 60):
            judge(case, res)
        if res.full:
            return res
        if k % 9000 == 0:
            res.sample(case)
    return res


def replay(case):
    res = Result()
    with res.case(case, 60):
        judge_guards(res) if case['kind'] == 'guards' else judge(case, res)
    return res
