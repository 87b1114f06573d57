"""P18: charge, atoms, wall returns and gas flows balance in the model equations, in every state."""
import itertools
import math

import numpy as np

from pygmo_fwork.pygmol.equations import Equations

from mc import universe as U
from mc.core import Result, check, chunks, same
from mc.models import POOL, Setup
from mc.refphys import SCCM

LEVEL = 'exploration'
RULE = 'every consistent network up to a number of reactions, complete and with every single species or reaction disabled, ' \
       'with several wall overrides, feeds and both wall models, at every state of a product grid'
BOUNDS = {'quick': 'networks of 1-2 reactions (3 for every third), 2 levels per species',
          'thorough': 'networks of 1-4 reactions, 3 levels per species'}
ASSUMPTIONS = ['balances hold to 1e-9 of the largest contribution']

OVERRIDES = [(), (('stick', 31, 1.), ('ret', 31, (('H', 1.),))), (('stick', 12, 0.3), ('ret', 12, (('Ar', 0.5),)),
                                                                  ('stick', 3, 0.)),
             (('stick', 18, 0.), ('ret', 25, ())), (('ret', 18, (('H2', 0.5),)), ('stick', 9, 0.125), ('ret', 9, (('H2', 1.),)))]


def shards(tier):
    q = tier == 'quick'
    nets = [n.rids for n in U.networks((1, 2) if q else (1, 2, 3, 4))]
    if q:
        nets += [n.rids for n in U.networks((3,))][::3]
    return [{'nets': c} for c in chunks(nets, 16 if q else 64)]


def atoms_of(name):
    return U.SPECIES[name][3]


def small(x, scale, tol=1e-9):
    return abs(x) <= tol * scale + 1e-300


def examine(s, eq, y, res):
    names, N = s.names, len(s.names)
    n = [float(v) for v in y[:N]]
    charge = [s.info[x]['charge'] for x in names]
    w = 'in the state {} of {}'.format(['%.3g' % v for v in y], names)

    rates = [float(x) for x in eq.get_reaction_rates(y)]
    vol = [float(x) for x in eq.get_volumetric_source_rates(y)]
    size = [0.] * N
    el = 0.
    for r, rate in zip(s.reactions, rates):
        for i, x in enumerate(names):
            size[i] += abs(rate) * (r['lhs'].count(x) + r['rhs'].count(x))
        el += rate * (r['rhs'].count('e') - r['lhs'].count('e'))
    check(small(math.fsum(c * v for c, v in zip(charge, vol)) - el, sum(size) + sum(map(abs, rates))),
          'the volume sources do not conserve charge {}: {} (electrons {})', w, vol, el, key='charge')
    for element in ('H', 'Ar'):
        tot = math.fsum(v * atoms_of(x).get(element, 0) for v, x in zip(vol, names))
        check(small(tot, sum(size)), 'the volume sources do not conserve {} {}: {}', element, w, vol, key='atoms')
    for i, x in enumerate(names):
        want = math.fsum(rate * (r['rhs'].count(x) - r['lhs'].count(x)) for r, rate in zip(s.reactions, rates))
        check(small(vol[i] - want, size[i]), 'volume source of {} {}: got {}, expected {}', x, w, vol[i], want, key='volume')

    sinks = [float(x) for x in eq.get_diffusion_sinks(y)]
    src = [float(x) for x in eq.get_diffusion_sources(y)]
    both = [float(x) for x in eq.get_diffusion_source_rates(y)]
    flux = [float(x) for x in eq.get_wall_fluxes(y)]
    V, A = math.pi * s.par['r'] ** 2 * s.par['z'], 2 * math.pi * s.par['r'] * (s.par['r'] + s.par['z'])
    for i, x in enumerate(names):
        if s.info[x]['stick'] == 0:
            check(sinks[i] == 0 and flux[i] == 0, '{} does not stick, but its wall loss is {} {}', x, sinks[i], w, key='stick')
        if n[i] > 0:
            check(flux[i] <= 0 and (flux[i] < 0 or s.info[x]['stick'] == 0 or charge[i] < 0),
                  'wall flux of {} is {} {}', x, flux[i], w, key='flux')
        check(small(sinks[i] - flux[i] * A / V, abs(sinks[i])), 'sink of {} does not match its flux {}', x, w, key='sink')
        want = math.fsum(-sinks[j] * s.info[z]['ret'].get(x, 0.) for j, z in enumerate(names))
        check(small(src[i] - want, sum(map(abs, sinks))), 'wall source of {} is {}, expected {} {}', x, src[i], want, w,
              key='returned')
        check(small(both[i] - src[i] - sinks[i], abs(src[i]) + abs(sinks[i])), 'wall rates of {} do not add up {}', x, w)
    for element in ('H', 'Ar'):
        lost = math.fsum(-sinks[j] * (atoms_of(z).get(element, 0)
                                      - sum(k * atoms_of(b).get(element, 0) for b, k in s.info[z]['ret'].items()))
                         for j, z in enumerate(names))
        got = math.fsum(v * atoms_of(x).get(element, 0) for v, x in zip(both, names))
        check(small(got + lost, 2 * sum(map(abs, sinks)) + sum(map(abs, src))),
              'the walls change {} by {} instead of {} {}', element, got, -lost, w, key='wall atoms')

    flow = [float(x) for x in eq.get_flow_source_rates(y)]
    inflow = [s.par['feeds'].get(x, 0.) * SCCM / V for x in names]
    p = 1.380649e-23 * s.par['Tg'] * math.fsum(n)
    neu = math.fsum(v for v, c in zip(n, charge) if c == 0)
    if neu > 0:
        tot_in = math.fsum(inflow)
        for i, x in enumerate(names):
            want = inflow[i]
            scale = inflow[i]
            if charge[i] == 0:
                reg, out = n[i] / 1e-3 * (p / s.par['p'] - 1), tot_in * n[i] / neu
                want -= reg + out
                scale += n[i] / 1e-3 * (abs(p / s.par['p']) + 1) + out
            check(small(flow[i] - want, scale), 'flow term of {} is {}, expected {} {}', x, flow[i], want, w, key='flow')
        scale = tot_in + neu / 1e-3 * (abs(p / s.par['p']) + 1)
        check(small(math.fsum(flow) + neu / 1e-3 * (p / s.par['p'] - 1), scale),
              'outflow and inflow do not balance {}: {}', w, flow, key='flow balance')

    ne = float(eq.get_electron_density(y))
    check(small(ne - math.fsum(a * c for a, c in zip(n, charge)), math.fsum(abs(a * c) for a, c in zip(n, charge))),
          'electron density {} is not the net ion charge {}', ne, w, key='electron density')
    dn = [float(x) for x in eq.get_dn_dt(y)]
    for i, x in enumerate(names):
        corr = (1. - n[i]) / 1e-10 if n[i] < 1. else 0.
        parts = [vol[i], flow[i], both[i], corr]
        check(small(dn[i] - math.fsum(parts), sum(map(abs, parts))), 'dn/dt of {} is not the sum of its terms {}', x, w,
              key='dn_dt')
    rhs = eq.get_objective_functions()[0](0.1, y)
    check(len(rhs) == N + 1 and all(small(float(a) - b, size[i] + abs(flow[i]) + abs(sinks[i]) + abs(src[i]) + 1e10 +
                                          n[i] / 1e-3 * (abs(p / s.par['p']) + 1))
                                    for i, (a, b) in enumerate(zip(rhs, dn))), 'right-hand side is not dn/dt {}', w, key='rhs')
    res.count('evaluations')


def variants(rids):
    """Operations bringing the chemistry of these reactions to a reduced or overridden state."""
    net = U.Net(rids)
    seen = set()
    for ov in OVERRIDES:
        ok = [op for op in ov if op[1] in net.sids and (op[0] == 'stick' or all(a in net.names for a, _ in op[2]))]
        if tuple(ok) not in seen:
            seen.add(tuple(ok))
            yield tuple(ok)
    from mc import refchem as R
    for what in [('dis_s', i) for i in net.sids] + [('dis_r', r) for r in net.rids]:
        ref = R.Ref(net)
        if ref.apply(what, {}) == 'ok':
            k = (ref.sp, ref.rs)
            if k not in seen:
                seen.add(k)
                yield (what,)


def run_one(rids, ops, wall, feed, res, fine):
    with res.case({'rids': list(rids), 'ops': [list(o) for o in ops], 'wall': wall, 'feed': feed, 'fine': fine}, 300), \
            np.errstate(all='ignore'):
        probe = Setup(rids, ops)
        feeds = {n: 2.5 + 3 * i for i, n in enumerate(probe.names) if probe.info[n]['charge'] == 0} if feed else {}
        s = Setup(rids, ops, params={'feeds': feeds, 'p': 10. if feed else 0.5, 'r': 0.03}, wall_model=wall)
        eq = Equations(s.chem, s.params())
        eq.diffusion_model = wall
        for y in s.grid((1e-24, 0.6, 1.5) if fine else (1e-3, 0.9), (1e-6, 3e-3), (1e-25, 2e-8) if fine else (2e-8,)):
            examine(s, eq, y, res)
            res.see('distinct_nontrivial', (rids, ops, wall, feed, y.tobytes()))
        y = s.vector([0.1 if s.info[x]['charge'] == 0 else -1e-4 if s.info[x]['charge'] > 0 else 1e-5 for x in s.names], 1.)
        ne = float(eq.get_electron_density(y))
        want = math.fsum(a * s.info[x]['charge'] for a, x in zip(y, s.names))
        check(small(ne - want, abs(want)), 'electron density {} is not the net ion charge {}', ne, want, key='electron density')


def run(shard, tier):
    res = Result()
    for k, rids in enumerate(shard['nets']):
        for i, ops in enumerate(variants(rids)):
            for wall, feed in itertools.product((0, 1), (0, 1)):
                if tier == 'quick' and (wall + feed + i + k) % 2:
                    continue
                run_one(tuple(rids), ops, wall, feed, res, tier != 'quick')
        if res.full:
            break
    return res


def replay(case):
    from mc.refchem import tup
    res = Result()
    run_one(tuple(case['rids']), tup(case['ops']), case['wall'], case['feed'], res, case['fine'])
    return res
