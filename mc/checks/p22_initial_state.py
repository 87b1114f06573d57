"""P22: the starting densities respect the pressure, the feeds and the densities that were asked for."""
import itertools
import math

import numpy as np
from scipy.optimize import OptimizeResult

from plaschem.chemistry import Chemistry
from plaschem.reactions import Reaction
from plaschem.species import RP
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.pygmol.model import Model
from pygmo_fwork.pygmol.neutral_model import NeutralModel

from mc import refchem as R
from mc import universe as U
from mc.checks.p20_run_success import solver_in_place
from mc.core import Result, check, chunks, outcome, quiet, same
from mc.models import NEUTRAL_POOL, NEUTRAL_SETUPS, SETUPS, Setup
from mc.refphys import KB

LEVEL = 'exploration'
RULE = 'full product of networks (also reduced, and with multiply charged ions), feed compositions, initial fractions, ' \
       'temperatures and initial-density maps (every value grid, key order, missing and foreign key); the vector handed to ' \
       'the solver is captured and compared with an independent calculation'
BOUNDS = {'quick': 'networks of up to 2 reactions and 8 reduced ones, 4 feed levels for up to 3 gases, 27 fraction triples',
          'thorough': 'networks of up to 3 reactions and all single reductions of 8 larger ones, the same grids'}
ASSUMPTIONS = ['fractions small enough to leave room for the feed gas', 'feed gases are neutral',
               'the pressure is met to 1e-9 where the chemistry has a neutral species']


class Catch(object):
    """Stand-in solver which records the initial vector."""

    def __init__(self):
        self.calls, self.y0 = 0, None

    def __call__(self, fun, t_span, y0, *a, **kw):
        self.calls += 1
        self.y0 = np.array(y0, dtype=float)
        y = np.array([self.y0, self.y0]).T
        return OptimizeResult(t=np.array([0., t_span[1]]), y=y, nfev=1, njev=1, nlu=1, status=0, success=True, message='ok')


def expected(names, charge, feeds, n_tot, ion, neg, nonfeed):
    """Independent statement of the documented default start."""
    out = {}
    nneg = [x for x in names if charge[x] < 0]
    npos = [x for x in names if charge[x] > 0]
    neu = [x for x in names if charge[x] == 0]
    for x in nneg:
        out[x] = n_tot * neg
    pos_charge = n_tot * ion + sum(out[x] * -charge[x] for x in nneg)
    for x in npos:
        out[x] = pos_charge / sum(charge[z] for z in npos)
    fed = [x for x in neu if feeds.get(x, 0.) > 0]
    if fed:
        for x in neu:
            if x not in fed:
                out[x] = n_tot * nonfeed
        left = n_tot - sum(out.values())
        for x in fed:
            out[x] = left * feeds[x] / sum(feeds[z] for z in fed)
    else:
        left = n_tot - sum(out.values())
        for x in neu:
            out[x] = left / len(neu)
    return out


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(b), 1e-300)


def check_vector(y0, names, charge, want, te, n_tot, what):
    same(len(y0), len(names) + 1, what + ': length of the vector', key='length')
    for x, v in zip(names, y0):
        check(near(v, want[x]), '{}: density of {} is {}, expected {}', what, x, v, want[x], key='density')
    # the electron density is a difference of the ion densities: its rounding error is that of the larger of them
    ne = math.fsum(charge[x] * want[x] for x in names)
    size = sum(abs(charge[x]) * abs(want[x]) for x in names)
    check(abs(y0[-1] - 1.5 * ne * te) <= 1e-9 * 1.5 * size * te, '{}: electron energy density {}, expected {}', what, y0[-1],
          1.5 * ne * te, key='electron energy')


FRACTIONS = list(itertools.product((1e-15, 1e-7, 1e-3), repeat=3))


def run_model(chem, par, names, charge, res, key, neutral=False, full=True):
    """All ways of starting a run with these parameters."""
    n_tot = par['p'] / KB / par['Tg']
    feeds = par['feeds']
    catch = Catch()
    with solver_in_place(catch), np.errstate(all='ignore'), quiet():
        default = {x: (0. if neutral else None) for x in names}
        if neutral:
            m = NeutralModel(chem, par)
            fed = {x: f for x, f in feeds.items() if f > 0}
            default = {x: n_tot * 1e-15 for x in names}
            if fed:
                left = n_tot - sum(default[x] for x in names if x not in fed)
                for x in fed:
                    default[x] = left * fed[x] / sum(fed.values())
            else:
                default = {x: n_tot / len(names) for x in names}
            m.run()
            check_vector(catch.y0, names, charge, default, 0., n_tot, 'default start of the neutral model')
            check(near(math.fsum(catch.y0), n_tot), 'total density {} instead of {}', math.fsum(catch.y0), n_tot, key='pressure')
            runs = [(m, {})]
        else:
            gm = GlobalModel(chem, par)
            m = Model(chem, par)
            has_neutral = any(charge[x] == 0 for x in names)
            for ion, neg, non in FRACTIONS:
                init = gm.generate_initial_n(ionisation_degree=ion, neg_ion_fraction=neg, non_feed_sp_fraction=non)
                want = expected(names, charge, feeds, n_tot, ion, neg, non)
                same(set(init), set(names), 'species of the generated start', key='names')
                same([type(v) for v in init.values()], [float] * len(names), 'types of the generated densities', key='types')
                for x in names:
                    check(near(init[x], want[x]) and init[x] > 0, 'generated density of {} with fractions {}: {}, expected {}', x,
                          (ion, neg, non), init[x], want[x], key='density')
                if has_neutral:
                    check(near(math.fsum(init.values()), n_tot), 'the generated densities add up to {} instead of {}',
                          math.fsum(init.values()), n_tot, key='pressure')
                ne = math.fsum(charge[x] * init[x] for x in names)
                check(abs(ne - n_tot * ion) <= 1e-6 * n_tot * ion + 1e-13 * n_tot * neg, 'electron density {} instead of {}', ne,
                      n_tot * ion, key='electron density')
                res.count('evaluations')
            default = expected(names, charge, feeds, n_tot, 1e-15, 1e-15, 1e-15)
            for te in (1., 0.25, 4.):
                gm.run(log_results=False, verbose=False, init_el_temp=te)
                check_vector(catch.y0, names, charge, default, te, n_tot, 'default start at {} eV'.format(te))
                m.run(init_el_temp=te)
                check_vector(catch.y0, names, charge, default, te, n_tot, 'default start of the backend at {} eV'.format(te))
            gm.run(log_results=False, verbose=False)
            check_vector(catch.y0, names, charge, default, 1., n_tot, 'default start')
        if not full:
            res.see('distinct_nontrivial', key)
            return
        # explicit densities: every value grid and key order
        levels = (0., 3e12, 5e19)
        few = len(names) <= 3
        seen = 0
        for vals in itertools.product(levels, repeat=len(names)) if few else grid_lines(levels, len(names)):
            vals = [v * (1 + 0.01 * i) for i, v in enumerate(vals)]
            init = dict(zip(names, vals))
            good = neutral or sum(charge[x] * init[x] for x in names) > 0
            orders = itertools.permutations(names) if few else (names, list(reversed(names)))
            for order in orders:
                given = {x: init[x] for x in order}
                for te in (0.5, 3.):
                    for kind in ('backend',) if neutral else ('global', 'backend'):
                        if (te == 0.5) == (kind == 'backend') and not neutral:
                            continue
                        calls = catch.calls
                        if kind == 'global':
                            got = outcome(gm.run, log_results=False, verbose=False, init_el_temp=te, init_n=given)
                        else:
                            got = outcome(m.run, init_el_temp=te, init_n=given)
                        same(given, init, 'the densities passed by the caller', key='caller')
                        what = '{} start from {}'.format(kind, given)
                        if good:
                            same(got[0], 'ok', what + ': outcome {}'.format(got), key='refused')
                            check_vector(catch.y0, names, charge, init, 0. if neutral else te, n_tot, what)
                        else:
                            same(got, ('err', 'GlobalModelInitialGuessError' if kind == 'global' else 'InitialSolutionError'),
                                 what, key='accepted')
                            same(catch.calls, calls, what + ': calls of the solver', key='accepted')
                        seen += 1
                        res.count('evaluations')
        # keys
        base = {x: 1e15 if charge[x] > 0 else 1e12 for x in names}
        wrong = [{k: v for k, v in base.items() if k != x} for x in names] + [dict(base, **{e: 1e10}) for e in ('e', 'M', 'Xe')] + \
                [{(k if k != x else 'Xe'): v for k, v in base.items()} for x in names] + [{}]
        for given in wrong:
            calls = catch.calls
            if not neutral:
                same(outcome(gm.run, log_results=False, verbose=False, init_n=dict(given)), ('err', 'GlobalModelInitialGuessError'),
                     'start from {}'.format(given), key='keys')
                same(outcome(gm.validate_initial_n, dict(given)), ('err', 'GlobalModelInitialGuessError'),
                     'validation of {}'.format(given), key='keys')
            same(outcome(m.run, init_n=dict(given)), ('err', 'InitialSolutionError'), 'backend start from {}'.format(given), key='keys')
            same(catch.calls, calls, 'calls of the solver', key='keys')
            res.count('evaluations')
        if not neutral:
            for te in (0., -1.):
                same(outcome(gm.run, log_results=False, verbose=False, init_el_temp=te), ('err', 'GlobalModelInitialGuessError'),
                     'start at {} eV'.format(te), key='temperature')
    res.see('distinct_nontrivial', key)


def grid_lines(levels, n):
    """For larger networks: all vectors differing from the middle level in at most two places."""
    yield (levels[1],) * n
    for i in range(n):
        for v in levels:
            one = [levels[1]] * n
            one[i] = v
            yield tuple(one)
            for j in range(i):
                for w in levels:
                    two = list(one)
                    two[j] = w
                    yield tuple(two)


def feeds_of(names, charge, full):
    neu = [x for x in names if charge[x] == 0]
    if full:
        for lv in itertools.product((0., 1., 7.), repeat=min(len(neu), 3)):
            yield {x: v for x, v in zip(neu, lv) if v}
    else:
        yield {}
        for i, x in enumerate(neu):
            yield {x: 2.5}
            for z in neu[:i]:
                yield {z: 9., x: 0.5}


def run_net(rids, neutral, res):
    with res.case({'kind': 'net', 'rids': rids, 'neutral': neutral}, 300):
        s = Setup(rids, neutral=neutral)
        charge = {x: s.info[x]['charge'] for x in s.names}
        for feeds in feeds_of(s.names, charge, len(rids) == 1):
            for p, tg in ((10., 400.), (0.03, 900.))[:2 if len(rids) == 1 else 1]:
                par = dict(s.params(), feeds=feeds, p=p, Tg=tg)
                run_model(s.chem, par, s.names, charge, res, (rids, neutral, tuple(feeds.items()), p), neutral,
                          not feeds and tg == 400.)


def run_reduced(i, op, res):
    with res.case({'kind': 'reduced', 'setup': i, 'op': op}, 300):
        s = Setup(**SETUPS[i])
        if op is not None:
            op = R.tup(op)
            if s.ref.apply(op, {}) != 'ok':
                return
            R.Driver(s.chem, None).apply(op)
            s.refresh()
        charge = {x: s.info[x]['charge'] for x in s.names}
        missing = set(s.par['feeds']) - set(s.names)
        par = s.params()
        if missing:
            check(outcome(GlobalModel, s.chem, par)[0] == 'err', 'feed gas {} is not in the chemistry, but was accepted', missing,
                  key='feed')
            par['feeds'] = {}
        run_model(s.chem, par, s.names, charge, res, (i, op))
        # the chemistry may also be reduced after the model was made
        s = Setup(**SETUPS[i])
        gm = GlobalModel(s.chem, s.params())
        if op is not None:
            s.ref.apply(op, {})
            R.Driver(s.chem, None).apply(op)
            s.refresh()
        catch = Catch()
        with solver_in_place(catch), np.errstate(all='ignore'), quiet():
            got = outcome(gm.run, log_results=False, verbose=False)
            if missing:
                same(got[0], 'err', 'run with a feed gas which was disabled', key='feed')
                same(catch.calls, 0, 'calls of the solver', key='feed')
            else:
                same(got[0], 'ok', 'run after the reduction: {}'.format(got), key='refused')
                n_tot = s.n0
                check_vector(catch.y0, s.names, charge, expected(s.names, charge, s.par['feeds'], n_tot, *(1e-15,) * 3), 1., n_tot,
                             'start after the reduction')


# chemistries with multiply charged ions, built directly
MULTI = [('Ne', 0), ('Ne+', 1), ('Ne+2', 2), ('F-', -1), ('F-2', -2), ('F', 0), ('F+3', 3)]


def run_multi(names, res):
    with res.case({'kind': 'multi', 'names': names}, 300):
        charge = dict(MULTI)
        mass = {'N': 20., 'F': 30.}
        e = RP(100, name='e', mass=5.4858e-4, charge=-1)
        sp = {x: RP(10 + i, name=x, charge=charge[x], mass=mass[x[0]], stick_coef=0., ret_coefs={}, lj_sigma=3.)
              for i, x in enumerate(names)}
        rs = []
        for i, x in enumerate(names):
            rs.append(Reaction(200 + i, [e, sp[x]], [e, sp[x]], attributes={'arrh_a': 1e-15, 'arrh_b': 0., 'arrh_c': 0.},
                               units={'arrh_a': 'm3.s-1', 'arrh_c': 'eV'}))
        chem = Chemistry(species=[e] + [sp[x] for x in names], reactions=rs)
        for feeds in feeds_of(names, charge, False):
            par = {'r': 0.02, 'z': 0.05, 'p': 10., 't_end': 1., 'P': [500., 500.], 't_P': [0., 2.], 'feeds': feeds, 'Tg': 400.}
            run_model(chem, par, list(names), {x: charge[x] for x in names}, res, ('multi', names, tuple(feeds.items())),
                      full=not feeds)


def shards(tier):
    q = tier == 'quick'
    sizes = (1, 2) if q else (1, 2, 3)
    nets = [n.rids for n in U.networks(sizes)]
    nn = [c for k in sizes for c in itertools.combinations(sorted(NEUTRAL_POOL), k)]
    out = [{'kind': 'nets', 'nets': c, 'neutral': False} for c in chunks(nets, 16 if q else 48)]
    out += [{'kind': 'nets', 'nets': c, 'neutral': True} for c in chunks(nn, 8)]
    for i in range(len(SETUPS)):
        s = Setup(**SETUPS[i])
        ops = [None] + [('dis_r', r) for r in s.rids] + [('dis_s', s.net.id_of[n]) for n in s.names]
        if q:
            ops = ops[:1] if i % 2 else ops[:1] + ops[-1:]
        out += [{'kind': 'reduced', 'setup': i, 'ops': c} for c in chunks(ops, 4)]
    multi = []
    for k in (1, 2, 3) if q else (1, 2, 3, 4):
        for names in itertools.combinations([m[0] for m in MULTI], k):
            if any(dict(MULTI)[x] > 0 for x in names):
                multi.append(names)
    out += [{'kind': 'multi', 'names': c} for c in chunks(multi, 8)]
    return out


def run(shard, tier):
    res = Result()
    if shard['kind'] == 'nets':
        for rids in shard['nets']:
            run_net(tuple(rids), shard['neutral'], res)
            if res.full:
                break
    elif shard['kind'] == 'reduced':
        for op in shard['ops']:
            run_reduced(shard['setup'], op, res)
    else:
        for names in shard['names']:
            run_multi(tuple(names), res)
            if res.full:
                break
    return res


def replay(case):
    res = Result()
    if case['kind'] == 'net':
        run_net(tuple(case['rids']), case['neutral'], res)
    elif case['kind'] == 'reduced':
        run_reduced(case['setup'], case['op'], res)
    else:
        run_multi(tuple(case['names']), res)
    return res
