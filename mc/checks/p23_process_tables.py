"""P23: tables of production and consumption list exactly the processes involved and add up to the source terms."""
import contextlib
import io
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.pygmol.model_parameters import ModelParameters
from pygmo_fwork.results import ResultsParser

from mc import refchem as R
from mc import universe as U
from mc.checks.p20_run_success import Solver, solver_in_place
from mc.core import Result, check, chunks, outcome, quiet, same
from mc.models import SETUPS, Setup
from mc.refphys import near

LEVEL = 'exploration'
RULE = 'all networks, reductions and surface overrides within the bounds x two plasma states x every species (given by name, ' \
       'id and object), with rates and fluxes computed independently; all interpolation times on a grid for short tables'
BOUNDS = {'quick': 'networks of up to 2 reactions, 8 larger ones with all single reductions of 3 of them',
          'thorough': 'networks of up to 3 reactions, 8 larger ones with all pairs of reductions'}
ASSUMPTIONS = ['agreement to 1e-9 of the largest contribution']


def pad(tag, text):
    return '{: <10}{}'.format(tag, text)


def run_setup(s, res, key, case):
    """All tables for one chemistry."""
    with res.case(case, 300), np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        chem = s.chem
        par_forms = [ModelParameters(s.params()), {'radius': s.par['r'], 'length': s.par['z']}]
        specials = [n for n in ('e', 'M') if n in s.net.names and s.net.id_of[n] in s.ref.sp]
        fr = [0.5 if s.info[x]['charge'] == 0 else 1e-4 if s.info[x]['charge'] > 0 else 1e-8 for x in s.names]
        for k, y in enumerate((s.vector([f * (1 + 0.1 * i) for i, f in enumerate(fr)], 2.),
                               s.vector([f * (2 - 0.2 * (i % 3)) for i, f in enumerate(fr)], 4.))):
            st = s.phys.state(y)
            rates = dict(zip(s.rids, st['reaction_rates'][0]))
            flux = dict(zip(s.names, st['wall_fluxes'][0]))
            frames = [(pd.Series(rates, dtype=float), pd.Series(flux, dtype=float)),
                      (pd.Series({'t': 0.25, **rates}, dtype=object), pd.Series({'t': 0.25, **flux}, dtype=float))]
            vol_src = dict(zip(s.names, zip(*st['volumetric_source_rates'])))
            srf_src = dict(zip(s.names, zip(*st['diffusion_source_rates'])))
            for name in s.names + specials:
                sid = s.net.id_of[name]
                want_v = {}
                for r in s.rids:
                    lhs, rhs = s.net.pool[r]
                    net = rhs.count(name) - lhs.count(name)
                    if net:
                        want_v[r] = net * rates[r]
                want_s = {}
                if name in s.names:
                    for z in s.names:
                        stuck = -flux[z] * s.phys.A / s.phys.V
                        v = stuck * s.info[z]['ret'].get(name, 0.) - (stuck if z == name else 0.)
                        if v != 0:
                            want_s[s.net.id_of[z]] = v
                for ident in (name, sid, chem.get_rp(sid)):
                    for (rf, wf), par in zip(frames, par_forms):
                        rf0, wf0 = rf.copy(), wf.copy()
                        got_v = ResultsParser.get_volumetric_rates(ident, chem, rf)
                        got_s = ResultsParser.get_surface_rates(ident, chem, par, wf)
                        ann_v = ResultsParser.get_volumetric_rates(ident, chem, rf, annotate=True)
                        ann_s = ResultsParser.get_surface_rates(ident, chem, par, wf, annotate=True)
                        check(rf.equals(rf0) and wf.equals(wf0), 'the tables passed in were changed', key='input modified')
                        for got, ann, want, what in ((got_v, ann_v, want_v, 'volume'), (got_s, ann_s, want_s, 'surface')):
                            same({int(i) for i in got.index}, set(want), '{} processes of {}'.format(what, name), key=what)
                            same(len(got), len(want), 'number of {} processes of {}'.format(what, name), key=what)
                            for i, v in got.items():
                                check(near(float(v), want[int(i)], 0.), '{} process {} of {}: {}, expected {}', what, i, name, v,
                                      want[int(i)], key=what)
                            vals = [float(v) for v in got]
                            same(vals, sorted(vals, reverse=True), 'order of the {} processes of {}'.format(what, name), key='order')
                            labels = []
                            for i in got.index:
                                if what == 'volume':
                                    lhs, rhs = s.net.pool[int(i)]
                                    labels.append(('R{}'.format(i), sorted(lhs), sorted(rhs)))
                                elif int(i) == sid:
                                    labels.append(('S{}'.format(i), sorted([name, 'wall']), ['wall']))
                                else:
                                    labels.append(('S{}'.format(i), sorted([s.net.name_of[int(i)], 'wall']), sorted([name, 'wall'])))
                            parsed = []
                            for lab in ann.index:
                                tag, text = lab.split(None, 1)
                                left, right = text.split(' > ') if ' > ' in text else text.split(' -> ')
                                parsed.append((tag, sorted(left.split(' + ')), sorted(right.split(' + '))))
                            same(sorted(parsed), sorted(labels), '{} labels of {}'.format(what, name), key='labels')
                            check({float('%.10e' % v) for v in ann} == {float('%.10e' % v) for v in got}, 'annotated {} values of '
                                  '{}: {}, expected {}', what, name, dict(ann), dict(got), key='labels')
                        if name in s.names:
                            check(near(float(got_v.sum()), *vol_src[name]), 'volume processes of {} add up to {}, the source term is '
                                  '{}', name, got_v.sum(), vol_src[name][0], key='sum')
                            check(near(float(got_s.sum()), *srf_src[name]), 'surface processes of {} add up to {}, the source term '
                                  'is {}', name, got_s.sum(), srf_src[name][0], key='sum')
                        res.count('evaluations', 2)
                if k == 0:
                    check_print(s, name, {**{('R', i): v for i, v in want_v.items()}, **{('S', i): v for i, v in want_s.items()}},
                                frames[0], par_forms[0])
            if k == 0:
                check_refusals(s, frames[0], par_forms[0])
        res.see('distinct_nontrivial', key)


def check_print(s, name, want, frames, par):
    for which, sign in (('production', 1), ('consumption', -1)):
        mine = sorted([(k, v) for k, v in want.items() if v * sign > 0], key=lambda kv: -abs(kv[1]))
        for n, unit, fac in ((None, 'm-3/s', 1.), (1, 'cm-3/s', 1e-6), (2, 'm-3s-1', 1.), (50, 'cm-3.s-1', 1e-6)):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                getattr(ResultsParser, 'print_{}_processes'.format(which))(name, s.chem, par, frames[0], frames[1], n=n, unit=unit)
            got = []
            for line in out.getvalue().splitlines():
                w = line.split()
                if w and w[0][:1] in 'RS' and w[0][1:].isdigit():
                    got.append(((w[0][0], int(w[0][1:])), float(w[-1])))
            exp = mine[:n]
            same(len(got), len(exp), 'number of printed {} processes of {} (n={})'.format(which, name, n), key='print')
            vals = [abs(v) * fac for _, v in exp]
            check(all(abs(abs(g[1]) - v) <= 1e-5 * vals[0] for g, v in zip(got, vals)), 'printed {} of {}: {}, expected {}', which,
                  name, got, exp, key='print')
            for g in got:
                check(g[0] in want and abs(g[1] - want[g[0]] * fac) <= 1e-5 * vals[0], 'printed {} of {}: {}', which, name, g,
                      key='print')


def check_refusals(s, frames, par):
    """Tables of another chemistry and species which are not there are refused."""
    rf, wf = frames
    name = s.names[0]
    bad_r = [rf.iloc[1:], pd.concat([rf, pd.Series({99: 1.})])]
    bad_w = [wf.iloc[1:], pd.concat([wf, pd.Series({'Xe': 1.})])]
    for b in bad_r:
        check(outcome(ResultsParser.get_volumetric_rates, name, s.chem, b)[0] == 'err', 'rates {} were accepted', list(b.index),
              key='refusal')
    for b in bad_w:
        check(outcome(ResultsParser.get_surface_rates, name, s.chem, par, b)[0] == 'err', 'fluxes {} were accepted', list(b.index),
              key='refusal')
    for ident in ['Xe', 999] + [s.net.id_of[n] for n in s.net.names if s.net.id_of[n] not in s.ref.sp]:
        check(outcome(ResultsParser.get_volumetric_rates, ident, s.chem, rf)[0] == 'err', 'species {} was accepted', ident,
              key='refusal')
        got = outcome(ResultsParser.get_surface_rates, ident, s.chem, par, wf)
        if ident in (U.SPECIES['e'][0], U.SPECIES['M'][0]) and got[0] == 'ok':
            same(len(got[1]), 0, 'surface processes of the special species {}'.format(ident), key='refusal')
        else:
            check(got[0] == 'err', 'species {} was accepted', ident, key='refusal')


# --------------------------------------------------------------------------------------------- tables of a real model object
def run_model_tables(i, res):
    with res.case({'kind': 'model', 'setup': i}, 300), np.errstate(all='ignore'):
        s = Setup(**SETUPS[i])
        if s.wall_model != 1:
            return
        solver = Solver()
        solver.setup = s
        gm = GlobalModel(s.chem, s.params())
        with solver_in_place(solver), quiet():
            gm.run(log_results=False, verbose=False)
        vol, srf = gm.model.diagnose('volumetric_source_rates'), gm.model.diagnose('diffusion_source_rates')
        rates, fluxes = gm.get_rates(), gm.get_wall_fluxes()
        for k in range(len(rates)):
            st = s.phys.state(solver.last[1][k])
            for j, x in enumerate(s.names):
                v = ResultsParser.get_volumetric_rates(x, s.chem, rates.iloc[k]).sum()
                w = ResultsParser.get_surface_rates(x, s.chem, gm.model.model_params, fluxes.iloc[k]).sum()
                check(near(v, vol.iloc[k][x], st['volumetric_source_rates'][1][j]), 'volume processes of {} add up to {}, the model '
                      'used {}', x, v, vol.iloc[k][x], key='sum')
                check(near(w, srf.iloc[k][x], st['diffusion_source_rates'][1][j]), 'surface processes of {} add up to {}, the model '
                      'used {}', x, w, srf.iloc[k][x], key='sum')
                res.count('evaluations', 2)


# ----------------------------------------------------------------------------------------------------------- interpolation
def interpolate(ts, vs, t):
    for i in range(len(ts) - 1):
        if ts[i] <= t <= ts[i + 1]:
            if t == ts[i]:
                return vs[i]
            return vs[i] + (vs[i + 1] - vs[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
    return vs[-1]


def run_frames(res, tier):
    steps = (0.5, 1., 3.) if tier == 'quick' else (0.25, 0.5, 1., 3.)
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for gaps in itertools.product(steps, repeat=n - 1):
            ts = [0.5 * (n % 2)]
            for g in gaps:
                ts.append(ts[-1] + g)
            for a in itertools.product((0., 1., -4.), repeat=n):
                with res.case({'kind': 'frames', 'tier': tier}, 60):
                    df = pd.DataFrame({'t': ts, 'A': a, 7: [x * 1e20 + 1 for x in a]}, index=[2 * i for i in range(n)])
                    before = df.copy()
                    times = sorted({ts[0], ts[-1], *ts, *[(p + q) / 2 for p, q in zip(ts, ts[1:])], *[p + 0.1 * (q - p) for p, q in
                                                                                                 zip(ts, ts[1:])]})
                    for chosen in (times, times[::-1], times[:1], [], np.array(times)):
                        got = ResultsParser.get_results_frames(df, chosen)
                        same(list(got.columns), ['t', 'A', 7], 'columns of the frames', key='frames')
                        same([float(x) for x in got['t']], [float(x) for x in chosen], 'times of the frames', key='frames')
                        for row, t in enumerate(chosen):
                            for col, vs in (('A', a), (7, list(before[7]))):
                                want = interpolate(ts, vs, t)
                                check(abs(float(got.iloc[row][col]) - want) <= 1e-9 * max(1., abs(want), max(map(abs, vs))),
                                      'frame at {}: {} is {}, expected {}', t, col, got.iloc[row][col], want, key='frames')
                    for t in (ts[0] - 0.25, ts[-1] + 0.25):
                        check(outcome(ResultsParser.get_results_frames, df, [ts[0], t])[0] == 'err', 'time {} outside of {} was '
                              'accepted', t, ts, key='frames')
                    check(df.equals(before), 'the table passed in was changed', key='frames')
                    res.count('evaluations')
                if res.full:
                    return


def shards(tier):
    q = tier == 'quick'
    nets = [n.rids for n in U.networks((1, 2) if q else (1, 2, 3))]
    out = [{'kind': 'frames'}] + [{'kind': 'nets', 'nets': c} for c in chunks(nets, 16 if q else 64)]
    for i in range(len(SETUPS)):
        s = Setup(**SETUPS[i])
        ops = [('dis_r', r) for r in s.rids] + [('dis_s', s.net.id_of[n]) for n in s.net.names if s.net.id_of[n] in s.ref.sp] + \
              [('stick', s.net.id_of[n], v) for n in s.names for v in (0., 0.3)]
        seqs = [()]
        if not q or i in (1, 2, 5):
            seqs += [(o,) for o in ops]
        if not q:
            seqs += list(itertools.permutations(ops, 2))
        out += [{'kind': 'setup', 'setup': i, 'seqs': c} for c in chunks(seqs, 4 if q else 32)]
    out += [{'kind': 'model', 'setup': i} for i in range(len(SETUPS))]
    return out


def with_ops(i, seq):
    s = Setup(**SETUPS[i])
    drv = R.Driver(s.chem, None)
    for op in seq:
        op = R.tup(op)
        if s.ref.apply(op, {}) != 'ok':
            return None
        drv.apply(op)
    s.par['feeds'] = {k: v for k, v in s.par['feeds'].items() if s.net.id_of[k] in s.ref.sp}
    s.refresh()
    return s


def run(shard, tier):
    res = Result()
    if shard['kind'] == 'frames':
        run_frames(res, tier)
    elif shard['kind'] == 'model':
        run_model_tables(shard['setup'], res)
    elif shard['kind'] == 'setup':
        for seq in shard['seqs']:
            case = {'kind': 'setup', 'setup': shard['setup'], 'seqs': [seq]}
            s = None
            with res.case(case):
                s = with_ops(shard['setup'], seq)
            if s is not None:
                run_setup(s, res, (shard['setup'], seq), case)
            if res.full:
                break
    else:
        for rids in shard['nets']:
            case = {'kind': 'nets', 'nets': [rids]}
            s = None
            with res.case(case):
                s = Setup(tuple(rids))
            if s is not None:
                run_setup(s, res, tuple(rids), case)
            if res.full:
                break
    return res


def replay(case):
    return run(case, case.get('tier', 'quick'))
