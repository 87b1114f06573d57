"""P37: logged runs are found, read back, interpolated, judged, compared and plotted as they are identified."""
import contextlib
import io
import itertools
import os
from fractions import Fraction

import numpy as np
import pandas as pd
import yaml

from pygmo_fwork.config import Config
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.optichem import reduction as RED
from pygmo_fwork.results import ResultsParser

from mc.core import Result, check, chunks, quiet, same, scratch

LEVEL = 'exploration'
RULE = 'the full product of ways of identifying a log (nominal and explicit backend or directory, file name, present and ' \
       'missing logs) for every fetching method; all lists of compared runs up to the bound over all forms of identification; ' \
       'all small tables x all sequences of times for the interpolation, the convergence check, the plots; all small ' \
       'reduction histories for their comparison; each result is compared to one computed from the files as written'
BOUNDS = {'quick': 'lists of up to 2 runs out of 22 identifications, tables of 2-3 rows, up to 2 times, histories of up to 3 '
                   'removals (pairs: 2)',
          'thorough': 'lists of up to 3 runs, tables of 2-4 rows, up to 3 times, histories of up to 4 removals (pairs: 2)'}
ASSUMPTIONS = ['matplotlib draws the lines it is given', 'the file system does not fail',
               'a relative difference within 1e-9 of eps may be judged either way']


# ---------------------------------------------------------------------------------------------------- the logged runs
class Tree(object):
    """Two backends' results directories of the workspace and one custom directory, each file with its own numbers."""

    def __init__(self, base):
        self.tag = os.path.basename(base)
        self.custom = os.path.join(base, 'my.results')
        self.other = os.path.join(base, 'a directory with quite a long name, longer than forty characters')
        self.where = {'pygmol': str(Config().get_results_dir('pygmol')), 'pygkin': str(Config().get_results_dir('PyGKin')),
                      'custom': self.custom, 'other': self.other}
        self.files = {}         # (place, run, file) -> content
        n = 0
        for place, runs in (('pygmol', 'ABC'), ('pygkin', 'AB'), ('custom', 'AD'), ('other', 'A')):
            for run in runs:
                rid = self.rid(run)
                d = os.path.join(self.where[place], rid)
                os.makedirs(d)
                for name in ('solution.csv', 'rates.csv', 'wall_fluxes.csv', 'model_attributes.yaml', 'mine.csv', 'mine.yaml'):
                    if run == 'C' and name not in ('solution.csv', 'mine.yaml'):
                        continue
                    n += 1
                    content = self.content(name, n, run)
                    self.files[place, run, name] = content
                    path = os.path.join(d, name)
                    if name.endswith('.csv'):
                        content.to_csv(path)
                    else:
                        with open(path, 'w') as f:
                            yaml.dump(content, f)

    def rid(self, run):
        return '{}_{}'.format(run, self.tag)

    @staticmethod
    def content(name, n, run):
        if name.endswith('.yaml'):
            return {'model_params': {'p': float(n), 'feeds': {'Ar': n / 3.}, 'power': [1., n + 0.5]},
                    'initial_params': {'init_el_temp': n / 7., 'init_n': {'Ar': 1e20 * n, 'Ar+': 1.}}}
        cols = [3, 17, 101] if name in ('rates.csv', 'mine.csv') else ['Ar', 'Ar+', 'e', 'Te', 'Tg', 'p']
        if name == 'solution.csv' and run == 'B':
            cols.insert(1, 'H2')
            cols.remove('Ar+')
        rows = 2 + n % 3
        val = np.array([[n + (i + 1) * (j + 2) / 7. + 10. * i * i for j in range(len(cols))] for i in range(rows)]) * 1e3
        df = pd.DataFrame(val, columns=cols)
        df.insert(0, 't', [0.25 * i for i in range(rows)])
        if n % 2:       # the rows of a compressed log keep their numbers
            df.index = [3 * i for i in range(rows)]
        return df

    def close(self):
        import shutil
        for place in ('pygmol', 'pygkin'):
            for run in 'ABC':
                d = os.path.join(self.where[place], self.rid(run))
                if os.path.isdir(d) and self.tag in d:
                    shutil.rmtree(d)


@contextlib.contextmanager
def tree():
    with scratch('res') as base:
        t = Tree(base)
        try:
            yield t
        finally:
            t.close()


def close_frames(got, want, what):
    check(isinstance(got, pd.DataFrame), '{} is not a table but {!r}', what, got)
    same(list(got.columns), list(want.columns), '{}: columns'.format(what))
    same(list(got.index), list(want.index), '{}: index'.format(what))
    g, w = got.values.astype(float), want.values.astype(float)
    check(g.shape == w.shape and np.all((np.abs(g - w) <= 1e-12 * np.abs(w)) | (np.isnan(g) & np.isnan(w))),
          '{}: got\n{}\nexpected\n{}', what, got, want)


METHODS = {'fetch_solution': 'solution.csv', 'fetch_rates': 'rates.csv', 'fetch_wall_fluxes': 'wall_fluxes.csv',
           'fetch_model_params': 'model_attributes.yaml', 'fetch_initial_params': 'model_attributes.yaml'}
NOMINAL = [None, ('b', 'pygmol'), ('b', 'PyGKin'), ('d', 'custom'), ('bd', None), ('b', 'foo')]
BACKENDS = [None, 'pygmol', 'PYGMOL', 'pygkin', 'PyGKin', 'foo']
DIRS = [None, 'custom', 'missing']


def parser(t, nominal):
    """The parser and the place it looks in by default, or the name of the error."""
    kw, want = {}, 'pygmol'
    if nominal is not None:
        kind, what = nominal
        if 'b' in kind:
            kw['nominal_backend'] = what or 'pygmol'
            want = (what or 'pygmol').lower()
            if want == 'foo':
                want = 'GlobalModelAttributeError'
        if 'd' in kind:
            kw['nominal_results_dir'] = t.where[what or 'custom']
            want = what
        if kind == 'bd':
            want = 'ResultsAttributeError'
    try:
        return ResultsParser(**kw), want
    except Exception as e:
        same(type(e).__name__, want, 'a parser for {}'.format(nominal))
        return None, want


def case_fetch(t, nominal, method, backend, rdir, file, run, res):
    rp, nom = parser(t, nominal)
    if rp is None:
        return
    check(not nom.endswith('Error'), 'a parser for {} is accepted', nominal)
    kw = {}
    if backend is not None:
        kw['backend'] = backend
    if rdir is not None:
        kw['results_dir'] = t.where.get(rdir, os.path.join(t.custom, 'nowhere'))
    arg = 'file_name' if METHODS[method].endswith('csv') else 'attributes_dump_name'
    fname = METHODS[method]
    if file is not None:
        fname = file + ('.csv' if METHODS[method].endswith('csv') else '.yaml')
        kw[arg] = fname
    if backend is not None and rdir is not None:
        want = 'ResultsAttributeError'
    elif backend is not None and backend.lower() == 'foo':
        want = 'GlobalModelAttributeError'
    else:
        place = backend.lower() if backend else rdir if rdir else nom
        want = t.files.get((place, run, fname), 'ResultsNotFoundError')
    before = {d: sorted(os.listdir(d)) for d in (t.custom, os.path.join(t.custom, t.rid('A')))}
    try:
        got = getattr(rp, method)(t.rid(run), **kw)
    except Exception as e:
        check(isinstance(want, str) and type(e).__name__ == want, '{}({}, {}) raises {}: {}', method, run, kw,
              type(e).__name__, e)
    else:
        check(not isinstance(want, str), '{}({}, {}) gives {!r} instead of {}', method, run, kw, got, want)
        what = '{}({}, {}) with nominal {}'.format(method, run, kw, nominal)
        if isinstance(want, dict):
            same(got, want[method[6:]], what)
        else:
            if method == 'fetch_rates' and file is None:
                same([type(c) for c in got.columns[1:]], [int] * (len(got.columns) - 1), what + ': reaction ids')
            elif method != 'fetch_rates':
                want = want.rename(columns=str)
            close_frames(got, want, what)
    same({d: sorted(os.listdir(d)) for d in before}, before, 'files after reading')
    res.count('fetches')
    res.see('distinct_nontrivial', ('f', nominal, method, backend, rdir, file, run))


# -------------------------------------------------------------------------------------------------------- comparisons
FORMS = [('A',), ('B',), ('C',), ('A', 'pygmol'), ('A', 'PYGMOL'), ('B', 'pygkin'), ('A', 'PyGKin'), ('A', '@custom'), ('D', '@custom'),
         ('A', '@other'), ('A', 'mine.csv'), ('A', 'pygkin', 'mine.csv'), ('A', 'PyGKin', 'solution.csv'),
         ('A', '@custom', 'mine.csv'), ('D', '@custom', 'solution.csv'), ('D',), ('A', 'nothing.csv'), ('D', 'pygkin'),
         ('A', 'pygmol', 'mine.csv', 'x'), ('A', '@other', 'nothing.csv'), ('D', '@custom', 'mine.csv'), ('B', 'mine.csv')]


def identified(t, form, nominal):
    """(place, file content) the form stands for, or the name of the error."""
    run, rest = form[0], [x for x in form[1:]]
    place, fname = nominal, 'solution.csv'
    if len(rest) == 3:
        return None, 'ResultsAttributeError'
    if len(rest) == 2 or (rest and rest[0].endswith('.csv')):
        fname = rest.pop()
    if rest:
        place = rest[0][1:] if rest[0].startswith('@') else rest[0].lower()
    return place, t.files.get((place, run, fname), 'ResultsNotFoundError')


def case_compare(t, forms, nominal, relative, container, res):
    rp, nom = parser(t, nominal)
    runs, want = [], []
    for form in forms:
        given = tuple([t.rid(form[0])] + [t.where[x[1:]] if x.startswith('@') else x for x in form[1:]])
        runs.append(given[0] if len(given) == 1 and container != 2 else list(given) if container == 1 else given)
        want.append(identified(t, form, nom))
    errors = [w for _, w in want if isinstance(w, str)]
    out = io.StringIO()
    for printout in (False, True):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                got = rp.compare(tuple(runs) if container == 1 else runs, relative_to_first=relative, printout=printout)
        except Exception as e:
            check(errors and type(e).__name__ == errors[0], 'compare({}) raises {}: {}', runs, type(e).__name__, e)
            continue
        check(not errors, 'compare({}) gives {!r} instead of {}', runs, got, errors and errors[0])
        same(len(got), len(runs), 'rows of the comparison of {}'.format(runs))
        finals = [dict(zip(map(str, w.columns), w.iloc[-1])) for _, w in want]
        cols = set(c for f in finals for c in f)
        same(sorted(map(str, got.columns)), sorted(cols), 'columns of the comparison of {}'.format(runs))
        for i, (f, (place, _)) in enumerate(zip(finals, want)):
            name, row = got.index[i], got.iloc[i]
            check(name.endswith(t.rid(forms[i][0])), 'row {} of the comparison of {} is called {}', i, runs, name)
            if place in ('pygmol', 'pygkin', 'custom'):
                check(os.path.basename(t.where[place]).lower() in name.lower(),
                      'row {} of the comparison of {} is called {}', i, runs, name)
            for c in cols:
                v = f.get(c, np.nan)
                if relative:
                    base = finals[0].get(c, np.nan)
                    v = (v - base) / base * 100 if base or base != base else np.nan if v == base or v != v else np.inf
                g = row[c]
                check((g != g and v != v) or g == v or abs(g - v) <= 1e-9 * abs(v) + (1e-9 if relative else 0),
                      'comparison of {} (relative {}): row {} column {} is {} instead of {}', runs, relative, i, c, g, v)
        if printout:
            check(t.tag in out.getvalue(), 'the comparison of {} is not printed', runs)
        else:
            same(out.getvalue(), '', 'printed by compare')
    res.count('comparisons')
    res.see('distinct_nontrivial', ('c', tuple(forms), nominal, relative, container))


# ------------------------------------------------------------------------------------------------------ interpolation
STEPS = [1, 3]
VALUES = [0., 1., -2., 5.]


def tables(n, values):
    """All tables of n rows: times from the steps, one column with all values, one with the values the other way round."""
    for steps in itertools.product(STEPS, repeat=n - 1):
        t = [float(x) / 2 for x in itertools.accumulate((1,) + steps)]
        for v in itertools.product(values, repeat=n):
            yield t, list(v)


def interp(t, ts, vs):
    t, ts = Fraction(t), [Fraction(x) for x in ts]
    for i in range(len(ts) - 1):
        if ts[i] <= t <= ts[i + 1]:
            return float(Fraction(vs[i]) + (Fraction(vs[i + 1]) - Fraction(vs[i])) * (t - ts[i]) / (ts[i + 1] - ts[i]))
    return vs[0]


def case_frames(ts, vs, times, kind, res):
    df = pd.DataFrame({'t': ts, 'Ar': vs, 'x': vs[::-1], 7: [7.] * len(ts)})
    if kind:
        df.index = [2 * i + 1 for i in range(len(ts))]
    before = df.copy(deep=True)
    given = [list, tuple, np.array][kind](times)
    inside = all(ts[0] <= t <= ts[-1] for t in times)
    what = 'frames of {} {} at {}'.format(ts, vs, times)
    try:
        got = ResultsParser.get_results_frames(df, given)
    except AssertionError:
        check(not inside, '{} are refused', what)
    else:
        check(inside, '{} are extrapolated to {}', what, got)
        same(list(got.columns), list(df.columns), what)
        same(list(got['t']), [float(t) for t in times], what + ': times')
        for i, t in enumerate(times):
            for col, w in (('Ar', interp(t, ts, vs)), ('x', interp(t, ts, vs[::-1])), (7, 7.)):
                g = got[col].iloc[i]
                check(abs(g - w) <= 1e-12 * max(map(abs, vs + [1.])), '{}: {} at {} is {}, not {}', what, col, t, g, w)
    check(df.equals(before) and list(df.index) == list(before.index), '{}: the table is changed', what)
    res.count('interpolations')
    res.see('distinct_nontrivial', ('i', tuple(ts), tuple(vs), times))


# --------------------------------------------------------------------------------------------------------- convergence
CONV = [0., 1., 1.04, 1.2, 3.]


def case_conv(ts, vs, eps, window, ratio, res):
    df = pd.DataFrame({'t': ts, 'Ar': vs, 'e': vs[::-1], 'Te': [2.5] * len(ts)})
    before = df.copy(deep=True)
    t_end = ts[-1]
    prescribed = t_end / ratio
    outs = []
    what = 'convergence of {} {} (eps {}, window {})'.format(ts, vs, eps, window)
    for verbose in (False, True):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            got = GlobalModel.check_convergency(df, {'t_end': prescribed}, eps=eps, timewindow=window, verbose=verbose)
        outs.append(out.getvalue())
        same(sorted(got.index), ['Ar', 'Te', 'e'], what)
        bad = []
        for col in ('Ar', 'e', 'Te'):
            v = list(df[col])
            end, start = v[-1], interp(max(t_end - t_end * window, ts[0]), ts, v)
            rel = abs(end - start) / ((end + start) / 2) if end != start else 0.
            if abs(rel - eps) > 1e-9:
                same(bool(got[col]), rel < eps, '{}: {}'.format(what, col))
            if not got[col]:
                bad.append(col)
    same(outs[0], '', what + ': printed when not verbose')
    early = prescribed - t_end > 0.05 * prescribed + 1e-8
    same('WARNING' in outs[1], bool(bad) or early, what + ': warning')
    same('not reached' in outs[1], early, what + ': end time {} of {}'.format(t_end, prescribed))
    for col in ('Ar', 'e', 'Te'):
        same('The {} value'.format(col) in outs[1], col in bad, what + ': message about {}'.format(col))
    check(df.equals(before), '{}: the solution is changed', what)
    res.count('convergence_checks')
    res.see('distinct_nontrivial', ('k', tuple(ts), tuple(vs), eps, window, ratio))


# --------------------------------------------------------------------------------------------------------------- plots
@contextlib.contextmanager
def figure():
    from matplotlib import pyplot as plt
    shown = []
    show, plt.show = plt.show, lambda *a, **k: shown.append(1)
    plt.close('all')
    try:
        yield plt, shown
    finally:
        plt.show = show
        plt.close('all')


def case_plot(t, form, nominal, columns, log, res):
    rp, nom = parser(t, nominal)
    kw, place, fname = {}, nom, 'solution.csv'
    for x in form[1:]:
        if x.startswith('@'):
            place = x[1:]
            kw['results_dir'] = t.where[place]
        elif x.endswith('.csv'):
            kw['file_name'] = x
        else:
            kw['backend'], place = x, x.lower()
    want = t.files.get((place, form[0], fname))
    with figure() as (plt, shown):
        with quiet():
            rp.plot_solution(t.rid(form[0]), *columns, log=log, **kw)
        ax = plt.gca()
        lines = {ln.get_label(): (list(map(float, ln.get_xdata())), list(map(float, ln.get_ydata()))) for ln in ax.lines}
        count, scale, legend = len(ax.lines), ax.get_yscale(), sorted(x.get_text() for x in ax.get_legend().get_texts())
    names = list(columns) or [c for c in want.columns if c not in ('t', 'Te', 'Tg', 'p')]
    what = 'plot of {} of {}'.format(columns, form)
    same(sorted(lines), sorted(names), what + ': curves')
    same(count, len(names), what + ': number of curves')
    same(legend, sorted(names), what + ': legend')
    same(scale, 'log' if log else 'linear', what + ': scale')
    same(len(shown), 1, what + ': shown')
    for n in names:
        for got, exp in zip(lines[n], (want['t'], want[n])):
            check(len(got) == len(exp) and np.allclose(got, list(exp), rtol=1e-12, atol=0), '{}: curve {}', what, n)
    res.count('plots')
    res.see('distinct_nontrivial', ('p', form, nominal, columns, log))


# -------------------------------------------------------------------------------------------------- reduction histories
MAX_ERROR = 10.
EVENTS = ['small', 'limit', 'over', 'far', 'fail', 'two']
SPECIES = ['Ar+', 'C10H22', 'H-', 'O3']
PRETTY = {'Ar+': 'Ar$^{+}$', 'C10H22': 'C$_{1}$$_{0}$H$_{2}$$_{2}$', 'H-': 'H$^{-}$', 'O3': 'O$_{3}$', 'N2': 'N$_{2}$'}
ERRORS = {'small': 0.025, 'limit': 0.1, 'over': 0.15, 'far': 0.75, 'two': 0.05}


def history(events, backtrack):
    """Rows as logged by a reduction run (run_index from 0), the accepted points, the dead ends and their labels."""
    rows = [{'run_id': '00_full_chemistry', 'rm_success': True, 'total_removed': 0, 'total_left': 9, 'error_base_max': 0.,
             'error_base_rms': 0., 'error_last_max': 0., 'error_last_rms': 0.}]
    accepted, dead = [(0, 0., '')], []
    removed, last = 0, (0, 0.)
    for i, ev in enumerate(events):
        sp = SPECIES[i]
        row = {'species': sp, 'ranking_score': 0.125 * i}
        if ev == 'fail':
            row.update(rm_success=False, total_removed=removed, total_left=9 - removed)
        else:
            n = removed + (2 if ev == 'two' else 1)
            err = ERRORS[ev]
            row.update(run_id='{:02d}_disabled_{}'.format(i + 1, sp), rm_success=True, total_removed=n, total_left=9 - n,
                       error_base_max=err, error_base_rms=err / 2, error_last_max=err / 3, error_last_rms=err / 4)
            label = PRETTY[sp]
            if ev == 'two':
                row['rm_additional'] = 'N2'
                label = '{}, {}'.format(label, PRETTY['N2'])
            if err <= MAX_ERROR / 100:
                accepted.append((n, err * 100, label))
                last = (n, err * 100)
                removed = n
            else:
                dead.append((last, (n, err * 100), label))
                if not backtrack:
                    removed = n
        rows.append(row)
    cols = ['run_id', 'species', 'ranking_score', 'rm_success', 'rm_additional', 'total_removed', 'total_left',
            'error_base_max', 'error_base_rms', 'error_last_max', 'error_last_rms']
    return pd.DataFrame(rows, columns=cols), accepted, dead


def points(line):
    return tuple((round(float(x), 9), round(float(y), 9)) for x, y in zip(line.get_xdata(), line.get_ydata()))


def rnd(*pts):
    return tuple((round(float(p[0]), 9), round(float(p[1]), 9)) for p in pts)


def case_reductions(hists, backtrack, opts, max_errors, res):
    what = 'comparison of the reductions {} ({}) with {}'.format(hists, 'backtracked' if backtrack else 'plain', opts)
    with scratch('redu') as base, figure() as (plt, shown):
        paths, refs = [], []
        for i, ev in enumerate(hists):
            d = os.path.join(base, 'run{}'.format(i))
            os.mkdir(d)
            df, accepted, dead = history(ev, backtrack)
            df.to_csv(os.path.join(d, 'reduction_history.csv'), header=True, index=True, index_label='run_index')
            with open(os.path.join(d, 'meta.yaml'), 'w') as f:
                yaml.dump({'important_outputs': ['e'], 'important_times': [1.], 'max_error': max_errors[i]}, f)
            paths.append(d)
            refs.append((accepted, dead))
        kw = dict(opts)
        saved = os.path.join(base, 'fig.png')
        if kw.pop('save', False):
            kw['save_to'] = saved
        try:
            with quiet():
                RED.compare_reduction_runs(*paths, **kw)
        except AssertionError as e:
            check(len(set(max_errors)) > 1, '{} is refused: {}', what, e)
            res.count('reduction_comparisons')
            return
        check(len(set(max_errors)) == 1, '{}: different maximal errors {} are accepted', what, max_errors)
        same((len(shown), os.path.exists(saved)), (0, True) if 'save_to' in kw else (1, False), what + ': shown or saved')
        ax = plt.gca()
        got = sorted((points(ln) for ln in ax.lines))
        want = []
        labels = list(opts.get('labels', ['run{}'.format(i) for i in range(len(hists))]))[:len(hists)]
        xs, ys = [0.], [0., MAX_ERROR]
        curves = {ln.get_label(): points(ln) for ln in ax.lines}
        texts = []
        for label, (accepted, dead) in zip(labels, refs):
            curve = rnd(*accepted)
            want.append(curve)
            same(curves.get(label), curve, '{}: curve of {}'.format(what, label))
            xs.extend(p[0] for p in accepted)
            ys.extend(p[1] for p in accepted)
            texts.extend(p[2] for p in accepted)
            if opts.get('plot_endpoints'):
                want.append(rnd((accepted[-1][0], -1e10), (accepted[-1][0], 1e10)))
            if opts.get('dead_ends', True):
                for a, b, text in dead:
                    want.append(rnd(a, b))
                    want.append(rnd(b))
                    xs.append(b[0])
                    ys.append(b[1])
                    texts.append(text.split(',')[0])
        if opts.get('plot_max_error', True):
            levels = [ln for ln in ax.lines if ln.get_label() == 'maximal allowed reduction error']
            same(len(levels), 1, what + ': lines of the maximal error')
            same(sorted(set(round(float(y), 9) for y in levels[0].get_ydata())), [MAX_ERROR], what + ': maximal error')
            lv = points(levels[0])
            check('xlim' in opts or lv[0][0] <= min(xs) and lv[1][0] >= max(xs), '{}: the maximal error is drawn over {}', what, lv)
            want.append(lv)
        same(got, sorted(want), what + ': lines')
        xl, yl = ax.get_xlim(), ax.get_ylim()
        if 'xlim' not in opts:
            check(xl[0] <= min(xs) and xl[1] >= max(xs), '{}: the points {} are outside of {}', what, xs, xl)
        else:
            same(tuple(map(float, xl)), opts['xlim'], what + ': limits')
        if 'ylim' not in opts:
            check(yl[0] <= min(ys) and yl[1] >= max(ys), '{}: the points {} are outside of {}', what, ys, yl)
        else:
            same(tuple(map(float, yl)), opts['ylim'], what + ': limits')
        legend = [x.get_text() for x in ax.get_legend().get_texts()]
        same(legend, labels + ['maximal allowed reduction error'] * opts.get('plot_max_error', True), what + ': legend')
        names = opts.get('spcs_annotations', {})
        texts = [names.get('Ar+', x) if x == PRETTY['Ar+'] else x for x in texts]
        same(sorted(x.get_text() for x in ax.texts), sorted(texts) if opts.get('annotate') else [], what + ': annotations')
    res.count('reduction_comparisons')
    res.see('distinct_nontrivial', ('r', tuple(hists), backtrack, tuple(sorted(map(str, opts.items())))))


OPTS = [{}, {'annotate': True}, {'dead_ends': False, 'annotate': True}, {'plot_endpoints': True, 'plot_max_error': False},
        {'labels': ['one', 'two'], 'xlim': (-1., 3.), 'ylim': (0., 90.), 'save': True},
        {'annotate': True, 'spcs_annotations': {'Ar+': 'ion'}}]


# -------------------------------------------------------------------------------------------------------------- shards
def cases(tier):
    big = tier == 'thorough'
    out = []
    for nominal, method, backend, rdir in itertools.product(NOMINAL, METHODS, BACKENDS, DIRS):
        out.append(('fetch', nominal, method, backend, rdir))
    for nominal in (None, ('b', 'PyGKin'), ('d', 'custom')):
        for first in FORMS:
            out.append(('compare', first, nominal, 3 if big else 2))
    for n in ((2, 3, 4) if big else (2, 3)):
        for steps in itertools.product(STEPS, repeat=n - 1):
            out.append(('frames', steps, 3 if big and n < 4 else 2))
            for first in CONV:
                out.append(('conv', steps, first))
    for nominal in (None, ('b', 'PyGKin'), ('d', 'custom')):
        out.append(('plot', nominal))
    for backtrack in (False, True):
        for first in EVENTS:
            out.append(('red', first, backtrack, 4 if big else 3))
            out.append(('red2', first, backtrack))
    return out


def run_case(case, res):
    kind = case[0]
    if kind == 'fetch':
        _, nominal, method, backend, rdir = case
        with tree() as t:
            for file, run in itertools.product((None, 'mine', 'nothing'), 'ABCDX'):
                with res.case({'case': ['fetch1', nominal, method, backend, rdir, file, run]}):
                    case_fetch(t, nominal, method, backend, rdir, file, run, res)
    elif kind == 'compare':
        _, first, nominal, depth = case
        with tree() as t:
            for n in range(1, depth + 1):
                for rest in itertools.product(FORMS if n < 3 else FORMS[:16:2], repeat=n - 1):
                    forms = (first,) + rest
                    for relative, container in itertools.product((False, True), (0, 1, 2) if n == 1 else (0,)):
                        with res.case({'case': ['compare1', forms, nominal, relative, container]}):
                            case_compare(t, forms, nominal, relative, container, res)
                        if res.full:
                            return
    elif kind == 'frames':
        _, steps, depth = case
        ts = [float(x) / 2 for x in itertools.accumulate((1,) + tuple(steps))]
        grid = sorted(set(ts + [ts[0] - 0.25, ts[-1] + 0.25] + [t + 0.25 for t in ts[:-1]] + [t + 0.375 for t in ts[:-1]]))
        for vs in itertools.product(VALUES, repeat=len(ts)):
            for n in range(0, depth + 1):
                for times in itertools.product(grid, repeat=n):
                    for kind_ in ((0, 1, 2) if n < 2 else (2,)):
                        with res.case({'case': ['frames1', ts, vs, times, kind_]}):
                            case_frames(ts, list(vs), times, kind_, res)
                        if res.full:
                            return
    elif kind == 'conv':
        _, steps, first = case
        ts = [float(x) / 2 for x in itertools.accumulate((1,) + tuple(steps))]
        for rest in itertools.product(CONV, repeat=len(ts) - 1):
            for eps, window, ratio in itertools.product((0.1, 0.5), (0.1, 0.25, 0.7), (1., 0.96, 0.5, 2.)):
                with res.case({'case': ['conv1', ts, (first,) + rest, eps, window, ratio]}):
                    case_conv(ts, [first] + list(rest), eps, window, ratio, res)
                if res.full:
                    return
    elif kind == 'plot':
        nominal = case[1]
        with tree() as t:
            for form in [('A',), ('A', 'PyGMol'), ('B', 'pygkin'), ('A', '@custom'), ('D', '@custom'), ('A', 'pygkin', 'solution.csv')]:
                for columns in ((), ('e',), ('Te', 'Ar'), ('p',)):
                    for log in (True, False):
                        with res.case({'case': ['plot1', form, nominal, columns, log]}):
                            case_plot(t, form, nominal, columns, log, res)
    elif kind == 'red':
        _, first, backtrack, depth = case
        for n in range(0, depth):
            for rest in itertools.product(EVENTS, repeat=n):
                for o in (range(len(OPTS)) if n < 2 else (n % 3, )):
                    with res.case({'case': ['red1', [(first,) + rest], backtrack, o, [MAX_ERROR]]}):
                        case_reductions([(first,) + rest], backtrack, OPTS[o], [MAX_ERROR], res)
                    if res.full:
                        return
        if first == EVENTS[0]:
            with res.case({'case': ['red1', [()], backtrack, 0, [MAX_ERROR]]}):
                case_reductions([()], backtrack, OPTS[0], [MAX_ERROR], res)
    elif kind == 'red2':
        _, first, backtrack = case
        for second in itertools.chain(((x,) for x in EVENTS), itertools.product(EVENTS, ('small', 'far'))):
            for me in ([MAX_ERROR, MAX_ERROR], [MAX_ERROR, 20.]):
                for o in (4, 1):
                    with res.case({'case': ['red1', [(first, 'small'), second], backtrack, o, me]}):
                        case_reductions([(first, 'small'), second], backtrack, OPTS[o], me, res)
                    if res.full:
                        return


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def replay(case):
    res = Result()
    kind, args = case['case'][0], [tup(a) for a in case['case'][1:]]
    with res.case(case):
        if kind in ('fetch1', 'compare1', 'plot1'):
            with tree() as t:
                {'fetch1': case_fetch, 'compare1': case_compare, 'plot1': case_plot}[kind](t, *args, res)
        elif kind == 'frames1':
            ts, vs, times, k = args
            case_frames(list(ts), list(vs), times, k, res)
        elif kind == 'conv1':
            ts, vs, *rest = args
            case_conv(list(ts), list(vs), *rest, res)
        else:
            hists, backtrack, o, me = args
            case_reductions(list(hists), backtrack, OPTS[o], list(me), res)
    return res


def shards(tier):
    return chunks(cases(tier), 40)


def run(shard, tier):
    res = Result()
    for case in shard:
        run_case(tup(list(case)), res)
        res.count('evaluations')
        if res.full:
            break
    res.sample({'case': shard[0]})
    return res
