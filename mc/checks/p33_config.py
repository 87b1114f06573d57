"""P33: the configuration file and the directories of the workspace."""
import itertools
import os
from pathlib import Path

from pygmo_fwork.config import Config
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.optichem.morris import MorrisMethod
from pygmo_fwork.optichem.reduction import ReductionIterator
from pygmo_fwork.results import ResultsParser

from mc import morris as M
from mc.core import Result, check, outcome, quiet, same, scratch
from mc.models import Setup

LEVEL = 'model_checking'
RULE = 'breadth-first over the states of two workspaces (which directories and files exist, what the configuration says) under every ' \
       'request, removal and change of the configuration; each transition is executed by the real code in a tree rebuilt from the ' \
       'state and compared with the model; every content of the configuration file; the users of the default directories'
BOUNDS = {'quick': 'all reachable states of one workspace (no depth bound) and all states of two reachable with up to 4 operations; 45 contents',
          'thorough': 'all reachable states of two workspaces (no depth bound); 45 contents'}
ASSUMPTIONS = ['the workspace is an absolute path, as documented', 'a workspace which is not a text is refused with any error']

DIRS = {'pygmol': ('results', 'pygmol'), 'pygkin': ('results', 'pygkin'), 'morris': ('results', 'morris_sensitivity'),
        'reduction': ('results', 'reduction'), 'stage': ('globalkin_stage',)}
OPS = [('get', 'pygmol', 'pygmol'), ('get', 'pygmol', 'PyGMol'), ('get', 'pygkin', 'pygkin'), ('get', 'pygkin', 'PYGKIN'), ('bad', '', 'hpem'),
       ('bad', '', ''), ('bad', '', 'results'), ('get', 'morris', None), ('get', 'reduction', None), ('get', 'stage', None),
       ('bin', None, None), ('key', 'workspace', 'w1'), ('key', 'workspace', 'w2'), ('nokey', 'workspace', None), ('nokey', 'globalkin_bin', None),
       ('key', 'globalkin_bin', 'gk'), ('wipe', 'results', None), ('fill', 'pygmol', None), ('fill', 'morris', None)]


def request(cfg, kind, arg):
    if kind in ('pygmol', 'pygkin', ''):
        return cfg.get_results_dir(arg)
    return {'morris': cfg.get_morris_results_dir, 'reduction': cfg.get_reduction_results_dir, 'stage': cfg.get_globalkin_stage_dir}[kind]()


def initial(kind):
    tree = {('bin',): None}
    if kind > 0:
        tree[('w1',)] = None
    if kind > 1:
        for p in (('w1', 'results'), ('w1', 'results', 'pygmol'), ('w1', 'other')):
            tree[p] = None
        tree[('w1', 'results', 'pygmol', 'old.txt')] = 'old'
        tree[('bin', 'gk')] = 'x'
    return frozenset(tree.items()), frozenset({'workspace': 'w1', 'globalkin_bin': 'gk'}.items())


def step(state, op):
    """The model: (outcome, new state)."""
    tree, keys = dict(state[0]), dict(state[1])
    name, a, b = op
    res = ('ok', None)
    if name == 'bad':
        res = ('err', 'GlobalModelAttributeError')
    elif name == 'get':
        if a == 'stage' and ('globalkin_bin' not in keys or ('bin', 'gk') not in tree):
            res = ('err', 'ConfigError')
        elif 'workspace' not in keys:
            res = ('err', 'ConfigError')
        else:
            path = (keys['workspace'],) + DIRS[a]
            for i in range(1, len(path) + 1):
                tree.setdefault(path[:i], None)
            res = ('ok', path)
    elif name == 'bin':
        if ('bin', 'gk') in tree:
            del tree[('bin', 'gk')]
        else:
            tree[('bin', 'gk')] = 'x'
    elif name == 'key':
        keys[a] = b
    elif name == 'nokey':
        keys.pop(a, None)
    elif name == 'wipe':
        tree = {p: v for p, v in tree.items() if p[:2] != ('w1', 'results')}
    elif name == 'fill':
        path = ('w1',) + DIRS[a]
        if path in tree:
            tree[path + ('run',)] = None
            tree[path + ('run', 'file.csv')] = 'data'
    return res, (frozenset(tree.items()), frozenset(keys.items()))


def write_tree(d, tree):
    for p, v in sorted(tree.items()):
        full = os.path.join(d, *p)
        if v is None:
            os.mkdir(full)
        else:
            with open(full, 'w') as f:
                f.write(v)


def read_tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        rel = () if root == d else tuple(os.path.relpath(root, d).split(os.sep))
        for x in dirs:
            out[rel + (x,)] = None
        for x in files:
            with open(os.path.join(root, x)) as f:
                out[rel + (x,)] = f.read()
    out.pop(('config.yaml',), None)
    return out


def absolute(d, k, v):
    return os.path.join(d, v) if k == 'workspace' else os.path.join(d, 'bin', v)


def transition(state, op, res):
    tree, keys = dict(state[0]), dict(state[1])
    want, after = step(state, op)
    with scratch('cfg') as d:
        write_tree(d, tree)
        cf = os.path.join(d, 'config.yaml')
        with open(cf, 'w') as f:
            for k, v in sorted(keys.items()):
                f.write('{}: {}\n'.format(k, absolute(d, k, v)))
            if not keys:
                f.write('{}\n')
        cfg = Config(cf)
        same(dict(cfg), {k: absolute(d, k, v) for k, v in keys.items()}, 'keys', key='keys')
        for twice in (False, True):                     # the second request finds everything there
            if op[0] in ('get', 'bad'):
                got = outcome(request, cfg, op[1], op[2])
                if got[0] == 'ok':
                    got = ('ok', str(got[1]))
                    check(Path(got[1]).is_dir(), 'the directory {} does not exist', got[1], key='directory')
                same(got, want if want[0] == 'err' else ('ok', os.path.join(d, *want[1])), 'outcome of {} in {}'.format(op, state), key='outcome')
                same(read_tree(d), dict(after[0]), 'tree after {} in {}'.format(op, state), key='tree')
                check(os.path.isfile(cf), 'the configuration file is gone', key='tree')
    res.count('transitions')
    res.count('traces_validated_against_impl')
    return after


def reachable(kind, ops, depth):
    """All states of the model reachable with the given operations (None: without a bound), each with a shortest path."""
    s0 = initial(kind)
    seen, frontier = {s0: ()}, [s0]
    while frontier and depth != 0:
        nxt = []
        for s in frontier:
            for i in ops:
                t = step(s, OPS[i])[1]
                if t not in seen:
                    seen[t] = seen[s] + (i,)
                    nxt.append(t)
        frontier = nxt
        depth = depth - 1 if depth else depth
    return seen


def states(tier):
    one = [i for i, op in enumerate(OPS) if op[2] != 'w2']
    out = {}
    for kind in range(3):
        out.update(reachable(kind, one if tier == 'quick' else range(len(OPS)), None))
        if tier == 'quick':
            out.update(reachable(kind, range(len(OPS)), 4))
    return out


def explore(part, parts, tier, res):
    for k, (s, path) in enumerate(states(tier).items()):
        if k % parts != part:
            continue
        res.count('states')
        for op in OPS:
            with res.case({'state': s, 'path': path, 'op': op}):
                transition(s, op, res)
        if res.full:
            return


# --------------------------------------------------------------------------------------------------------- contents
CONTENTS = [(b'workspace: /tmp/ws\n', {'workspace': '/tmp/ws'}), (b'workspace: /tmp/ws', {'workspace': '/tmp/ws'}),
            (b'workspace: "/tmp/w s"\nglobalkin_bin: /opt/gk\n', {'workspace': '/tmp/w s', 'globalkin_bin': '/opt/gk'}),
            (b'# comment\nworkspace: /tmp/ws # here\nextra: [1, 2]\n', {'workspace': '/tmp/ws', 'extra': [1, 2]}),
            (b'{workspace: /a/b, globalkin_bin: /c}', {'workspace': '/a/b', 'globalkin_bin': '/c'}),
            ('workspace: /tmp/\u00e1\u03b1\n'.encode(), {'workspace': '/tmp/\u00e1\u03b1'}), (b'{}', {}), (b'a: 1\nb: null\n', {'a': 1, 'b': None}),
            (b'---\nworkspace: /x\n', {'workspace': '/x'}), (b'1: 2\n', {1: 2}), (b'workspace: {deep: {er: x}}\n', {'workspace': {'deep': {'er': 'x'}}})]
REFUSED = [b'', b'\n\n', b'# only a comment\n', b'null', b'5', b'3.5', b'true', b'text', b'/tmp/ws', b'workspace', b'workspace /tmp/ws\n', b'workspace=/tmp/ws',
           b'[1, 2]', b'- workspace\n- /tmp/ws\n', b'- workspace: /tmp/ws\n- globalkin_bin: /x\n- z: 1\n', b'workspace: [', b'workspace: "x', b'{workspace: /a', b'\tworkspace: /a',
           b'a: b: c\n', b'workspace: /a\n  globalkin_bin: /b\n', b'- a\nb: c\n', b'%YAML 9\n', b'&x', b'*x', b'workspace: *nothing\n', b'!!python/object:nothing.Nothing {}\n',
           b'\xff\xfe\xfa', b'\x00\x01', b'workspace: "\\q"\n', b'---\na: 1\n---\nb: 2\n', b'@x', b'`x', b'? ? ?\n- ]']


def contents(res):
    for good, items in ((True, CONTENTS), (False, [(c, None) for c in REFUSED])):
        for raw, want in items:
            for as_path in (True, False):
                with res.case({'content': [repr(raw), as_path]}), scratch('cfg') as d:
                    p = os.path.join(d, 'my.cfg')
                    with open(p, 'wb') as f:
                        f.write(raw)
                    got = outcome(Config, Path(p) if as_path else p)
                    if good:
                        same(got[0], 'ok', 'configuration {!r}: {}'.format(raw, got), key='accepted')
                        same(dict(got[1]), want, 'keys', key='keys')
                        for k in want:
                            same(got[1][k], want[k], 'key', key='keys')
                        for k in ('nothing', 'Workspace', '', None, 7):
                            same(outcome(lambda: got[1][k]), ('err', 'ConfigError'), 'absent key', key='absent key')
                    else:
                        same(got, ('err', 'ConfigError'), 'configuration {!r}'.format(raw), key='refused')
                    same(os.listdir(d), ['my.cfg'], 'files', key='files')
                    with open(p, 'rb') as f:
                        same(f.read(), raw, 'the configuration file', key='files')
                res.count('contents')
    for what in ('absent', 'directory', 'dangling', 'in a file'):
        with res.case({'file': what}), scratch('cfg') as d:
            p = os.path.join(d, 'c')
            if what == 'directory':
                os.mkdir(p)
            elif what == 'dangling':
                os.symlink(os.path.join(d, 'nothing'), p)
            elif what == 'in a file':
                with open(p, 'w') as f:
                    f.write('workspace: /x\n')
                p = os.path.join(p, 'deeper')
            same(outcome(Config, p), ('err', 'ConfigError'), 'file {}'.format(what), key='refused')
    for link in ('link', 'home'):
        with res.case({'file': link}), scratch('cfg') as d:
            with open(os.path.join(d, 'real'), 'w') as f:
                f.write('workspace: {}\n'.format(d))
            os.symlink('real', os.path.join(d, 'l'))
            same(dict(Config(os.path.join(d, 'l'))), {'workspace': d}, 'configuration behind a link', key='accepted')
    for ws in ('null', '5', '[a]', '{a: b}'):
        with res.case({'workspace': ws}), scratch('cfg') as d:
            old = os.getcwd()
            os.chdir(d)
            try:
                with open('c', 'w') as f:
                    f.write('workspace: {}\nglobalkin_bin: {}/c\n'.format(ws, d))
                cfg = Config('c')
                for kind in DIRS:
                    got = outcome(request, cfg, kind, kind)
                    same(got[0], 'err', 'directory in the workspace {}'.format(ws), key='refused')
                same(os.listdir('.'), ['c'], 'files made', key='files')
            finally:
                os.chdir(old)
    with res.case({'names': 1}):
        names = {}
        for log in ('solution', 'rates', 'wall_fluxes', 'model_attributes', 'chemistry_attributes', 'solver_log'):
            n = Config.default_log_name(log)
            same(n, Config.default_log_name(log, anything=1), 'name', key='log name')
            check(n not in names.values() and os.path.basename(n) == n and n.startswith(log), 'log name {} of {}', n, log, key='log name')
            names[log] = n
        for log in ('', 'Solution', 'solutions', 'meta', None, 'solution.csv'):
            same(outcome(Config.default_log_name, log), ('err', 'AssertionError'), 'name of an unknown log {}'.format(log), key='log name')


# --------------------------------------------------------------------------------------------------------- users
def users(res):
    """Runs, analyses and reductions without explicit directories, with the default configuration file of this check's home."""
    home = Path.home() / '.pygmofwork'
    saved = home.read_bytes()
    try:
        for order in itertools.permutations(('run', 'morris', 'reduction'), 3):
            for again in (False, True):
                with res.case({'users': [order, again]}), scratch('home') as d:
                    home.write_text('workspace: {}\n'.format(os.path.join(d, 'ws')))
                    want = set()
                    for k, what in enumerate(order + (order if again else ())):
                        use(what, d, 'id{}'.format(k), want)
                        got = {p for p in read_tree(d) if len(p) == 4}
                        same({p[:4] for p in got}, want, 'results after {}'.format(what), key='default directories')
                    same({p[0] for p in read_tree(d)}, {'ws'}, 'files outside of the workspace', key='outside')
                res.count('users')
        for bad in (None, '', 'workspace: [', 'other: /x\n'):
            with res.case({'users refused': bad}), scratch('home') as d:
                if bad is None:
                    home.unlink()
                else:
                    home.write_text(bad)
                old = os.getcwd()
                os.chdir(d)
                try:
                    for what in ('run', 'morris', 'reduction'):
                        same(outcome(use, what, d, 'x', set()), ('err', 'ConfigError'), '{} without a configuration'.format(what), key='refused')
                    same(os.listdir(d), [], 'files made', key='files')
                finally:
                    os.chdir(old)
    finally:
        home.write_bytes(saved)


def use(what, d, name, want):
    s = Setup((3, 5, 14), params={'feeds': {'Ar': 5.}})
    stub = M.Stub(s)
    root = ('ws', 'results')
    with quiet(), M.stage(stub):
        if what == 'run':
            gm = GlobalModel(s.chem, s.params())
            gm.run(run_id=name, verbose=False)
            want.add(root + ('pygmol', name))
            rp = ResultsParser()
            same(str(rp.nominal_results_dir), os.path.join(d, 'ws', 'results', 'pygmol'), 'default results', key='parser')
            sol = rp.fetch_solution(name)
            check(len(sol) == 4, 'solution of {} from the default directory', name, key='parser')
            check(len(ResultsParser('PyGMol').fetch_solution(name)) == 4, 'solution of {} by backend', name, key='parser')
        elif what == 'morris':
            MorrisMethod(s.chem, s.params()).run_trajectory(name, 'reactions', verbosity=0)
            MorrisMethod(s.chem, s.params()).run_trajectory(name, 'reactions', verbosity=0)
            want.add(root + ('morris_sensitivity', name))
            st = MorrisMethod.get_morris_stats(name, times=(0.,))
            same(len(st.mu), 1, 'statistics', key='morris')
        else:
            gm = GlobalModel(s.chem, s.params())
            ReductionIterator(gm, name, ['Ar'], [0.], 0.1)
            want.add(root + ('reduction', name))


def shards(tier):
    out = [{'kind': 'contents'}, {'kind': 'users'}]
    out += [{'kind': 'explore', 'part': [i, 32]} for i in range(32)]
    return out


def run(shard, tier):
    res = Result()
    if shard['kind'] == 'contents':
        contents(res)
    elif shard['kind'] == 'users':
        users(res)
    else:
        explore(*shard['part'], tier, res)
    return res


def replay(case):
    res = Result()
    if 'state' in case:
        tree, keys = case['state']
        s = frozenset((tuple(p), v) for p, v in tree), frozenset((k, v) for k, v in keys)
        with res.case(case):
            transition(s, tuple(case['op']), res)
    elif 'users' in case or 'users refused' in case:
        users(res)
    else:
        contents(res)
    return res

