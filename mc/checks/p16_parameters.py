"""P16: model parameters are accepted exactly when valid, readable by every name, and immutable afterwards."""
import itertools

import numpy as np

from pygmo_fwork.pygmol.model_parameters import ModelParameters

from mc.core import Result, check, chunks, outcome, same

LEVEL = 'exploration'
RULE = 'every combination of value classes for up to k of the eight parameters with the others nominal; every subset of ' \
       'missing parameters; every alias; every way of passing; every sequence of attempts to modify'
BOUNDS = {'quick': 'up to 3 parameters off nominal, modification sequences to length 2',
          'thorough': 'up to 4 parameters off nominal, modification sequences to length 3'}
ASSUMPTIONS = ['times out of order which cover the simulated time may be taken or not',
               'parameters given twice under two names, infinities, complex and exotic number types are out of scope']

ALIASES = {'radius': ('radius', 'r', 'R'), 'length': ('length', 'z', 'Z'), 'pressure': ('pressure', 'p'),
           'power': ('power', 'P'), 't_power': ('t_power', 't_P', 'time_P', 'time_power'),
           'temp_gas': ('temp_gas', 'Tg', 'T_g', 'gas_temp'), 'feeds': ('feeds', 'feed_flows'),
           't_end': ('t_end', 'time_end', 'end_time')}
KEYS = list(ALIASES)
NAN = float('nan')
# a factory for each value (fresh objects), whether it is valid on its own
NUM = [(lambda: 2, True), (lambda: 0.25, True), (lambda: 1e-9, True), (lambda: np.float64(3.5), True),
       (lambda: np.int64(4), True), (lambda: 1e9, True),
       (lambda: 0, False), (lambda: 0.0, False), (lambda: -0.5, False), (lambda: -3, False), (lambda: True, False),
       (lambda: False, False), (lambda: NAN, False), (lambda: np.nan, False), (lambda: None, False), (lambda: '1', False),
       (lambda: [1.], False), (lambda: {}, False)]
T_END = [(lambda: 2, True), (lambda: 0.25, True), (lambda: 1.0, True), (lambda: np.float64(0.5), True),
         (lambda: 5, True)] + NUM[6:]
POWER = [(lambda: [300, 200], True), (lambda: (0, 0), True), (lambda: [0, 5.5, 7], True), (lambda: np.array([1., 2.]), True),
         (lambda: [np.float64(1), 2, 0], True), (lambda: [5, 0, 5, 0], True),
         (lambda: [], False), (lambda: [1], False), (lambda: 5, False), (lambda: '12', False), (lambda: None, False),
         (lambda: [-1, 1], False), (lambda: [1, -1e-9], False), (lambda: [True, 1], False), (lambda: [1, NAN], False),
         (lambda: ['1', 1], False), (lambda: [None, 1], False), (lambda: [1, 2, -3], False), (lambda: b'12', False)]
TIME = [(lambda: [0, 3], True), (lambda: (-1, 3), True), (lambda: [0, 1., 3.], True), (lambda: np.array([0., 3.]), True),
        (lambda: [-2, 0.5, 100], True), (lambda: [0, 0.1, 0.1, 3.], True), (lambda: [0., 1.1], True),
        (lambda: [0., 2.2], True), (lambda: [0., 2.19], True), (lambda: [-1., 0.275], True), (lambda: [-1., 0.274], True),
        (lambda: [0.1, 3.], None), (lambda: [1e-12, 3.], None), (lambda: [-3., 0.], True), (lambda: [-3., -1.], True),
        (lambda: [0., 3., 0.5], 'unordered'), (lambda: [-1., 9., 0.3], 'unordered'), (lambda: [0.5, 0., 3.], 'unordered'),
        (lambda: [0.], False), (lambda: [], False), (lambda: 3., False), (lambda: 'ab', False), (lambda: None, False),
        (lambda: ['0', 3.], False), (lambda: [0, NAN], False), (lambda: [NAN, 3], False), (lambda: [0, True], False),
        (lambda: [False, 3], False), (lambda: [0, None, 3], False)]
FEEDS = [(lambda: {}, True), (lambda: {'Ar': 1}, True), (lambda: {'Ar': .5, 'H2': 2}, True),
         (lambda: {'Ar': np.float64(3)}, True),
         (lambda: [], False), (lambda: None, False), (lambda: 'Ar', False), (lambda: {1: 1}, False),
         (lambda: {'Ar': 0}, False), (lambda: {'Ar': -1.}, False), (lambda: {'Ar': '1'}, False),
         (lambda: {'Ar': True}, False), (lambda: {'Ar': NAN}, False), (lambda: {'Ar': None}, False),
         (lambda: {'Ar': 1., 'H2': 0.}, False), (lambda: {'Ar': 1., None: 2.}, False), (lambda: [('Ar', 1.)], False)]
VALUES = {'radius': NUM, 'length': NUM, 'pressure': NUM, 'temp_gas': NUM, 't_end': T_END, 'power': POWER, 't_power': TIME,
          'feeds': FEEDS}
NOMINAL = {'radius': lambda: 0.1, 'length': lambda: 0.2, 'pressure': lambda: 10., 'temp_gas': lambda: 300,
           't_end': lambda: 1.0, 'power': lambda: [300, 200], 't_power': lambda: [0, 3], 'feeds': lambda: {'Ar': 10.}}


def shards(tier):
    k = 3 if tier == 'quick' else 4
    sets = [c for n in range(k + 1) for c in itertools.combinations(KEYS, n)]
    out = [{'kind': 'values', 'sets': c} for c in chunks(sets, 93 if tier == 'quick' else 163)]
    out.append({'kind': 'missing'})
    out.append({'kind': 'names'})
    for i in range(len(TARGETS)):
        out.append({'kind': 'mutate', 'first': i, 'depth': 2 if tier == 'quick' else 3})
    return out


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plain(x) for x in v]
    return float(v)


def valid(values, flags):
    """Definition of valid parameters."""
    if any(f is False for f in flags.values()):
        return False
    power, time, t_end = values['power'], values['t_power'], values['t_end']
    if len(power) != len(time):
        return False
    return time[0] <= 0 and time[-1] >= 1.1 * t_end


def verify(mp, want):
    """Every reading of the parameters says the wanted (plain) values."""
    for key, names in ALIASES.items():
        for name in names:
            same(plain(mp[name]), want[key], 'parameter {}'.format(name), key='parameter value')
    same(set(mp.keys()), set(KEYS), 'keys')
    same(set(mp), set(KEYS), 'iteration')
    same(len(mp), len(KEYS), 'number of the parameters')
    same({k: plain(v) for k, v in mp.items()}, want, 'items', key='parameter value')
    same({k: plain(v) for k, v in dict(mp).items()}, want, 'dict', key='parameter value')
    same(len(list(mp.values())), len(KEYS), 'number of values')
    check(isinstance(mp['feeds'], dict) and type(mp['power']) is list and type(mp['t_power']) is list, 'types of the values')


def try_values(picked, res, orders=1):
    flags = {k: f for k, (_, f) in picked.items()}
    for o in range(orders):
        values = {k: (picked[k][0] if k in picked else NOMINAL[k])() for k in KEYS}
        expected = valid(values, flags)
        keys = KEYS[::-1] if o else KEYS
        args = {ALIASES[k][(len(picked) + i) % len(ALIASES[k])]: values[k] for i, k in enumerate(keys)}
        before = repr(args)
        status, mp = outcome(ModelParameters, args)
        if expected and 'unordered' in flags.values():
            return   # times out of order which reach far enough: not specified
        same(status, 'ok' if expected else 'err', 'acceptance of {}'.format(values), key='acceptance')
        same(repr(args), before, 'values given by the user after the call')
        if expected:
            verify(mp, {k: plain(v) for k, v in values.items()})
        res.count('evaluations')
    res.count('accepted' if expected else 'refused')


def run_values(keys, res):
    for combo in itertools.product(*[range(len(VALUES[k])) for k in keys]):
        with res.case({'kind': 'values', 'keys': list(keys), 'combo': list(combo)}, 60):
            try_values({k: VALUES[k][i] for k, i in zip(keys, combo)}, res, 2 if len(keys) < 3 else 1)
            res.see('distinct_nontrivial', (keys, combo))
        if res.full:
            return


def run_missing(res):
    for n in range(1, len(KEYS) + 1):
        for gone in itertools.combinations(KEYS, n):
            with res.case({'kind': 'missing'}, 60):
                args = {k: NOMINAL[k]() for k in KEYS if k not in gone}
                same(outcome(ModelParameters, args)[0], 'err', 'acceptance without {}'.format(gone), key='missing')
                same(outcome(lambda: ModelParameters(**args))[0], 'err', 'acceptance without {}'.format(gone), key='missing')
                res.count('evaluations', 2)
                res.see('distinct_nontrivial', gone)
    for bad in ('x', 'Radius', 'PRESSURE', 't', 'T', 'T_e', 'feed', '', 'tg', 'parameters', 'RADIUS', 'time', 1, None):
        with res.case({'kind': 'missing'}, 60):
            args = {k: NOMINAL[k]() for k in KEYS}
            args[bad] = 1.
            same(outcome(ModelParameters, args)[0], 'err', 'acceptance with the unknown key {!r}'.format(bad))
            mp = ModelParameters({k: NOMINAL[k]() for k in KEYS})
            same(outcome(mp.__getitem__, bad)[0], 'err', 'reading the unknown key {!r}'.format(bad))
            res.count('evaluations', 2)
    same(outcome(ModelParameters)[0], 'err', 'acceptance of nothing')


def run_names(res):
    want = {k: plain(NOMINAL[k]()) for k in KEYS}
    keys = list(ALIASES)
    for n, combo in enumerate(itertools.product(*[ALIASES[k] for k in keys])):
        with res.case({'kind': 'names'}, 60):
            args = {name: NOMINAL[k]() for k, name in zip(keys, combo)}
            split = n % 9
            if split == 8:
                mp = ModelParameters(args)
            else:  # the first few as a dictionary, the rest as keywords
                items = list(args.items())
                mp = ModelParameters(dict(items[:split]) if split else None, **dict(items[split:]))
            verify(mp, want)
            res.count('evaluations')
            res.see('distinct_nontrivial', combo)
        if res.full:
            return


# ------------------------------------------------------------------------------------------- attempts to modify
def _try(fn, *a):
    try:
        fn(*a)
    except Exception:
        pass




def _set(seq, i, v):
    seq[i] = v


def _junk(v):
    """Damage a value handed out by the parameters, as far as it allows."""
    if isinstance(v, dict):
        _try(_set, v, 'XX', 1.)
        _try(_set, v, 'Ar', 77.)
        _try(v.pop, 'H2', None)
    elif isinstance(v, (list, np.ndarray)):
        _try(_set, v, 0, 55.)
        _try(lambda: v.append(3.))
        _try(lambda: v.insert(0, -3.))
    else:
        for m in ('set_power', 'set_time'):
            if hasattr(v, m):
                _try(getattr(v, m), [7., 8., 9.])


TARGETS = [('input', 'power'), ('input', 't_power'), ('input', 'feeds'), ('input', 'all')] + \
          [('read', n) for k in ('power', 't_power', 'feeds') for n in ALIASES[k]] + \
          [('items', None), ('values', None), ('dict', None), ('input kwargs', None)] + \
          [('set', n) for k in KEYS for n in ALIASES[k][:2]] + [('del', n) for k in KEYS for n in ALIASES[k][:2]] + \
          [('other', None)]


def attack(mp, args, target):
    kind, name = target
    if kind == 'input':
        if name == 'all':
            for k in list(args):
                args[k] = 5.
            args['radius'] = 9.
        else:
            _junk(args[name]) if name in args and not isinstance(args[name], float) else None
    elif kind == 'read':
        _junk(mp[name])
    elif kind == 'items':
        for _, v in mp.items():
            _junk(v)
    elif kind == 'values':
        for v in mp.values():
            _junk(v)
    elif kind == 'dict':
        d = dict(mp)
        for k, v in d.items():
            _junk(v)
            d[k] = 3.
    elif kind == 'set':
        for v in (1., [1., 2.], [0., 9.], {'Ar': 3.}):
            same(outcome(mp.__setitem__, name, v)[0], 'err', 'setting {}'.format(name), key='set')
    elif kind == 'del':
        same(outcome(mp.__delitem__, name)[0], 'err', 'deleting {}'.format(name), key='set')
    elif kind == 'other':
        values = {k: NOMINAL[k]() for k in KEYS}
        values.update(radius=0.7, feeds={'H2': 4.}, power=[1., 2., 3.], t_power=[-5., 1., 50.])
        ModelParameters(values)


STARTS = [lambda: {k: NOMINAL[k]() for k in KEYS},
          lambda: dict({k: NOMINAL[k]() for k in KEYS}, power=np.array([1., 2., 3.]), t_power=np.array([0., 1., 3.]),
                       feeds={'Ar': 1., 'H2': 2.}),
          lambda: dict({k: NOMINAL[k]() for k in KEYS}, power=(1., 2.), t_power=(-1., 3.), feeds={})]


def run_mutate(seq, res):
    for s, start in enumerate(STARTS):
        with res.case({'kind': 'mutate', 'seq': list(seq)}, 60):
            args = start()
            want = {k: plain(v) for k, v in args.items()}
            mp = ModelParameters(args)
            for i in seq:
                attack(mp, args, TARGETS[i])
                verify(mp, want)
            res.count('evaluations')
            res.see('distinct_nontrivial', (s, tuple(seq)))


def run(shard, tier):
    res = Result()
    if shard['kind'] == 'values':
        for keys in shard['sets']:
            run_values(keys, res)
            if res.full:
                break
    elif shard['kind'] == 'missing':
        run_missing(res)
    elif shard['kind'] == 'names':
        run_names(res)
    else:
        for n in range(shard['depth']):
            for rest in itertools.product(range(len(TARGETS)), repeat=n):
                run_mutate((shard['first'],) + rest, res)
                if res.full:
                    return res
    return res


def replay(case):
    res = Result()
    if case['kind'] == 'values':
        with res.case(case):
            try_values({k: VALUES[k][i] for k, i in zip(case['keys'], case['combo'])}, res, 2)
    elif case['kind'] == 'mutate':
        run_mutate(case['seq'], res)
    elif case['kind'] == 'missing':
        run_missing(res)
    else:
        run_names(res)
    return res
