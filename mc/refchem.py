"""Reference state machine of a Chemistry, and the driver that runs the same operation on the real object."""
import copy
import os

import yaml

from mc import universe as U
from mc.core import Violation, same

SI = {'s-1': 1., 'm3.s-1': 1., 'm6.s-1': 1., 'cm3.s-1': 1e-6, 'cm6.s-1': 1e-12}


def unit_of(rid, lhs):
    return {1: 's-1', 2: 'cm3.s-1' if rid % 2 else 'm3.s-1', 3: 'cm6.s-1' if rid % 2 else 'm6.s-1'}[len(lhs)]


class Ref(object):
    def __init__(self, net, requires_charge=True):
        self.net = net
        self.rc = requires_charge
        self.sp, self.rs = frozenset(net.sids), frozenset(net.rids)
        self.prot = frozenset(net.initially_protected()) if requires_charge else frozenset()
        self.impl = frozenset()
        self.stick, self.ret, self.arrh = {}, {}, {}

    def clone(self):
        c = copy.copy(self)
        c.stick, c.ret, c.arrh = dict(self.stick), copy.deepcopy(self.ret), dict(self.arrh)
        return c

    def key(self):
        return (tuple(sorted(self.sp)), tuple(sorted(self.rs)), tuple(sorted(self.prot)), tuple(sorted(self.impl)),
                tuple(sorted(self.stick.items())),
                tuple((k, tuple(sorted(v.items()))) for k, v in sorted(self.ret.items())),
                tuple(sorted(self.arrh.items())))

    def apply(self, op, slots):
        """Returns 'ok' or 'err'; mutates only when ok. `slots` holds saved Ref states by name."""
        net, kind = self.net, op[0]
        if kind in ('dis_s', 'dis_r', 'dis'):
            ds = {op[1]} if kind == 'dis_s' else set(op[1]) if kind == 'dis' else set()
            dr = {op[1]} if kind == 'dis_r' else set(op[2]) if kind == 'dis' else set()
            if not ds <= set(net.sids) or not dr <= set(net.rids):
                return 'err'
            if not (ds & self.sp) and not (dr & self.rs):
                return 'ok'
            fs, fr = net.closure(self.sp, self.rs, ds, dr)
            if (self.sp - fs) & (self.prot | self.impl):
                return 'err'
            if self.rc and not (net.ions & fs):
                return 'err'
            self.sp, self.rs = fs, fr
            if self.rc and len(net.ions & fs) == 1:
                self.impl |= net.ions & fs
            return 'ok'
        if kind == 'prot':
            if not set(op[1:]) <= set(net.sids):
                return 'err'
            self.prot |= set(op[1:])
            return 'ok'
        if kind == 'reset':
            self.sp, self.rs, self.impl = frozenset(net.sids), frozenset(net.rids), frozenset()
            return 'ok'
        if kind == 'stick':
            if op[1] not in net.sids or not isinstance(op[2], (int, float)):
                return 'err'
            self.stick[op[1]] = op[2]
            return 'ok'
        if kind == 'ret':
            if op[1] not in net.sids:
                return 'err'
            if not {n for n, _ in op[2]} <= {net.name_of[i] for i in self.sp}:
                return 'err'
            self.ret[op[1]] = dict(op[2])
            return 'ok'
        if kind == 'arrh':
            if op[1] not in net.rids or not isinstance(op[2], (int, float)):
                return 'err'
            self.arrh[op[1]] = op[2]
            return 'ok'
        if kind == 'rst_sp':
            if op[1] not in ('stick_coef', 'ret_coefs', 'all'):
                return 'err'
            if op[1] in ('stick_coef', 'all'):
                self.stick = {}
            if op[1] in ('ret_coefs', 'all'):
                self.ret = {}
            return 'ok'
        if kind == 'rst_r':
            if op[1] not in ('arrh_a', 'all'):
                return 'err'
            self.arrh = {}
            return 'ok'
        if kind == 'dump':
            slots[op[1]] = self.clone()
            return 'ok'
        if kind == 'load':
            if op[1] not in slots:
                return 'err'
            o = slots[op[1]]
            self.sp, self.rs, self.prot, self.impl = o.sp, o.rs, o.prot, o.impl
            self.stick, self.ret, self.arrh = dict(o.stick), copy.deepcopy(o.ret), dict(o.arrh)
            return 'ok'
        if kind == 'copy':
            return 'ok'
        raise AssertionError(op)

    # ---------------------------------------------------------------- predictions of the observable answers
    def selected(self, disabled, special, protected):
        out = []
        for i in self.net.sids:
            if not disabled and i not in self.sp:
                continue
            if not special and self.net.name_of[i] in U.SPECIAL:
                continue
            if not protected and i in (self.prot | self.impl):
                continue
            out.append(i)
        return out

    def stick_of(self, i):
        n = self.net.name_of[i]
        if n in U.SPECIAL:
            return None
        return float(self.stick.get(i, U.DEFAULT_STICK[n]))

    def ret_of(self, i):
        n = self.net.name_of[i]
        if n in U.SPECIAL:
            return None
        if self.stick_of(i) == 0.:
            return {}
        d = self.ret.get(i, U.DEFAULT_RET[n])
        enabled = {self.net.name_of[j] for j in self.sp}
        return {k: float(v) for k, v in d.items() if k in enabled}

    def arrh_of(self, r, si):
        v = self.arrh.get(r, U.arrh(r)['arrh_a'])
        return v * SI[unit_of(r, self.net.pool[r][0])] if si else v

    def observe(self):
        prot = self.prot | self.impl
        alls = [i for i in self.net.sids if self.net.name_of[i] not in U.SPECIAL]
        ens = [i for i in alls if i in self.sp]
        enr = [r for r in self.net.rids if r in self.rs]
        return {
            'species': [i for i in self.net.sids if i in self.sp],
            'disabled_species': [i for i in self.net.sids if i not in self.sp],
            'reactions': enr,
            'disabled_reactions': [r for r in self.net.rids if r not in self.rs],
            'protected': [i for i in self.net.sids if i in prot],
            'stick': [(i, self.stick_of(i)) for i in alls],
            'ret': [(i, self.ret_of(i)) for i in alls],
            'ret_en': [(i, self.ret_of(i)) for i in ens],
            'arrh_nominal': [(r, rnd(self.arrh_of(r, False))) for r in self.net.rids],
            'arrh_si': [(r, rnd(self.arrh_of(r, True))) for r in enr],
        }


def rnd(x):
    return float('%.10g' % float(x))


def observe(chem):
    """What the public interface of the real chemistry answers (compared with Ref.observe)."""
    return {
        'species': [int(i) for i in chem.get_species(special=True).index],
        'disabled_species': [int(i) for i in chem.get_disabled_species().index],
        'reactions': [int(i) for i in chem.get_reactions().index],
        'disabled_reactions': [int(i) for i in chem.get_disabled_reactions().index],
        'protected': [int(i) for i in chem.get_protected_species().index],
        'stick': [(int(i), float(v)) for i, v in chem.get_species_stick_coef(disabled=True).items()],
        'ret': [(int(i), v) for i, v in chem.get_species_ret_coefs(disabled=True).items()],
        'ret_en': [(int(i), v) for i, v in chem.get_species_ret_coefs().items()],
        'arrh_nominal': [(int(i), rnd(v)) for i, v in chem.get_reactions_arrh_a(disabled=True, si_units=False).items()],
        'arrh_si': [(int(i), rnd(v)) for i, v in chem.get_reactions_arrh_a().items()],
    }


def compare(got, want, where):
    for k in want:
        if got[k] != want[k]:
            raise Violation('{}: {} is {!r}, expected {!r}'.format(where, k, got[k], want[k]),
                            key='{} differs'.format(k))


class Driver(object):
    """Runs operations on the real object; save slots are real files in a scratch directory."""

    def __init__(self, chem, directory, slots=None):
        self.chem = chem
        self.dir = directory
        self.slots = dict(slots or {})

    def clone(self):
        """An independent object in the same state, sharing only the immutable species and reactions."""
        memo = {}
        for s in list(self.chem.get_species(disabled=True, special=True)) + \
                list(self.chem.get_reactions(disabled=True)):
            memo[id(s)] = s
        return Driver(copy.deepcopy(self.chem, memo), self.dir, self.slots)

    def apply(self, op):
        c, kind = self.chem, op[0]
        if kind == 'dis_s':
            c.disable(species=[op[1]])
        elif kind == 'dis_r':
            c.disable(reactions=[op[1]])
        elif kind == 'dis':
            c.disable(species=op[1], reactions=op[2])
        elif kind == 'prot':
            c.set_protected_species(*op[1:])
        elif kind == 'reset':
            c.reset()
        elif kind == 'stick':
            c.set_adhoc_species_attributes('stick_coef', op[1], op[2])
        elif kind == 'ret':
            c.set_adhoc_species_attributes('ret_coefs', op[1], dict(op[2]))
        elif kind == 'arrh':
            c.set_adhoc_reactions_attributes('arrh_a', op[1], op[2])
        elif kind == 'rst_sp':
            c.reset_adhoc_species_attributes(op[1])
        elif kind == 'rst_r':
            c.reset_adhoc_reactions_attributes(op[1])
        elif kind == 'dump':
            path = os.path.join(self.dir, 'slot.yaml')
            c.dump_chemistry_attributes(path)
            with open(path) as f:
                self.slots[op[1]] = f.read()
        elif kind == 'load':
            path = os.path.join(self.dir, 'slot.yaml')
            if os.path.exists(path):
                os.remove(path)
            if op[1] in self.slots:
                with open(path, 'w') as f:
                    f.write(self.slots[op[1]])
            c.load_chemistry_attributes(path)
        elif kind == 'copy':
            self.chem = c.copy()
        else:
            raise AssertionError(op)


def saved(chem, directory):
    """The saved-state file of a chemistry, parsed (its whole hidden state as the code itself reports it)."""
    path = os.path.join(directory, 'saved.yaml')
    chem.dump_chemistry_attributes(path)
    with open(path) as f:
        return yaml.safe_load(f)


def tup(op):
    """JSON back to hashable operations."""
    return tuple(tup(x) if isinstance(x, list) else x for x in op)


ERRORS = ('ChemistryDisableError', 'ChemistrySpeciesNotPresentError', 'ChemistryReactionNotPresentError',
          'ChemistryConsistencyError', 'ChemistryAttributeError', 'RPAttributeError', 'ReactionAttributeError',
          'ChemistryInitError')


def step(drv, ref, op, slots, where):
    """Run one operation on both; outcomes must agree. Returns 'ok' or 'err'."""
    want = ref.apply(op, slots)
    try:
        drv.apply(op)
        got, what = 'ok', ''
    except Exception as e:
        got, what = 'err', '{}: {}'.format(type(e).__name__, e)
        if want == 'err' and not any(b.__name__ in ERRORS for b in type(e).__mro__):
            raise Violation('{}: {} was rejected with the undocumented {}'.format(where, op, what))
    same(got, want, '{}: outcome of {} ({})'.format(where, op, what))
    return got


def rebuild(net, hist, directory, make=U.make, requires_charge=True):
    drv = Driver(make(net), directory)
    ref, slots = Ref(net, requires_charge), {}
    for op in hist:
        ref.apply(op, slots)
        try:
            drv.apply(op)
        except Exception:
            pass
    return drv, ref, slots


def explore(net, ops, depth, res, directory, on_edge=None, on_state=None, make=U.make, requires_charge=True,
            max_states=10 ** 9, case_extra=None):
    """Breadth-first search over the histories of `ops`, the real object in lockstep with Ref. Every edge compares the
    outcome and everything observable. `on_state(drv, ref, slots, hist)` runs once per distinct state."""
    import collections

    def key(ref, slots):
        return ref.key(), tuple(sorted((k, v.key()) for k, v in slots.items()))

    def report(hist):
        c = {'rids': list(net.rids), 'hist': list(hist)}
        c.update(case_extra or {})
        return c

    drv, ref, slots = rebuild(net, (), directory, make, requires_charge)
    with res.case(report(())):
        compare(observe(drv.chem), ref.observe(), 'fresh chemistry')
    seen = {key(ref, slots)}
    frontier = collections.deque([((), drv, ref, slots)])
    while frontier:
        hist, drv, ref, slots = frontier.popleft()
        res.see('states', (net.rids, key(ref, slots)))
        if on_state:
            with res.case(report(hist)):
                on_state(drv, ref, slots, hist)
        if len(hist) >= depth:
            continue
        for op in ops:
            h2 = hist + (op,)
            bad = len(res.violations)
            with res.case(report(h2)):
                d2, r2, s2 = drv.clone(), ref.clone(), dict(slots)
                got = step(d2, r2, op, s2, 'after ' + repr(hist))
                compare(observe(d2.chem), r2.observe(), 'after ' + repr(h2))
                if on_edge:
                    on_edge(d2, r2, s2, h2, got)
                res.count('transitions')
            if res.full:
                return
            if len(res.violations) > bad:
                continue
            k = key(r2, s2)
            if k not in seen and len(seen) < max_states:
                seen.add(k)
                frontier.append((h2, d2, r2, s2))
                res.sample({'network': net.rids, 'history': h2})
