"""Exploration framework: deterministic shards in worker processes, counts, violations, replay artefacts."""
import contextlib
import hashlib
import json
import os
import shutil
import signal
import tempfile
import traceback


class Violation(Exception):
    """Raised (or recorded) when the code under test contradicts the reference."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class HangError(BaseException):
    pass


def h64(obj):
    """Stable 64-bit digest of a canonical (repr-able) object."""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Result(object):
    MAX_VIOLATIONS = 3

    def __init__(self):
        self.counts = {}
        self.distinct = {}
        self.samples = []
        self.violations = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def see(self, name, obj):
        s = self.distinct.setdefault(name, set())
        k = obj if isinstance(obj, int) else h64(obj)
        new = k not in s
        s.add(k)
        return new

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violate(self, msg, case, key=None):
        self.violations.append({'msg': str(msg)[:2000], 'case': case, 'key': key or str(msg)[:200]})

    @property
    def full(self):
        return len(self.violations) >= self.MAX_VIOLATIONS

    def merge(self, other):
        for k, v in other.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in other.distinct.items():
            self.distinct.setdefault(k, set()).update(v)
        for s in other.samples:
            if len(self.samples) < 4:
                self.samples.append(s)
        self.violations.extend(other.violations)

    # -------------------------------------------------------------------------------------------
    @contextlib.contextmanager
    def case(self, case, timeout=120):
        """Run one case: Violation -> recorded; any other exception escaping the code under test -> recorded too."""
        def on_alarm(signum, frame):
            raise HangError()

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(timeout)
        try:
            yield
        except Violation as v:
            self.violate(v.msg, case, v.key)
        except HangError:
            self.violate('the operation did not finish within {} s'.format(timeout), case, 'hang')
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['{}:{}'.format(os.path.basename(f.filename), f.name) for f in tb][-4:]
            self.violate('unexpected {}: {} at {}'.format(type(e).__name__, e, ' > '.join(where)), case,
                         'unexpected {}'.format(type(e).__name__))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)


def check(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg.format(*args) if args else msg, key=key)


def same(a, b, what, key=None):
    if a != b:
        raise Violation('{}: got {!r}, expected {!r}'.format(what, a, b), key=key)


def outcome(fn, *args, **kwargs):
    """('ok', value) or ('err', exception class name)."""
    try:
        return 'ok', fn(*args, **kwargs)
    except HangError:
        raise
    except Exception as e:
        return 'err', type(e).__name__


@contextlib.contextmanager
def scratch(prefix='case'):
    d = tempfile.mkdtemp(prefix=prefix, dir=os.environ.get('MC_SCRATCH') or None)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Silence what the code under test prints."""
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        yield


def chunks(items, n):
    """Deal the items round-robin into n shards (deterministic, balanced)."""
    items = list(items)
    return [items[i::n] for i in range(n) if items[i::n]]


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return sorted((jsonable(x) for x in o), key=repr)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    try:
        return o.item()
    except AttributeError:
        return repr(o)
