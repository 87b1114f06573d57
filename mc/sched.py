"""Controlled scheduling of simulated worker processes at their file operations, and crashes at any of these."""
import builtins
import contextlib
import io
import multiprocessing
import os
import pickle
import threading

HOOKED = ('stat', 'lstat', 'mkdir', 'listdir', 'scandir', 'replace', 'rename', 'remove', 'unlink', 'rmdir', 'link', 'symlink')
MUTATING = ('mkdir', 'replace', 'rename', 'remove', 'unlink', 'rmdir', 'link', 'symlink', 'open', 'flush', 'close')
_REAL = {n: getattr(os, n) for n in HOOKED}
_OPEN = builtins.open


class Killed(BaseException):
    """The program has been killed."""


class Deadlock(Exception):
    pass


class Torn(object):
    """A text file opened for writing: what was written appears in the file in two parts, the second one when it is closed."""

    def __init__(self, sched, path, mode, args, kw):
        self.sched, self.path = sched, path
        self.real = _OPEN(path, mode, *args, **kw)
        self.pending, self.parts, self.closed = [], 0, False
        self.name = str(path)

    def write(self, data):
        self.pending.append(data)
        self.parts += 1
        if self.parts == 3:
            self.flush()
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self.sched.killed or self.closed:
            return
        for x in self.pending:
            self.real.write(x)
        self.pending = []
        self.real.flush()
        self.sched.point('flush', self.path)

    def close(self):
        if self.closed:
            return
        if not self.sched.killed:
            self.sched.point('close', self.path)
        if not self.sched.killed:
            for x in self.pending:
                self.real.write(x)
        self.closed = True
        self.real.close()

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self.real, name)


class Scheduler(object):
    """One worker runs at a time; at every visible operation the script decides who goes on (0: the same worker)."""

    def __init__(self, script=(), shared=lambda path, worker: True, watch=lambda path: True, kill_at=None):
        self.script, self.taken = list(script), []
        self.shared, self.watch, self.kill_at = shared, watch, kill_at
        self.local = threading.local()
        self.tasks, self.gates, self.state, self.errors, self.results = [], [], [], [], []
        self.killed, self.points, self.main = False, 0, threading.Event()
        self.log = []
        self.crash = None
        self.stub_of = None

    # ----------------------------------------------------------------------------------------------- points
    def me(self):
        return getattr(self.local, 'worker', None)

    def point(self, op, path):
        w = self.me()
        if getattr(self.local, 'busy', False):
            return
        try:
            path = os.fspath(path)
        except TypeError:
            return
        if isinstance(path, bytes):
            path = path.decode()
        if not self.watch(path):
            return
        if self.killed and w is not None:
            raise Killed()
        if op in MUTATING:
            if self.kill_at is not None and self.points == self.kill_at:
                self.killed = True
                self.log.append(('killed', op, path))
                raise Killed()
            self.points += 1
        if w is None or not self.shared(path, w):
            return
        self.log.append((w, op, os.path.basename(path)))
        self.switch(w, preempt=True)

    def pick(self, n, cost=0):
        if n == 1:
            return 0
        k = len(self.taken)
        c = self.script[k] if k < len(self.script) else 0
        self.taken.append((c, n, cost))
        return c

    def runnable(self):
        return [i for i, s in enumerate(self.state) if s == 'ready']

    def switch(self, w, preempt):
        """Give the baton to the worker chosen; the current one (if it goes on later) waits."""
        ready = self.runnable()
        if preempt:
            order = [w] + [i for i in ready if i != w]
        else:
            order = ready
        if not order:
            self.main.set()
            return
        nxt = order[self.pick(len(order), int(preempt))]
        if nxt == w:
            return
        self.gates[nxt].set()
        if preempt:
            self.gates[w].wait()
            self.gates[w].clear()
            if self.killed:
                raise Killed()

    # ----------------------------------------------------------------------------------------------- tasks
    def submit(self, fn, args, kw):
        data = pickle.dumps((fn, args, kw))                     # as for another process
        i = len(self.tasks)
        self.tasks.append(data)
        self.gates.append(threading.Event())
        self.state.append('queued')
        self.errors.append(None)
        self.results.append(None)
        return i

    def work(self, slots):
        """Run all the submitted tasks on a number of simulated processes."""
        todo = [i for i, s in enumerate(self.state) if s == 'queued']
        self.queue = todo[slots:]
        self.main.clear()
        for i in todo[:slots]:
            self.start(i)
        first = self.runnable()
        if not first:
            return
        self.gates[first[self.pick(len(first))]].set()
        if not self.main.wait(300):
            raise Deadlock('the workers did not finish')
        if self.killed:
            for g in self.gates:
                g.set()
            raise Killed()

    def start(self, i):
        self.state[i] = 'ready'
        threading.Thread(target=self.body, args=(i,), daemon=True).start()

    def body(self, i):
        self.gates[i].wait()
        self.gates[i].clear()
        self.local.worker = i
        try:
            if not self.killed:
                fn, args, kw = pickle.loads(self.tasks[i])
                self.results[i] = fn(*args, **kw)
        except Killed:
            pass
        except BaseException as e:
            self.errors[i] = e
        self.state[i] = 'done'
        if self.killed:
            self.main.set()
            return
        if self.queue:
            self.start(self.queue.pop(0))
        self.switch(i, preempt=False)

    # ----------------------------------------------------------------------------------------------- hooks
    @contextlib.contextmanager
    def unhooked(self):
        old = getattr(self.local, 'busy', False)
        self.local.busy = True
        try:
            yield
        finally:
            self.local.busy = old

    @contextlib.contextmanager
    def hooked(self):
        def wrap(name):
            real = _REAL[name]

            def call(path, *args, **kw):
                self.point(name, path)
                if name in ('replace', 'rename') and args:
                    self.point('close', args[0])
                return real(path, *args, **kw)
            return call

        def open_(path, mode='r', *args, **kw):
            self.point('open' if set(mode) & set('wax+') else 'read', path)
            if mode in ('w', 'wt', 'wb') and isinstance(path, (str, os.PathLike)) and self.watch(os.fspath(path)) and not getattr(self.local, 'busy', False):
                return Torn(self, path, mode, args, kw)
            return _OPEN(path, mode, *args, **kw)

        def pool(processes=None, *args, **kw):
            return Pool(self, processes or 2)
        saved = [(os, n, getattr(os, n)) for n in HOOKED] + [(builtins, 'open', builtins.open), (io, 'open', io.open),
                                                             (multiprocessing, 'Pool', multiprocessing.Pool)]
        for n in HOOKED:
            setattr(os, n, wrap(n))
        builtins.open = io.open = open_
        multiprocessing.Pool = pool
        try:
            yield
        finally:
            for obj, n, v in saved:
                setattr(obj, n, v)


class Async(object):
    def __init__(self, sched, ids, single):
        self.sched, self.ids, self.single = sched, ids, single

    def ready(self):
        return all(self.sched.state[i] == 'done' for i in self.ids)

    def successful(self):
        return all(self.sched.errors[i] is None for i in self.ids)

    def wait(self, timeout=None):
        self.sched.pool.run()

    def get(self, timeout=None):
        self.wait()
        for i in self.ids:
            if self.sched.errors[i] is not None:
                raise self.sched.errors[i]
        out = [self.sched.results[i] for i in self.ids]
        return out[0] if self.single else out


class Pool(object):
    """Stand-in for multiprocessing.Pool."""

    def __init__(self, sched, processes):
        self.sched, self.n, self.closed = sched, processes, False
        self.callbacks = []
        sched.pool = self

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None, **kw):
        i = self.sched.submit(func, tuple(args), dict(kwds or kw.get('kwds') or {}))
        self.callbacks.append((i, callback, error_callback))
        return Async(self.sched, [i], True)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, **kw):
        return Async(self.sched, [self.sched.submit(func, (x,), {}) for x in iterable], False)

    def starmap_async(self, func, iterable, chunksize=None, **kw):
        return Async(self.sched, [self.sched.submit(func, tuple(x), {}) for x in iterable], False)

    def map(self, *args, **kw):
        return self.map_async(*args, **kw).get()

    def starmap(self, *args, **kw):
        return self.starmap_async(*args, **kw).get()

    def imap(self, *args, **kw):
        return iter(self.map(*args, **kw))

    imap_unordered = imap

    def run(self):
        self.sched.work(self.n)
        for i, ok, bad in self.callbacks:
            if self.sched.errors[i] is None and ok:
                ok(self.sched.results[i])
            elif self.sched.errors[i] is not None and bad:
                bad(self.sched.errors[i])
        self.callbacks = []

    def close(self):
        self.closed = True

    def join(self):
        self.run()

    def terminate(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def explore(run, preemptions, part=(0, 1), **kw):
    """Depth-first over all schedules with at most the given number of preemptions.

    With part=(j, n) only those which first deviate from the default schedule at the positions j, j + n, j + 2n... (and for j = 0 the
    default schedule itself).
    """
    def once(script):
        sched = Scheduler(script, **kw)
        run(sched)
        return sched
    first = once([])
    if part[0] == 0:
        yield first
    for p in range(part[0], len(first.taken), part[1]):
        if first.taken[p][2] > preemptions:
            continue
        script = [0] * p + [1]
        while True:
            sched = once(script)
            yield sched
            taken = list(sched.taken)
            while len(taken) > p:
                c, n, _ = taken[-1]
                used = sum(k for x, _, k in taken[:-1] if x)
                if c + 1 < n and used + taken[-1][2] <= preemptions:
                    break
                taken.pop()
            if len(taken) <= p:
                break
            script = [t[0] for t in taken[:-1]] + [taken[-1][0] + 1]
