"""
Controlled scheduler: runs threaded Python code one thread at a time and lets the caller choose,
at every scheduling point, which thread continues.  Explored by depth-first search over the
choices (stateless exploration: each schedule is a fresh execution of the real code).

Scheduling points: every operation on a (fake) thread, queue, event, lock, condition or sleep,
and every traced line of the module under test (or every bytecode instruction).

explore(run, bound) executes `run(sched)` under all schedules with at most `bound` preemptions
(a preemption is a switch away from a thread that could have continued).
"""
import collections
import importlib.util
import os
import sys
import threading as _T
import time as _time
import types


class Deadlock(Exception):
    pass


class Abort(BaseException):
    """Unwinds a thread when the execution is given up."""


class _Th(object):
    __slots__ = ('i', 'sem', 'cond', 'asleep', 'slept', 'done', 'exc', 'name')

    def __init__(self, i, name):
        self.i = i
        self.name = name
        self.sem = _T.Semaphore(0)
        self.cond = None        # None, or a predicate that has to become true
        self.asleep = False
        self.slept = 0
        self.done = False
        self.exc = None


class Sched(object):
    def __init__(self, prefix, bound, files=(), opcodes=False, max_steps=4000):
        self.prefix = prefix
        self.bound = bound
        self.files = files
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.th = []
        self.cur = None
        self.choices = []          # (chosen index in options, number of options)
        self.preempt = 0
        self.steps = 0
        self.run = 0
        self.nslept = 0
        self.abort = False
        self.error = None
        self.trace_log = []
        self.local = _T.local()
        self.finished = _T.Semaphore(0)

    # ---- thread side
    def me(self):
        return getattr(self.local, 'th', None)

    def enabled(self, t):
        return not t.done and (t.cond is None or t.cond())

    def _pick(self, cur):
        """Chooses the next thread; cur may be None / blocked / asleep / done."""
        en = [t for t in self.th if self.enabled(t)]
        if not en:
            return None
        fifo = None
        cont = cur is not None and cur in en and not cur.asleep
        awake = [t for t in en if not t.asleep]
        if not awake:
            # every enabled thread sleeps: time passes, the one that slept first wakes up first;
            # another order counts as a preemption
            en.sort(key=lambda t: t.slept)
            opts = en if self.preempt < self.bound else en[:1]
            fifo = en[0]
        elif cont:
            rest = [t for t in awake if t is not cur]
            if self.run > 400 and len(en) > 1:
                # a fair scheduler does not let a thread spin for ever
                opts = rest or [t for t in en if t is not cur]
                cont = False
            else:
                if self.preempt < self.bound:
                    # time may have passed for those that sleep
                    rest += [t for t in en if t.asleep]
                else:
                    rest = []
                opts = [cur] + rest
        else:
            opts = awake
        if len(opts) == 1:
            k = 0
        else:
            n = len(self.choices)
            k = self.prefix[n] if n < len(self.prefix) else 0
            self.choices.append((k, len(opts)))
        nxt = opts[k]
        nxt.asleep = False
        self.run = self.run + 1 if nxt is cur else 0
        if (cont and nxt is not cur) or (fifo is not None and nxt is not fifo):
            self.preempt += 1
        return nxt

    def point(self, what=None):
        me = self.me()
        if me is None:
            return
        if self.abort:
            raise Abort()
        self.steps += 1
        if self.steps > self.max_steps:
            self._give_up(Deadlock('no progress after %d steps' % self.steps))
            raise Abort()
        nxt = self._pick(me)
        if nxt is None:
            self._give_up(Deadlock('deadlock: no thread can continue (%s)' % ', '.join(
                '%s %s' % (t.name, 'finished' if t.done else 'blocked') for t in self.th)))
            raise Abort()
        self._switch(me, nxt)

    def _switch(self, me, nxt):
        if nxt is not me:
            self.cur = nxt
            nxt.sem.release()
            me.sem.acquire()
            if self.abort:
                raise Abort()
        me.cond = None

    def block(self, cond):
        """Waits until cond() holds."""
        me = self.me()
        me.cond = cond
        self.point()

    def sleep(self):
        me = self.me()
        if me is None:
            return
        me.asleep = True
        self.nslept += 1
        me.slept = self.nslept
        self.point()
        me.asleep = False

    def wake(self):
        """A visible change happened: sleeping threads may run again."""
        me = self.me()
        for t in self.th:
            if t is not me:
                t.asleep = False

    def _give_up(self, e):
        if self.error is None:
            self.error = e
        self.abort = True
        for t in self.th:
            t.sem.release()

    # ---- creation
    def spawn(self, fn, name):
        t = _Th(len(self.th), name)
        self.th.append(t)

        def body():
            self.local.th = t
            t.sem.acquire()
            try:
                if not self.abort:
                    if self.files:
                        sys.settrace(self._tracer)
                    try:
                        fn()
                    finally:
                        sys.settrace(None)
            except Abort:
                pass
            except BaseException as e:
                t.exc = e
            t.done = True
            for q in self.th:
                q.asleep = False
            if self.abort:
                self._finish_abort()
                return
            nxt = self._pick(None)
            if nxt is not None:
                self.cur = nxt
                nxt.sem.release()
            elif all(q.done for q in self.th):
                self.finished.release()
            else:
                self._give_up(Deadlock('deadlock: no thread can continue (%s)' % ', '.join(
                    '%s %s' % (q.name, 'finished' if q.done else 'blocked') for q in self.th)))
                self._finish_abort()
        rt = _T.Thread(target=body, daemon=True)
        t_real.append(rt)
        rt.start()
        return t

    def _finish_abort(self):
        if all(q.done for q in self.th):
            self.finished.release()

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local_trace

    def _local_trace(self, frame, event, arg):
        if event in ('line', 'opcode'):
            self.point()
        return self._local_trace

    def go(self, main):
        t = self.spawn(main, 'main')
        self.cur = t
        t.sem.release()
        if not self.finished.acquire(timeout=60):
            self._give_up(Deadlock('the execution did not finish: a thread blocks outside of the controlled operations'))
        return t


t_real = []


# ------------------------------------------------------------------ fake modules
def fake_modules(S):
    """threading, queue and time modules whose operations are scheduling points of S()."""

    class Thread(object):
        _n = 0

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self._target = target
            self._args = args
            self._kwargs = kwargs or {}
            self.daemon = bool(daemon)
            self.name = name or 'worker'
            self._t = None

        def run(self):
            if self._target is not None:
                self._target(*self._args, **self._kwargs)

        def start(self):
            if self._t is not None:
                raise RuntimeError('threads can only be started once')
            self._t = S().spawn(self.run, self.name)
            S().wake()
            S().point()

        def is_alive(self):
            S().point()
            return self._t is not None and not self._t.done

        isAlive = is_alive

        def join(self, timeout=None):
            if self._t is None:
                raise RuntimeError('cannot join thread before it is started')
            if self._t is S().me():
                raise RuntimeError('cannot join current thread')
            if timeout is None:
                S().block(lambda: self._t.done)
            elif not self._t.done:
                S().sleep()

        def setDaemon(self, v):
            self.daemon = v

        @property
        def ident(self):
            return None if self._t is None else self._t.i

    class Lock(object):
        def __init__(self):
            self.owner = None
            self.n = 0

        reentrant = False

        def acquire(self, blocking=True, timeout=-1):
            me = S().me()
            free = lambda: self.owner is None or (self.reentrant and self.owner is me)
            S().point()
            if not free():
                if not blocking:
                    return False
                if timeout is not None and timeout >= 0:
                    S().sleep()
                    if not free():
                        return False
                else:
                    S().block(free)
            self.owner = me
            self.n += 1
            return True

        def release(self):
            if self.owner is None:
                raise RuntimeError('release unlocked lock')
            self.n -= 1
            if self.n == 0:
                self.owner = None
            S().wake()
            S().point()

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        reentrant = True

    class Condition(object):
        def __init__(self, lock=None):
            self.lock = lock or RLock()
            self.waiters = []
            self.acquire = self.lock.acquire
            self.release = self.lock.release

        def __enter__(self):
            self.lock.acquire()
            return self

        def __exit__(self, *a):
            self.lock.release()

        def wait(self, timeout=None):
            tok = [False]
            self.waiters.append(tok)
            n, self.lock.n, self.lock.owner = self.lock.n, 0, None
            S().wake()
            if timeout is None:
                S().block(lambda: tok[0])
            else:
                S().sleep()
                if not tok[0]:
                    self.waiters.remove(tok)
            me = S().me()
            if self.lock.owner is not None:
                S().block(lambda: self.lock.owner is None)
            self.lock.owner, self.lock.n = me, n
            return tok[0]

        def wait_for(self, pred, timeout=None):
            while not pred():
                self.wait(timeout)
                if timeout is not None:
                    break
            return pred()

        def notify(self, n=1):
            for tok in self.waiters[:n]:
                tok[0] = True
            del self.waiters[:n]
            S().wake()

        def notify_all(self):
            self.notify(len(self.waiters))

        notifyAll = notify_all

    class Semaphore(object):
        def __init__(self, value=1):
            self.v = value

        def acquire(self, blocking=True, timeout=None):
            S().point()
            if self.v <= 0:
                if not blocking:
                    return False
                if timeout is not None:
                    S().sleep()
                    if self.v <= 0:
                        return False
                else:
                    S().block(lambda: self.v > 0)
            self.v -= 1
            return True

        def release(self, n=1):
            self.v += n
            S().wake()
            S().point()

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class Event(object):
        def __init__(self):
            self.f = False

        def is_set(self):
            S().point()
            return self.f

        isSet = is_set

        def set(self):
            S().point()
            self.f = True
            S().wake()

        def clear(self):
            S().point()
            self.f = False
            S().wake()

        def wait(self, timeout=None):
            S().point()
            if not self.f:
                if timeout is None:
                    S().block(lambda: self.f)
                else:
                    S().sleep()
            return self.f

    class Queue(object):
        peak = 0

        def __init__(self, maxsize=0):
            self.maxsize = maxsize
            self.queue = collections.deque()
            self.unfinished_tasks = 0
            queues.append(self)

        def qsize(self):
            S().point()
            return len(self.queue)

        def empty(self):
            S().point()
            return not self.queue

        def full(self):
            S().point()
            return 0 < self.maxsize <= len(self.queue)

        def put(self, item, block=True, timeout=None):
            S().point()
            room = lambda: self.maxsize <= 0 or len(self.queue) < self.maxsize
            if not room():
                if not block:
                    raise qm.Full()
                if timeout is not None:
                    S().sleep()
                    if not room():
                        raise qm.Full()
                else:
                    S().block(room)
            self.queue.append(item)
            self.peak = max(self.peak, len(self.queue))
            self.unfinished_tasks += 1
            S().wake()

        def get(self, block=True, timeout=None):
            S().point()
            if not self.queue:
                if not block:
                    raise qm.Empty()
                if timeout is not None:
                    S().sleep()
                    if not self.queue:
                        raise qm.Empty()
                else:
                    S().block(lambda: bool(self.queue))
            x = self.queue.popleft()
            S().wake()
            return x

        def put_nowait(self, item):
            self.put(item, False)

        def get_nowait(self):
            return self.get(False)

        def task_done(self):
            self.unfinished_tasks -= 1
            S().wake()

        def join(self):
            S().block(lambda: self.unfinished_tasks <= 0)

    queues = []
    import queue as real_q
    tm = types.ModuleType('threading')
    tm.__dict__.update({k: v for k, v in _T.__dict__.items() if not k.startswith('__')})
    tm.__dict__.update(Thread=Thread, Lock=Lock, RLock=RLock, Condition=Condition, Event=Event,
                       Semaphore=Semaphore, BoundedSemaphore=Semaphore)
    qm = types.ModuleType('queue')
    qm.__dict__.update({k: v for k, v in real_q.__dict__.items() if not k.startswith('__')})
    qm.__dict__.update(Queue=Queue, SimpleQueue=Queue)
    sm = types.ModuleType('time')
    sm.__dict__.update({k: v for k, v in _time.__dict__.items() if not k.startswith('__')})
    sm.sleep = lambda t: S().sleep()
    return tm, qm, sm, queues


def load_under(path, name, mods):
    """Loads a source file with the given modules in place of threading, queue and time."""
    tm, qm, sm = mods
    saved = {k: sys.modules.get(k) for k in ('threading', 'queue', 'time')}
    sys.modules.update(threading=tm, queue=qm, time=sm)
    try:
        spec = importlib.util.spec_from_file_location(name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        sys.modules.update(saved)
    return m


def next_prefix(choices):
    """Depth-first successor of the executed choice list, or None."""
    c = list(choices)
    while c:
        k, n = c.pop()
        if k + 1 < n:
            return [q for q, _ in c] + [k + 1]
    return None
