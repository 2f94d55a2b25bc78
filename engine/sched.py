"""Deterministic cooperative scheduler behind stand-ins for threading / time.
Used identically in symbolic and native (replay) mode: exactly one task runs at a time and
control moves only at the scheduling points below; the choice of the next task is made by
`chooser`, so a schedule is an ordinary sequence of (possibly symbolic) choices.
Time is virtual: it advances only when every task is blocked."""
import threading as _t
import weakref
from .core import Control, PathPruned


class Deadlock(Exception):
    """every task is blocked without a timeout"""


class Killed(Control):
    pass


class Task(object):
    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.sem = _t.Lock()
        self.sem.acquire()
        self.state = 'new'       # new ready blocked done
        self.wake_at = None
        self.pred = None         # blocked until pred() is true
        self.timed_out = False
        self.thread = None
        self.obj = None
        self.exc = None


class Scheduler(object):
    def __init__(self):
        self.tasks = []
        self.main = Task(self, 'main', None)
        self.main.state = 'ready'
        self.current = self.main
        self.tasks.append(self.main)
        self.now = 1000.0
        self.chooser = None      # fn(kind, n) -> index
        self.preemptions = 0
        self.fatal = None        # exception to deliver in main
        self.uncaught = []       # exceptions that killed a task
        self.switches = 0
        self.max_switches = 20000
        self.killing = False
        self.log = []
        self.idle_hook = None
        self.horizon = None
        self.fine = False

    # ------------------------------------------------------------- task running
    def spawn(self, name, fn, obj=None):
        t = Task(self, name, fn)
        t.obj = obj
        t.state = 'ready'
        self.tasks.append(t)
        t.thread = _t.Thread(target=self._body, args=(t,), daemon=True)
        t.thread.start()
        return t

    def _body(self, t):
        t.sem.acquire()
        try:
            if not self.killing:
                t.fn()
        except Control as e:
            if not self.killing:
                self.fatal = self.fatal or e
        except BaseException as e:
            if not self.killing:
                t.exc = e
                self.uncaught.append((t.name, e))
        t.state = 'done'
        if self.killing:
            self.main.sem.release()
            return
        if self.fatal is not None:
            self._switch_to(self.main, leaving=True)
            return
        try:
            nxt = self._pick(t)
        except BaseException as e:
            self.fatal = e
            nxt = self.main
        self._switch_to(nxt, leaving=True)

    def _switch_to(self, nxt, leaving=False):
        cur = self.current
        if nxt is cur:
            return
        self.current = nxt
        nxt.sem.release()
        if not leaving:
            cur.sem.acquire()

    def _after_resume(self):
        if self.killing:
            raise Killed()
        if self.current is self.main and self.fatal is not None:
            e = self.fatal
            self.fatal = None
            raise e

    def _runnable(self):
        r = []
        for t in self.tasks:
            if t.state == 'ready':
                r.append(t)
            elif t.state == 'blocked':
                if t.pred is not None and t.pred():
                    r.append(t)
                elif t.wake_at is not None and t.wake_at <= self.now + 1e-9:
                    r.append(t)
        return r

    def _pick(self, cur):
        """choose the task to run next when `cur` cannot continue"""
        self.switches += 1
        if self.switches > self.max_switches:
            raise Deadlock('livelock: too many context switches')
        while True:
            r = self._runnable()
            if r:
                break
            times = [t.wake_at for t in self.tasks if t.state == 'blocked' and t.wake_at is not None]
            if self.idle_hook is not None and self.idle_hook():
                continue
            if not times:
                raise Deadlock('deadlock: ' + ', '.join(t.name for t in self.tasks if t.state == 'blocked'))
            self.now = max(self.now, min(times))
        if len(r) > 1 and self.chooser is not None:
            # prefer fairness: rotate after cur
            i = self.chooser('block', r, cur)
        else:
            i = 0
            if len(r) > 1 and cur in self.tasks:
                # deterministic: round robin starting after cur
                idx = self.tasks.index(cur)
                order = self.tasks[idx + 1:] + self.tasks[:idx + 1]
                for t in order:
                    if t in r:
                        i = r.index(t)
                        break
        return r[i]

    # -------------------------------------------------------------- primitives
    def block(self, pred=None, timeout=None):
        """block the current task until pred() or timeout; returns True if pred holds"""
        cur = self.current
        if pred is not None and pred():
            return True
        if timeout is not None and timeout <= 0:
            # a zero timeout still lets others run? no: return immediately
            return bool(pred and pred())
        cur.state = 'blocked'
        cur.pred = pred
        cur.wake_at = None if timeout is None else self.now + timeout
        nxt = self._pick(cur)
        self._switch_to(nxt)
        cur.state = 'ready'
        cur.pred = None
        cur.wake_at = None
        self._after_resume()
        return bool(pred is not None and pred())

    def point(self, label=''):
        """a possible preemption point of the current task"""
        if self.killing:
            raise Killed()
        if self.chooser is None:
            return
        r = self._runnable()
        cur = self.current
        if len(r) < 2:
            return
        i = self.chooser('point', r, cur, label)
        nxt = r[i]
        if nxt is not cur:
            self.switches += 1
            self._switch_to(nxt)
            cur.state = 'ready'
            self._after_resume()

    def kill_all(self):
        """end of a path: unwind every remaining task"""
        self.killing = True
        for t in self.tasks:
            if t is self.main or t.thread is None:
                continue
            if t.state == 'done':
                t.thread.join(5)
                continue
            self.current = t
            t.sem.release()
            self.main.sem.acquire()
            t.thread.join(5)
        self.current = self.main

    def drain(self, horizon=None):
        """let every other task run until all of them are blocked or done (no time passes)"""
        cur = self.current
        end = self.now + (horizon or 0)
        self.block(pred=lambda: not [t for t in self._others_runnable(cur)] and
                   not [t for t in self.tasks if t is not cur and t.state == 'blocked' and t.wake_at is not None
                        and t.wake_at <= end], timeout=None)

    def _others_runnable(self, cur):
        r = []
        for t in self.tasks:
            if t is cur:
                continue
            if t.state == 'ready':
                r.append(t)
            elif t.state == 'blocked' and t.wake_at is not None and t.wake_at <= self.now + 1e-9:
                r.append(t)
            elif t.state == 'blocked' and t.pred is not None and t.pred():
                r.append(t)
        return r


# ------------------------------------------------------------ module stand-ins
def make_threading(S):
    class ThreadError(RuntimeError):
        pass

    class Event(object):
        def __init__(self):
            self._f = False

        def is_set(self):
            S.point('is_set')
            return self._f
        isSet = is_set

        def set(self):
            S.point('set')
            self._f = True

        def clear(self):
            S.point('clear')
            self._f = False

        def wait(self, timeout=None):
            S.point('wait')
            S.block(lambda: self._f, None if timeout is None else float(timeout))
            return self._f

    class Lock(object):
        def __init__(self):
            self._owner = None

        def acquire(self, blocking=True, timeout=-1):
            S.point('acquire')
            if not blocking:
                if self._owner is not None:
                    return False
            else:
                S.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout)
                if self._owner is not None:
                    return False
            self._owner = S.current
            return True

        def release(self):
            if self._owner is None:
                raise RuntimeError('release unlocked lock')
            self._owner = None
            if not S.killing:
                S.point('release')

        def locked(self):
            return self._owner is not None

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            if self._owner is not None or not S.killing:
                self.release()

    class RLock(object):
        def __init__(self):
            self._owner = None
            self._n = 0

        def acquire(self, blocking=True, timeout=-1):
            S.point('acquire')
            me = S.current
            if self._owner is me:
                self._n += 1
                return True
            if not blocking:
                if self._owner is not None:
                    return False
            else:
                S.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout)
                if self._owner is not None:
                    return False
            self._owner = me
            self._n = 1
            return True

        def release(self):
            if self._owner is not S.current:
                if S.killing:
                    return
                raise RuntimeError('cannot release un-acquired lock')
            self._n -= 1
            if self._n == 0:
                self._owner = None
                if not S.killing:
                    S.point('release')

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class Condition(object):
        def __init__(self, lock=None):
            self._lock = lock or RLock()
            self._waiters = []
            self.acquire = self._lock.acquire
            self.release = self._lock.release

        def __enter__(self):
            self._lock.acquire()
            return self

        def __exit__(self, *a):
            self._lock.release()

        def wait(self, timeout=None):
            w = [False]
            self._waiters.append(w)
            n = getattr(self._lock, '_n', 1)
            self._lock._owner = None
            if hasattr(self._lock, '_n'):
                self._lock._n = 0
            S.block(lambda: w[0], timeout)
            ok = w[0]
            if not ok:
                self._waiters = [x for x in self._waiters if x is not w]
            S.block(lambda: self._lock._owner is None, None)
            self._lock._owner = S.current
            if hasattr(self._lock, '_n'):
                self._lock._n = n
            return ok

        def wait_for(self, predicate, timeout=None):
            end = None if timeout is None else S.now + timeout
            r = predicate()
            while not r:
                left = None if end is None else end - S.now
                if left is not None and left <= 0:
                    break
                self.wait(left)
                r = predicate()
            return r

        def notify(self, n=1):
            for w in self._waiters[:n]:
                w[0] = True
            self._waiters = self._waiters[n:]

        def notify_all(self):
            self.notify(len(self._waiters))
        notifyAll = notify_all

    class Semaphore(object):
        def __init__(self, value=1):
            self._v = value

        def acquire(self, blocking=True, timeout=None):
            S.point('acquire')
            if not blocking and self._v <= 0:
                return False
            S.block(lambda: self._v > 0, timeout)
            if self._v <= 0:
                return False
            self._v -= 1
            return True

        def release(self, n=1):
            self._v += n
            S.point('release')

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    counter = [0]

    class Thread(object):
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            counter[0] += 1
            self._target = target
            self._args = args
            self._kwargs = kwargs or {}
            self.name = name or 'Thread-%d' % counter[0]
            self.daemon = bool(daemon)
            self._task = None

        def run(self):
            if self._target:
                self._target(*self._args, **{k: self._kwargs[k] for k in self._kwargs})

        def start(self):
            if self._task is not None:
                raise RuntimeError('threads can only be started once')
            self._task = S.spawn(self.name, self.run, self)
            S.point('start')

        def join(self, timeout=None):
            if self._task is None:
                raise RuntimeError('cannot join thread before it is started')
            if self._task is S.current:
                raise RuntimeError('cannot join current thread')
            S.block(lambda: self._task.state == 'done', timeout)

        def is_alive(self):
            return self._task is not None and self._task.state != 'done'
        isAlive = is_alive

        def setDaemon(self, d):
            self.daemon = d

        @property
        def ident(self):
            return id(self._task)

        def getName(self):
            return self.name

    class Timer(Thread):
        def __init__(self, interval, function, args=None, kwargs=None):
            Thread.__init__(self)
            self.interval = interval
            self.function = function
            self.args = args or ()
            self.kwargs = kwargs or {}
            self._cancelled = False

        def run(self):
            S.block(lambda: self._cancelled, float(self.interval))
            if not self._cancelled:
                self.function(*self.args, **self.kwargs)

        def cancel(self):
            self._cancelled = True

    main_thread_obj = Thread(name='MainThread')
    main_thread_obj._task = S.main

    class Mod(object):
        pass
    m = Mod()
    m.Event, m.Lock, m.RLock, m.Condition = Event, Lock, RLock, Condition
    m.Semaphore = m.BoundedSemaphore = Semaphore
    m.Thread, m.Timer, m.ThreadError = Thread, Timer, ThreadError

    def current_thread():
        return S.current.obj or main_thread_obj
    m.current_thread = m.currentThread = current_thread
    m.main_thread = lambda: main_thread_obj
    m.get_ident = lambda: id(S.current)
    m.active_count = lambda: len([t for t in S.tasks if t.state != 'done'])
    m.enumerate = lambda: [t.obj or main_thread_obj for t in S.tasks if t.state != 'done']
    m.local = _t.local
    m.__name__ = 'threading'
    return m


def make_time(S):
    import time as _time

    class Mod(object):
        def __getattr__(self, name):
            return getattr(_time, name)
    m = Mod()

    def sleep(d):
        S.point('sleep')
        S.block(None, float(d))
    m.sleep = sleep
    m.time = m.monotonic = m.perf_counter = lambda: S.now
    m.clock = m.time
    return m
