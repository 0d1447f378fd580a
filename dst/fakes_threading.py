"""simulation-aware stand-ins for `threading` (and `queue`, `time`) primitives.

Inside a simulated task everything goes through the kernel; outside (library
code running at import time, the driver) the original classes are used.
"""
import _thread
import functools
import itertools
import queue
import threading
import time
import timeit

from . import kernel
from .kernel import current_sim

REAL = dict(
    Thread=threading.Thread,
    Lock=threading.Lock,
    RLock=threading.RLock,
    Timer=threading.Timer,
    allocate_lock=threading._allocate_lock,
    current_thread=threading.current_thread,
    enumerate=threading.enumerate,
    active_count=threading.active_count,
    main_thread=threading.main_thread,
    time=time.time,
    monotonic=time.monotonic,
    perf_counter=time.perf_counter,
    sleep=time.sleep,
    default_timer=timeit.default_timer,
    SimpleQueue=queue.SimpleQueue,
    process_time=time.process_time,
    time_ns=time.time_ns,
    monotonic_ns=time.monotonic_ns,
)


class SimLock:
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = current_sim()
        if s is None:
            if self._owner is None:
                self._owner = "driver"
                return True
            return False
        s.op("thr.lock.acquire")
        if not blocking:
            if self._owner is None:
                self._owner = s.current
                return True
            return False
        ok = s.wait(
            lambda: self._owner is None,
            None if timeout is None or timeout < 0 else timeout,
            "thread lock",
        )
        if ok:
            self._owner = s.current
        return ok

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._owner = None

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock:
    def __init__(self):
        self._owner, self._count = None, 0

    def _me(self):
        s = current_sim()
        return s.current if s is not None else "driver"

    def acquire(self, blocking=True, timeout=-1):
        s = current_sim()
        me = self._me()
        if self._owner is me:
            self._count += 1
            return True
        if s is None:
            if self._owner is None:
                self._owner, self._count = me, 1
                return True
            return False
        s.op("thr.rlock.acquire")
        if not blocking:
            ok = self._owner is None
        else:
            ok = s.wait(
                lambda: self._owner is None,
                None if timeout is None or timeout < 0 else timeout,
                "thread rlock",
            )
        if ok:
            self._owner, self._count = me, 1
        return ok

    def release(self):
        if self._owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is self._me()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        return st

    def _acquire_restore(self, st):
        s = current_sim()
        if s is not None:
            s.wait(lambda: self._owner is None, None, "rlock restore")
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


def Lock():
    return SimLock() if current_sim() is not None else REAL["Lock"]()


def RLock():
    return SimRLock() if current_sim() is not None else REAL["RLock"]()


class Thread:
    """subset of threading.Thread used through subclassing or directly"""

    def __init__(
        self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None
    ):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        s = current_sim()
        if name is None:
            if s is not None:
                s._nthr = getattr(s, "_nthr", 0) + 1
                name = f"Thread-{s._nthr}"
            else:
                name = "Thread-x"
        self._name = str(name)
        self._daemonic = bool(daemon)
        self._task = None
        self._started_flag = False
        self._done = False
        self._initialized = True
        self._real = None

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self._name = str(v)

    getName = lambda self: self._name  # noqa

    def setName(self, v):
        self._name = v

    @property
    def daemon(self):
        return self._daemonic

    @daemon.setter
    def daemon(self, v):
        if self._started_flag:
            raise RuntimeError("cannot set daemon status of active thread")
        self._daemonic = bool(v)

    def setDaemon(self, v):
        self.daemon = v

    def isDaemon(self):
        return self._daemonic

    @property
    def ident(self):
        return self._task.id if self._task else None

    native_id = ident

    def run(self):
        try:
            if self._target is not None:
                self._target(*self._args, **self._kwargs)
        finally:
            del self._target, self._args, self._kwargs

    def start(self):
        if self._started_flag:
            raise RuntimeError("threads can only be started once")
        s = current_sim()
        self._started_flag = True
        if s is None:
            self._real = REAL["Thread"](target=self.run, daemon=True)
            self._real.start()
            return
        s.op("thread.start", self._name)
        self._task = s.new_task(
            s.current.proc, self._name, functools.partial(self._bootstrap, s),
            daemon=self._daemonic,
        )
        self._task.thread_obj = self

    def _bootstrap(self, s):
        try:
            self.run()
        except SystemExit:
            pass
        except kernel.SimKill:
            raise
        except BaseException as e:  # noqa
            s.thread_errors.append((self._name, repr(e)))
            s.ev("thread-died", f"{self._name}: {type(e).__name__}")
        finally:
            self._done = True

    def join(self, timeout=None):
        if not self._started_flag:
            raise RuntimeError("cannot join thread before it is started")
        if self._real is not None:
            return self._real.join(timeout)
        s = current_sim()
        if s is None:
            return
        if s.current is self._task:
            raise RuntimeError("cannot join current thread")
        s.op("thread.join", self._name)
        s.wait(lambda: self._done or self._task.state in ("done", "dead"), timeout, "join " + self._name)

    def is_alive(self):
        s = current_sim()
        if self._real is not None:
            return self._real.is_alive()
        if s is not None:
            s.op("thread.is_alive", self._name)
        return self._started_flag and not self._done

    def __repr__(self):
        return f"<Thread({self._name})>"

    def __reduce__(self):
        raise TypeError("cannot pickle thread objects")


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self)
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self.finished = threading.Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


class _MainThread(Thread):
    def __init__(self, task):
        Thread.__init__(self, name="MainThread")
        self._task, self._started_flag = task, True


def current_thread():
    s = current_sim()
    if s is None:
        return REAL["current_thread"]()
    t = s.current
    if t.thread_obj is None:
        t.thread_obj = _MainThread(t)
    return t.thread_obj


def main_thread():
    s = current_sim()
    if s is None:
        return REAL["main_thread"]()
    t = s.current.proc.tasks[0]
    if t.thread_obj is None:
        t.thread_obj = _MainThread(t)
    return t.thread_obj


def enumerate_():
    s = current_sim()
    if s is None:
        return REAL["enumerate"]()
    out = []
    for t in s.current.proc.tasks:
        if t.state not in ("done", "dead"):
            if t.thread_obj is None:
                t.thread_obj = _MainThread(t)
            out.append(t.thread_obj)
    return out


def _clock(name):
    real = REAL[name]

    def f():
        s = current_sim()
        if s is None:
            return real()
        if name in ("time",):
            return s.now
        if name.endswith("_ns"):
            return int(s.now * 1e9)
        return s.now - s.t0 + 1000.0

    f.__name__ = name
    return f


def sleep(d):
    s = current_sim()
    if s is None:
        return REAL["sleep"](d)
    s.op("time.sleep", d)
    s.wait(None, d, "sleep")


def install():
    threading.Thread = Thread
    threading.Timer = Timer
    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    threading.current_thread = current_thread
    threading.currentThread = current_thread
    threading.main_thread = main_thread
    threading.enumerate = enumerate_
    threading.active_count = lambda: len(enumerate_())
    for n in ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns"):
        setattr(time, n, _clock(n))
    threading._time = time.monotonic
    queue.time = time.monotonic
    time.sleep = sleep
    timeit.default_timer = time.perf_counter
    queue.SimpleQueue = queue._PySimpleQueue
