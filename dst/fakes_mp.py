"""simulated `multiprocessing`: processes, manager servers, pools, signals.

Processes are groups of simulated tasks.  Everything that crosses a process
border is pickled at the sender and unpickled at the receiver, as in reality.
"""
import collections
import multiprocessing.managers as _real_managers
import itertools
import multiprocessing
import multiprocessing.managers
import multiprocessing.pool
import multiprocessing.process
import pickle
import queue as _queue
import signal
import threading
import traceback
from multiprocessing.reduction import ForkingPickler

from .kernel import SimKill, current_sim, HarnessError

REAL = dict(
    get_context=multiprocessing.get_context,
    current_process=multiprocessing.current_process,
    signal=signal.signal,
    getsignal=signal.getsignal,
)


def _sim():
    s = current_sim()
    if s is None:
        raise HarnessError("multiprocessing stand-in used outside of a simulation")
    return s


def dumps(o):
    return bytes(ForkingPickler.dumps(o))


def loads(b):
    return pickle.loads(b)


# --------------------------------------------------------------------------
# shared objects.  `_Server` = the manager process; `Obj` = proxied object
# --------------------------------------------------------------------------
class _Server:
    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.alive = True
        self.leaked_waiters = 0


def _rebuild(oid):
    s = _sim()
    if oid not in s.objects:
        raise FileNotFoundError(2, "No such file or directory")
    return s.objects[oid]


class Obj:
    kind = "obj"

    def __init__(self, sim, server=None, name=None):
        self._sim_ref = sim
        self._server = server
        self._oid = len(sim.objects)
        sim.objects[self._oid] = self
        self._nm = f"{self.kind}{self._oid}"

    def __reduce__(self):
        return _rebuild, (self._oid,)

    def _gone(self):
        return self._server is not None and not self._server.alive

    def _op(self, what):
        s = _sim()
        if s is not self._sim_ref:
            raise BrokenPipeError(32, "Broken pipe")
        s.op(f"{self.kind}.{what}", self._nm)
        if self._gone():
            s.ev("dead-manager", f"{self._nm}.{what}")
            raise BrokenPipeError(32, "Broken pipe (manager is shut down)")
        return s

    def _wait(self, s, pred, timeout, what):
        ok = s.wait(lambda: self._gone() or pred(), timeout, f"{self._nm}.{what}")
        if self._gone():
            raise EOFError("manager is shut down")
        return ok


class QueueObj(Obj):
    kind = "queue"

    def __init__(self, sim, server=None, maxsize=0):
        super().__init__(sim, server)
        self._maxsize = maxsize or 0
        self._items = collections.deque()
        self._unfinished = 0
        self.n_put = self.n_get = 0

    def _full(self):
        return 0 < self._maxsize <= len(self._items)

    def put(self, obj, block=True, timeout=None):
        data = dumps(obj)
        s = self._op("put")
        try:
            # the manager process un-pickles what it is sent
            if self._server is not None:
                loads(data)
        except Exception as e:
            raise _real_managers.RemoteError(f"{type(e).__name__}: {e}")
        if self._full():
            if not block or not self._wait(s, lambda: not self._full(), timeout, "put"):
                raise _queue.Full
        self._items.append(data)
        self._unfinished += 1
        self.n_put += 1
        s.qlog.append((s.steps, "put", self._oid, s.current.proc.name, len(self._items)))
        s.probe(f"qlen{min(len(self._items), 9)}")

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get(self, block=True, timeout=None):
        s = self._op("get")
        if not self._items:
            if not block or not self._wait(
                s, lambda: len(self._items) > 0, timeout, "get"
            ):
                raise _queue.Empty
        self.n_get += 1
        d = self._items.popleft()
        s.qlog.append((s.steps, "get", self._oid, s.current.proc.name, len(self._items)))
        return loads(d)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        self._op("qsize")
        return len(self._items)

    def empty(self):
        self._op("empty")
        return not self._items

    def full(self):
        self._op("full")
        return self._full()

    def task_done(self):
        self._op("task_done")
        if self._unfinished <= 0:
            raise ValueError("task_done() called too many times")
        self._unfinished -= 1

    def join(self):
        s = self._op("join")
        self._wait(s, lambda: self._unfinished == 0, None, "join")

    # mp.Queue extras
    def close(self):
        pass

    def join_thread(self):
        pass

    cancel_join_thread = join_thread


class EventObj(Obj):
    kind = "event"

    def __init__(self, sim, server=None):
        super().__init__(sim, server)
        self._flag = False
        self._waiters = []

    def is_set(self):
        self._op("is_set")
        return self._flag

    isSet = is_set

    def set(self):
        self._op("set")
        self._flag = True
        # everybody waiting now is released for good (as threading.Event does),
        # even if clear() is called before the waiter gets to run
        for t in self._waiters:
            t[0] = True
        self._waiters = []

    def clear(self):
        self._op("clear")
        self._flag = False

    def wait(self, timeout=None):
        s = self._op("wait")
        if self._flag:
            return True
        t = [False]
        self._waiters.append(t)
        try:
            return self._wait(s, lambda: t[0], timeout, "wait")
        finally:
            if t in self._waiters:
                self._waiters.remove(t)


class LockObj(Obj):
    kind = "lock"

    def __init__(self, sim, server=None):
        super().__init__(sim, server)
        self._held = False
        self._holder = None

    def acquire(self, block=True, timeout=None, blocking=None):
        if blocking is not None:
            block = blocking
        s = self._op("acquire")
        if timeout is not None and timeout < 0:
            timeout = None
        if self._held:
            if not block or not self._wait(s, lambda: not self._held, timeout, "acquire"):
                return False
        self._held = True
        self._holder = s.current
        return True

    def release(self):
        self._op("release")
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        self._holder = None

    def locked(self):
        self._op("locked")
        return self._held

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLockObj(LockObj):
    kind = "rlock"

    def __init__(self, sim, server=None):
        super().__init__(sim, server)
        self._n = 0

    def acquire(self, block=True, timeout=None, blocking=None):
        if blocking is not None:
            block = blocking
        s = self._op("acquire")
        if self._held and self._holder is not s.current:
            if not block or not self._wait(s, lambda: not self._held, timeout, "acquire"):
                return False
        self._held, self._holder = True, s.current
        self._n += 1
        return True

    def release(self):
        s = self._op("release")
        if not self._held or self._holder is not s.current:
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._held, self._holder = False, None


class SemaphoreObj(Obj):
    kind = "sem"

    def __init__(self, sim, server=None, value=1, bounded=False):
        super().__init__(sim, server)
        self._v, self._max = value, value if bounded else None

    def acquire(self, block=True, timeout=None, blocking=None):
        if blocking is not None:
            block = blocking
        s = self._op("acquire")
        if self._v <= 0:
            if not block or not self._wait(s, lambda: self._v > 0, timeout, "acquire"):
                return False
        self._v -= 1
        return True

    def release(self, n=1):
        self._op("release")
        if self._max is not None and self._v + n > self._max:
            raise ValueError("Semaphore released too many times")
        self._v += n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class ConditionObj(Obj):
    kind = "cond"

    def __init__(self, sim, server=None, lock=None):
        super().__init__(sim, server)
        self._lk = lock if lock is not None else RLockObj(sim, server)
        self._tickets = []

    def acquire(self, *a, **k):
        return self._lk.acquire(*a, **k)

    def release(self):
        return self._lk.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def wait(self, timeout=None):
        s = self._op("wait")
        t = [False]
        self._tickets.append(t)
        self._lk.release()
        try:
            ok = self._wait(s, lambda: t[0], timeout, "wait")
            if not ok and t in self._tickets:
                self._tickets.remove(t)
        finally:
            self._lk.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        s = _sim()
        end = None if timeout is None else s.now + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        self._op("notify")
        for _ in range(min(n, len(self._tickets))):
            self._tickets.pop(0)[0] = True

    def notify_all(self):
        self.notify(len(self._tickets))


class BarrierObj(Obj):
    kind = "barrier"

    def __init__(self, sim, server=None, parties=1):
        super().__init__(sim, server)
        self.parties, self._n, self._gen = parties, 0, 0

    def wait(self, timeout=None):
        s = self._op("wait")
        g = self._gen
        i = self._n
        self._n += 1
        if self._n == self.parties:
            self._n = 0
            self._gen += 1
            return i
        if not self._wait(s, lambda: self._gen != g, timeout, "wait"):
            raise threading.BrokenBarrierError
        return i


class ValueObj(Obj):
    kind = "value"

    def __init__(self, sim, server=None, value=None, lock=True):
        super().__init__(sim, server)
        self._v = value
        self._lk = RLockObj(sim, server)

    def get(self):
        self._op("get")
        return self._v

    def set(self, v):
        self._op("set")
        self._v = loads(dumps(v))

    value = property(get, set)

    def get_lock(self):
        return self._lk

    def get_obj(self):
        return self


class _Generic(Obj):
    """proxied python object: every listed method is one atomic server-side call"""

    kind = "gen"
    _methods = ()

    def __init__(self, sim, server, referent):
        super().__init__(sim, server)
        self._ref = referent

    def _call(self, m, *a, **k):
        a, k = loads(dumps((a, k)))
        self._op(m)
        return loads(dumps(getattr(self._ref, m)(*a, **k)))


def _mk(name, kind, methods):
    ns = dict(kind=kind)
    for m in methods:
        ns[m] = (lambda mm: lambda self, *a, **k: self._call(mm, *a, **k))(m)
    return type(name, (_Generic,), ns)


ListObj = _mk(
    "ListObj", "list",
    ["append", "extend", "pop", "insert", "remove", "index", "count", "sort",
     "reverse", "__len__", "__getitem__", "__setitem__", "__delitem__",
     "__contains__", "copy"],
)
ListObj.__iter__ = lambda self: iter(self._call("copy"))


class DictObj(
    _mk(
        "DictObj0", "dict",
        ["get", "pop", "popitem", "setdefault", "update", "clear", "copy", "__len__",
         "__getitem__", "__setitem__", "__delitem__", "__contains__"],
    )
):
    def keys(self):
        return list(self.copy().keys())

    def values(self):
        return list(self.copy().values())

    def items(self):
        return list(self.copy().items())

    def __iter__(self):
        return iter(self.keys())


class NamespaceObj(Obj):
    kind = "ns"

    def __init__(self, sim, server, **kw):
        super().__init__(sim, server)
        object.__setattr__(self, "_d", dict(kw))

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        self._op("get")
        try:
            return self._d[k]
        except KeyError:
            raise AttributeError(k) from None

    def __setattr__(self, k, v):
        if k.startswith("_") or "_d" not in self.__dict__:
            return object.__setattr__(self, k, v)
        self._op("set")
        self._d[k] = loads(dumps(v))


class ArrayObj(ListObj):
    kind = "array"


# --------------------------------------------------------------------------
class Manager:
    def __init__(self, ctx="spawn"):
        s = _sim()
        s.op("manager.start")
        s._nmgr = getattr(s, "_nmgr", 0) + 1
        self._server = _Server(s, f"SyncManager-{s._nmgr}")
        self._s = s
        if not hasattr(s, "managers"):
            s.managers = []
        s.managers.append(self._server)

    def _new(self, cls, *a, **k):
        if current_sim() is not self._s or not self._server.alive:
            raise BrokenPipeError(32, "Broken pipe")
        return cls(self._s, self._server, *a, **k)

    def Queue(self, maxsize=0):
        return self._new(QueueObj, maxsize)

    JoinableQueue = Queue

    def Event(self):
        return self._new(EventObj)

    def Lock(self):
        return self._new(LockObj)

    def RLock(self):
        return self._new(RLockObj)

    def Semaphore(self, value=1):
        return self._new(SemaphoreObj, value)

    def BoundedSemaphore(self, value=1):
        return self._new(SemaphoreObj, value, True)

    def Condition(self, lock=None):
        return self._new(ConditionObj, lock)

    def Barrier(self, parties, action=None, timeout=None):
        return self._new(BarrierObj, parties)

    def Value(self, typecode, value=0, lock=True):
        return self._new(ValueObj, value)

    def Array(self, typecode, seq, lock=True):
        return self._new(ArrayObj, list(seq))

    def list(self, seq=()):
        return self._new(ListObj, list(seq))

    def dict(self, *a, **k):
        return self._new(DictObj, dict(*a, **k))

    def Namespace(self, **k):
        return self._new(NamespaceObj, **k)

    def start(self, *a, **k):
        return None

    def shutdown(self):
        s = current_sim()
        if s is None or s is not self._s:
            self._server.alive = False
            return
        if not self._server.alive:
            return
        s.op("manager.shutdown", self._server.name)
        self._server.alive = False

    def join(self, timeout=None):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def __del__(self):
        # a real manager is shut down when its handle is collected
        try:
            srv = self._server
            if srv.alive:
                srv.alive = False
                s = current_sim()
                if s is not None and s is self._s and not s.dead:
                    s.ev("manager.collected", srv.name)
        except Exception:
            pass

    def __reduce__(self):
        raise TypeError("Pickling a manager object is not possible")


# --------------------------------------------------------------------------
class Process:
    _method = "spawn"
    _counter = None

    def __init__(
        self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None
    ):
        s = _sim()
        s._nproc_obj = getattr(s, "_nproc_obj", 0) + 1
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self._name = name or f"{type(self).__name__}-{s._nproc_obj}"
        self._daemon = bool(daemon)
        self._proc = None
        self._s = s

    # -- attributes
    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        assert isinstance(v, str)
        self._name = v
        if self._proc is not None:
            self._proc.name = v

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        assert self._proc is None, "process has already started"
        self._daemon = bool(v)

    @property
    def pid(self):
        return self._proc.pid if self._proc else None

    ident = pid

    @property
    def exitcode(self):
        if self._proc is None or self._proc.alive:
            return None
        return self._proc.exitcode

    @property
    def sentinel(self):
        return self.pid

    authkey = b"sim"

    # -- running
    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = _sim()
        assert self._proc is None, "cannot start a process twice"
        s.op("process.start", self._name)
        cls = type(self)
        if self._method == "spawn":
            state = {
                k: v for k, v in self.__dict__.items() if k not in ("_proc", "_s")
            }
            data = dumps((cls, state))
            target = None
        else:
            data, target = None, self
        p = s.new_proc(self._name, s.current.proc, self._daemon, fork=data is None)
        self._proc = p
        start_process(s, p, data, target)

    def join(self, timeout=None):
        s = _sim()
        assert self._proc is not None, "can only join a started process"
        s.op("process.join", self._name)
        s.wait(lambda: not self._proc.alive, timeout, f"join {self._name}")

    def is_alive(self):
        s = _sim()
        if self._proc is None:
            return False
        s.op("process.is_alive", self._name)
        return self._proc.alive

    def terminate(self):
        s = _sim()
        s.op("process.terminate", self._name)
        if self._proc is not None:
            s.send_signal(self._proc, "TERM")

    def kill(self):
        s = _sim()
        s.op("process.kill", self._name)
        if self._proc is not None:
            s.kill_proc(self._proc, -9)

    def close(self):
        pass

    def __reduce__(self):
        raise TypeError("Pickling a process object is not allowed")

    def __repr__(self):
        return f"<{type(self).__name__} name={self._name!r}>"


class ForkProcess(Process):
    _method = "fork"


def start_process(s, p, data, target):
    def body():
        code = 0
        try:
            if data is not None:
                s.op("process.boot", p.name)
                cls, state = loads(data)
                obj = cls.__new__(cls)
                obj.__dict__.update(state)
                obj._proc, obj._s = p, s
            else:
                s.op("process.boot", p.name)
                obj = target
            p.mp_obj = obj
            obj.run()
        except SimKill:
            raise
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e:  # noqa
            code = 1
            s.ev("process-died", f"{p.name}: {type(e).__name__}: {e}")
            s.proc_errors.append((p.name, "".join(traceback.format_exception(e))))
        finally_exit(s, p, code)

    s.new_task(p, "MainThread", body)


def finally_exit(s, p, code):
    """interpreter exit of a process: join non-daemonic threads and children"""
    try:
        for t in p.tasks[1:]:
            if not t.daemon:
                s.wait(lambda: t.state in ("done", "dead"), None, f"exit-join {t.name}")
        for c in list(p.children):
            if c.alive and c.daemon:
                s.send_signal(c, "TERM")
        for c in list(p.children):
            s.wait(lambda: not c.alive, None, f"exit-join {c.name}")
    except (KeyboardInterrupt, SystemExit):
        pass
    if s.world is not None:
        s.world.proc_exit(p)
    p.alive = False
    p.exitcode = code
    for t in p.tasks[1:]:
        if t.state != "done":
            t.state = "dead"
    s.ev("process.exit", f"{p.name} {code}")


class _MainProc:
    """current_process() of the simulated main process"""

    def __init__(self, p):
        self._p = p
        self.daemon = False
        self.authkey = b"sim"
        self.exitcode = None
        self._config = {}

    @property
    def name(self):
        return self._p.name

    @name.setter
    def name(self, v):
        self._p.name = v

    @property
    def pid(self):
        return self._p.pid

    ident = pid

    def is_alive(self):
        return True


def current_process():
    s = current_sim()
    if s is None:
        return REAL["current_process"]()
    p = s.current.proc
    if p.mp_obj is None:
        p.mp_obj = _MainProc(p)
    return p.mp_obj


def parent_process():
    s = current_sim()
    if s is None or s.current.proc.parent is None:
        return None
    return s.current.proc.parent.mp_obj


def active_children():
    s = _sim()
    s.op("active_children")
    return [c.mp_obj for c in s.current.proc.children if c.alive and c.mp_obj]


# --------------------------------------------------------------------------
class AsyncResult:
    def __init__(self, pool, n_chunks, flat, callback=None, error_callback=None, single=False):
        self._pool = pool
        self._left = n_chunks
        self._parts = [None] * n_chunks
        self._flat, self._single = flat, single
        self._ok = True
        self._val = None
        self._cb, self._ecb = callback, error_callback
        self._ready = n_chunks == 0
        if self._ready:
            self._val = []

    def _post(self, i, ok, val):
        if self._ready:
            return
        self._left -= 1
        if ok:
            self._parts[i] = val
        elif self._ok:
            self._ok, self._val = False, val
        if self._left == 0:
            if self._ok:
                if self._single:
                    self._val = self._parts[0]
                elif self._flat:
                    self._val = list(itertools.chain.from_iterable(self._parts))
                else:
                    self._val = list(self._parts)
            self._ready = True
            self._pool._cache.discard(self)
            if self._ok and self._cb:
                self._cb(self._val)
            if not self._ok and self._ecb:
                self._ecb(self._val)

    def ready(self):
        _sim().op("pool.ready")
        return self._ready

    def successful(self):
        if not self._ready:
            raise ValueError("result is not ready")
        return self._ok

    def wait(self, timeout=None):
        s = _sim()
        s.op("pool.wait")
        s.wait(lambda: self._ready, timeout, "pool result")

    def get(self, timeout=None):
        s = _sim()
        s.op("pool.get")
        s.wait(lambda: self._ready, timeout, "pool result")
        if not self._ready:
            raise multiprocessing.TimeoutError
        if self._ok:
            return self._val
        raise self._val


class _IterResult:
    def __init__(self, pool, n, ordered):
        self._pool, self._n, self._ordered = pool, n, ordered
        self._got = {}
        self._order = []
        self._i = 0
        self._ready = n == 0

    def _post(self, i, ok, val):
        self._got[i] = (ok, val)
        self._order.append(i)
        if len(self._order) == self._n:
            self._ready = True
            self._pool._cache.discard(self)

    def __iter__(self):
        return self

    def next(self, timeout=None):
        s = _sim()
        s.op("pool.next")
        if self._i >= self._n:
            raise StopIteration
        i = self._i
        if self._ordered:
            s.wait(lambda: i in self._got, timeout, "pool iter")
            if i not in self._got:
                raise multiprocessing.TimeoutError
            k = i
        else:
            s.wait(lambda: len(self._order) > i, timeout, "pool iter")
            if len(self._order) <= i:
                raise multiprocessing.TimeoutError
            k = self._order[i]
        self._i += 1
        ok, val = self._got[k]
        if ok:
            return val
        raise val

    __next__ = next


def _star(f, chunk):
    return list(itertools.starmap(f, chunk))


def _plain(f, chunk):
    return list(map(f, chunk))


def _one(f, args, kw):
    return f(*args, **kw)


class Pool:
    """the parts of multiprocessing.pool.Pool a batch job can observe

    - tasks are pickled per chunk; a chunk stops at its first exception
    - a worker that leaves through SystemExit/KeyboardInterrupt or a failing
      initializer is replaced and the chunk it held is lost
    """

    def __init__(
        self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
        context=None,
    ):
        s = _sim()
        s.op("pool.create", processes)
        self._s = s
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._n = processes or 8
        if self._n < 1:
            raise ValueError("Number of processes must be at least 1")
        self._init = (initializer, tuple(initargs))
        self._maxtasks = maxtasksperchild
        self._tasks = collections.deque()
        self._cache = set()
        self._state = "RUN"
        self._workers = []
        self._owner = s.current.proc
        self._respawn_cost = 0.05
        s.pools.append(self)
        for _ in range(self._n):
            self._spawn()

    def _spawn(self):
        s = self._s
        s._nproc_obj = getattr(s, "_nproc_obj", 0) + 1
        name = f"SpawnPoolWorker-{s._nproc_obj}"
        data = dumps(self._init)
        p = s.new_proc(name, self._owner, True)
        self._workers.append(p)
        s.new_task(p, "MainThread", lambda: self._worker(p, data))

    def _worker(self, p, data):
        s = self._s
        code = 0
        obj = _WorkerProc(p)
        p.mp_obj = obj
        try:
            s.op("process.boot", p.name)
            initializer, initargs = loads(data)
            if initializer is not None:
                initializer(*initargs)
            done = 0
            while self._maxtasks is None or done < self._maxtasks:
                s.op("pool.take")
                s.wait(
                    lambda: self._tasks
                    or self._state == "TERMINATE"
                    or (self._state == "CLOSE" and not self._cache),
                    None,
                    "pool task",
                )
                if not self._tasks:
                    break
                res, i, blob = self._tasks.popleft()
                try:
                    f, a = loads(blob)
                    out = (True, f(*a))
                except Exception as e:
                    e.__traceback__ = None
                    out = (False, e)
                s.op("pool.result")
                try:
                    ok, val = out
                    val = loads(dumps(val))
                except Exception as e:
                    ok, val = False, multiprocessing.pool.MaybeEncodingError(e, "result")
                res._post(i, ok, val)
                done += 1
        except SimKill:
            raise
        except SystemExit:
            code = 1
        except BaseException as e:  # noqa
            code = 1
            s.ev("process-died", f"{p.name}: {type(e).__name__}: {e}")
            s.proc_errors.append((p.name, "".join(traceback.format_exception(e))))
        finally_exit(s, p, code)
        self._maintain(p)

    def _maintain(self, p):
        s = self._s
        if self._state == "TERMINATE" or not self._owner.alive:
            return
        if self._state == "RUN" or self._cache:
            # the pool's maintenance thread replaces the worker after a while
            if p in self._workers:
                self._workers.remove(p)
            s.ev("pool.repopulate")
            s.probe("pool-worker-replaced")
            s.new_task(self._owner, "PoolMaintenance", self._replace)

    def _replace(self):
        s = self._s
        s.wait(None, self._respawn_cost, "pool maintenance")
        if self._state != "TERMINATE" and (self._state == "RUN" or self._cache):
            self._spawn()

    # -- API
    def _submit(self, jobs, res):
        if self._state != "RUN":
            raise ValueError("Pool not running")
        for i, (f, a) in enumerate(jobs):
            try:
                blob = dumps((f, a))
            except Exception as e:
                res._post(i, False, e)
                continue
            self._tasks.append((res, i, blob))

    def _chunks(self, iterable, chunksize):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._n * 4)
            if extra:
                chunksize += 1
        if not items:
            chunksize = 1
        return [items[i : i + chunksize] for i in range(0, len(items), chunksize)]

    def _map(self, func, iterable, star, chunksize, callback, error_callback):
        s = _sim()
        s.op("pool.submit")
        chunks = self._chunks(iterable, chunksize)
        res = AsyncResult(self, len(chunks), True, callback, error_callback)
        if chunks:
            self._cache.add(res)
        m = _star if star else _plain
        self._submit([(m, (func, c)) for c in chunks], res)
        return res

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, True, chunksize, callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, False, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        s = _sim()
        s.op("pool.submit")
        res = AsyncResult(self, 1, False, callback, error_callback, single=True)
        self._cache.add(res)
        self._submit([(_one, (func, tuple(args), dict(kwds or {})))], res)
        return res

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def _imap(self, func, iterable, chunksize, ordered):
        s = _sim()
        s.op("pool.submit")
        items = list(iterable)
        res = _IterResult(self, len(items), ordered)
        if items:
            self._cache.add(res)
        self._submit([(_one, (func, (x,), {})) for x in items], res)
        return res

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        _sim().op("pool.close")
        if self._state == "RUN":
            self._state = "CLOSE"

    def terminate(self):
        s = _sim()
        s.op("pool.terminate")
        self._state = "TERMINATE"
        self._tasks.clear()
        self._cache.clear()
        for p in list(self._workers):
            s.send_signal(p, "TERM")

    def join(self):
        s = _sim()
        s.op("pool.join")
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        s.wait(lambda: not any(p.alive for p in self._workers), None, "pool join")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class _WorkerProc(_MainProc):
    def __init__(self, p):
        super().__init__(p)
        self.daemon = True


# --------------------------------------------------------------------------
class Context:
    def __init__(self, method):
        self._m = method
        self.Process = ForkProcess if method == "fork" else Process

    def get_start_method(self, allow_none=False):
        return self._m

    def get_context(self, method=None):
        return get_context(method)

    def Manager(self):
        return Manager(self._m)

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return Pool(processes, initializer, initargs, maxtasksperchild)

    def Queue(self, maxsize=0):
        return QueueObj(_sim(), None, maxsize)

    JoinableQueue = Queue

    def SimpleQueue(self):
        return QueueObj(_sim(), None)

    def Event(self):
        return EventObj(_sim())

    def Lock(self):
        return LockObj(_sim())

    def RLock(self):
        return RLockObj(_sim())

    def Semaphore(self, value=1):
        return SemaphoreObj(_sim(), None, value)

    def BoundedSemaphore(self, value=1):
        return SemaphoreObj(_sim(), None, value, True)

    def Condition(self, lock=None):
        return ConditionObj(_sim(), None, lock)

    def Barrier(self, parties, action=None, timeout=None):
        return BarrierObj(_sim(), None, parties)

    def Value(self, typecode, value=0, lock=True):
        return ValueObj(_sim(), None, value)

    def Array(self, typecode, seq, lock=True):
        return ArrayObj(_sim(), None, list(seq))

    def cpu_count(self):
        return 8

    current_process = staticmethod(current_process)
    active_children = staticmethod(active_children)
    parent_process = staticmethod(parent_process)
    TimeoutError = multiprocessing.TimeoutError


_CTX = {m: Context(m) for m in ("spawn", "fork", "forkserver")}


def get_context(method=None):
    if method is None:
        method = "fork"
    if method not in _CTX:
        raise ValueError(f"cannot find context for {method!r}")
    return _CTX[method]


# --------------------------------------------------------------------------
_SIGNAMES = {signal.SIGINT: "INT", signal.SIGTERM: "TERM"}


def sim_signal(signum, handler):
    s = current_sim()
    if s is None:
        return REAL["signal"](signum, handler)
    s.op("signal.signal", signum)
    nm = _SIGNAMES.get(signum, str(signum))
    p = s.current.proc
    if s.current is not p.tasks[0]:
        raise ValueError("signal only works in main thread of the main interpreter")
    old = p.sig.get(nm + "_raw", signal.default_int_handler if nm == "INT" else signal.SIG_DFL)
    p.sig[nm + "_raw"] = handler
    if handler == signal.SIG_IGN:
        p.sig[nm] = "ignore"
    elif handler == signal.SIG_DFL:
        p.sig[nm] = "default" if nm != "INT" else "default-term"
        if nm == "INT":
            p.sig[nm] = lambda: s.kill_proc(p, -2)
    elif handler is signal.default_int_handler:
        p.sig[nm] = "default" if nm == "INT" else (lambda: handler(signum, None))
    else:
        if not callable(handler):
            raise TypeError(
                "signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object"
            )
        p.sig[nm] = lambda: handler(signum, None)
    return old


def sim_getsignal(signum):
    s = current_sim()
    if s is None:
        return REAL["getsignal"](signum)
    nm = _SIGNAMES.get(signum, str(signum))
    return s.current.proc.sig.get(
        nm + "_raw", signal.default_int_handler if nm == "INT" else signal.SIG_DFL
    )


def install():
    c = _CTX["fork"]
    for n in (
        "Manager", "Pool", "Queue", "JoinableQueue", "SimpleQueue", "Event", "Lock",
        "RLock", "Semaphore", "BoundedSemaphore", "Condition", "Barrier", "Value", "Array",
    ):
        setattr(multiprocessing, n, getattr(c, n))
    multiprocessing.Process = ForkProcess
    multiprocessing.get_context = get_context
    multiprocessing.current_process = current_process
    multiprocessing.parent_process = parent_process
    multiprocessing.active_children = active_children
    multiprocessing.pool.Pool = Pool
    multiprocessing.managers.SyncManager = Manager
    signal.signal = sim_signal
    signal.getsignal = sim_getsignal
