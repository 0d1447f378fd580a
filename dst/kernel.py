"""Deterministic simulation kernel.

Every simulated thread ("task") is backed by one real thread, but exactly one of
them holds the baton at any time; a task gives the baton away only inside
`Sim.op()` / `Sim.wait()`, which the fakes call at every intercepted operation.
Who runs next, how long somebody stalls and which fault fires is decided here,
from one PRNG (search mode) or from a recorded decision list (replay mode).

Decisions are stored sparsely: the default decision at a step is "the current
task goes on, otherwise the lowest numbered runnable task; nobody stalls".
A trace is the dictionary of deviations from that default, so a minimised
trace is short and readable.
"""
import _thread
import fnmatch
import hashlib
import random
import sys
import traceback

_alloc = _thread.allocate_lock


class SimKill(BaseException):
    """raised inside a task whose simulated process is gone"""


class HarnessError(Exception):
    """the harness (not the code under test) is at fault"""


class Hang(Exception):
    """simulated deadlock / livelock / over-long run"""

    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


CURRENT = None  # the active Sim (one at a time per interpreter)


def current_sim():
    s = CURRENT
    if s is None or s._by_ident.get(_thread.get_ident()) is None:
        return None
    return s


class Proc:
    def __init__(self, sim, name, parent, daemon=False):
        self.sim, self.name, self.parent, self.daemon = sim, name, parent, daemon
        sim._npid += 1
        self.pid = 1000 + sim._npid
        self.alive = True
        self.exitcode = None
        self.tasks = []
        self.sig = {}
        self.pending = []
        self.g = None  # per-process interpreter state (see world.py)
        self.open_files = []
        self.mp_obj = None
        self.children = []

    def main(self):
        return self.tasks[0] if self.tasks else None


class Task:
    def __init__(self, sim, proc, name, fn):
        self.sim, self.proc, self.name, self.fn = sim, proc, name, fn
        self.id = len(sim.tasks)
        sim.tasks.append(self)
        proc.tasks.append(self)
        self.state = "ready"
        self.pred = None
        self.deadline = None
        self.what = "start"
        self.baton = _alloc()
        self.baton.acquire()
        self.exc = None
        self.thread_obj = None
        self.daemon = False
        self.ident = None
        self.finished_real = False
        self.killcount = 0
        self.prio = None
        self.nest = 0

    def __repr__(self):
        return f"<{self.proc.name}/{self.name}#{self.id} {self.state} {self.what}>"


class Trigger:
    """a planned fault: fires at the n-th occurrence of an operation kind"""

    def __init__(self, spec):
        self.spec = spec
        self.op = spec["op"]
        self.proc = spec.get("proc")
        self.left = spec["n"]
        self.count = spec.get("count", 1)  # consecutive occurrences hit
        self.fired = 0

    def hit(self, kind, procname):
        if self.fired >= self.count:
            return False
        if not (self.op == "*" or fnmatch.fnmatchcase(kind, self.op)):
            return False
        if self.proc is not None and not fnmatch.fnmatchcase(procname, self.proc):
            return False
        self.left -= 1
        if self.left > 0:
            return False
        self.fired += 1
        return True


class Sim:
    def __init__(
        self,
        seed=0,
        sched=None,
        deviations=None,
        faults=(),
        max_steps=60000,
        max_time=36000.0,
        world=None,
        start=0.0,
    ):
        """
        sched: dict(policy=..., p_switch=..., p_stall=..., stalls=[...]) search mode
        deviations: {step: ["run", k] | ["stall", d]} -> replay mode
        """
        self.seed = seed
        self.rng = random.Random(f"sched/{seed}")
        self.sched = dict(policy="random", p_switch=0.3, p_stall=0.0, stalls=[1.0])
        self.sched.update(sched or {})
        self.replay = deviations is not None
        self.dev_in = {int(k): v for k, v in (deviations or {}).items()}
        self.deviations = {}
        self.triggers = [Trigger(f) for f in faults]
        self.max_steps, self.max_time = max_steps, max_time
        self.world = world
        self.now = 1_700_000_000.0 + start
        self.t0 = self.now
        self.steps = 0
        self.dec = 0
        self.tasks = []
        self.procs = []
        self._npid = 0
        self.current = None
        self._by_ident = {}
        self.dead = False
        self.killed = False  # the whole tree was killed by a fault
        self.hang = None
        self.events = []
        self.fault_counts = {}
        self.switches = 0
        self._ctl = _alloc()
        self._ctl.acquire()
        self.objects = {}
        self.stdout = []
        self.on_kill = None
        self._pct_points = None
        self.harness_errors = []
        self.proc_errors = []
        self.pools = []
        self.managers = []
        self.qlog = []  # queue traffic: (step, put|get, queue, process, length after)
        self.delivered = []  # signals: (step, signal, process, handler kind)
        self.thread_errors = []
        self.probes = {}
        self.last_fault_time = None
        self.h = hashlib.sha256()
        self.il = hashlib.sha256()

    # ------------------------------------------------------------ events
    def ev(self, kind, detail=""):
        t = self.current
        e = (self.steps, round(self.now - self.t0, 3), t.id if t else -1, kind, str(detail))
        self.events.append(e)
        self.h.update(repr(e).encode())

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def fault_fired(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
        self.last_fault_time = self.now

    def digest(self):
        return self.h.hexdigest()

    def interleaving(self):
        return self.il.hexdigest()[:16]

    # ------------------------------------------------------------ tasks
    def new_proc(self, name, parent=None, daemon=False, fork=False):
        p = Proc(self, name, parent, daemon)
        self.procs.append(p)
        if parent is not None:
            parent.children.append(p)
        if self.world is not None:
            self.world.new_proc_globals(p, parent, fork)
        return p

    def new_task(self, proc, name, fn, daemon=False):
        t = Task(self, proc, name, fn)
        t.daemon = daemon
        t.prio = self.rng.random()
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        t.ident = _thread.get_ident()
        t.baton.acquire()
        self._by_ident[t.ident] = t
        try:
            if self.dead or not t.proc.alive:
                raise SimKill()
            t.state = "run"
            t.what = ""
            t.fn()
        except SimKill:
            pass
        except BaseException as e:  # noqa
            t.exc = e
            if not self.dead:
                self.harness_errors.append(
                    "".join(traceback.format_exception(e))
                )
        finally:
            self._by_ident.pop(t.ident, None)
            t.state = "done"
            t.finished_real = True
            self._leave(t)

    def _leave(self, t):
        """the task's thread ends: hand the baton on"""
        if self.dead:
            self._ctl.release()
            return
        nxt = self._pick(None)
        if nxt is None:
            self._ctl.release()
            return
        self._resume(nxt)

    def _resume(self, nxt):
        prev = self.current
        self.current = nxt
        self.switches += 1
        self.il.update(b"%d," % nxt.id)
        if self.world is not None:
            if prev is None or prev.proc is not nxt.proc:
                self.world.swap(prev.proc if prev else None, nxt.proc)
        nxt.baton.release()

    # ------------------------------------------------------------ choosing
    def _runnable(self, t):
        if t.state == "ready" or t.state == "run":
            return True
        if t.state != "blocked":
            return False
        if t.proc.pending and t is t.proc.tasks[0]:
            return True
        if t.deadline is not None and t.deadline <= self.now:
            return True
        return t.pred is not None and t.pred()

    def _pick(self, cur):
        """choose who runs next; None -> the run is over (hang set if not regular)"""
        while True:
            live = [t for t in self.tasks if t.state in ("ready", "run", "blocked")]
            if not live:
                return None
            if self.steps > self.max_steps:
                self.hang = Hang("step-limit", f"{self.steps} steps: {live}")
                return None
            if self.now - self.t0 > self.max_time:
                self.hang = Hang(
                    "time-limit", f"{self.now - self.t0:.0f} simulated s: {live}"
                )
                return None
            run = [t for t in live if t is not cur and self._runnable(t)]
            if cur is not None and self._runnable(cur):
                run.insert(0, cur)
            if run:
                return self._choose(run, cur)
            nxt = [t.deadline for t in live if t.deadline is not None]
            if not nxt:
                self.hang = Hang("deadlock", f"no task can ever run again: {live}")
                return None
            self.now = max(self.now, min(nxt))

    def _choose(self, run, cur):
        n = len(run)
        if n == 1:
            return run[0]
        k = 0
        self.dec += 1
        if self.replay:
            d = self.dev_in.get(self.dec)
            if d is not None and d[0] == "run":
                k = d[1] % n
        else:
            pol = self.sched["policy"]
            if pol == "random":
                has_cur = run[0] is cur
                if not has_cur or self.rng.random() < self.sched["p_switch"]:
                    k = self.rng.randrange(n)
            elif pol == "pct":
                if self.rng.random() < self.sched.get("p_change", 0.02):
                    run[self.rng.randrange(n)].prio = self.rng.random()
                k = max(range(n), key=lambda i: run[i].prio)
        if k:
            self.deviations[self.dec] = ["run", k]
        return run[k]

    # ------------------------------------------------------------ the seam
    def op(self, kind, detail=""):
        """a yield point in front of an intercepted operation"""
        t = self.current
        if self.dead or not t.proc.alive or t.state == "dead":
            self._raise_kill(t)
        self.steps += 1
        self.ev(kind, detail)
        self._faults(kind, detail)
        stall = None
        self.dec += 1
        if self.replay:
            d = self.dev_in.get(self.dec)
            if d is not None and d[0] == "stall":
                stall = d[1]
        elif self.sched["p_stall"] and self.rng.random() < self.sched["p_stall"]:
            stall = self.rng.choice(self.sched["stalls"])
        if stall:
            self.deviations[self.dec] = ["stall", stall]
            self.fault_counts["stall"] = self.fault_counts.get("stall", 0) + 1
            self.wait(None, stall, "stalled:" + kind)
        else:
            self._switch(t)

    def _raise_kill(self, t):
        t.killcount += 1
        if t.killcount > 200:
            # code that swallows BaseException in a loop: park the thread forever
            t.state = "done"
            t.finished_real = True
            self._by_ident.pop(t.ident, None)
            self._ctl.release()
            _alloc_forever()
        raise SimKill()

    def _switch(self, t):
        nxt = self._pick(t)
        if nxt is None:
            self._stop_all(t)
        if nxt is not t:
            self._resume(nxt)
            t.baton.acquire()
            if self.dead or not t.proc.alive:
                self._raise_kill(t)
        if t.state == "blocked":
            t.state = "run"
        if t.state == "ready":
            t.state = "run"
        self._deliver(t)

    def _stop_all(self, t):
        """called by the running task when the simulation is over"""
        self._ctl.release()
        t.baton.acquire()  # woken by teardown
        self._raise_kill(t)

    def wait(self, pred, timeout=None, what=""):
        """block until pred() or timeout (virtual); True if pred held.

        no yield happens between pred becoming true and the return."""
        t = self.current
        if self.dead or not t.proc.alive:
            self._raise_kill(t)
        if pred is not None and pred():
            return True
        deadline = None if timeout is None else self.now + max(0.0, timeout)
        if timeout is not None and timeout <= 0:
            return False
        while True:
            t.state, t.pred, t.deadline, t.what = "blocked", pred, deadline, what
            try:
                self._switch(t)
            finally:
                if t.state != "dead":
                    t.state = "run" if not t.finished_real else t.state
                t.pred = t.deadline = None
                t.what = ""
            if pred is not None and pred():
                return True
            if deadline is not None and self.now >= deadline:
                return False

    def sleep(self, d):
        self.steps += 1
        self.wait(None, d, "sleep")

    # ------------------------------------------------------------ faults
    def _faults(self, kind, detail):
        if not self.triggers:
            return
        pname = self.current.proc.name
        for tr in self.triggers:
            k = tr.spec["kind"]
            if k not in ("kill", "signal"):
                continue
            if tr.hit(kind, pname):
                self.ev("FAULT", tr.spec)
                self.fault_fired(k if k == "kill" else f"signal-{tr.spec['sig']}-{tr.spec.get('target', 'main')}")
                if k == "kill":
                    self.kill_tree()
                else:
                    self.signal_fault(tr.spec)

    def check_fault(self, kind, fkinds):
        """for fakes: does an I/O fault of one of the kinds fire at this op?"""
        if not self.triggers:
            return None
        pname = self.current.proc.name
        for tr in self.triggers:
            if tr.spec["kind"] in fkinds and tr.hit(kind, pname):
                self.ev("FAULT", tr.spec)
                self.fault_fired(tr.spec["kind"])
                return tr.spec
        return None

    def kill_tree(self):
        """the whole process tree disappears at this instant"""
        self.killed = True
        if self.on_kill is not None:
            self.on_kill()
        self._stop_all(self.current)

    def signal_fault(self, spec):
        sig = spec["sig"]
        main = self.procs[0]
        targets = [main]
        if spec.get("target", "main") == "group":
            targets = [p for p in self.procs if p.alive]
        for p in targets:
            self.send_signal(p, sig)
        d = spec.get("again")
        if d:
            self.probe("second-signal")
            for p in targets:
                self.send_signal(p, sig)

    def send_signal(self, p, sig):
        if not p.alive:
            return
        p.pending.append(sig)
        h = p.sig.get(sig, "default")
        if h == "default" and sig == "TERM":
            p.pending.remove(sig)
            self.delivered.append((self.steps, sig, p.name, "default"))
            self.kill_proc(p, -15)

    def kill_proc(self, p, exitcode=-9):
        """one process disappears (no cleanup in it)"""
        if not p.alive:
            return
        self.ev("proc-killed", p.name)
        if self.world is not None:
            self.world.proc_gone(p)
        p.alive = False
        p.exitcode = exitcode
        for t in p.tasks:
            if t.state != "done":
                t.state = "dead"
        if self.current.proc is p:
            t = self.current
            nxt = self._pick(None)
            if nxt is None:
                self._stop_all(t)
            self._resume(nxt)
            t.baton.acquire()
            self._raise_kill(t)

    def _deliver(self, t):
        p = t.proc
        while p.pending and t is p.tasks[0]:
            sig = p.pending.pop(0)
            h = p.sig.get(sig, "default")
            self.ev("signal-delivered", f"{sig} to {p.name}")
            self.delivered.append(
                (self.steps, sig, p.name, h if isinstance(h, str) else "handler")
            )
            if h == "ignore":
                continue
            if h == "default":
                if sig == "INT":
                    self._unblock(t)
                    raise KeyboardInterrupt()
                self.kill_proc(p, -15)
            else:
                st = (t.state, t.pred, t.deadline, t.what)
                self._unblock(t)
                h()
                t.state, t.pred, t.deadline, t.what = st

    def _unblock(self, t):
        t.state, t.pred, t.deadline, t.what = "run", None, None, ""

    # ------------------------------------------------------------ driving
    def run(self, main_fn, name="MainProcess"):
        """run main_fn in a simulated main process until nothing is left"""
        global CURRENT
        if CURRENT is not None:
            raise HarnessError("nested simulation")
        CURRENT = self
        try:
            p = self.new_proc(name)
            self.new_task(p, "MainThread", main_fn)
            first = self._pick(None)
            self._resume(first)
            self._ctl.acquire()
            self._teardown()
        finally:
            if self.world is not None:
                self.world.leave(self)
            CURRENT = None
        if self.harness_errors:
            raise HarnessError("\n".join(self.harness_errors))

    def _teardown(self):
        self.live_at_end = [t for t in self.tasks if t.state in ("ready", "run", "blocked")]
        self.dead = True
        for t in list(self.tasks):
            n = 0
            while not t.finished_real:
                self.current = t
                t.baton.release()
                self._ctl.acquire()
                n += 1
                if n > 10:
                    raise HarnessError(f"can not end {t}")


def _alloc_forever():
    lk = _alloc()
    lk.acquire()
    lk.acquire()
