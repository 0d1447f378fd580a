"""Seeded search over scenarios, minimisation, replay files and evidence.

The engine knows nothing about rt1.  A family module provides
    gen(family, seed)               -> scenario (JSON), with scn["sessions"] = [...]
    execute(scn, ns, scratch)       -> (violations, stats)
    reductions(scn)                 -> smaller scenarios
"""
import collections
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import re
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from .kernel import HarnessError
from . import world as W

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
WALL_LIMIT = float(os.environ.get("VERIF_SCENARIO_LIMIT", "90"))


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 300 << 20:
                return d
    return tempfile.gettempdir()


def module(name):
    return importlib.import_module("dst." + name)


def clean_msg(m):
    return re.sub(r"0x[0-9a-f]{6,}", "0x..", m)


def run_one(mod, scn, ns, base):
    """one scenario in this process; -> (violations as dicts, stats, harness error or None)"""
    d = tempfile.mkdtemp(prefix="rt1sim-", dir=base)
    work = os.path.join(d, "w")
    os.mkdir(work)
    try:
        vs, st = mod.execute(scn, ns, work)
        out = []
        for v in vs:
            v = v.as_dict()
            v["msg"] = clean_msg(v["msg"])
            out.append(v)
        st["digest"] = hashlib.sha256("/".join(st["digests"]).encode()).hexdigest()
        return out, st, None
    except HarnessError as e:
        return [], None, "HarnessError: " + str(e)[-3000:]
    except Exception:
        return [], None, traceback.format_exc()[-3000:]
    finally:
        W.REAL["rmtree"](d, ignore_errors=True)


# ------------------------------------------------------------------ workers
class Slot:
    """what a worker is doing, readable by the parent"""

    def __init__(self):
        self.m = mmap.mmap(-1, 16)
        self.set(-1, 0.0)

    def set(self, idx, t):
        self.m[0:16] = struct.pack("qd", idx, t)

    def get(self):
        return struct.unpack("qd", self.m[0:16])


class Worker:
    def __init__(self, jobs, ns, base, deadline):
        """jobs: [(index, module, family, seed)]"""
        self.jobs, self.slot = jobs, Slot()
        r, w = os.pipe()
        self.fd = r
        self.buf = b""
        self.done = set()
        self.eof = False
        sys.__stdout__.flush()
        sys.__stderr__.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            try:
                quiet_child()
                limits()
                gc.disable()
                for n, (idx, m, fam, seed) in enumerate(jobs):
                    if time.time() > deadline:
                        break
                    self.slot.set(idx, time.time())
                    mod = module(m)
                    t = time.time()
                    scn = mod.gen(fam, seed)
                    res = run_one(mod, scn, ns, base)
                    if res[1] is not None:
                        res[1]["wall"] = time.time() - t
                        res[1].pop("devs", None)
                    send(w, (idx, res))
                    self.slot.set(-1, 0.0)
                    if n % 10 == 9:
                        gc.collect()
                send(w, (None, None))
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
            finally:
                os._exit(0)
        os.close(w)

    def feed(self):
        """read what is there; -> list of results"""
        d = os.read(self.fd, 1 << 20)
        if not d:
            self.eof = True
            return []
        self.buf += d
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack("I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            out.append(pickle.loads(self.buf[4 : 4 + n]))
            self.buf = self.buf[4 + n :]
        return out

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def reap(self):
        try:
            os.close(self.fd)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def quiet_child():
    """native libraries write diagnostics straight to the descriptors"""
    if not os.environ.get("VERIF_NOISY"):
        f = os.open("/dev/null", os.O_WRONLY)
        os.dup2(f, 2)
        os.dup2(f, 1)
        os.close(f)


def limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def isolated(fn, limit):
    """run fn() in a forked child; -> ("ok", value) | ("timeout", None) | ("died", None)"""
    r, w = os.pipe()
    sys.__stdout__.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            quiet_child()
            limits()
            gc.disable()
            send(w, fn())
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    buf, end = b"", time.time() + limit
    state = "died"
    while True:
        left = end - time.time()
        if left <= 0:
            state = "timeout"
            break
        if select.select([r], [], [], min(left, 1.0))[0]:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.close(r)
    os.waitpid(pid, 0)
    if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("I", buf[:4])[0]:
        return "ok", pickle.loads(buf[4:])
    return state, None


# ------------------------------------------------------------------ search
class Result:
    def __init__(self):
        self.runs = []  # (module, family, seed, stats)
        self.viol = []  # (module, family, seed, violation dict)
        self.harness = []  # (module, family, seed, message)
        self.walls = []  # scenarios that did not come back in real time
        self.seeds_planned = 0


def search(jobs, ns, base, budget, stop_after=6, prop=None):
    """jobs: [(module, family, seed)] -> Result"""
    res = Result()
    res.seeds_planned = len(jobs)
    t0 = time.time()
    deadline = t0 + budget
    jobs = [(i, *j) for i, j in enumerate(jobs)]
    n = max(1, min(NPROC, len(jobs)))
    workers = [Worker(jobs[k::n], ns, base, deadline) for k in range(n)]
    active = list(workers)
    hits = 0
    while active:
        fds = {w.fd: w for w in active}
        ready = select.select(list(fds), [], [], 0.5)[0]
        for fd in ready:
            w = fds[fd]
            for idx, r in w.feed():
                if idx is None:
                    continue
                w.done.add(idx)
                j = jobs[idx][1:]
                vs, st, err = r
                if err is not None:
                    res.harness.append((*j, err))
                    continue
                res.runs.append((*j, st))
                for v in vs:
                    res.viol.append((*j, v))
                    if prop is None or prop in v["props"]:
                        hits += 1
            if w.eof:
                active.remove(w)
                left = [x for x in w.jobs if x[0] not in w.done]
                cur = w.slot.get()[0]
                w.reap()
                if cur >= 0 and left:
                    # the worker died in the middle of a scenario
                    res.harness.append((*jobs[cur][1:], "worker process died"))
                    left = [x for x in left if x[0] != cur]
                    if left and time.time() < deadline and hits < stop_after:
                        active.append(Worker(left, ns, base, deadline))
        now = time.time()
        for w in list(active):
            cur, t = w.slot.get()
            if cur >= 0 and now - t > WALL_LIMIT:
                w.kill()
                active.remove(w)
                w.reap()
                res.walls.append(jobs[cur][1:])
                left = [x for x in w.jobs if x[0] not in w.done and x[0] != cur]
                if left and now < deadline and len(res.walls) < 4:
                    active.append(Worker(left, ns, base, deadline))
        if hits >= stop_after or (now > deadline + WALL_LIMIT + 5):
            for w in active:
                w.kill()
                w.reap()
            active = []
    res.wall = time.time() - t0
    return res


# ------------------------------------------------------------------ shrinking
def with_deviations(scn, devs):
    c = json.loads(json.dumps(scn))
    for s, d in zip(c["sessions"], devs):
        s["deviations"] = {str(k): v for k, v in d.items()}
    return c


class Shrinker:
    def __init__(self, mod, prop, kind, ns, base, budget, known):
        self.mod, self.prop, self.kind, self.ns, self.base = mod, prop, kind, ns, base
        self.end = time.time() + budget
        self.tried = 0
        self.known = known

    def left(self):
        return self.end - time.time()

    def test(self, scn):
        """-> (violation, stats) if scn still shows the same failure"""
        self.tried += 1
        limit = 60
        st, val = isolated(lambda: run_one(self.mod, scn, self.ns, self.base), limit)
        if st == "timeout" and self.kind == "wall-hang":
            return dict(props=[self.prop], kind="wall-hang", msg="", ctx={}), None
        if st != "ok":
            return None
        vs, stats, err = val
        if err is not None:
            return None
        for v in vs:
            if self.prop in v["props"] and v["kind"] == self.kind and not self.known(v):
                return v, stats
        return None

    def shrink(self, scn):
        best = self.test(scn)
        if best is None or best[1] is None:
            return scn, best
        # 1. smaller scenario
        progress = True
        while progress and self.left() > 0:
            progress = False
            for c in self.mod.reductions(scn):
                if self.left() <= 0:
                    break
                r = self.test(c)
                if r is None:
                    # the same cut under a plain schedule
                    for s in c["sessions"]:
                        s["sched"] = dict(policy="random", p_switch=0.0)
                    r = self.test(c)
                if r is not None:
                    scn, best, progress = c, r, True
                    break
        # 2. plainest schedule
        plain = with_deviations(scn, [{} for _ in scn["sessions"]])
        r = self.test(plain)
        if r is not None:
            return plain, r
        # 3. the recorded schedule, with as few deviations as possible
        devs = [dict(d) for d in best[1]["devs"]]
        c = with_deviations(scn, devs)
        r = self.test(c)
        if r is None:
            return scn, best
        scn, best = c, r
        for k in range(len(devs)):
            items = list(devs[k].items())
            n = 2
            while items and self.left() > 0:
                size = max(1, len(items) // n)
                for i in range(0, len(items), size):
                    if self.left() <= 0:
                        break
                    cand = items[:i] + items[i + size :]
                    d2 = list(devs)
                    d2[k] = dict(cand)
                    c = with_deviations(scn, d2)
                    r = self.test(c)
                    if r is not None:
                        items, devs, scn, best = cand, d2, c, r
                        n = max(n - 1, 2)
                        break
                else:
                    if size == 1:
                        break
                    n = min(len(items), n * 2)
        return scn, best


# ------------------------------------------------------------------ known findings
def load_known(prop):
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            e = json.loads(line)
            if e.get("status") == "known" and e.get("property") == prop:
                out.append(e)
    return out


def matcher(known):
    def match(v):
        for e in known:
            if v["kind"] == e["kind"] and re.search(e["match"], v["msg"]):
                return e
        return None

    return match
