"""Level C families: library objects used directly by a program (no pool).

logfiles   start_log_to_file / stop_log_to_file from several threads      (C18)
blocks     block-wise reading of containers made by histories of runs     (C15)
"""
import copy
import os
import random
import re

from . import fam_a as FA
from . import level_a as A
from . import level_c as C
from .fam_a import V, gen_sched
from .kernel import HarnessError, SimKill
from .world import REAL, World

REAL_COMPONENTS = [
    "rt1 (start_log_to_file, stop_log_to_file, logger)", "logging of the standard library",
    "rt1.rtresults.HDFaccessor", "rt1.rtfits (Fits, MultiFits, load, dump)", "rt1.rt1, rt1.volume, "
    "rt1.surface", "pandas/PyTables/HDF5 container files", "cloudpickle", "scipy",
]
STUB_COMPONENTS = [
    "threading (simulated threads, locks)", "time (virtual clock)", "signal delivery",
    "file system calls that modify (real files in a scratch folder behind a seam that can fail, be "
    "interrupted or be cut off at every step)",
    "functools.lru_cache in rt1 (the real cache behind a seam that can interrupt or fail the computation)",
    "the job pipeline that produces containers (level A, see there)",
]

DISRUPT = ("kill", "signal", "file_error", "hdf_error", "hdf_open_error", "hdf_read_error", "memory_error")


def new_stats():
    return dict(sessions=0, steps=0, simtime=0.0, faults={}, probes={}, digests=[], il=[], devs=[], notes=[])


def account(st, o):
    st["sessions"] += 1
    st["steps"] += o.sim.steps
    st["simtime"] += o.sim.now - o.sim.t0
    for a, b in ((st["faults"], o.sim.fault_counts), (st["probes"], o.sim.probes)):
        for x, y in b.items():
            a[x] = a.get(x, 0) + y
    st["digests"].append(o.sim.digest())
    st["il"].append(o.sim.interleaving())
    st["devs"].append(o.sim.deviations)


def gen(family, seed):
    return GEN[family](random.Random(f"{family}/{seed}"), family, seed)


def execute(scn, ns, scratch, collect=None):
    vs, st = [], new_stats()
    w = World(scratch)
    EXEC[scn["family"]](scn, ns, w, vs, st, collect)
    return vs, st


# ====================================================================== C18
NAMES = ["rt1_filehandler", "h1", "h2", "h1_b"]
LEVELS = [10, 20, 21, 30, 40, 50]


def gen_logfiles(r, family, seed):
    nthr = r.choice([1, 2, 2, 3, 4])
    names = r.sample(NAMES, r.choice([1, 2, 2, 3]))
    files = [f"log{i}.log" for i in range(r.choice([1, 2, 3, 4]))]
    # one thread controls a name, all threads emit
    owner = {n: r.randrange(nthr) for n in names}
    threads = []
    for t in range(nthr):
        mine = [n for n in names if owner[n] == t]
        ops = []
        for _ in range(r.randint(2, 9)):
            k = r.random()
            if mine and k < 0.45:
                n = r.choice(mine)
                j = r.random()
                if j < 0.55:
                    ops.append(["start", n, r.choice(files), r.choice([None, 1, 10, 20, 21, 30, 40])])
                elif j < 0.62:
                    ops.append(["start", n, "missing/x.log", 10])
                elif j < 0.7:
                    ops.append(["level", n, r.choice(LEVELS)])
                else:
                    ops.append(["stop", n])
            elif k < 0.5:
                ops.append(["sleep", r.choice([0.0, 0.5])])
            else:
                ops.append(["msg", r.choice(LEVELS), r.random() < 0.15])
        threads.append(ops)
    faults = []
    x = r.random()
    if x < 0.4:
        for _ in range(r.choice([1, 1, 2])):
            faults.append(dict(
                kind="file_error", op=r.choice(["file.append", "file.write", "file.close"]),
                n=r.randint(1, 12),
            ))
    elif x < 0.5:
        faults.append(dict(kind="signal", sig="INT", op=r.choice(["*", "file.append", "file.close", "thr.rlock.acquire"]),
                           n=r.randint(1, 40), target="main"))
    return dict(
        level="C", family=family, seed=seed,
        sessions=[dict(threads=threads, user_handler=r.random() < 0.3, seed=r.randrange(1 << 30), sched=gen_sched(r, stalls=False), faults=faults)],
    )


class Rec:
    pass


def exec_logfiles(scn, ns, w, vs, st, collect):
    import logging

    ses = scn["sessions"][0]
    rt1 = ns["rt1"]
    log = rt1.log
    o = C.start_program(0, ses, w, wrap_appends=True)
    sim = o.sim
    recs = []
    o.mine = []
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def one(t, n, op):
        r = Rec()
        r.thread, r.n, r.op = t, n, op
        r.tok = f"tok{t}x{n}x"
        recs.append(r)
        r.f0 = sum(sim.fault_counts.values())
        r.a = tick()
        k = op[0]
        if k == "start":
            kw = {} if op[3] is None else dict(level=op[3])
            f = lambda: rt1.start_log_to_file(os.path.join(w.scratch, op[2]), name=op[1], **kw)
        elif k == "stop":
            f = lambda: rt1.stop_log_to_file(name=op[1])
        elif k == "level":
            f = lambda: rt1.set_log_handler_level(op[2], name=op[1])
        elif k == "msg":
            txt = r.tok + (" line one\nand line two" if op[2] else " a message")
            f = (lambda: log.progress(txt)) if op[1] == 21 else (lambda: log.log(op[1], txt))
        elif k == "sleep":
            f = lambda: sim.sleep(op[1])
        C.attempt(r, f)
        r.b = tick()
        r.f1 = sum(sim.fault_counts.values())

    def thread(t):
        def f():
            for n, op in enumerate(ses["threads"][t]):
                one(t, n, op)
        return f

    class Mine(logging.Handler):
        def emit(self, record):
            o.mine.append(record.getMessage())

    def body():
        if ses.get("user_handler"):
            h = Mine()
            h.set_name("user")
            log.addHandler(h)
        o.handlers0 = list(log.handlers)
        # the first list belongs to the main thread (signals are delivered there)
        import threading

        ts = [threading.Thread(target=thread(t), name=f"T{t}") for t in range(1, len(ses["threads"]))]
        main = sim.procs[0]
        h = main.sig.get("INT", "default")
        main.sig["INT"] = "ignore"
        for t in ts:
            t.start()
        main.sig["INT"] = h
        thread(0)()
        while True:
            try:
                for t in ts:
                    t.join()
                break
            except KeyboardInterrupt:
                pass
        o.t_end = tick()
        n = 1000
        for name in NAMES:
            for _ in range(4):
                one(0, n, ["stop", name])
                n += 1
                if recs[-1].exc is None:
                    break
        one(0, n, ["msg", 50, False])
        o.handlers1 = list(log.handlers)
        o.open1 = [f._rel for f in w.files_open]

    C.run_program(o, w, body)
    account(st, o)
    if collect is not None:
        collect.append((ses, o, recs))
    judge_logfiles(ses, o, recs, w, vs, st)


def judge_logfiles(ses, o, recs, w, vs, st):
    P = {"C18"}

    def add(kind, msg, **c):
        vs.append(V(P, kind, msg, **c))

    def probe(n, c=1):
        if c:
            st["probes"][n] = st["probes"].get(n, 0) + c

    if o.hang is not None:
        add("hang", f"the program never ends: {o.hang}")
        return
    if o.exc is not None or o.sim.thread_errors:
        raise HarnessError(f"{o.exc!r} {o.sim.thread_errors}")
    if any(not hasattr(r, "b") for r in recs):
        raise HarnessError("operation without an end")
    disr = bool(o.sim.fault_counts)
    # ---- the operations themselves
    for r in recs:
        k = r.op[0]
        if r.exc is None or isinstance(r.exc, KeyboardInterrupt):
            continue
        if k == "msg":
            # (a log that is closed meanwhile is opened again by the standard library, which may fail)
            if not (isinstance(r.exc, OSError) and r.f1 > r.f0 and any(
                q.op[0] in ("start", "stop") and q.a < r.b and (q.b > r.a or q.exc is not None) for q in recs
            )):
                add("message-raises", f"logging a message raised {r.exc!r}")
        elif k == "level":
            if not isinstance(r.exc, IndexError):
                add("level-raises", f"set_log_handler_level raised {r.exc!r}")
        elif k == "start" and r.op[2].startswith("missing"):
            if not isinstance(r.exc, OSError):
                add("start-raises", f"start in a missing folder raised {r.exc!r}")
        elif not (disr and isinstance(r.exc, OSError)):
            add("raises", f"{r.op} raised {r.exc!r}")
    for r in recs:
        if r.op[0] == "start" and r.op[2].startswith("missing") and r.exc is None:
            add("start-silent", "start in a missing folder did not raise")
    # ---- when was which handler active
    insts = []  # dicts: name, path, on=(a, b), off=(a, b) or None, levels=[(a, b, level)]
    cur = {}
    for r in sorted(recs, key=lambda r: r.a):
        k = r.op[0]
        if k not in ("start", "stop", "level"):
            continue
        name = r.op[1]
        c = cur.get(name)
        ok = r.exc is None
        if k == "level":
            if c is None:
                if ok and not any(i.get("maybe") and i["name"] == name for i in insts):
                    add("ghost", f"handler {name} has a level although it was stopped")
            elif ok or isinstance(r.exc, KeyboardInterrupt):
                c["levels"].append((r.a, r.b, r.op[2]))
            elif not c.get("maybe"):
                add("handler-gone", f"handler {name} is active but set_log_handler_level raised {r.exc!r}")
            continue
        if c is not None:
            # (a failing stop or start leaves it open whether it is still active)
            c["off"] = ((c["off"] or (r.a,))[0], r.b if ok else float("inf"))
            if ok:
                cur.pop(name)
            else:
                c["maybe"] = True
        for i in insts:
            if i["name"] == name and i["off"] is not None and i["off"][1] == float("inf") and ok:
                i["off"] = (i["off"][0], r.b)
        if k == "start":
            if ok:
                cur[name] = dict(name=name, path=r.op[2], on=(r.a, r.b), off=None,
                                 levels=[(r.a, r.b, r.op[3] if r.op[3] is not None else 10)])
                insts.append(cur[name])
            elif isinstance(r.exc, KeyboardInterrupt) or not r.op[2].startswith("missing"):
                # interrupted: perhaps active
                i = dict(name=name, path=r.op[2], on=(r.a, float("inf")), off=(r.a, float("inf")), maybe=True,
                         levels=[(r.a, r.b, r.op[3] if r.op[3] is not None else 10)])
                insts.append(i)
    # ---- contents
    texts = {}
    for f in sorted(os.listdir(w.scratch)):
        if f.endswith(".log"):
            with REAL["open"](os.path.join(w.scratch, f), errors="replace") as fh:
                texts[f] = fh.read()
    paths = {i["path"] for i in insts}
    for f in texts:
        if f not in paths:
            add("stray-file", f"file {f} was never requested")
    msgs = [r for r in recs if r.op[0] == "msg"]
    nsure = nmulti = 0
    for f in sorted(paths):
        if f.startswith("missing"):
            continue
        toks = re.findall(r"tok\d+x\d+x", texts.get(f, ""))
        cnt = {}
        for t in toks:
            cnt[t] = cnt.get(t, 0) + 1
        for m in msgs:
            lo = hi = 0
            for i in insts:
                if i["path"] != f:
                    continue
                act = state(i, m)
                if act == "no":
                    continue
                lv = level_range(i, m)
                if m.op[1] < min(lv):
                    continue
                hi += 1
                if act == "yes" and m.op[1] >= max(lv):
                    lo += 1
            if isinstance(m.exc, KeyboardInterrupt):
                lo = 0
            if m.f1 > m.f0:
                # a fault fired while it was written
                lo = 0
            c = cnt.get(m.tok, 0)
            nsure += lo == hi and hi > 0
            nmulti += hi > 1
            if c < lo:
                add("log-missing", f"message {m.tok} (level {m.op[1]}) is {c} times in {f}, expected {lo}")
            elif c > hi:
                add("log-extra" if hi == 0 else "log-twice",
                    f"message {m.tok} (level {m.op[1]}) is {c} times in {f}, expected at most {hi}")
        # order of the messages of one thread
        pos = {}
        for n, t in enumerate(toks):
            pos.setdefault(t, n)
        for t in range(len(ses["threads"])):
            l = [pos[m.tok] for m in msgs if m.thread == t and m.tok in pos and cnt[m.tok] == 1]
            if l != sorted(l):
                add("log-order", f"messages of thread {t} are not in order in {f}")
    probe("messages-judged", nsure)
    probe("same-file-twice", nmulti)
    # ---- at the end
    last = [r for r in recs if r.op[0] == "stop" and r.n >= 1000]
    for name in NAMES:
        if not any(r.op[1] == name and r.exc is None for r in last):
            add("cannot-stop", f"handler {name} could not be stopped: {[r.exc for r in last if r.op[1] == name][-1]!r}")
    left = [h.name for h in o.handlers1 if h not in o.handlers0]
    if left and not any(isinstance(r.exc, KeyboardInterrupt) for r in last):
        add("handler-left", f"handlers {left} are left after everything was stopped")
    gone = [h.name for h in o.handlers0 if h not in o.handlers1]
    if gone:
        add("handler-removed", f"handlers {gone} of others were removed")
    if not disr and len(ses["threads"]) == 1 and o.open1:
        add("file-left-open", f"files {o.open1} are still open after all logs were stopped")
    if ses.get("user_handler"):
        for m in msgs:
            n = sum(m.tok in x for x in o.mine)
            if n != 1 and m.exc is None:
                add("user-handler", f"message {m.tok} reached the handler of the user {n} times")
    con = "".join(x for _, which, x in o.sim.stdout if which == "out")
    for m in msgs:
        # the console handler is never affected (level 21)
        n = con.count(m.tok)
        if m.op[1] >= 21 and n != 1 and m.exc is None:
            add("console", f"message {m.tok} (level {m.op[1]}) is {n} times on the console")


def state(i, m):
    """was handler i active while message m was logged: yes, no, maybe"""
    on, off = i["on"], i["off"]
    if m.b < on[0] or (off is not None and m.a > off[1]):
        return "no"
    if on[1] < m.a and (off is None or m.b < off[0]):
        return "yes"
    return "maybe"


def level_range(i, m):
    """levels the handler may have had while m was logged"""
    out, last = [], None
    for a, b, lv in i["levels"]:
        if b < m.a:
            last = lv
        elif a < m.b:
            out.append(lv)
    if last is not None:
        out.append(last)
    return out or [i["levels"][0][2]]


# ====================================================================== C15
def gen_blocks(r, family, seed):
    """a history of runs (level A) and a program that reads the container"""
    k = r.random()
    if k < 0.7:
        src = FA.gen(r.choice(["clean", "kill", "fails", "mixed"]), r.randrange(1 << 30))
        ses = src["sessions"]
    else:
        # many items
        n = r.choice([12, 20, 33, 45])
        ids = FA.gen_ids(r, n)
        s = FA.gen_session(r, ids, r.choice(list(A.LAYOUTS)))
        s["cfg"].update(write_chunk_size=r.choice([1, 3, 7, 1000]), n_worker=r.choice([1, 3]))
        s["cfg"].pop("maxtasks", None)
        s.update(dur={}, write_time=0, fail=FA.pick_fails(r, ids, r.choice([0, 0, 0.2])))
        ses = [s]
    ses[-1]["create_index"] = r.random() < 0.4
    nthr = r.choice([1, 1, 2, 3])
    threads = []
    for t in range(nthr):
        ops, nit = [], 0
        for _ in range(r.randint(3, 12)):
            k = r.random()
            a = dict(table=r.randrange(8), start=r.choice([None, None, 0, 1, 2, 5, r.randrange(40)]),
                     n=r.choice([1, 1, 2, 3, 4, 7, 10, 11, 25, 100]), chunk=r.choice([None, None, 1, 2, 3, 5, 10, 100]),
                     cols=r.random() < 0.1)
            if k < 0.25:
                ops.append(["iter", nit, a])
                nit += 1
            elif k < 0.6 and nit:
                ops.append(["next", r.randrange(nit), r.choice([1, 1, 2, 100])])
            elif k < 0.72:
                ops.append(["get", a])
            elif k < 0.82:
                ops.append(["id", dict(a, pos=r.randrange(50), byname=r.random() < 0.5)])
            elif k < 0.88:
                ops.append(["ids", dict(a, pos=sorted(r.sample(range(50), r.choice([1, 2, 3, 12]))))])
            elif k < 0.9:
                ops.append(["name", dict(a, pos=r.randrange(50))])
            elif k < 0.95:
                ops.append(["select", a])
            else:
                ops.append(["setid", r.random() < 0.5])
        for i in range(nit):
            ops.append(["next", i, 100])
        threads.append(ops)
    faults = []
    if r.random() < 0.25:
        faults.append(dict(kind="hdf_read_error", op=r.choice(["hdf.select*", "hdf.select_coord"]), n=r.randint(1, 15)))
    elif r.random() < 0.1:
        faults.append(dict(kind="hdf_open_error", op="hdf.open-r", n=r.randint(1, 3)))
    ses.append(dict(
        read=True, threads=threads, set_ID=[r.random() < 0.4 for _ in range(nthr)], shared=r.random() < 0.2,
        seed=r.randrange(1 << 30), sched=gen_sched(r, stalls=False), faults=faults,
    ))
    return dict(level="C", family=family, seed=seed, sessions=ses)


def exec_blocks(scn, ns, w, vs, st, collect):
    for k, ses in enumerate(scn["sessions"]):
        if not ses.get("read"):
            o = A.run_session(ses, w, ns)
            account(st, o)
            if collect is not None:
                collect.append((ses, o, None))
            if o.hang is not None:
                # (judged by the properties of the pipeline)
                return
            continue
        read_session(k, ses, ns, w, vs, st, collect)


class Truth:
    """what is stored, read with pandas"""

    def __init__(self, path):
        import pandas as pd

        self.tables, self.nums, self.names = {}, [], []
        with pd.HDFStore(path, "r") as s:
            for key in s.keys():
                if "/meta" not in key:
                    self.tables[key] = s.select(key)
        if "/reader_arg" in self.tables:
            ra = self.tables["/reader_arg"]
            self.nums = [int(i) for i in ra.index]
            self.names = [A.norm(i) for i in ra["ID"]]
        self.keys = sorted(self.tables)
        self.rows = {}
        for key, df in self.tables.items():
            self.rows[key] = d = {}
            for lab, row in labelled(df):
                d.setdefault(int(lab), []).append(row)

    def expect(self, key, nums):
        return {n: self.rows[key][n] for n in nums if n in self.rows[key]}


def labelled(df, cols=None):
    """[(label, row)] of a table"""
    import pandas as pd

    if isinstance(df.index, pd.MultiIndex):
        labs = df.index.get_level_values(0)
        rest = [tuple(map(str, x[1:])) for x in df.index]
    else:
        labs, rest = df.index, [()] * len(df)
    vals = df.itertuples(index=False)
    return [(l, (*r, *(repr(x) if isinstance(x, float) else str(x) for x in v))) for l, r, v in zip(labs, rest, vals)]


def compare_block(df, key, nums, truth, set_id, cols):
    """-> None or what is wrong with one returned block"""
    name = dict(zip(truth.nums, truth.names))
    back = {v: k for k, v in name.items()}
    exp = truth.expect(key, nums)
    if cols:
        n0 = len(df.columns)
        if list(df.columns) != ["v"]:
            return f"columns {list(df.columns)}, expected only v"
    got = {}
    for lab, row in labelled(df):
        if set_id:
            if not isinstance(lab, str) or lab not in back:
                return f"row labelled {lab!r}, which is the name of no item"
            lab = back[lab]
        else:
            try:
                lab = int(lab)
            except (TypeError, ValueError):
                return f"row labelled {lab!r} instead of a number"
        got.setdefault(lab, []).append(row)
    if cols:
        c = list(truth.tables[key].columns).index("v")
        lev = truth.tables[key].index.nlevels - 1
        exp = {n: [(*x[:lev], x[lev + c]) for x in rows] for n, rows in exp.items()}
    cs = list(truth.tables[key].columns)
    if set_id and "ID" in cs and not cols and truth.tables[key].index.nlevels == 1:
        # (the label takes the place of a column called ID)
        c = cs.index("ID")
        exp = {n: [(*x[:c], *x[c + 1 :]) for x in rows] for n, rows in exp.items()}
    if sorted(got) != sorted(exp):
        return f"IDs {sorted(got)}, expected {sorted(exp)}"
    for n in exp:
        if got[n] != exp[n]:
            return f"rows of {name[n]} (number {n}): {got[n][:4]}, expected {exp[n][:4]}"
    return None


def read_session(k, ses, ns, w, vs, st, collect):
    import gc

    P = {"C15"}
    path = os.path.join(w.scratch, "out.h5")
    if not os.path.exists(path):
        return
    truth = Truth(path)
    R = ns["rt1.rtresults"]

    def add(kind, msg, **c):
        vs.append(V(P, kind, f"session {k + 1}: {msg}", session=k, **c))

    o = C.start_program(k, ses, w)
    sim = o.sim
    cnt = dict(blocks=0, reads=0, short=0)
    shared = {}

    def reader(t):
        def f():
            s_id = bool(ses["set_ID"][0 if ses["shared"] else t])
            db = None
            for _ in range(3):
                if ses["shared"] and "db" in shared:
                    db = shared["db"]
                    break
                try:
                    db = R.HDFaccessor(path, set_ID=s_id)
                    if ses["shared"]:
                        shared["db"] = db
                    break
                except OSError as e:
                    if "simulated" not in str(e):
                        add("open-failed", f"opening the container raised {e!r}")
                        return
            if db is None or db.IDs is None:
                return
            if [int(i) for i in db.IDs.index] != truth.nums or list(db.IDs.ID) != truth.names:
                add("id-list", f"IDs {list(zip(db.IDs.index, db.IDs.ID))}, stored {list(zip(truth.nums, truth.names))}")
                return
            its = {}
            for op in ses["threads"][t]:
                perform(db, op, its, t)
        return f

    def table(db, a):
        key = truth.keys[a["table"] % len(truth.keys)]
        x = db.datasets
        for part in key.lstrip("/").split("/"):
            x = getattr(x, part)
        kw = {}
        if a["cols"] and "v" in truth.tables[key].columns:
            kw["columns"] = ["v"]
        return key, x, kw

    def judge(op, key, df, nums, set_id, cols):
        cnt["reads"] += 1
        msg = compare_block(df, key, nums, truth, set_id, cols)
        if msg:
            add("wrong-block", f"{op} of table {key} with {len(truth.nums)} IDs: {msg}")

    def failed(op, e):
        if "simulated" in str(e) and sim.fault_counts:
            return
        add("read-raises", f"{op} on a container with {len(truth.nums)} IDs raised {type(e).__name__}: {e}")

    def perform(db, op, its, t):
        N = len(truth.nums)
        what = op[0]
        if what == "setid":
            # (blocks are labelled according to the setting at the time they are read)
            if not ses["shared"]:
                db.set_ID = op[1]
            return
        if what == "next":
            it = its.get(op[1])
            for _ in range(op[2]):
                if it is None or it["done"]:
                    return
                set_id = db.set_ID
                lo = it["start"] + it["given"] * it["n"]
                nums = truth.nums[lo : lo + it["n"]]
                try:
                    df = next(it["it"])
                except StopIteration:
                    it["done"] = True
                    if nums:
                        add("blocks-missing", f"{it['op']} ended after {it['given']} blocks, {len(truth.nums[lo:])} IDs are missing")
                    return
                except Exception as e:
                    it["done"] = True
                    failed(it["op"], e)
                    return
                if not nums:
                    it["done"] = True
                    add("too-many-blocks", f"{it['op']} on {N} IDs gave a block after the last ID")
                    return
                it["given"] += 1
                cnt["blocks"] += it["given"] > 1
                cnt["short"] += len(nums) < it["n"]
                judge(f"block {it['given']} of {it['op']}", it["key"], df, nums, set_id, it["cols"])
            return
        a = op[1] if what != "iter" else op[2]
        key, x, kw = table(db, a)
        start = a["start"]
        if start is not None and N:
            start = start % N
        lo = start or 0
        rk = dict(read_chunksize=a["chunk"]) if a["chunk"] else {}
        desc = f"{what} n={a['n']} start={start} chunk={a['chunk']}"
        try:
            if what == "iter":
                its[op[1]] = dict(it=x.get_nids_iter(a["n"], start=start, **rk, **kw), n=a["n"], start=lo, given=0,
                                  key=key, cols=bool(kw), done=False, op=desc)
                return
            set_id = db.set_ID
            if what == "get":
                if not N:
                    return
                judge(desc, key, x.get_nids(a["n"], start=start, **rk, **kw), truth.nums[lo : lo + a["n"]], set_id, bool(kw))
            elif what == "id":
                if not N:
                    return
                p = a["pos"] % N
                n = truth.names[p] if a["byname"] else truth.nums[p]
                judge(f"id {n!r}", key, x.get_id(n, **kw), [truth.nums[p]], set_id, bool(kw))
            elif what == "ids":
                use = []
                for p in a["pos"]:
                    if N and truth.nums[p % N] not in use:
                        use.append(truth.nums[p % N])
                if use:
                    out = list(x.get_nids_iter(use, **rk, **kw))
                    if len(out) != 1:
                        add("wrong-block", f"reading the IDs {use} gave {len(out)} blocks")
                    else:
                        judge(f"ids {use} chunk={a['chunk']}", key, out[0], use, set_id, bool(kw))
            elif what == "name":
                if N:
                    p = a["pos"] % N
                    out = list(x.get_nids_iter(truth.names[p], **kw))
                    if len(out) != 1:
                        add("wrong-block", f"reading {truth.names[p]} gave {len(out)} blocks")
                    else:
                        judge(f"name {truth.names[p]}", key, out[0], [truth.nums[p]], set_id, bool(kw))
            elif what == "select":
                judge(desc, key, x.select(**kw), sorted(truth.rows[key]), set_id, bool(kw))
        except SimKill:
            raise
        except Exception as e:
            failed(desc + f" of table {key}", e)

    def body():
        import threading

        ts = [threading.Thread(target=reader(t), name=f"T{t}") for t in range(1, len(ses["threads"]))]
        for t in ts:
            t.start()
        reader(0)()
        for t in ts:
            t.join()
        shared.clear()
        gc.collect()

    C.run_program(o, w, body)
    account(st, o)
    if collect is not None:
        collect.append((ses, o, truth))
    for x in w.denied:
        raise HarnessError(f"denied {x}")
    if o.hang is not None:
        add("hang", f"reading never ends: {o.hang}")
        return
    if o.exc is not None or o.sim.thread_errors:
        raise HarnessError(f"{o.exc!r} {o.sim.thread_errors}")
    p = st["probes"]
    p["blocks-after-first"] = p.get("blocks-after-first", 0) + cnt["blocks"]
    p["reads-compared"] = p.get("reads-compared", 0) + cnt["reads"]
    p["short-last-blocks"] = p.get("short-last-blocks", 0) + cnt["short"]
    if truth.nums != list(range(len(truth.nums))):
        p["gaps-in-numbers"] = p.get("gaps-in-numbers", 0) + 1


# ====================================================================== tables
GEN = dict(logfiles=gen_logfiles, blocks=gen_blocks)
EXEC = dict(logfiles=exec_logfiles, blocks=exec_blocks)


# ------------------------------------------------------------------ shrinking
def reductions(scn):
    ss = scn["sessions"]
    for k in range(len(ss)):
        if len(ss) > 1 and not ss[k].get("read"):
            c = copy.deepcopy(scn)
            del c["sessions"][k]
            yield c
    for k, s in enumerate(ss):
        if "cfg" in s:
            # a program that fills the container
            if s.get("faults") or s.get("fail"):
                c = copy.deepcopy(scn)
                c["sessions"][k].update(faults=[], fail={})
                yield c
            continue
        for f in range(len(s["faults"])):
            c = copy.deepcopy(scn)
            del c["sessions"][k]["faults"][f]
            yield c
        for part in ("readers", "threads"):
            for t in range(len(s.get(part, []))):
                if s[part][t]:
                    c = copy.deepcopy(scn)
                    c["sessions"][k][part][t] = []
                    yield c
        lists = [(n,) for n in ("ops", "prologue") if s.get(n)]
        lists += [(n, t) for n in ("threads", "readers") for t in range(len(s.get(n, [])))]
        for path in lists:
            def at(c):
                x = c["sessions"][k]
                for y in path:
                    x = x[y]
                return x

            n = len(at(scn))
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    c = copy.deepcopy(scn)
                    del at(c)[i : i + size]
                    yield c
                size //= 2
        if s.get("cache_size") is not None:
            c = copy.deepcopy(scn)
            c["sessions"][k]["cache_size"] = None
            yield c
