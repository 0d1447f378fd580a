"""Level A: the job pipeline (pool, combiners, writers, container) on synthetic items.

A scenario is a list of sessions over one container; every session is one
simulated program run.  The container is real (pandas/PyTables/HDF5 files).
"""
import os
import random
import shutil
import sys
import tempfile
import zlib
from pathlib import Path

from . import fakes_mp
from .kernel import HarnessError, Sim, SimKill, current_sim
from .world import REAL, World, load_rt1

CTX = None  # what the synthetic functions of the running session need


def h32(*a):
    return zlib.crc32("/".join(map(str, a)).encode())


def val(ID, table, row):
    return (h32(ID, table, row) % 100000) / 8.0


LAYOUTS = {
    # table name in the function output -> (kind, rows as function of ID)
    "plain": ["const__reader_arg", "cfg1:dyn", "cfg1:static"],
    "flat": ["const__reader_arg", "dyn", "static"],
    "const": ["const__reader_arg", "const__static", "cfg1:dyn", "const__consts_table"],
    "multi": ["const__reader_arg", "cfg1:dyn", "cfg2:dyn", "cfg1:res", "const__static"],
    "single": ["const__reader_arg"],
    "first": ["dyn", "const__reader_arg", "c:static"],
}


def final_key(name):
    if name.startswith("const__"):
        return name[len("const__") :]
    return name.replace(":", "/")


def nrows(ID, table):
    if "reader_arg" in table or "static" in table or "consts" in table:
        return 1
    return 1 + h32(ID, table) % 4


def make_frame(ID, num, table):
    import pandas as pd

    if table.endswith("reader_arg"):
        df = pd.DataFrame({"ID": ID, "k": h32(ID) % 97}, [num])
        df.index.name = "ID"
        return df
    n = nrows(ID, table)
    if "static" in table or "consts" in table:
        df = pd.DataFrame({"v": val(ID, final_key(table), 0), "tag": ID}, [num])
        if "static" in table:
            # definitions are stored as categories (see Fits._get_fit_to_hdf_dict)
            df["definition"] = pd.Categorical(["the same for all items"])
        df.index.name = "ID"
        return df
    idx = pd.MultiIndex.from_product(
        [[num], pd.date_range("2020-01-01", periods=n, freq="D")], names=["ID", "date"]
    )
    return pd.DataFrame(
        {"v": [val(ID, final_key(table), i) for i in range(n)], "tag": [ID] * n}, idx
    )


def expected_rows(ID, table):
    """content of a table for one ID: list of value tuples"""
    if table.endswith("reader_arg"):
        return [(ID, h32(ID) % 97)]
    k = final_key(table)
    if "static" in table:
        return [(val(ID, k, 0), ID, "the same for all items")]
    return [(val(ID, k, i), ID) for i in range(nrows(ID, table))]


# ------------------------------------------------------------- synthetic job
class Unpicklable:
    def __reduce__(self):
        raise TypeError("cannot pickle this result")


class BadUnpickle:
    def __reduce__(self):
        return _boom, ()


def _boom():
    raise ValueError("this result cannot be unpickled")


class ItemError(Exception):
    pass


def reader(arg):
    s = current_sim()
    c = CTX
    ID = arg["ID"]
    c["started"].append((s.steps, ID, s.current.proc.name))
    s.ev("item-start", ID)
    d = c["dur"].get(ID, [0, 0])
    if d[0]:
        s.sleep(d[0])
    c["t_last"] = s.now
    f = c["fail"].get(ID)
    if f == "reader-raise":
        raise ItemError(f"reader of {ID}")
    if f == "reader-none":
        return None
    return arg


def process(arg, *extra):
    s = current_sim()
    c = CTX
    ID = arg["ID"]
    if not c["use_reader"]:
        c["started"].append((s.steps, ID, s.current.proc.name))
        s.ev("item-start", ID)
    d = c["dur"].get(ID, [0, 0])
    if d[1]:
        s.sleep(d[1])
    s.op("item-compute", ID)
    f = c["fail"].get(ID)
    if not c["use_reader"] and f is not None:
        f = f.replace("reader-", "")
    num = arg["_RT1_ID_num"]
    if f == "raise":
        raise ItemError(f"processing of {ID}")
    if f == "none":
        out = None
    elif f == "unpicklable":
        out = {"const__reader_arg": make_frame(ID, num, "const__reader_arg"), "x": Unpicklable()}
    elif f == "badunpickle":
        out = {"const__reader_arg": make_frame(ID, num, "const__reader_arg"), "x": BadUnpickle()}
    elif f == "notdict":
        out = 42
    elif f == "string":
        out = "rt1_no_result"
    elif f == "emptydict":
        out = {}
    else:
        out = {}
        for t in c["layout"]:
            fr = make_frame(ID, num, t)
            if ":" in t:
                cfg, k = t.split(":")
                out.setdefault(cfg, {})[k] = fr
            else:
                out[t] = fr
    if f not in FAILS:
        if c["extra"] is not None and tuple(extra) != tuple(c["extra"]):
            s.probe("bad-extra-args")
            c["problems"].append(f"processing of {ID} got arguments {extra!r}")
    c["finished"].append((s.steps, ID))
    c["t_last"] = s.now
    return out


FAILS = (
    "raise", "none", "reader-raise", "reader-none", "unpicklable", "badunpickle",
    "notdict", "string", "emptydict",
)


# ------------------------------------------------------------- one session
class Outcome:
    pass


def run_session(ses, world, ns, replay=None):
    """run one session in a fresh simulation; returns an Outcome"""
    global CTX
    cfg = ses["cfg"]
    dst = Path(world.scratch) / "out.h5"
    layout = LAYOUTS[ses["layout"]]
    CTX = dict(
        dur=ses.get("dur", {}), fail=ses.get("fail", {}), layout=layout,
        use_reader=ses.get("use_reader", True), started=[], finished=[], problems=[],
        extra=None,
    )
    world.write_time = ses.get("write_time", 0.0)
    world.hdf_log = []
    world.denied = []
    sim = Sim(
        seed=ses.get("seed", 0), sched=ses.get("sched"), faults=ses.get("faults", []),
        deviations=ses.get("deviations") if replay is None else replay,
        world=world, max_steps=ses.get("max_steps", 40000), max_time=ses.get("max_time", 20000.0),
    )
    sim.on_kill = world.snapshot
    o = Outcome()
    o.sim, o.exc, o.ret, o.returned = sim, None, None, False
    o.layout = layout
    W = ns["rt1._rtprocess_writer"]
    starmap_args = []
    if ses.get("extra"):
        import itertools

        starmap_args = [itertools.repeat("x1"), itertools.repeat(7)]
        CTX["extra"] = ("x1", 7)

    import signal as _signal

    def user_handler(signum, frame):
        raise KeyboardInterrupt("user handler")

    def main():
        if ses.get("user_handlers"):
            _signal.signal(_signal.SIGTERM, user_handler)
        o.handlers_before = (
            _signal.getsignal(_signal.SIGINT), _signal.getsignal(_signal.SIGTERM)
        )
        try:
            args = [{"ID": i, "k": h32(i) % 97} for i in ses["items"]]
            with W.RT1_processor.writer_pool(
                n_worker=cfg["n_worker"], n_combiner=cfg["n_combiner"],
                n_writer=cfg["n_writer"], dst_path=dst,
                write_chunk_size=cfg["write_chunk_size"],
                out_cache_size=cfg["out_cache_size"],
            ) as w:
                o.ret = w.run_starmap(
                    arg_list=args,
                    process_func=process,
                    reader_func=reader if CTX["use_reader"] else None,
                    starmap_args=starmap_args,
                    pool_kwargs=(
                        dict(maxtasksperchild=cfg["maxtasks"]) if cfg.get("maxtasks") else None
                    ),
                )
                if ses.get("linger"):
                    sim.sleep(ses["linger"])
                    o.lingered = len(sim.stdout)
            if ses.get("create_index"):
                W.RT1_processor.create_index(dst)
            o.returned = True
        except SimKill:
            raise
        except BaseException as e:  # noqa
            o.exc = e
        o.t_return = sim.now
        o.s_return = sim.steps
        p = sim.procs[0]
        # grace period, then: what is still there?
        sim.wait(
            lambda: not [q for q in sim.procs[1:] if q.alive]
            and not [t for t in p.tasks[1:] if t.state not in ("done", "dead")],
            600.0,
            "grace",
        )
        o.leftover_procs = [q.name for q in sim.procs[1:] if q.alive]
        o.leftover_threads = [t.name for t in p.tasks[1:] if t.state not in ("done", "dead")]
        o.leftover_managers = [m.name for m in sim.managers if m.alive]
        o.leftover_handles = [
            (h._sim_rel, h._sim_mode, h._sim_proc.name) for h in world.hdf_open
        ]
        o.handlers_after = (
            _signal.getsignal(_signal.SIGINT), _signal.getsignal(_signal.SIGTERM)
        )
        # the interpreter exits: managers are finalised, children joined
        for m in sim.managers:
            m.alive = False
        fakes_mp.finally_exit(sim, p, 0)
        o.exited = True

    o.exited = False
    o.leftover_procs = o.leftover_threads = o.leftover_managers = None
    o.leftover_handles = []
    sim.run(main)
    o.hang = sim.hang
    o.killed = sim.killed
    o.started = [x[1] for x in CTX["started"]]
    o.started_ev = CTX["started"]
    o.finished = CTX["finished"]
    o.problems = list(CTX["problems"])
    o.t_last_item = CTX.get("t_last")
    o.hdf_log = list(world.hdf_log)
    o.denied = list(world.denied)
    _derive(o)
    if sim.killed:
        world.restore_snapshot()
    # everything of the finished program is gone
    for c in _caches():
        c.clear()
    return o


def _derive(o):
    """facts about the run that the oracles need"""
    sim = o.sim
    starts = [e[0] for e in sim.events if e[3] in ("manager.start", "process.start")]
    ends = [e[0] for e in sim.events if e[3] in ("manager.shutdown", "process.join")]
    o.handlers_job_ran = bool(starts)
    lo = starts[0] if starts else None
    hi = ends[-1] if ends else None
    o.in_job = lambda step: lo is not None and lo < step and (hi is None or step < hi)
    # the chunk queue is the one the processes that write the container take from
    writers = {e[3] for e in o.hdf_log if e[0] == "open" and e[4] == "a"}
    wq = {q[2] for q in sim.qlog if q[1] == "get" and q[3] in writers}
    ev = []
    for q in sim.qlog:
        if q[2] in wq:
            ev.append((q[0], 1, "put" if q[1] == "put" else "take"))
    for e in o.hdf_log:
        if e[0] == "close" and e[4] == "a":
            ev.append((e[1], 0, "stored"))
    for e in o.started_ev:
        ev.append((e[0], 2, "start"))
    ev.sort()
    out, q, qs = [], 0, None
    for step, _, what in ev:
        if what == "put":
            q += 1
            out.append((what, step))
        elif what == "take":
            out.append((what, step, qs))
            q -= 1
        elif what == "stored":
            qs = q
            out.append((what, step))
        else:
            out.append((what, step))
    o.throttle_ev = out


def _caches():
    from .world import _ALL_CACHES

    return _ALL_CACHES


# ------------------------------------------------------------- reading back
class Content:
    """what a user sees in the container"""

    def __init__(self):
        self.ids = {}  # ID -> num
        self.tables = {}  # key -> {num: sorted rows}
        self.errors = []
        self.exists = False


def read_container(path, ns, through_accessor=True):
    import pandas as pd

    c = Content()
    if not os.path.exists(path):
        return c
    c.exists = True
    R = ns["rt1.rtresults"]
    try:
        db = R.HDFaccessor(path)
    except Exception as e:
        c.errors.append(f"container cannot be opened: {type(e).__name__}: {e}")
        return c
    try:
        if db.IDs is not None:
            seen = {}
            for num, ID in zip(db.IDs.index, db.IDs.ID.values):
                seen.setdefault(ID, []).append(int(num))
            for ID, nums in seen.items():
                if len(nums) > 1:
                    c.errors.append(f"ID {ID} is listed {len(nums)} times (numbers {nums})")
                c.ids[ID] = nums[0]
            allnums = [int(x) for x in db.IDs.index]
            for n in set(allnums):
                if allnums.count(n) > 1:
                    c.errors.append(
                        f"number {n} is shared by {[i for i, x in zip(db.IDs.ID.values, allnums) if x == n]}"
                    )
        for key in db.store.keys():
            if key.endswith("/meta") or "/meta/" in key:
                continue
            try:
                df = db.store.select(key)
            except Exception as e:
                c.errors.append(f"table {key} cannot be read: {type(e).__name__}: {e}")
                continue
            rows = {}
            nums = (
                df.index.get_level_values(0) if isinstance(df.index, pd.MultiIndex) else df.index
            )
            for n, r in zip(nums, df.itertuples(index=False)):
                rows.setdefault(int(n) if _isint(n) else n, []).append(tuple(r))
            c.tables[key.lstrip("/")] = rows
        if through_accessor and c.ids and not c.errors:
            _check_access(db, c)
    finally:
        db.close()
    return c


def _check_access(db, c):
    """reading single items by their number or name gives the rows filed under this number"""
    ids = sorted(c.ids.items(), key=lambda x: x[1])
    keys = sorted(k for k in c.tables if c.tables[k])
    k = h32("access", len(ids), len(keys), ids[-1][0])
    use = [(ids[-1], k % 2), (ids[k % len(ids)], 1 - k % 2)]
    for i, ((ID, num), byname) in enumerate(use):
        key = keys[(k // 7 + i) % len(keys)]
        x = db.datasets
        for part in key.split("/"):
            x = getattr(x, part)
        n = ID if byname else num
        try:
            df = x.get_id(n)
        except Exception as e:
            c.errors.append(f"reading item {n!r} of table {key} fails: {type(e).__name__}: {e}")
            continue
        got = [tuple(r) for r in df.itertuples(index=False)]
        labels = {int(j) for j in df.index.get_level_values(0)}
        if not cmp_rows(got, c.tables[key].get(num, [])) or labels - {num}:
            c.errors.append(
                f"reading item {n!r} of table {key} gave {len(got)} rows of the items {sorted(labels)} "
                f"instead of the {len(c.tables[key].get(num, []))} rows filed under {num}"
            )


def _isint(n):
    try:
        int(n)
        return True
    except Exception:
        return False


def norm(ID):
    import keyword

    ID = str(ID)
    return ID if ID.isidentifier() and not keyword.iskeyword(ID) else f"RT1_{ID}"


def cmp_rows(a, b):
    """same rows (order inside one ID is part of the data)"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        for u, v in zip(x, y):
            if isinstance(u, float) or isinstance(v, float):
                if abs(float(u) - float(v)) > 1e-9:
                    return False
            elif str(u) != str(v):
                return False
    return True
