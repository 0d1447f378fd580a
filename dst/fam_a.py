"""Level A scenario families (job pipeline on synthetic items) and their oracles."""
import random
import re
from pathlib import Path

from . import level_a as A
from .world import World

REAL_COMPONENTS = [
    "rt1._rtprocess_writer.RT1_processor (pool workers, combiners, writers, progress thread, signals)",
    "rt1.rtresults.HDFaccessor", "rt1.general_functions", "pandas/PyTables/HDF5 container files",
]
STUB_COMPONENTS = [
    "multiprocessing (processes, pools, managers, queues, locks, events, values; spawn semantics, "
    "pickling with cloudpickle)",
    "threading", "time and timers (virtual clock)", "signal delivery", "terminal (stdout captured)",
    "HDFStore opening/writing wrapped (locking between processes, faults, slow writes)",
    "item functions (synthetic reader and processing function)",
]

TABLES = {k: [A.final_key(t) for t in v] for k, v in A.LAYOUTS.items()}
DISRUPT = ("kill", "signal", "hdf_error", "hdf_open_error")


# ------------------------------------------------------------------ generating
def gen_sched(r, stalls=True):
    k = r.random()
    if k < 0.15:
        d = dict(policy="random", p_switch=0.0)
    elif k < 0.75:
        d = dict(policy="random", p_switch=r.choice([0.05, 0.2, 0.5, 0.9]))
    else:
        d = dict(policy="pct", p_change=r.choice([0.005, 0.03, 0.1]))
    if stalls and r.random() < 0.35:
        d["p_stall"] = r.choice([0.005, 0.02, 0.06])
        d["stalls"] = r.choice([[0.05], [0.3, 2.5], [1.0, 6.0], [0.1, 12.0], [30.0]])
    return d


def gen_ids(r, n):
    style = r.random()
    if style < 0.6:
        ids = [f"i{k}" for k in range(n)]
    elif style < 0.8:
        ids = [str(k * 3 + 1) for k in range(n)]
    elif style < 0.9:
        ids = [f"p{k}_{k+1}" if k % 2 else str(k) for k in range(n)]
    else:
        ids = [f"a{k // 2}.{k % 2}" for k in range(n)]
    r.shuffle(ids)
    return ids


def gen_cfg(r, big=False):
    return dict(
        n_worker=r.choice([1, 1, 2, 2, 3, 4]),
        n_combiner=r.choice([1, 2, 2, 3]),
        n_writer=r.choice([1, 1, 1, 2, 3]),
        write_chunk_size=r.choice([1, 1, 2, 3, 5, 1000]),
        out_cache_size=r.choice([1, 2, 3, 10]),
    )


def gen_dur(r, ids):
    k = r.random()
    if k < 0.3:
        return {}
    if k < 0.6:
        return {i: [0, round(r.uniform(0, 3), 2)] for i in ids}
    if k < 0.85:
        return {i: [r.choice([0, 0, 1]), r.choice([0, 0.2, 4, 11])] for i in ids}
    return {i: [0, 0 if r.random() < 0.8 else 40] for i in ids}


def gen_session(r, ids, layout, **kw):
    cfg = gen_cfg(r)
    if r.random() < 0.1:
        cfg["maxtasks"] = r.choice([1, 2])
    s = dict(
        items=list(ids), cfg=cfg, layout=layout, seed=r.randrange(1 << 30),
        sched=gen_sched(r), dur=gen_dur(r, ids), fail={}, faults=[],
        write_time=r.choice([0, 0, 0, 0.3, 3.0]),
        use_reader=r.random() < 0.7, extra=r.random() < 0.2,
        create_index=r.random() < 0.15,
    )
    s.update(kw)
    return s


def pick_fails(r, ids, p=0.3):
    return {i: r.choice(A.FAILS) for i in ids if r.random() < p}


OPS_POINT = [
    ("*", 1600), ("*", 400), ("hdf.append", 14), ("hdf.open", 6), ("hdf.remove", 3),
    ("item-compute", 10), ("queue.put", 14), ("queue.get", 30), ("pool.*", 12),
    ("process.*", 16), ("lock.*", 60), ("event.*", 60), ("os.*", 6), ("thread.*", 6),
    ("manager.*", 3), ("value.*", 60), ("proxy.*", 60),
]


def gen_point(r):
    op, m = r.choice(OPS_POINT)
    return op, r.randint(1, m)


def gen_kill(r):
    op, n = gen_point(r)
    return dict(kind="kill", op=op, n=n)


def gen_signal(r):
    op, n = gen_point(r)
    d = dict(
        kind="signal", op=op, n=n, sig=r.choice(["TERM", "INT"]),
    )
    d["target"] = r.choice(["main", "group"]) if d["sig"] == "INT" else "main"
    if r.random() < 0.2:
        d["again"] = True
    return d


def gen_wfault(r):
    k = r.random()
    if k < 0.25:
        return dict(kind="hdf_open_error", op="hdf.open-a", n=r.randint(1, 4), count=r.choice([1, 1, 2]))
    if k < 0.35:
        return dict(kind="hdf_open_error", op="hdf.open-a", n=r.randint(1, 3), count=10**6)
    return dict(
        kind="hdf_error", op="hdf.append", n=r.randint(1, 10),
        count=r.choice([1, 1, 1, 2, 10**6]), torn=r.random() < 0.5,
    )


def gen(family, seed):
    r = random.Random(f"{family}/{seed}")
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 10])
    ids = gen_ids(r, n)
    layout = r.choice(list(A.LAYOUTS))
    ses = []
    if family == "clean":
        for k in range(r.choice([1, 1, 1, 2, 3])):
            sub = ids if k or r.random() < 0.6 else ids[: r.randint(1, n)]
            if r.random() < 0.2:
                sub = list(sub)
                r.shuffle(sub)
            ses.append(gen_session(r, sub, layout, linger=r.choice([0, 0, 60])))
    elif family == "writers":
        s = gen_session(r, ids, layout)
        s["cfg"].update(n_writer=r.choice([2, 3, 4]), write_chunk_size=r.choice([1, 1, 2]))
        s["write_time"] = r.choice([0, 0.3, 3.0])
        ses.append(s)
    elif family == "throttle":
        n = r.choice([6, 8, 10, 12])
        ids = [f"i{k}" for k in range(n)]
        s = gen_session(r, ids, "single" if r.random() < 0.5 else layout)
        s["cfg"].update(
            n_writer=1, write_chunk_size=r.choice([1, 1, 2]), out_cache_size=r.choice([1, 1, 2, 3]),
            n_worker=r.choice([1, 2, 3]),
        )
        s["cfg"].pop("maxtasks", None)
        s["write_time"] = r.choice([2.0, 7.0, 20.0])
        s["dur"] = r.choice([{}, {i: [0, 0.5] for i in ids}, gen_dur(r, ids)])
        s["use_reader"] = r.random() < 0.5
        ses.append(s)
    elif family == "fails":
        f = pick_fails(r, ids, r.choice([0.15, 0.4, 1.0]))
        ses.append(gen_session(r, ids, layout, fail=f, linger=r.choice([0, 60])))
        if r.random() < 0.7:
            f2 = {i: v for i, v in f.items() if r.random() < 0.3}
            ses.append(gen_session(r, ids, layout, fail=f2, linger=r.choice([0, 60])))
    elif family == "progress":
        f = pick_fails(r, ids, r.choice([0.0, 0.3, 0.6, 1.0]))
        if r.random() < 0.3:
            ses.append(gen_session(r, ids[: r.randint(1, n)], layout, fail={}, create_index=False))
        ses.append(gen_session(r, ids, layout, fail=f, linger=r.choice([60, 200])))
    elif family in ("kill", "signal", "wfault", "mixed"):
        g = dict(kill=gen_kill, signal=gen_signal, wfault=gen_wfault)
        for k in range(r.choice([1, 1, 2])):
            mk = g[family] if family != "mixed" else r.choice(list(g.values()))
            s = gen_session(r, ids, layout, faults=[mk(r)], create_index=False)
            if family == "mixed":
                s["fail"] = pick_fails(r, ids, 0.15)
                if r.random() < 0.3:
                    s["faults"].append(r.choice(list(g.values()))(r))
                if r.random() < 0.3:
                    s["items"] = ids[: r.randint(1, n)]
            if family == "signal" and r.random() < 0.3:
                s["user_handlers"] = True
            if r.random() < 0.4:
                s["write_time"] = r.choice([0.3, 3.0])
            ses.append(s)
        ses.append(gen_session(r, ids, layout))
        if r.random() < 0.15:
            ses.append(gen_session(r, ids, layout))
    else:
        raise ValueError(family)
    return dict(level="A", family=family, seed=seed, sessions=ses)


# ------------------------------------------------------------------ judging
class V:
    """one violation"""

    def __init__(self, props, kind, msg, **ctx):
        self.props, self.kind, self.msg, self.ctx = sorted(set(props)), kind, msg, ctx

    def as_dict(self):
        return dict(props=self.props, kind=self.kind, msg=self.msg, ctx=self.ctx)


def execute(scn, ns, scratch, collect=None):
    """run all sessions of a scenario; returns (violations, stats)"""
    vs = []
    w = World(scratch)
    path = Path(scratch) / "out.h5"
    before = A.read_container(path, ns)
    hist = dict(disrupted=False, raw={})
    st = dict(sessions=0, steps=0, simtime=0.0, faults={}, probes={}, digests=[], il=[], devs=[], notes=[])
    for k, ses in enumerate(scn["sessions"]):
        o = A.run_session(ses, w, ns)
        after = A.read_container(path, ns)
        st["sessions"] += 1
        st["steps"] += o.sim.steps
        st["simtime"] += o.sim.now - o.sim.t0
        for a, b in ((st["faults"], o.sim.fault_counts), (st["probes"], o.sim.probes)):
            for x, y in b.items():
                a[x] = a.get(x, 0) + y
        st["digests"].append(o.sim.digest())
        st["il"].append(o.sim.interleaving())
        st["devs"].append(o.sim.deviations)
        if collect is not None:
            collect.append((ses, o, before, after))
        judge(k, ses, o, before, after, hist, vs, st)
        before = after
        if vs and any(v.kind == "hang" for v in vs):
            break
    return vs, st


def was_disrupted(o):
    return any(f.startswith(DISRUPT) for f in o.sim.fault_counts)


PROG = re.compile(r"(\d+) \[(-?\d+)\] / (\d+)")
FIN = re.compile(r"finished! \((\d+) \[(-?\d+)\] fits\)")


def judge(k, ses, o, before, after, hist, vs, st):
    sim = o.sim
    layout = A.LAYOUTS[ses["layout"]]
    disr = was_disrupted(o)
    signalled = any(f.startswith("signal") for f in sim.fault_counts)
    fails = ses.get("fail", {})
    items = ses["items"]
    nitem = {A.norm(i): i for i in items}
    pre = f"session {k + 1}: "

    def add(props, kind, msg, **c):
        vs.append(V(props, kind, pre + msg, session=k, **c))

    hist_now = hist["disrupted"] or disr
    if disr:
        base = {"C06"}
    elif hist["disrupted"]:
        base = {"C03"}
    elif fails or hist.get("fails"):
        base = {"C02"}
    else:
        base = {"C01"}
        if ses["cfg"]["n_writer"] > 1:
            base = {"C01", "C07"}
    if ses["cfg"]["out_cache_size"] <= 3 and not disr and not hist["disrupted"]:
        base = base | {"C08"}

    # --- liveness
    if o.hang is not None:
        p = {"C05"}
        if signalled:
            p.add("C10")
        if not disr:
            p |= base - {"C06"}
        add(p, "hang", f"the run never ends: {o.hang}", hang=o.hang.kind)
        return
    if not o.killed:
        if not o.exited:
            add({"C05"} | ({"C10"} if signalled else set()), "no-exit", "main process did not reach its end")
        left = {}
        if o.leftover_procs:
            left["processes"] = o.leftover_procs
        if o.leftover_threads:
            left["threads"] = o.leftover_threads
        if o.leftover_managers:
            left["managers"] = o.leftover_managers
        if left and o.handlers_job_ran:
            add({"C05"} | ({"C10"} if signalled else set()), "leftover", f"left behind: {left}")
        # (an exception that is still referenced may keep a reader open)
        if [h for h in o.leftover_handles if h[1] != "r" or o.exc is None]:
            add({"C07"}, "handle-left", f"container still open: {o.leftover_handles}")
        # (a signal that hits the very restoration of the handlers is not judged)
        edge = [d for d in sim.delivered if d[2] == "MainProcess" and not o.in_job(d[0])]
        if o.handlers_after != o.handlers_before and not edge:
            add({"C10"}, "handlers", f"signal handlers {o.handlers_before} -> {o.handlers_after}")
        if signalled:
            judge_signal(ses, o, add)
        elif not disr:
            if not o.returned:
                add(base | {"C05"} if False else base, "raised", f"run raised {o.exc!r}")
            # bounded end after the last item
            if not sim.fault_counts.get("stall"):
                t_last = max([0.0] + [t for t in (o.t_last_item,) if t])
                bound = 60 + ses.get("linger", 0) + (len(items) + 2) * len(layout) * (ses.get("write_time", 0) + 0.0)
                if o.t_return - max(t_last, sim.t0) > bound + 60:
                    add({"C05"}, "slow-end", f"run returned {o.t_return - t_last:.0f} s after its last item")
    # --- single writer
    for e in o.hdf_log:
        if e[0] == "conflict":
            add({"C07"}, "concurrent-open", f"{e[3]} opened the container ({e[4]}) while {e[5]} had it open ({e[6]})")
            break
    if o.denied:
        add({"C12"}, "outside", f"touched paths outside the work area: {o.denied[:3]}")
    for p in o.problems:
        add(base, "args", p)

    # --- container
    opened_by_kill = o.killed and any(e for e in o.hdf_log)
    for e in after.errors:
        if "listed" in e or "shared" in e:
            add({"C04"} | base | ({"C03"} if hist_now else set()), "number-clash", e)
        elif e.startswith("reading item"):
            add({"C04"}, "wrong-read", e)
        else:
            add(({"C06"} if hist_now else base), "unreadable", e)
    for ID, num in before.ids.items():
        if ID not in after.ids:
            if not any("cannot be opened" in e for e in after.errors):
                add({"C03", "C04", "C06"}, "lost", f"{ID} was stored before and is gone")
        elif after.ids[ID] != num:
            add({"C03", "C04"}, "renumbered", f"{ID} had number {num}, now {after.ids[ID]}")
    keys = TABLES[ses["layout"]]
    num2id = {v: i for i, v in after.ids.items()}
    for ID, num in after.ids.items():
        raw = nitem.get(ID) or hist["raw"].get(ID)
        if raw is None:
            add({"C01"} | base, "phantom", f"{ID} is listed but is no item of the run")
            continue
        hist["raw"][ID] = raw
        for t, key in zip(layout, keys):
            got = after.tables.get(key, {}).get(num, [])
            exp = A.expected_rows(raw, t)
            if A.cmp_rows(got, exp):
                continue
            was = before.ids.get(ID) is not None and before.tables.get(key, {}).get(num)
            foreign = [x for x in got if str(x[-1]) != str(raw)] if key != "reader_arg" else [
                x for x in got if str(x[0]) != str(raw)
            ]
            p = set(base)
            if hist_now:
                p.add("C06")
            if foreign:
                p |= {"C04"}
            if was and A.cmp_rows(was, exp):
                p |= {"C03"}
            if hist["disrupted"] and not was:
                p |= {"C03"}
            add(p, "foreign-rows" if foreign else ("missing-rows" if len(got) < len(exp) else "wrong-rows"),
                f"{ID} (number {num}): table {key} holds {len(got)} rows {got[:3]}, expected {len(exp)} {exp[:2]}")
            break
    extra_tables = set(after.tables) - set(keys)
    if extra_tables and hist.setdefault("keys", set()) | set(keys) != hist["keys"] | set(after.tables):
        add(base, "unknown-table", f"unexpected tables {sorted(extra_tables)}")
    orphans = {
        key: sorted(n for n in rows if n not in num2id) for key, rows in after.tables.items()
    }
    orphans = {a: b for a, b in orphans.items() if b}
    if orphans and not disr and not after.errors:
        add(base, "orphans", f"rows filed under numbers nobody owns: {orphans}")

    ok_end = not disr and not o.killed
    failing = {i for i in items if i in fails}
    if ok_end and not any("cannot" in e for e in after.errors):
        for i in items:
            n = A.norm(i)
            if n in before.ids:
                continue
            if i in failing:
                if n in after.ids:
                    add({"C02"}, "failed-stored", f"failing item {i} ({fails[i]}) is listed")
            elif n not in after.ids:
                p = set(base)
                if failing:
                    p.add("C02")
                add(p, "item-missing", f"item {i} is not stored; failing items: {fails}")
        # accounting of work
        todo = [i for i in items if A.norm(i) not in before.ids]
        done = {}
        for i in o.started:
            done[i] = done.get(i, 0) + 1
        again = [i for i in done if A.norm(i) in before.ids]
        if again:
            add({"C03"}, "rework", f"already stored items were processed again: {again}")
        twice = [i for i in done if done[i] > 1]
        if twice:
            add({"C01", "C03"}, "twice", f"items processed more than once in one run: {twice}")
        notdone = [i for i in todo if i not in done]
        if notdone:
            add(base | {"C03", "C02"} if hist.get("fails") else base | {"C03"}, "not-processed", f"items not processed: {notdone}")
        judge_progress(ses, o, todo, failing, add)
        if ses["cfg"]["n_writer"] == 1:
            judge_throttle(ses, o, add, st)
    else:
        again = [i for i in o.started if A.norm(i) in before.ids]
        if again:
            add({"C03"}, "rework", f"already stored items were processed again: {again}")
    hist["disrupted"] = hist["disrupted"] or disr
    hist["fails"] = hist.get("fails") or bool(fails)
    hist.setdefault("keys", set()).update(keys)
    # what happened, for the coverage measures
    P = st["probes"]

    def probe(n, c=1):
        if c:
            P[n] = P.get(n, 0) + c

    probe("items-stored", len(after.ids) >= 2 and len(after.ids) > len(before.ids))
    probe("failing-items", bool(fails) and any(i in fails for i in o.started))
    probe("resumed", bool(before.ids))
    probe("resumed-after-disruption", bool(before.ids) and hist_now)
    probe("many-writers", len({e[3] for e in o.hdf_log if e[0] == "open" and e[4] == "a"}) > 1)
    probe("progress-shown", bool(PROG.search("".join(t[2] for t in sim.stdout if t[1] == "out"))))
    probe("chunks-stored", len([1 for e in o.hdf_log if e[0] == "close" and e[4] == "a"]))
    st["notes"].append(
        (
            "kill" if o.killed else ("exc" if o.exc is not None else "ok"),
            len(after.ids), len(items), tuple(sorted(sim.fault_counts)),
        )
    )


def judge_signal(ses, o, add):
    job = [d for d in o.sim.delivered if d[2] == "MainProcess"]
    if not job or not o.handlers_job_ran:
        return
    step, sig, _, kind = job[0]
    if kind == "handler" and o.in_job(step):
        if not isinstance(o.exc, SystemExit):
            if ses.get("user_handlers") and isinstance(o.exc, KeyboardInterrupt):
                return
            add({"C10"}, "signal-outcome", f"{sig} reached the running job but it ended with {o.exc!r}"
                if o.exc is not None else f"{sig} reached the running job but it returned normally")
    elif kind == "default" and o.in_job(step):
        add({"C10"}, "signal-unhandled", f"{sig} reached the running job while the default handling was installed")


def judge_progress(ses, o, todo, failing, add):
    sim = o.sim
    total = len(todo)
    nfail = len([i for i in todo if i in failing])
    # (whether a result without any table counts as failed is left open)
    nempty = len([i for i in todo if ses["fail"].get(i) == "emptydict"])
    txt = "".join(t[2] for t in sim.stdout if t[1] == "out")
    last = 0
    for m in PROG.finditer(txt):
        a, b, c = int(m.group(1)), int(m.group(2)), int(m.group(3))
        if c != total and total:
            add({"C09"}, "progress-total", f"progress shows a total of {c}, there are {total} items to process")
            return
        if a > total:
            add({"C09"}, "progress-over", f"progress shows {a} of {total}")
            return
        if b < 0 or b > nfail:
            add({"C09"}, "progress-fail-over", f"progress shows {b} failed, there are {nfail}")
            return
    fin = FIN.findall(txt)
    for a, b in fin:
        if int(a) != total:
            add({"C09"}, "final-total", f"final message counts {a} items, there are {total}")
            return
        if int(b) > nfail or int(b) < 0:
            add({"C09"}, "final-fail-over", f"final message counts {b} failed items, there are {nfail}")
            return
    if ses.get("linger") and total and o.returned and not sim.fault_counts.get("stall"):
        if not fin:
            add({"C09"}, "no-final", f"all {total} items are done, but the progress never says so: {txt[-160:]!r}")
        elif int(fin[-1][0]) != total or not nfail - nempty <= int(fin[-1][1]) <= nfail:
            add({"C09"}, "final-count", f"final message is {fin[-1]}, expected {(total, nfail)}")


def judge_throttle(ses, o, add, st):
    """while the writer stores a chunk with a full cache, only stragglers start"""
    limit = ses["cfg"]["out_cache_size"]
    nw = ses["cfg"]["n_worker"]
    q = 0
    chain = False  # the cache has been full since the last such window
    starts = 0
    full_windows = 0
    for ev in o.throttle_ev:
        what, step = ev[0], ev[1]
        if what == "put":
            q += 1
        elif what == "take":
            # full all the time since the previous chunk was stored: nothing
            # but the writer takes chunks, so every check in between saw it full
            if ev[2] is not None and ev[2] >= limit:
                if not chain:
                    starts = 0
                chain = True
                full_windows += 1
            else:
                chain = False
            q -= 1
        elif what == "start":
            if chain:
                starts += 1
                if starts > nw:
                    add({"C08"}, "not-throttled",
                        f"{starts} items started while the cache of {limit} chunks was full and the writer busy ({nw} workers)")
                    return
        elif what == "stored":
            if q < limit:
                chain = False
    st["probes"]["full-cache-window"] = st["probes"].get("full-cache-window", 0) + full_windows


# ------------------------------------------------------------------ shrinking
def reductions(scn):
    """smaller scenarios, biggest cuts first"""
    import copy

    ss = scn["sessions"]
    for k in range(len(ss)):
        if len(ss) > 1:
            c = copy.deepcopy(scn)
            del c["sessions"][k]
            yield c
    for k, s in enumerate(ss):
        for f in range(len(s["faults"])):
            c = copy.deepcopy(scn)
            del c["sessions"][k]["faults"][f]
            yield c
    allids = sorted({i for s in ss for i in s["items"]})
    for i in allids:
        if len(allids) > 1:
            c = copy.deepcopy(scn)
            for s in c["sessions"]:
                s["items"] = [x for x in s["items"] if x != i]
                s["fail"].pop(i, None)
                s["dur"].pop(i, None)
            if all(s["items"] for s in c["sessions"]):
                yield c
    for k, s in enumerate(ss):
        for i in list(s["fail"]):
            c = copy.deepcopy(scn)
            c["sessions"][k]["fail"].pop(i)
            yield c
        for key, v in (("dur", {}), ("write_time", 0), ("linger", 0), ("create_index", False),
                       ("user_handlers", False), ("extra", False)):
            if s.get(key) and s[key] != v:
                c = copy.deepcopy(scn)
                c["sessions"][k][key] = v
                yield c
        for key, v in (("n_worker", 1), ("n_combiner", 1), ("n_writer", 1), ("maxtasks", None)):
            if s["cfg"].get(key) and s["cfg"][key] != v:
                c = copy.deepcopy(scn)
                c["sessions"][k]["cfg"][key] = v
                yield c
