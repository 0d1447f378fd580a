"""Level B scenario families (whole program runs on real fits) and their oracles."""
import configparser
import copy
import os
import random
import re
from pathlib import Path

from . import level_b as B
from . import ref_b as R
from .fam_a import V, gen_sched
from .world import REAL, World

REAL_COMPONENTS = [
    "rt1.rtprocess.RTprocess (set-up, prompts, logging, processing, final output, HDF export)",
    "rt1._rtprocess_writer.RT1_processor", "rt1.rtresults", "rt1.rtparse", "rt1.processing_config",
    "rt1.rtfits (fits, multi-config fits, HDF dicts)", "rt1.rt1 model, rtmetrics",
    "logging (handlers, queue handlers, log files)", "import of the project's modules",
    "pandas/PyTables/HDF5 container files, all other files",
]
STUB_COMPONENTS = [
    "multiprocessing (processes, pools, managers, queues, locks, events, values; spawn semantics)",
    "threading", "time, datetime and timers (virtual clock)", "signal delivery",
    "terminal (stdout captured, prompts answered by the scenario)",
    "file and container operations wrapped (faults, points of interruption)",
    "user project (reader, pre- and post-processing on synthetic data)",
]

WORK = "save/out"
CFG = WORK + "/cfg"


# ------------------------------------------------------------------ generating
def gen_items(r, n):
    style = r.random()
    if style < 0.35:
        ids = list(range(1, n + 1))
    elif style < 0.7:
        ids = [f"s{k}" for k in range(n)]
    else:
        odd = ["b.c", "a1", "7x", "p_q", "s0", "z-1"]
        ids = [odd[k] if k < 6 else f"s{k}" for k in range(n)]
    r.shuffle(ids)
    return ids


RFAIL = ["raise", "skip", "data", "none", "empty", "baddata"]


def gen_fail(r, ids, p, post=False):
    kinds = ["raise", "skip"] if post else RFAIL
    return {str(i): r.choice(kinds) for i in ids if r.random() < p}


def gen_durs(r, ids):
    if r.random() < 0.5:
        return {}
    return {str(i): r.choice([0, 0, 0.5, 3.0, 8.0]) for i in ids}


def gen_project(r, multi=0.25, intq=0.06, **kw):
    p = dict(
        multi=r.random() < multi, aux=r.random() < 0.5, int_Q=r.random() < intq,
        extra=r.random() < 0.4, sibling=r.random() < 0.5, pad=r.choice([0, 3, 400]),
        N_freq=r.choice(["index", "index", "None", "30D"]),
    )
    if r.random() < 0.2:
        p["bsf"] = "[False, auxiliary]"
    p.update(kw)
    return p


def gen_run(r, ids, **kw):
    a = dict(
        do="run", ncpu=r.choice([1, 2, 2, 3]), items=list(ids), dur=gen_durs(r, ids),
        logfile_level=r.choice([10, 20, 21, 21, 21, 30]), answers=["YES"],
        init=r.random() < 0.4, pool_kwargs=r.choice([None, "preprocess"]),
        direct_args=r.random() < 0.2,
    )
    if r.random() < 0.15:
        a["maxtasks"] = r.choice([1, 2])
        a["pool_kwargs"] = "preprocess"
    if r.random() < 0.25:
        a["create_index"] = True
    a.update(kw)
    return a


def gen_final(r, ids, **kw):
    a = dict(do="final", ncpu=r.choice([1, 2, 2, 3]), answers=[], dur=gen_durs(r, ids),
             logfile_level=r.choice([10, 20, 21, 21, 30]), create_index=r.random() < 0.3)
    if r.random() < 0.3:
        a["write_chunk_size"] = r.choice([1, 2])
    if r.random() < 0.15:
        a["n_writer"] = 2
    if r.random() < 0.15:
        a["out_cache_size"] = 1
    a.update(kw)
    return a


PARAMS = ["sig", "inc", "tot", "surf", "vol", "inter", "N", "tau", "omega", "t_v", "bsf", "k", "total", "double"]


def gen_export(r, ids, p, **kw):
    ps = [x for x in PARAMS if r.random() < 0.4 and (x != "inter" or p.get("int_Q"))] or ["sig"]
    fs = [f for f in ("total", "double") if f in ps]
    m = {}
    for name, v in (("R", ("pearson", "sig", "tot")), ("D", ("rmsd", "sig", "tot")), ("Bi", ("bias", "sig", "tot"))):
        if r.random() < 0.4:
            m[name] = v
    a = gen_final(r, ids)
    a.update(do="export", parameters=ps, functions=fs, metrics=m, finalout_name="exp.h5",
             sig_to_dB=r.random() < 0.25, inc_to_degree=r.random() < 0.25)
    a.pop("dur", None)
    a.update(kw)
    return a


def gen_ses(r, actions, **kw):
    s = dict(
        actions=actions, seed=r.randrange(1 << 30), sched=gen_sched(r), faults=[],
        levels=sorted(r.sample([10, 15, 20, 21, 25, 30, 40], r.choice([0, 1, 2]))),
        write_time=r.choice([0, 0, 0, 0.3]),
    )
    s.update(kw)
    return s


OPS_B = [
    ("file.*", 40), ("file.*", 12), ("os.*", 25), ("input", 1), ("rmtree", 1), ("*", 2500), ("*", 500),
    ("hdf.append", 14), ("hdf.*", 60), ("process.*", 12), ("queue.put", 40), ("pool.*", 10),
]


def gen_kill(r, setup=False):
    op, m = r.choice(OPS_B[:5] if setup else OPS_B)
    return dict(kind="kill", op=op, n=r.randint(1, m))


def gen_file_error(r):
    op, m = r.choice([("file.*", 30), ("file.write", 20), ("file.open", 6), ("os.*", 20), ("os.mkdir", 4), ("file.close", 6)])
    return dict(kind="file_error", op=op, n=r.randint(1, m), count=r.choice([1, 1, 2]))


def gen_hdf(r):
    if r.random() < 0.2:
        return dict(kind="hdf_open_error", op="hdf.open-a", n=r.randint(1, 3), count=1)
    return dict(kind="hdf_error", op="hdf.append", n=r.randint(1, 8), count=1, torn=r.random() < 0.5)


OVERRIDE = [
    {"least_squares_kwargs": {"max_nfev": "3"}},
    {"defdict": {"t_v": "[False, 0.25]"}},
    {"defdict": {"tau": "[True, 0.4, None, 0.01, 1.2]"}},
]


def gen(family, seed):
    r = random.Random(f"B/{family}/{seed}")
    n = r.choice([1, 2, 3, 3, 4, 5])
    if family == "indep" and r.random() < 0.3:
        # (more items than chunks: a worker handles several items in a row)
        n = r.randint(5, 11)
    ids = gen_items(r, n)
    ses = []
    if family == "log":
        p = gen_project(r, multi=0.15, intq=0.02)
        for k in range(r.choice([1, 1, 2])):
            acts = []
            for j in range(r.choice([1, 2, 2, 3])):
                x = r.random()
                f = gen_fail(r, ids, r.choice([0, 0, 0.3]))
                if x < 0.65 or not acts and k == 0:
                    a = gen_run(r, ids if r.random() < 0.7 else ids[: r.randint(1, n)], fail=f)
                    if r.random() < 0.12:
                        a["pre_fail"] = True
                else:
                    a = gen_final(r, ids, fail=gen_fail(r, ids, 0.2, True))
                    if r.random() < 0.3:
                        a["finalout_name"] = "b.h5"
                if r.random() < 0.12:
                    a["logfile_level"] = None
                if a["do"] == "run" and r.random() < 0.08:
                    a["answers"] = ["no"]
                a["obj"] = r.choice(["p", "p", "new"])
                acts.append(a)
            s = gen_ses(r, acts)
            s["levels"] = sorted(r.sample([10, 15, 20, 21, 25, 30, 40], r.choice([1, 2, 3])))
            ses.append(s)
    elif family == "folder":
        p = gen_project(r, multi=0.1, intq=0.0)
        m = r.choice([1, 2, 2, 3])
        tag = 1
        for k in range(m):
            acts = []
            for j in range(r.choice([1, 1, 2])):
                a = gen_run(r, ids[: r.randint(1, min(n, 3))])
                a["answers"] = r.choice([
                    ["YES"], ["y"], ["Y"], ["yes"], ["NO"], ["n"], ["what"], [""], ["REMOVE", "y"], ["remove", "YES"],
                    ["REMOVE", "n"], ["REMOVE", "maybe"], ["REMOVE", ""], ["YES"], ["YES"],
                ])
                x = r.random()
                if x < 0.12:
                    a["autocontinue"] = True
                    a["answers"] = []
                elif x < 0.24:
                    a["override"] = r.choice(OVERRIDE)
                if r.random() < 0.25:
                    tag += 1
                    a["new_tag"] = f"v{tag}"
                if j and r.random() < 0.4:
                    a = gen_final(r, ids)
                a["obj"] = r.choice(["p", "new", "new"])
                acts.append(a)
            s = gen_ses(r, acts)
            if r.random() < 0.75:
                s["faults"] = [gen_kill(r, r.random() < 0.8) if r.random() < 0.6 else gen_file_error(r)]
            ses.append(s)
        a = gen_run(r, ids[: min(n, 3)], answers=["YES"])
        ses.append(gen_ses(r, [a]))
    elif family in ("export", "export_faults"):
        p = gen_project(r, unique=True, multi=0.3, intq=0.05)
        k = r.randint(1, n)
        acts = [gen_run(r, ids[:k], fail=gen_fail(r, ids, r.choice([0, 0.2])))]
        name = "exp.h5"
        exp = gen_export(r, ids, p)
        for j in range(r.choice([1, 2, 2, 3])):
            x = r.random()
            if x < 0.4:
                acts.append(gen_final(r, ids, fail=gen_fail(r, ids, r.choice([0, 0.3]), True)))
                if r.random() < 0.3:
                    acts[-1]["use_N_files"] = r.randint(1, n)
            elif x < 0.85:
                a = copy.deepcopy(exp)
                a["ncpu"] = r.choice([1, 2, 3])
                if r.random() < 0.3:
                    a["use_nfiles"] = r.randint(1, n)
                acts.append(a)
            if r.random() < 0.4:
                acts.append(gen_run(r, ids, fail={}))
        for a in acts:
            a["obj"] = r.choice(["p", "p", "new"])
            if a["do"] == "final" and a["obj"] == "p":
                # (an output given to an object is kept)
                a["finalout_name"] = "fin.h5"
        if len(acts) > 2 and r.random() < 0.4:
            c = r.randint(1, len(acts) - 1)
            parts = [acts[:c], acts[c:]]
        else:
            parts = [acts]
        for q in parts:
            ses.append(gen_ses(r, q))
        if family == "export_faults":
            s = ses[-1]
            s["faults"] = [r.choice([gen_kill, gen_hdf, gen_hdf])(r)]
            if s["faults"][0]["kind"] == "kill":
                s["faults"][0]["n"] += r.choice([0, 0, 40, 300])
            last = [copy.deepcopy(a) for a in acts if a["do"] in ("final", "export")] or [gen_final(r, ids)]
            for a in last:
                a["fail"] = {}
                a.pop("use_N_files", None), a.pop("use_nfiles", None)
            ses.append(gen_ses(r, [gen_run(r, ids)] + last))
    elif family == "indep":
        p = gen_project(r, unique=r.random() < 0.3, multi=0.4, intq=0.08, names=r.random() < 0.2)
        acts = [gen_run(r, ids if r.random() < 0.6 else ids[: r.randint(1, n)], fail=gen_fail(r, ids, r.choice([0, 0.3, 0.5])))]
        if r.random() < 0.5:
            acts.append(gen_run(r, ids))
        if r.random() < 0.15:
            kw = {k: False for k in ("save_results", "save_res_df", "save_data", "save_auxdata") if r.random() < 0.4}
            for a in acts:
                a["hdf_export_kwargs"] = kw
        if r.random() < 0.15:
            for a in acts:
                a["dump_fit"] = True
        if r.random() < 0.12 and "hdf_export_kwargs" not in acts[0]:
            # the container is removed, existing dumps are used again
            for a in acts:
                a["dump_fit"] = True
            acts.append(dict(do="drop"))
            acts.append(gen_run(r, ids, exists=True))
        for a in acts:
            a["obj"] = r.choice(["p", "p", "new"])
            if n > 5 and a["do"] == "run":
                a["ncpu"] = r.choice([1, 1, 2])
        ses.append(gen_ses(r, acts))
        if r.random() < 0.25:
            ses[0]["faults"] = [r.choice([gen_kill, gen_hdf])(r)]
            ses.append(gen_ses(r, [gen_run(r, ids, hdf_export_kwargs=acts[0].get("hdf_export_kwargs"))]))
    else:
        raise ValueError(family)
    for s in ses:
        for a in s["actions"]:
            for x in [x for x in a if a[x] is None and x != "logfile_level"]:
                a.pop(x)
    return dict(level="B", family=family, seed=seed, project=p, sessions=ses)


# ------------------------------------------------------------------ executing
def execute(scn, ns, scratch, collect=None):
    vs = []
    w = World(scratch)
    p = scn["project"]
    B.make_project(w.scratch, p)
    st = dict(sessions=0, steps=0, simtime=0.0, faults={}, probes={}, digests=[], il=[], devs=[], notes=[])
    hist = dict(disrupted=False, stored=set(), cfgs={}, versions=source_versions(w.scratch), faulty=False)
    try:
        for k, ses in enumerate(scn["sessions"]):
            o = B.run_session(k, ses, p, w, ns)
            st["sessions"] += 1
            st["steps"] += o.sim.steps
            st["simtime"] += o.sim.now - o.sim.t0
            for a, b in ((st["faults"], o.sim.fault_counts), (st["probes"], o.sim.probes)):
                for x, y in b.items():
                    a[x] = a.get(x, 0) + y
            st["digests"].append(o.sim.digest())
            st["il"].append(o.sim.interleaving())
            st["devs"].append(o.sim.deviations)
            if collect is not None:
                collect.append((ses, o))
            J = Judge(scn, k, ses, o, p, w, ns, hist, vs, st)
            J.judge()
            if o.hang is not None:
                break
    finally:
        if os.path.isdir(w.scratch + ".acts"):
            REAL["rmtree"](w.scratch + ".acts")
    return vs, st


def source_versions(scratch):
    """{file name: set of complete contents} the user has ever had"""
    out = {}
    for f in ("config.ini", "processing_cfg.py", "extra_mod.py"):
        q = Path(scratch) / "src" / f
        if q.exists():
            out.setdefault(f, []).append(q.read_bytes())
    return out


DISRUPT = ("kill", "signal", "hdf_error", "hdf_open_error", "file_error")
LOGNAME = re.compile(r"^save/out/cfg/RT1_process\(.*\)\.log$")
TOK = re.compile(r"tok\d+x\d+x")


class Judge:
    def __init__(self, scn, k, ses, o, p, w, ns, hist, vs, st):
        self.scn, self.k, self.ses, self.o, self.p, self.w = scn, k, ses, o, p, w
        self.ns, self.hist, self.vs, self.st = ns, hist, vs, st
        self.disr = any(f.startswith(DISRUPT) for f in o.sim.fault_counts)
        self.file_fault = any(f.startswith("file_error") for f in o.sim.fault_counts)

    def add(self, props, kind, msg, **c):
        self.vs.append(V(props, kind, f"session {self.k + 1}: {msg}", session=self.k, **c))

    def probe(self, n, c=1):
        if c:
            P = self.st["probes"]
            P[n] = P.get(n, 0) + c

    # -------------------------------------------------------------- all families
    def judge(self):
        o, ses = self.o, self.ses
        fam = self.scn["family"]
        main = {"log": "C11", "folder": "C12", "export": "C13", "export_faults": "C13", "indep": "C14"}[fam]
        self.main = main
        if o.hang is not None:
            self.add({"C05", main}, "hang", f"the program never ends: {o.hang}", hang=o.hang.kind)
            return
        if not o.killed and not o.exited:
            self.add({"C05"}, "no-exit", "main process did not reach its end")
        if not o.killed and (o.leftover_procs or o.leftover_threads) and not self.disr:
            self.add({"C05"}, "leftover", f"left behind: {o.leftover_procs} {o.leftover_threads}")
        if o.denied:
            self.add({"C12"}, "outside", f"touched paths outside the project: {o.denied[:3]}")
        for e in o.hdf_log:
            if e[0] == "conflict":
                self.add({"C07", main}, "concurrent-open", f"{e[3]} opened {e[2] if len(e) > 2 else ''} ({e[4]}) while {e[5]} had it open ({e[6]})")
                break
        for n, r in enumerate(o.acts):
            self.action(n, r)
        if o.killed or self.disr:
            self.hist["disrupted"] = True
        if self.o.killed:
            t = B.tree(self.w.scratch)
        elif o.acts and hasattr(o.acts[-1], "tree1"):
            t = o.acts[-1].tree1
        else:
            t = B.tree(self.w.scratch)
        self.hist["tree"] = t
        if fam == "log" or fam == "folder":
            self.judge_logs()
        self.st["notes"].append((
            "kill" if o.killed else "ok", tuple(type(r.exc).__name__ for r in o.acts), tuple(sorted(o.sim.fault_counts)),
        ))

    def action(self, n, r):
        act = r.act
        if act.get("new_tag"):
            # (the sources are rewritten right before the action)
            for f, c in ((x[4:], y) for x, y in r.tree0.items() if x.startswith("src/") and y is not None):
                if c not in self.hist["versions"].setdefault(f, []):
                    self.hist["versions"][f].append(c)
        done = hasattr(r, "tree1")
        if act["do"] == "run":
            for i in act["items"]:
                self.hist.setdefault("items", {})[i] = True
        if self.removed(r) and WORK in r.tree0:
            self.forget(done and r.returned)
        elif self.disr or not done or self.hist["disrupted"]:
            # (results may be stored already under a config that the harness does not know)
            c0 = r.tree0.get(f"{CFG}/config.ini")
            c1 = (r.tree1 if done else B.tree(self.w.scratch)).get(f"{CFG}/config.ini")
            if c0 is not None and c0 != c1:
                self.hist["mixed"] = True
        if act["do"] == "drop":
            self.forget(True)
            return
        if not done:
            # interrupted by the end of the program
            return
        self.judge_folder(n, r)
        asked = WORK in r.tree0 and act["do"] == "run" and not act.get("autocontinue")
        ans = [x.upper() for x in act.get("answers") or []]
        aborted = asked and not (ans[:1] and ans[0] in ("YES", "Y") or ans[:1] == ["REMOVE"] and ans[1:2] and ans[1] in ("YES", "Y"))
        r.aborted = aborted
        r.expect_exc = None
        if aborted:
            if not isinstance(r.exc, SystemExit):
                self.add({"C12", "C11"}, "abort-exception", f"action {n + 1} was refused by the user but ended with {r.exc!r}")
            self.probe("aborted")
        elif act.get("pre_fail") and not self.disr:
            if not isinstance(r.exc, B.UserError):
                self.add({"C11", "C05"}, "wrong-exception", f"preprocess() raised UserError but the run ended with {r.exc!r}")
        elif not self.disr and not r.returned and not self.nothing_stored(r):
            self.add({self.main} | self.blame(r), "raised", f"action {n + 1} ({act['do']}) raised {r.exc!r}")
        if r.returned and not self.disr:
            if r.state0 != r.state1 and not isinstance(r.exc, SystemExit):
                d = {x: (r.state0[x], r.state1[x]) for x in r.state0 if r.state0[x] != r.state1[x]}
                self.add({"C10"} if list(d) == ["sig"] else {"C11"}, "logging-state", f"action {n + 1} ({act['do']}) changed {d}")
        elif r.exc is not None and not self.disr:
            if r.state0 != r.state1:
                d = {x: (r.state0[x], r.state1[x]) for x in r.state0 if r.state0[x] != r.state1[x]}
                self.add({"C11"}, "logging-state", f"failing action {n + 1} ({act['do']}, {type(r.exc).__name__}) changed {d}")
        if r.returned and [h for h in r.handles if h[1] != "r"]:
            self.add({"C07"}, "handle-left", f"containers still open: {r.handles}")
        if r.returned and not self.disr:
            if act["do"] == "run":
                self.judge_stored(n, r)
            elif act["do"] in ("final", "export"):
                self.judge_export(n, r)
        elif r.returned and act["do"] == "run" and self.scn["family"] == "indep":
            self.judge_stored(n, r, partial=True)

    def blame(self, r):
        s = {self.main}
        if r.act["do"] in ("final", "export"):
            s.add("C13")
        if self.hist["disrupted"]:
            s.add("C12")
        if r.act.get("logfile_level", 21) is None:
            s.add("C11")
        return s

    def nothing_stored(self, r):
        """final output of nothing"""
        if r.act["do"] == "run":
            return False
        if not self.tables(r, "fit_db"):
            return True
        return not self.table_ids(self.tables(r, "fit_db"))

    def tables(self, r, name):
        if not hasattr(r, "_tabs"):
            r._tabs = {}
        if name not in r._tabs:
            r._tabs[name] = R.read_store(os.path.join(r.stores, name + ".h5"))
        t = r._tabs[name]
        if isinstance(t, str):
            return {}
        return t

    def prev(self, n, name):
        """the container before action n"""
        return self.hist.get("stores", {}).get(name, {})

    # -------------------------------------------------------------- C12
    def judge_folder(self, n, r):
        t0, t1 = r.tree0, r.tree1
        act = r.act
        P = {"C12"}

        def sub(t, pre):
            return {k: v for k, v in t.items() if k == pre or k.startswith(pre + "/")}

        for pre in ("src", "keep", "save/other"):
            if {k: v for k, v in sub(t0, pre).items() if "__pycache__" not in k} != {
                k: v for k, v in sub(t1, pre).items() if "__pycache__" not in k
            }:
                self.add(P, "foreign-change", f"action {n + 1} changed files below {pre}: "
                         f"{sorted(set(sub(t0, pre)) ^ set(sub(t1, pre)))}")
        asked = WORK in t0 and act["do"] == "run" and not act.get("autocontinue")
        ans = [x.upper() for x in act.get("answers") or []]
        remove = asked and ans[:1] == ["REMOVE"] and ans[1:2] and ans[1] in ("YES", "Y")
        go = not asked or remove or (ans[:1] and ans[0] in ("YES", "Y"))
        a, b = sub(t0, WORK), sub(t1, WORK)
        if not go:
            if a != b:
                self.add(P, "abort-changed", f"the aborted action {n + 1} changed {diff(a, b)}")
            return
        if act["do"] not in ("run", "setup") and WORK not in t0:
            return
        if remove and not self.disr:
            self.probe("removed")
            old = [k for k in a if LOGNAME.match(k) and k in b and a[k] == b[k]]
            if old:
                self.add(P, "remove-incomplete", f"files survived the removal: {old}")
        files = {"config.ini": "config.ini", "processing_cfg.py": "processing_cfg.py"}
        if self.p.get("extra"):
            files["extra_mod.py"] = "extra_mod.py"
        rewrites = act.get("override") or act.get("finalout_name") or self.hist.get("overridden", {}).get(act.get("obj"))
        if act.get("override") or act.get("finalout_name"):
            self.hist.setdefault("overridden", {})[act.get("obj")] = True
        elif act.get("obj", "new") == "new":
            self.hist.setdefault("overridden", {}).pop("new", None)
        for f in files:
            k = f"{CFG}/{f}"
            old, new = (None if remove else t0.get(k)), t1.get(k)
            exempt = f == "config.ini" and rewrites
            if old is not None and not exempt and old != new and not (remove and self.disr):
                if new is None or not self.hist["disrupted"]:
                    self.add(P, "copy-overwritten", f"action {n + 1} ({act['do']}) changed the existing copy {f}: "
                             f"{short(old)} -> {short(new)}")
            if self.disr or r.exc is not None and not isinstance(r.exc, B.UserError):
                continue
            if new is None:
                self.add(P, "copy-missing", f"after action {n + 1} there is no copy of {f}")
            elif exempt:
                if not ini_like(new, self.hist["versions"][f]):
                    self.add(P, "copy-incomplete", f"after action {n + 1} the copy of {f} is incomplete: {short(new)}")
            elif new not in self.hist["versions"][f] and not ini_like(new, self.hist["versions"][f], f == "config.ini"):
                self.add(P, "copy-incomplete", f"after action {n + 1} the copy of {f} is no complete version: {short(new)}")
            elif old is None and not exempt and new != t0.get(f"src/{f}"):
                self.add(P, "copy-stale", f"action {n + 1} copied {short(new)} as {f}, the source is {short(t0.get('src/' + f))}")
        # modules are imported from the work folder
        for step, an, proc, tag, path in self.o.loaded:
            if an != n or self.disr:
                continue
            k = f"{CFG}/processing_cfg.py"
            if path != k:
                self.add(P, "module-origin", f"{proc} imported the module from {path}")
                break
            c = t1.get(k)
            if c and f'TAG = "{tag}"'.encode() not in c:
                self.add(P, "module-stale", f"{proc} imported version {tag}, the copy is {short(c)}")
                break
        if self.hist["disrupted"] and not self.disr and r.returned:
            self.probe("restarted")

    # -------------------------------------------------------------- C11
    def judge_logs(self):
        o = self.o
        P = {"C11"}
        if self.disr:
            return
        for n, r in enumerate(o.acts):
            if not hasattr(r, "tree1"):
                continue
            L = r.act.get("logfile_level", 21)
            logs0 = {k: v for k, v in r.tree0.items() if LOGNAME.match(k)}
            logs1 = {k: v for k, v in r.tree1.items() if LOGNAME.match(k)}
            changed = [k for k in logs0 if k in logs1 and logs0[k] != logs1[k]]
            if changed:
                self.add(P, "old-log-changed", f"action {n + 1} wrote into log files of earlier runs: {changed}")
            new = sorted(set(logs1) - set(logs0))
            em = [e for e in o.emits if e[1] == n]
            if getattr(r, "aborted", False):
                continue
            want = [e for e in em if L is not None and e[4] >= L]
            if L is None:
                if new:
                    self.add(P, "log-unwanted", f"action {n + 1}: log files {new} although no log was requested")
                continue
            if len(new) != 1:
                if want or len(new) > 1:
                    self.add(P, "log-files", f"action {n + 1} ({r.act['do']}) made {len(new)} log files")
                if not new:
                    continue
            txt = b"".join(logs1[k] for k in new).decode()
            toks = TOK.findall(txt)
            pos = {}
            for i, t in enumerate(toks):
                pos.setdefault(t, []).append(i)
            known = {e[5] for e in em}
            foreign = [t for t in pos if t not in known]
            if foreign:
                self.add(P, "log-foreign", f"log of action {n + 1} contains messages of other actions: {foreign[:3]}")
            missing = [e for e in want if e[5] not in pos]
            if missing:
                self.add(P | ({"C12"} if False else set()), "log-missing",
                         f"action {n + 1} ({r.act['do']}, level {L}): {len(missing)} of {len(want)} messages are missing: "
                         f"{[(e[3], e[4]) for e in missing[:3]]}")
            double = [e for e in want if len(pos.get(e[5], [])) > 1]
            if double:
                self.add(P, "log-twice", f"action {n + 1} (level {L}): logged more than once: {[(e[3], e[4]) for e in double[:3]]}")
            below = [e for e in em if e[4] < L and e[5] in pos]
            if below:
                self.add(P, "log-below", f"action {n + 1} (level {L}): messages below the level: {[(e[3], e[4]) for e in below[:3]]}")
            byproc = {}
            for e in want:
                if e[5] in pos:
                    byproc.setdefault(e[2], []).append((pos[e[5]][0], e[3]))
            for pid, l in byproc.items():
                if [x[0] for x in l] != sorted(x[0] for x in l):
                    self.add(P, "log-order", f"action {n + 1}: messages of {l[0][1]} are not in the order of their emission")
                    break
            self.probe("logged-tokens", len(want))
            self.probe("logged-by-workers", len({e[2] for e in want if e[3] != "MainProcess"}))

    # -------------------------------------------------------------- C14
    def ini(self, r):
        t = r.tree1.get(f"{CFG}/config.ini")
        return t.decode() if t else None

    def ref(self, r, ID):
        return R.reference(self.ini(r), self.p, ID, self.ns, self.w.scratch)

    def table_ids(self, tables):
        out = {}
        for ID, nums in R.table_ids(tables).items():
            out.setdefault(self.listed(ID), []).extend(nums)
        return out

    def listed(self, ID):
        from .level_a import norm

        return norm(ID)

    def judge_stored(self, n, r, partial=False):
        """the result container after a run"""
        act = r.act
        raw = R.read_store(os.path.join(r.stores, "fit_db.h5"))
        P = {"C14"} if self.scn["family"] == "indep" else {self.main, "C14"}
        if isinstance(raw, str):
            self.add({"C06"}, "unreadable", f"after action {n + 1}: {raw}")
            return
        ids = self.table_ids(raw)
        fail = act.get("fail", {})
        byname = {self.listed(i): i for i in self.hist.setdefault("items", {})}
        for i in act["items"]:
            byname[self.listed(i)] = i
            self.hist["items"][i] = True
        for ID, nums in ids.items():
            if len(nums) > 1:
                self.add({"C03", "C04", "C14"}, "listed-twice", f"{ID} is listed under the numbers {nums}")
        bad = {ID: x for ID, x in ids.items() if not all(isinstance(y, int) for y in x)}
        if bad:
            self.add({"C04", "C14"}, "bad-number", f"items without a number: {bad}")
            return
        before = self.hist.get("ids", {})
        for ID in before:
            if ID not in ids and not partial and not self.removed(r):
                self.add({"C03"}, "lost", f"{ID} was stored before and is gone")
        if not partial:
            for i in act["items"]:
                ID = self.listed(i)
                if ID in before and not self.removed(r):
                    continue
                if str(i) in fail:
                    if ID in ids:
                        self.add({"C02"}, "failed-stored", f"failing item {i} ({fail[str(i)]}) is listed")
                elif ID not in ids:
                    if self.config_mixed(r, before):
                        self.add({"C12"}, "config-mixed", f"item {i} is not stored after action {n + 1}: "
                                 "the container holds fits of another configuration")
                        continue
                    self.add({"C01", "C02", self.main}, "item-missing", f"item {i} is not stored after action {n + 1}; failing: {fail}")
            done = [s[2] for s in self.o.started if s[1] == n]
            again = [i for i in done if self.listed(i) in before] if not self.removed(r) else []
            if again:
                self.add({"C03"}, "rework", f"already stored items were processed again: {again}")
        kw = act.get("hdf_export_kwargs") or {}
        ok = 0
        for ID, nums in ids.items():
            i = byname.get(ID)
            if i is None:
                self.add({"C01", "C14"}, "phantom", f"{ID} is listed but is no item")
                continue
            if ID in self.hist.setdefault("checked", {}) and self.hist["checked"][ID] == R.crc(os.path.join(r.stores, "fit_db.h5")):
                continue
            if self.hist.get("mixed") or self.hist.get("cfgfor", {}).get(ID, self.ini(r)) != self.ini(r):
                # fitted under another configuration
                continue
            self.hist.setdefault("cfgfor", {})[ID] = self.ini(r)
            msg = self.compare_item(raw, nums[0], i, r, kw)
            if msg:
                self.add(P, "wrong-data", f"{ID} (number {nums[0]}): {msg}")
                break
            ok += 1
            self.hist["checked"][ID] = R.crc(os.path.join(r.stores, "fit_db.h5"))
        self.hist["ids"] = ids
        self.probe("fits-compared", ok)
        self.probe("dumps-reused", len(self.o.reused))
        self.probe("stored-fits", len(ids) > 1)

    def config_mixed(self, r, before):
        """an item could not be added to fits of another configuration (a known defect)"""
        used = self.hist.get("cfgfor", {})
        if not (self.hist.get("mixed") or any(used.get(ID, None) != self.ini(r) for ID in before)):
            return False
        logs = [v for k, v in r.tree1.items() if LOGNAME.match(k) and k not in r.tree0]
        return not logs or any(b"cannot append a categorical with different categories" in v for v in logs)

    def removed(self, r):
        """did the user confirm the removal of all results (if there are any)"""
        ans = [x.upper() for x in r.act.get("answers") or []]
        return (
            r.act["do"] == "run" and not r.act.get("autocontinue") and ans[:1] == ["REMOVE"]
            and ans[1:2] and ans[1] in ("YES", "Y")
        )

    def forget(self, complete):
        """the results have been removed (or some of them, if the removal was interrupted)"""
        h = self.hist
        for key in ("ids", "exports", "madeby", "exp_unknown", "checked", "overridden"):
            h.pop(key, None)
        h.pop("cfgfor", None)
        # (results of different configurations may be left)
        h["mixed"] = not complete

    def compare_item(self, raw, num, i, r, kw):
        import pandas as pd

        ref = self.ref(r, i)
        multi = self.p.get("multi")
        first = next(iter(ref.values()))
        exp = {}
        df = first.dataset
        if kw.get("save_data", True):
            exp["dataset"] = df
        elif kw.get("save_results", True):
            exp["dataset"] = None  # (what is needed to re-create the results)
        ax = B.aux(i) if self.p.get("aux") else None
        if kw.get("save_auxdata", True) and ax is not None:
            exp["aux_data"] = ax
        for t in ("dataset", "aux_data"):
            got = R.rows_of(raw[t], num) if t in raw else None
            want = exp.get(t)
            if t == "dataset" and t in exp and want is None:
                continue
            if want is None:
                if got is not None and len(got):
                    return f"table {t} holds {len(got)} rows, the item has none"
                continue
            if got is None:
                return f"there is no table {t}"
            d = R.same_frame(got, want, 1e-12)
            if d:
                return f"table {t}: {d}"
        ra = R.rows_of(raw["reader_arg"], num)
        want = B.reader_args({"items": [i]}, None)[0]
        for key, v in want.items():
            if str(ra[key].iloc[0]) != str(v):
                return f"reader_arg {key} = {ra[key].iloc[0]!r}, expected {v!r}"
        if len(ra) != 1:
            return f"{len(ra)} rows in the table reader_arg"
        # results
        for t, on in (("res_df", kw.get("save_res_df", True)), ("res_dict", kw.get("save_results", True))):
            got = R.rows_of(raw[t], num) if t in raw else None
            if not on:
                if got is not None and len(got):
                    return f"table {t} was not requested"
                continue
            if got is None or not len(got):
                return f"nothing in table {t}"
            cfgs = list(ref) if multi else [None]
            gcfg = set(got.index.get_level_values("cfg")) if multi else {None}
            if gcfg != set(cfgs):
                return f"table {t} holds configs {sorted(gcfg)}"
            keys = set().union(*[set(x.res_dict) for x in ref.values()])
            for c in cfgs:
                g = got.xs(c, level="cfg") if multi else got
                x = ref[c] if multi else first
                if t == "res_df":
                    w = x.res_df
                    g = g[[y for y in g.columns if y in w.columns or g[y].notna().any()]]
                    d = R.same_frame(g, w, 1e-12)
                else:
                    d = None
                    for key in keys:
                        vals = list(g[key].dropna()) if key in g else []
                        if not _close(vals, x.res_dict.get(key, [])):
                            d = f"{key}: {vals}, expected {x.res_dict.get(key, [])}"
                if d:
                    return f"table {t}{f' ({c})' if c else ''}: {d}"
        # definition
        g = R.rows_of(raw["init_dict"], num)
        for c in list(ref) if multi else [None]:
            x = ref[c] if multi else first
            row = g.loc[c] if multi else g.iloc[0]
            if multi and c not in g.index:
                return f"no definition of config {c}"
            row = {k: str(v) for k, v in dict(row).items()}
            for key, v in x.init.items():
                if key in ("int_Q", "sig0", "dB", "defdict", "set_V_SRF") and row.get(key) != v:
                    return f"definition of {key} is {row.get(key)}, expected {v}"
        return None

    # -------------------------------------------------------------- C13
    def judge_export(self, n, r):
        act = r.act
        P = {"C13"}
        src = self.tables(r, "fit_db")
        if not src:
            return
        name = self.final_name(r)
        raw = R.read_store(os.path.join(r.stores, name.replace(".h5", "") + ".h5"))
        if isinstance(raw, str):
            self.add({"C06", "C13"}, "unreadable", f"{name} after action {n + 1}: {raw}")
            return
        sids = self.table_ids(src)
        ids = self.table_ids(raw)
        limit = act.get("use_N_files", act.get("use_nfiles"))
        order = [str(x) for x in self.listed_order(src)]
        want = order if limit is None else order[:limit]
        bystored = {str(i): k for k, i in self.hist.get("items", {}).items()}
        byname = {self.listed(i): i for i in self.hist.get("items", {})}
        fail = act.get("fail", {})
        # (the outputs before this action)
        before = self.hist.setdefault("exports", {}).get(name, {}) if not self.hist.get("exp_unknown", {}).get(name) else None
        for ID, nums in ids.items():
            if len(nums) > 1:
                self.add(P | {"C04"}, "exported-twice", f"{ID} is listed under the numbers {nums} in {name}")
        for s in want:
            ID = self.listed(self.rawid(s, byname))
            if before is not None and ID in before:
                continue
            i = self.rawid(s, byname)
            if act["do"] == "final" and str(i) in fail:
                if ID in ids and not (before is None):
                    self.add(P | {"C02"}, "failed-exported", f"failing item {i} is listed in {name}")
            elif ID not in ids:
                self.add(P, "not-exported", f"{ID} is missing in {name} after action {n + 1}; failing: {fail}")
        allowed = {self.listed(self.rawid(s, byname)) for s in want} | set(before or {})
        if before is not None:
            extra = [x for x in ids if x not in allowed]
            if extra:
                self.add(P, "export-extra", f"{extra} were not selected but are listed in {name} (limit {limit})")
            gone = [x for x in before if x not in ids]
            if gone:
                self.add(P | {"C03"}, "lost", f"{gone} were exported before and are gone from {name}")
            posted = [x[2] for x in self.o.posted if x[1] == n]
            again = [x for x in posted if self.listed(x) in before] if act["do"] == "final" and not self.p.get("multi") else []
            if again:
                self.add(P | {"C03"}, "rework", f"already exported items were processed again: {again}")
        P2 = P if self.scn["family"].startswith("export") else P | {self.main}
        ok = 0
        for ID, nums in ids.items():
            i = byname.get(ID)
            if i is None:
                self.add(P, "phantom", f"{ID} is listed in {name} but is no item")
                continue
            if self.hist.get("mixed") or self.hist.get("cfgfor", {}).get(self.listed(i)) not in (None, self.fitcfg(r)):
                continue
            made = self.hist.setdefault("madeby", {}).setdefault((name, ID), act)
            msg = self.compare_export(raw, nums[0], i, r, made)
            if msg:
                self.add(P2 | {"C14"}, "wrong-export", f"{ID} (number {nums[0]}) in {name}: {msg}")
                break
            ok += 1
        num2id = {x for l in ids.values() for x in l}
        for t, df in raw.items():
            lv = set(df.index.get_level_values(0))
            if lv - num2id:
                self.add(P, "orphans", f"table {t} of {name} holds rows of unlisted numbers {sorted(lv - num2id)}")
        self.hist["exports"][name] = ids
        self.hist.setdefault("exp_unknown", {})[name] = False
        self.probe("exports-compared", ok)
        self.probe("repeated-export", bool(before) and len(ids) > len(before))

    def fitcfg(self, r):
        return self.ini(r)

    def rawid(self, stored, byname):
        return byname.get(str(stored), stored)

    def listed_order(self, src):
        df = src["reader_arg"]
        return [self.listed(x) for x in df["ID"]]

    def final_name(self, r):
        """the name of the output: given now, given before to the same object, or configured"""
        names = self.hist.setdefault("objfinal", {})
        key = (self.k, r.act.get("obj", "new"))
        if r.act.get("obj", "new") == "new":
            names.pop(key, None)
        if r.act.get("finalout_name"):
            names[key] = r.act["finalout_name"]
        return names.get(key, "final.h5")

    def compare_export(self, raw, num, i, r, act):
        ini = self.hist.get("cfgfor", {}).get(self.listed(i)) or self.ini(r)
        ref = R.reference(ini, self.p, i, self.ns, self.w.scratch)
        multi = self.p.get("multi")
        ra = B.reader_args({"items": [i]}, None)[0]
        got = R.rows_of(raw["reader_arg"], num)
        for key, v in ra.items():
            if str(got[key].iloc[0]) != str(v):
                return f"reader_arg {key} = {got[key].iloc[0]!r}, expected {v!r}"
        for c, x in ref.items():
            if act["do"] == "final":
                t = c
                if t not in raw:
                    return f"there is no table {t}"
                d = R.same_frame(R.rows_of(raw[t], num), x.post)
                if d:
                    return f"table {t}: {d}"
                continue
            exp = R.export_tables(x, act, ra)
            for t, want in exp.items():
                key = f"{c}/{t}"
                if key not in raw:
                    return f"there is no table {key}"
                g = R.rows_of(raw[key], num)
                if t == "dynamic":
                    d = R.same_frame(g, want)
                elif len(g) != 1:
                    d = f"{len(g)} rows"
                else:
                    d = R.same_values(dict(g.iloc[0]), want)
                if d:
                    return f"table {key}: {d}"
        return None


def _close(a, b):
    import numpy as np

    return len(a) == len(b) and bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-12, atol=0))


def short(c):
    if c is None:
        return "nothing"
    m = re.search(rb'TAG = "(\w+)"', c) or re.search(rb"# edited (\w+)", c)
    return f"{len(c)} bytes{' of ' + m.group(1).decode() if m else ''}"


def ini_like(c, versions, strict=True):
    """is this config file as complete as one of the versions (values may differ)"""
    if not strict:
        return False

    def parse(b):
        cp = configparser.ConfigParser(allow_no_value=True)
        cp.optionxform = str
        cp.read_string(b.decode())
        return {s: set(cp[s]) for s in cp.sections()}

    try:
        a = parse(c)
    except Exception:
        return False
    return any(a == parse(v) for v in versions)


def diff(a, b):
    return {k: (short_any(a.get(k)), short_any(b.get(k))) for k in sorted(set(a) | set(b)) if a.get(k, 0) != b.get(k, 0)}


def short_any(x):
    return f"{len(x)} bytes" if isinstance(x, bytes) else x


# ------------------------------------------------------------------ shrinking
def reductions(scn):
    ss = scn["sessions"]
    for k in range(len(ss)):
        if len(ss) > 1:
            c = copy.deepcopy(scn)
            del c["sessions"][k]
            yield c
    for k, s in enumerate(ss):
        for j in range(len(s["actions"])):
            if len(s["actions"]) > 1:
                c = copy.deepcopy(scn)
                del c["sessions"][k]["actions"][j]
                yield c
        for f in range(len(s["faults"])):
            c = copy.deepcopy(scn)
            del c["sessions"][k]["faults"][f]
            yield c
    allids = []
    for s in ss:
        for a in s["actions"]:
            for i in a.get("items", []):
                if i not in allids:
                    allids.append(i)
    for i in allids:
        if len(allids) > 1:
            c = copy.deepcopy(scn)
            for s in c["sessions"]:
                for a in s["actions"]:
                    if "items" in a:
                        a["items"] = [x for x in a["items"] if x != i]
                    for q in ("fail", "dur"):
                        if a.get(q):
                            a[q].pop(str(i), None)
            if all(a["items"] for s in c["sessions"] for a in s["actions"] if "items" in a):
                yield c
    for key, v in (("multi", False), ("aux", False), ("int_Q", False), ("extra", False), ("sibling", False), ("bsf", None), ("names", False)):
        if scn["project"].get(key):
            c = copy.deepcopy(scn)
            if v is None:
                c["project"].pop(key)
            else:
                c["project"][key] = v
            yield c
    for k, s in enumerate(ss):
        for key, v in (("levels", []), ("write_time", 0)):
            if s.get(key):
                c = copy.deepcopy(scn)
                c["sessions"][k][key] = v
                yield c
        for j, a in enumerate(s["actions"]):
            for key in ("fail", "dur", "maxtasks", "create_index", "override", "new_tag", "init", "direct_args",
                        "metrics", "functions", "use_N_files", "use_nfiles", "write_chunk_size", "n_writer", "out_cache_size",
                        "hdf_export_kwargs", "sig_to_dB", "inc_to_degree"):
                if a.get(key):
                    c = copy.deepcopy(scn)
                    c["sessions"][k]["actions"][j].pop(key)
                    yield c
            if a.get("ncpu", 1) > 1:
                c = copy.deepcopy(scn)
                c["sessions"][k]["actions"][j]["ncpu"] = 1
                yield c
            if len(a.get("parameters", [])) > 1:
                for x in a["parameters"]:
                    c = copy.deepcopy(scn)
                    c["sessions"][k]["actions"][j]["parameters"].remove(x)
                    yield c
