"""Level B: whole program runs of rt1.rtprocess.RTprocess over one project folder.

A scenario is a list of sessions; every session is one simulated program that
performs a list of actions (run_processing, run_finaloutput, export_data_to_HDF)
on real (tiny) fits.  The project folder, all files and containers are real.
"""
import logging
import os
import re
import zlib
from pathlib import Path

import numpy as np

from . import fakes_mp
from .kernel import Sim, SimKill, current_sim
from .world import REAL, raw_copy

CTX = None


def h32(*a):
    return zlib.crc32("/".join(map(str, a)).encode())


def rnd(lo, hi, *a):
    return lo + (hi - lo) * (h32(*a) % 10007) / 10007.0


# ------------------------------------------------------------------ project
INI = """\
[fits_kwargs]
sig0     = True
dB       = False
int_Q    = {int_Q}
lambda_backend = symengine
_fnevals_input
verbose = 0

[least_squares_kwargs]
verbose   = 0
ftol      = 1.e-3
gtol      = 1.e-3
xtol      = 1.e-3
max_nfev  = 4
method    = trf
tr_solver = lsmr

[defdict]
omega = [False, 0.2]
N     = [True, 0.1,  {N_freq}, 0.01, 0.5]
tau   = [True, 0.5,  None,  0.01, 1.5]
bsf   = {bsf}
t_v   = [False, 0.2]

[RT1_V]
V_name = HenyeyGreenstein
tau    = tau
omega  = omega
t      = t_v
ncoefs = 2

[RT1_SRF]
SRF_name = HG_nadirnorm
NormBRDF = N
t        = 0.3
ncoefs   = 2

[CONFIGFILES]
module__processing_cfg = {src}/processing_cfg.py
{extra}

[PROCESS_SPECS]
finalout_name = final.h5
dumpfolder = {dumpfolder}
path__save_path = {save}
list__ls = [a,B  ,  c]
"""

MULTI = """
[#config first defdict]
omega = [False, 0.3]

[#config second RT1_SRF]
ncoefs = 3

[#config second defdict]
N     = [True, 0.15,  None,  0.01, 0.4]
"""

MODULE = '''\
"""the processing-configuration of the project"""
from rt1.processing_config import rt1_processing_config
from rt1 import log
from dst import level_b as H

TAG = "{tag}"
{pad}

class processing_cfg(rt1_processing_config):
    def __init__(self, **kwargs):
        super().__init__(**kwargs)
        H.loaded(self, TAG, __file__)
{names}
    def preprocess(self, **kwargs):
        return H.preprocess(self, log, kwargs)

    def reader(self, reader_arg):
        return H.reader(self, log, reader_arg)

    def postprocess(self, fit):
        return H.postprocess(self, log, fit)


def initializer(*args):
    H.initializer(log, *args)

END_OF_MODULE = TAG
'''

NAMES = '''
    def get_names_ids(self, reader_arg):
        return H.names(reader_arg)
'''

EXTRA = '"""another module of the project"""\nTAG = "{tag}"\n{pad}\nEND_OF_MODULE = TAG\n'


def make_project(scratch, p):
    """create the files the user starts with"""
    scratch = Path(scratch)
    src = scratch / "src"
    REAL["mkdir"](src)
    REAL["mkdir"](scratch / "keep")
    _put(scratch / "keep" / "other.txt", "do not touch\n")
    if p.get("sibling"):
        # a project next to the work folder
        REAL["mkdir"](scratch / "save")
        REAL["mkdir"](scratch / "save" / "other")
        _put(scratch / "save" / "other" / "data.txt", "results of another run\n")
    pad = "# padding\n" * p.get("pad", 3)
    extra = f"module__extra_mod = {src}/extra_mod.py" if p.get("extra") else ""
    ini = INI.format(
        int_Q=p.get("int_Q", False), N_freq=p.get("N_freq", "index"),
        bsf=p.get("bsf", "[False, 0.05]"), src=src, extra=extra,
        dumpfolder="out", save=scratch / "save",
    )
    if p.get("multi"):
        ini += MULTI
    _put(src / "config.ini", ini)
    write_sources(scratch, p, "v1")


def write_sources(scratch, p, tag):
    src = Path(scratch) / "src"
    pad = "# padding\n" * p.get("pad", 3)
    _put(src / "processing_cfg.py", MODULE.format(tag=tag, pad=pad, names=NAMES if p.get("names") else ""))
    if p.get("extra"):
        _put(src / "extra_mod.py", EXTRA.format(tag=tag, pad=pad))
    if tag != "v1":
        s = (src / "config.ini").read_text()
        _put(src / "config.ini", s + f"\n# edited {tag}\n")


def _put(path, text):
    with REAL["open"](path, "w") as f:
        f.write(text)


def tree(folder):
    """{relative path: content} of all files below a folder (directories -> None)"""
    out = {}
    folder = Path(folder)
    if not folder.exists():
        return out
    for root, dirs, files in os.walk(folder):
        for d in sorted(dirs):
            out[os.path.relpath(os.path.join(root, d), folder)] = None
        for f in sorted(files):
            q = os.path.join(root, f)
            with REAL["open"](q, "rb") as fh:
                c = fh.read()
            if q.endswith((".h5", ".h5.tmp", ".dump")):
                c = zlib.crc32(c)
            out[os.path.relpath(q, folder)] = c
    return out


# ------------------------------------------------------- functions of the user
class UserError(Exception):
    pass


def dataset(ID, p):
    """the dataset of an item (a pure function of its name)"""
    import numpy as np
    import pandas as pd

    n = 2 + h32(ID, "n") % 2
    per = 2
    dates = []
    d = pd.Timestamp("2020-01-01")
    for k in range(n):
        if p.get("unique"):
            dates += [d + pd.Timedelta(hours=6 * j) for j in range(per)]
        else:
            dates += [d] * per
        d += pd.Timedelta(days=5 + h32(ID, "d", k) % 60)
    m = n * per
    inc = np.deg2rad([25 + 25 * ((k % per) + rnd(0, 0.9, ID, "i", k)) / per for k in range(m)])
    sig = [rnd(0.05, 0.25, ID, "s", k) for k in range(m)]
    df = pd.DataFrame(dict(inc=inc, sig=sig), pd.DatetimeIndex(dates))
    if p.get("bsf", "").count("auxiliary"):
        df["bsf"] = [rnd(0.02, 0.1, ID, "b", k) for k in range(m)]
    if h32(ID, "unsorted") % 5 == 0:
        # (stable: equal timestamps stay together)
        df = pd.concat([df.iloc[per:], df.iloc[:per]])
    return df


def aux(ID):
    """auxiliary data exist for some of the items only"""
    import pandas as pd

    if h32(ID, "aux") % 2:
        return None
    return pd.DataFrame(
        {"a": [rnd(0, 1, ID, "aux", k) for k in range(2)]}, pd.date_range("2020-02-01", periods=2)
    )


def emit(log, level, what):
    """log a unique message and remember that it was logged"""
    s = current_sim()
    c = CTX
    c["ntok"] += 1
    tok = f"tok{c['ses']}x{c['ntok']}x"
    p = s.current.proc
    c["emits"].append((s.steps, c["action"], p.pid, p.name, level, tok))
    log.log(level, f"{tok} {what}")


def chatter(log, what):
    """log messages of different levels, as configured"""
    for lv in CTX["spec"].get("levels", []):
        emit(log, lv, what)


def loaded(cls, tag, path):
    s = current_sim()
    if s is None:
        return
    CTX["loaded"].append((s.steps, CTX["action"], s.current.proc.name, tag, s.world.rel(path)))


def preprocess(cls, log, kwargs):
    s = current_sim()
    a = CTX["act"]
    chatter(log, "preprocess")
    if a.get("pre_fail"):
        raise UserError("preprocess failed")
    ret = {}
    if not a.get("direct_args"):
        ret["reader_args"] = reader_args(a, CTX["spec"])
    if a.get("pool_kwargs") == "preprocess":
        ret["pool_kwargs"] = pool_kwargs(a)
    return ret


def pool_kwargs(a):
    import sys

    d = {}
    if a.get("init"):
        d["initializer"] = sys.modules["processing_cfg"].initializer
        d["initargs"] = [7]
    if a.get("maxtasks"):
        d["maxtasksperchild"] = a["maxtasks"]
    return d


def initializer(log, *args):
    CTX["inits"].append(tuple(args))
    chatter(log, "initializer")


def reader_args(a, spec):
    return [{"ID": i, "k": h32(i) % 97, "w": h32(i) % 7 / 4} for i in a["items"]]


def names(reader_arg):
    ID = f"site_{reader_arg['ID']}"
    return dict(feature_id=ID, filename=f"{ID}.dump")


def reader(cls, log, reader_arg):
    s = current_sim()
    a = CTX["act"]
    ID = reader_arg["ID"]
    if s is not None:
        CTX["started"].append((s.steps, CTX["action"], ID, s.current.proc.name))
        s.ev("item-start", ID)
        if a.get("dur", {}).get(str(ID)):
            s.sleep(a["dur"][str(ID)])
        chatter(log, f"reading {ID}")
        if a.get("exists") and (cls.rt1_procsesing_dumppath / cls.get_names_ids(reader_arg)["filename"]).exists():
            CTX["reused"].append(ID)
            raise Exception("rt1_file_already_exists")
        f = a.get("fail", {}).get(str(ID))
        if f == "raise":
            raise UserError(f"reader of {ID}")
        if f == "skip":
            raise Exception("rt1_skip")
        if f == "data":
            raise Exception("rt1_data_error", "no data")
        if f == "none":
            return None
        if f == "empty":
            return dataset(ID, CTX["p"]).iloc[:0]
        if f == "baddata":
            return dataset(ID, CTX["p"]).drop(columns="sig")
    return user_data(ID, CTX["p"])


def user_data(ID, p):
    df = dataset(ID, p)
    x = aux(ID) if p.get("aux") else None
    return (df, x) if x is not None else df


POST_FAIL = ("raise", "skip")


def post_result(fit, num):
    """the user's post-processing: a pure function of the content of the fit"""
    import pandas as pd

    df = fit.res_df.copy()
    df["inc"] = fit.dataset["inc"].groupby(level=0).mean().reindex(df.index).values
    tot = fit.calc_model(return_components=True)["tot"]
    df["model"] = tot.groupby(level=0).mean().reindex(df.index).values
    df.index.name = "date"
    return pd.concat([df], keys=[num], names=["ID"])


def postprocess(cls, log, fit):
    s = current_sim()
    a = CTX["act"]
    ID = fit.reader_arg["ID"]
    if s is not None:
        CTX["posted"].append((s.steps, CTX["action"], str(ID), s.current.proc.name))
        s.ev("post-start", str(ID))
        if a.get("dur", {}).get(str(ID)):
            s.sleep(a["dur"][str(ID)])
        chatter(log, f"post {ID}")
        f = a.get("fail", {}).get(str(ID))
        if f == "raise":
            raise UserError(f"postprocess of {ID}")
        if f == "skip":
            raise Exception("rt1_skip")
    return post_result(fit, fit._RT1_ID_num)


class Outcome:
    pass


# ------------------------------------------------------------------ one session
def run_session(k, ses, p, world, ns):
    """one simulated program"""
    global CTX
    world.mod_names = {"processing_cfg", "extra_mod"}
    world.write_time = ses.get("write_time", 0.0)
    world.hdf_log, world.denied = [], []
    CTX = dict(
        ses=k, p=p, spec=ses, act={}, action=-1, ntok=0, emits=[], loaded=[], inits=[],
        started=[], posted=[], logstate=[], reused=[],
    )
    sim = Sim(
        seed=ses.get("seed", 0), sched=ses.get("sched"), faults=ses.get("faults", []),
        deviations=ses.get("deviations"), world=world,
        start=k * 86400.0, max_steps=ses.get("max_steps", 60000), max_time=ses.get("max_time", 20000.0),
    )
    sim.on_kill = world.snapshot
    np.random.seed(sim.seed % 2 ** 32 if isinstance(sim.seed, int) else zlib.crc32(str(sim.seed).encode()))
    o = Outcome()
    o.sim, o.acts, o.exited = sim, [], False
    o.leftover_procs = o.leftover_threads = o.leftover_managers = None
    P = ns["rt1.rtprocess"]
    import signal as _signal

    def state():
        pw = logging.getLogger("py.warnings")
        rt = logging.getLogger("rt1")
        import warnings

        return dict(
            handlers=[(h.name, h.level) for h in rt.handlers], level=rt.level,
            warn_handlers=[h.name for h in pw.handlers],
            capture=logging._warnings_showwarning is not None,
            root=[(type(h).__name__, h.name) for h in logging.getLogger().handlers],
            sig=(_signal.getsignal(_signal.SIGINT), _signal.getsignal(_signal.SIGTERM)),
        )

    def main():
        log = ns["rt1"].log
        world.answers = None
        procs = {}
        if ses.get("warnings"):
            import warnings
        for n, act in enumerate(ses["actions"]):
            r = Outcome()
            r.act, r.exc, r.ret, r.returned = act, None, None, False
            o.acts.append(r)
            if act.get("new_tag"):
                write_sources(world.scratch, p, act["new_tag"])
            chatter(log, f"before action {n}")
            CTX["act"], CTX["action"] = act, n
            r.tree0 = tree(world.scratch)
            r.state0 = state()
            r.s0, r.t0 = sim.steps, sim.now
            world.answers = list(act["answers"]) if act.get("answers") is not None else []
            try:
                _perform(act, procs, P, world, r, log)
                r.returned = True
            except SimKill:
                raise
            except BaseException as e:  # noqa
                r.exc = e
            r.s1, r.t1 = sim.steps, sim.now
            r.handles = [(h._sim_rel, h._sim_mode, h._sim_proc.name) for h in world.hdf_open]
            CTX["action"] = -1
            r.state1 = state()
            r.tree1 = tree(world.scratch)
            r.stores = keep_stores(world.scratch, f"{k}-{n}")
            r.unread = list(world.answers)
            chatter(log, f"after action {n}")
            # file names of logs carry the time in seconds
            sim.sleep(2.0)
            if r.exc is not None and not isinstance(r.exc, Exception):
                break
        procs.clear()
        mp_ = sim.procs[0]
        sim.wait(
            lambda: not [q for q in sim.procs[1:] if q.alive and not q.name.startswith("SyncManager")]
            and not [t for t in mp_.tasks[1:] if t.state not in ("done", "dead")],
            600.0, "grace",
        )
        o.leftover_procs = [q.name for q in sim.procs[1:] if q.alive]
        o.leftover_threads = [t.name for t in mp_.tasks[1:] if t.state not in ("done", "dead")]
        for m in sim.managers:
            m.alive = False
        fakes_mp.finally_exit(sim, mp_, 0)
        o.exited = True

    sim.run(main)
    o.hang, o.killed = sim.hang, sim.killed
    if sim.killed:
        world.restore_snapshot()
    for key in ("emits", "loaded", "inits", "started", "posted", "reused"):
        setattr(o, key, list(CTX[key]))
    o.hdf_log, o.denied = list(world.hdf_log), list(world.denied)
    clear_caches()
    return o


def keep_stores(scratch, name):
    """copy the containers as they are now; -> folder"""
    src = os.path.join(scratch, "save", "out", "results")
    dst = os.path.join(scratch + ".acts", name)
    if not os.path.isdir(scratch + ".acts"):
        REAL["mkdir"](scratch + ".acts")
    REAL["mkdir"](dst)
    if os.path.isdir(src):
        for f in sorted(os.listdir(src)):
            if f.endswith(".h5"):
                raw_copy(os.path.join(src, f), os.path.join(dst, f))
    return dst


def clear_caches():
    from .world import _ALL_CACHES

    for c in _ALL_CACHES:
        c.clear()


def _perform(act, procs, P, world, r, log):
    if act["do"] == "read":
        from . import fam_r

        fam_r.read_action(act, procs, world, r)
        return
    src = Path(world.scratch) / "src" / "config.ini"
    key = act.get("obj", "new")
    if key == "new" or key not in procs:
        kw = dict(
            config_path=src, autocontinue=act.get("autocontinue", False), copy=act.get("copy", True),
        )
        if act.get("hdf_export_kwargs"):
            kw["hdf_export_kwargs"] = dict(act["hdf_export_kwargs"])
        proc = P.RTprocess(**kw)
        if act.get("override"):
            proc.override_config(**act["override"])
        procs[key] = proc
    proc = procs[key]
    proc.autocontinue = act.get("autocontinue", False)
    do = act["do"]
    if do == "run":
        kw = dict(ncpu=act["ncpu"], logfile_level=act.get("logfile_level", 21))
        for n in ("dump_fit", "create_index"):
            if n in act:
                kw[n] = act[n]
        if act.get("direct_args"):
            kw["reader_args"] = reader_args(act, CTX["spec"])
        if act.get("pool_kwargs") == "direct":
            # (the class of the project is not yet imported)
            kw["pool_kwargs"] = {k: v for k, v in pool_kwargs({**act, "init": False}).items()}
        r.ret = proc.run_processing(**kw)
    elif do == "final":
        kw = dict(ncpu=act["ncpu"], logfile_level=act.get("logfile_level", 21))
        for n in ("use_N_files", "finalout_name", "create_index", "use_config", "write_chunk_size", "n_writer", "n_combiner", "out_cache_size"):
            if act.get(n) is not None:
                kw[n] = act[n]
        r.ret = proc.run_finaloutput(**kw)
    elif do == "export":
        kw = dict(ncpu=act["ncpu"], logfile_level=act.get("logfile_level", 21))
        for n in ("use_nfiles", "finalout_name", "create_index", "sig_to_dB", "inc_to_degree", "write_chunk_size", "n_writer"):
            if act.get(n) is not None:
                kw[n] = act[n]
        r.ret = proc.export_data_to_HDF(
            parameters=list(act["parameters"]),
            metrics={k: tuple(v) for k, v in act.get("metrics", {}).items()},
            export_functions=export_functions(act), **kw,
        )
    elif do == "setup":
        proc.setup()
    elif do == "drop":
        # the user removes the container (and keeps the dumps)
        q = Path(world.scratch) / "save" / "out" / "results" / "fit_db.h5"
        if q.exists():
            REAL["remove"](q)
    else:
        raise ValueError(do)


def export_functions(act):
    fs = {}
    for n in act.get("functions", []):
        fs[n] = EXPORT[n]
    return fs or None


def _ef_scalar(fit):
    return float(fit.dataset.sig.sum())


def _ef_series(fit):
    return fit.dataset.sig * 2.0


EXPORT = dict(total=_ef_scalar, double=_ef_series)
