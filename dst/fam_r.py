"""Scenario family "results": a program that reads the results of a project (C19)."""
import contextlib
import copy
import importlib
import os
import random


from . import fam_b as FB
from . import kernel
from . import level_b as B
from . import ref_b as R
from . import results as Q
from .fam_a import V, gen_sched
from .level_a import norm
from .world import REAL, World

REAL_COMPONENTS = FB.REAL_COMPONENTS
STUB_COMPONENTS = FB.STUB_COMPONENTS


# ------------------------------------------------------------------ generating
def gen_ops(r):
    ops = [["open", r.choice(["parent", "parent", "direct", "iter", "str"]), r.random() < 0.3]]
    for _ in range(r.randint(2, 9)):
        k, o = r.random(), r.randrange(4)
        if k < 0.1:
            ops.append(["open", r.choice(["parent", "direct"]), r.random() < 0.4])
        elif k < 0.55:
            ops.append(["load", o, r.choice(["name", "name", "name", "num", "num", "rand", "rand", "path", "missing"]),
                        r.randrange(12), r.random() < 0.3])
        elif k < 0.62:
            ops.append(["list", o, r.random() < 0.4])
        elif k < 0.68:
            ops.append(["iter", o])
            ops.append(["next", o, r.randrange(3), r.choice([1, 2, 20])])
        elif k < 0.74:
            ops.append(["next", o, r.randrange(3), r.choice([1, 2, 20])])
        elif k < 0.8:
            ops.append(["rescan", o, r.choice([None, None, True, False])])
        elif k < 0.82:
            ops.append(["scan", o])
        elif k < 0.86:
            ops.append(["pickle", o])
        elif k < 0.88:
            ops.append(["cfg", o])
        elif k < 0.91:
            ops.append(["close", o])
        elif k < 0.96:
            ops.append(["db", o, r.choice(["name", "num"]), r.randrange(12)])
        else:
            ops.append(["table", o, r.randrange(12), r.random() < 0.5])
    return ops


def gen_read(r):
    return dict(do="read", threads=[gen_ops(r) for _ in range(r.choice([1, 1, 1, 2]))],
                end=r.choice(["close", "rescan", "forget"]))


def gen(family, seed):
    r = random.Random(f"R/{family}/{seed}")
    n = r.choice([1, 2, 3, 3, 4, 5])
    ids = FB.gen_items(r, n)
    p = FB.gen_project(r, unique=r.random() < 0.3, multi=0.4, intq=0.05, names=r.random() < 0.2)
    run = FB.gen_run(r, ids if r.random() < 0.6 else ids[: r.randint(1, n)], fail=FB.gen_fail(r, ids, r.choice([0, 0.3])))
    x = r.random()
    extra = {}
    if x < 0.15:
        extra["hdf_export_kwargs"] = {k: False for k in ("save_results", "save_res_df", "save_data", "save_auxdata") if r.random() < 0.4}
    if r.random() < 0.5:
        extra["dump_fit"] = True
    run.update(extra)
    acts = [run]
    while r.random() < 0.6 and len(acts) < 6:
        acts.append(gen_read(r))
        if r.random() < 0.5:
            acts.append(dict(FB.gen_run(r, ids), **extra))
    for a in acts:
        a["obj"] = r.choice(["p", "p", "new"])
    ses = [FB.gen_ses(r, acts)]
    x = r.random()
    if x < 0.15:
        ses[0]["faults"] = [r.choice([FB.gen_kill, FB.gen_hdf])(r)]
    elif x < 0.25:
        ses[0]["faults"] = gen_read_faults(r, 60)
    for _ in range(r.choice([1, 1, 2])):
        s = FB.gen_ses(r, [gen_read(r)])
        s["write_time"] = 0
        if r.random() < 0.5:
            s["faults"] = gen_read_faults(r, 20)
        if r.random() < 0.3:
            s["actions"].append(dict(FB.gen_run(r, ids), obj="p", **extra))
            s["actions"].append(gen_read(r))
        ses.append(s)
    for s in ses:
        for a in s["actions"]:
            for x in [x for x in a if a[x] is None and x != "logfile_level"]:
                a.pop(x)
    return dict(level="R", family=family, seed=seed, project=p, sessions=ses)


def gen_read_faults(r, m):
    out = []
    for _ in range(r.choice([1, 1, 2])):
        k = r.random()
        if k < 0.7:
            out.append(dict(kind="hdf_read_error", op=r.choice(["hdf.select*", "hdf.select_coord", "hdf.select_coord"]), n=r.randint(1, m)))
        elif k < 0.85:
            out.append(dict(kind="hdf_open_error", op="hdf.open-r", n=r.randint(1, 4)))
        else:
            out.append(dict(kind="file_error", op="file.read", n=r.randint(1, 6)))
    return out


# ------------------------------------------------------------------ executing
@contextlib.contextmanager
def outside():
    """(the harness looks at files without being part of the simulation)"""
    s, kernel.CURRENT = kernel.CURRENT, None
    try:
        yield
    finally:
        kernel.CURRENT = s


def read_action(act, procs, world, r):
    """(inside the simulated program)"""
    ns = {"rt1.rtresults": importlib.import_module("rt1.rtresults")}
    r.obs, r.raw = [], None
    path = os.path.join(world.scratch, "save", "out", "results", "fit_db.h5")
    with outside():
        r.raw = R.read_store(path)
    if isinstance(r.raw, str):
        return
    ok = os.path.isdir(os.path.join(world.scratch, "save", "out", "results"))
    if not ok:
        return
    cat = {}
    for ID, nums in R.table_ids(r.raw).items():
        cat[norm(ID)] = nums[0]
    r.cat = cat
    r.has_db = os.path.exists(path)
    world.read_ops = True
    slots = procs.setdefault("results", {})
    try:
        Q.perform(act, slots, ns, world, r.obs, cat)
    finally:
        world.read_ops = False
        if not world_dead():
            Q.let_go(slots, act["end"])


def world_dead():
    from .kernel import current_sim

    s = current_sim()
    return s is None or s.dead


def execute(scn, ns, scratch, collect=None):
    vs = []
    w = World(scratch)
    p = scn["project"]
    B.make_project(w.scratch, p)
    items = []
    for ses in scn["sessions"]:
        for a in ses["actions"]:
            items += [i for i in a.get("items", []) if i not in items]
    st = dict(sessions=0, steps=0, simtime=0.0, faults={}, probes={}, digests=[], il=[], devs=[], notes=[])
    try:
        for k, ses in enumerate(scn["sessions"]):
            o = B.run_session(k, ses, p, w, ns)
            st["sessions"] += 1
            st["steps"] += o.sim.steps
            st["simtime"] += o.sim.now - o.sim.t0
            for a, b in ((st["faults"], o.sim.fault_counts), (st["probes"], o.sim.probes)):
                for x, y in b.items():
                    a[x] = a.get(x, 0) + y
            st["digests"].append(o.sim.digest())
            st["il"].append(o.sim.interleaving())
            st["devs"].append(o.sim.deviations)
            if collect is not None:
                collect.append((ses, o))
            for n, r in enumerate(o.acts):
                if r.act["do"] == "read":
                    judge(k, n, r, items, p, w, ns, vs, st)
            st["notes"].append((
                "kill" if o.killed else "ok", tuple(type(r.exc).__name__ for r in o.acts), tuple(sorted(o.sim.fault_counts)),
            ))
            if o.hang is not None:
                # (judged by other properties)
                if any(r.act["do"] == "read" and not hasattr(r, "tree1") for r in o.acts):
                    vs.append(V({"C19"}, "hang", f"session {k + 1}: reading never ends: {o.hang}", session=k))
                break
    finally:
        if os.path.isdir(w.scratch + ".acts"):
            REAL["rmtree"](w.scratch + ".acts")
        B.clear_caches()
    return vs, st


# ------------------------------------------------------------------ judging
def judge(k, n, r, items, p, w, ns, vs, st):
    if not getattr(r, "obs", None) or not hasattr(r, "tree1"):
        return
    P = {"C19"}
    F = ns["rt1.rtfits"]
    ini = r.tree0.get("save/out/cfg/config.ini")
    ini = ini.decode() if ini else None
    byname = {norm(i): i for i in items}
    if p.get("names"):
        byfeature = {norm(B.names(dict(ID=i))["feature_id"]): i for i in byname.values()}
    else:
        byfeature = byname
    pr = st["probes"]

    def add(kind, msg):
        vs.append(V(P, kind, f"session {k + 1} action {n + 1}: {msg}", session=k))

    def check(fit, name, dump, what):
        """is this the stored fit?"""
        if fit is None:
            add("no-fit", f"{what} gave nothing")
            return
        i = byfeature.get(name) if dump else byname.get(name)
        if i is None:
            i = byname.get(name) or byfeature.get(name)
        if i is None:
            add("unknown-fit", f"{what} gave a fit called {name}, which is no item")
            return
        msg = (dump_differs if dump else differs)(fit, name, i, r, ini, p, w, ns, F)
        pr["loads-compared"] = pr.get("loads-compared", 0) + 1
        if msg:
            add("wrong-fit", f"{what}: {msg}")

    def fit_id(f):
        return f.ID if not hasattr(f, "configs") else getattr(f.configs, f.config_names[0]).ID

    for x in r.obs:
        what = f"thread {x.t} operation {x.n} {x.op}"
        if x.exc is not None:
            if x.faulty and "simulated" in chain(x.exc):
                pr["failed-reads"] = pr.get("failed-reads", 0) + 1
                continue
            if x.kind == "load" and x.want is False:
                continue
            if not r.has_db and not x.dumps or x.dumps and not any(f.endswith(".dump") for f in r.tree0):
                # (nothing has been stored)
                continue
            if isinstance(x.exc, AssertionError) and not r.cat and not x.dumps:
                continue
            if not r.cat and not x.dumps:
                continue
            add("raises", f"{what} ({len(r.cat)} stored fits) raised {type(x.exc).__name__}: {x.exc}")
            continue
        if x.kind == "load":
            f = x.ret
            if x.rid:
                if not (isinstance(f, tuple) and len(f) == 2):
                    add("no-ID", f"{what} did not return (fit, ID)")
                    continue
                f, rid = f
            if x.want is False:
                if f is not None:
                    add("phantom", f"{what} gave a fit although there is none")
                continue
            if f is None:
                if not r.cat and not x.from_dump:
                    continue
                add("no-fit", f"{what} gave nothing ({len(r.cat)} stored fits)")
                continue
            name = fit_id(f)
            if not x.from_dump and x.want is not None and name != x.want:
                add("other-fit", f"{what} gave {name} instead of {x.want}")
                continue
            if x.rid and not x.from_dump and rid != name:
                add("wrong-ID", f"{what} gave the ID {rid!r} for {name}")
            if x.from_dump and x.want is not None and name != norm(x.want):
                # (files are called like the items)
                if not p.get("names") or x.want != name:
                    add("other-fit", f"{what} gave {name} instead of {x.want}")
                    continue
            check(f, name, x.from_dump, what)
        elif x.kind == "list":
            exp = sorted(x.files) if x.dumps else sorted(r.cat)
            if sorted(x.ret) != exp:
                add("listing", f"{what} gave {sorted(x.ret)}, stored are {exp}")
            pr["listings"] = pr.get("listings", 0) + 1
        elif x.kind == "next":
            for f in x.got:
                if f is None:
                    add("no-fit", f"{what} gave nothing")
                    continue
                check(f, fit_id(f), x.from_dump, what)
            if x.end:
                seen = sorted(map(str, x.seen))
                exp = sorted(norm(f) for f in x.files) if x.from_dump else sorted(r.cat)
                if seen != exp:
                    add("listing", f"{what}: iterating over all fits gave {seen}, stored are {exp}")
        elif x.kind == "cfg":
            exp = R.reference(ini, p, next(iter(byname.values())), ns, w.scratch) if byname and ini else {}
            got = dict(zip(x.ret.config_names, x.ret.configs)) if hasattr(x.ret, "configs") else {"default": x.ret}
            if exp and (sorted(got) != sorted(exp) or any(got[c].defdict.to_dict() != exp[c].defdict for c in exp)):
                add("wrong-config", f"{what} gave another definition")
        elif x.kind == "table":
            exp = R.rows_of(r.raw["dataset"], r.cat[x.want]) if "dataset" in r.raw else None
            if exp is not None and len(exp):
                d = R.same_frame(x.ret.droplevel(0), exp, 1e-12)
                if d:
                    add("wrong-table", f"{what}: {d}")


def chain(e):
    out = []
    while e is not None:
        out.append(str(e))
        e = e.__cause__ or e.__context__
    return " ".join(out)


def differs(fit, name, i, r, ini, p, w, ns, F):
    """a fit that has been loaded from the container"""
    num = r.cat[name]
    raw = r.raw
    ref = R.reference(ini, p, i, ns, w.scratch)
    multi = p.get("multi")
    if bool(multi) != hasattr(fit, "configs"):
        return f"the loaded object is a {type(fit).__name__}"
    fits = dict(zip(fit.config_names, fit.configs)) if multi else {"default": fit}
    if sorted(fits) != sorted(ref):
        return f"configs {sorted(fits)}, expected {sorted(ref)}"
    ax = None
    if "aux_data" in raw:
        ax = R.rows_of(raw["aux_data"], num)
        ax = None if not len(ax) else ax
    ds = R.rows_of(raw["dataset"], num) if "dataset" in raw else None
    ds = None if ds is None or not len(ds) else ds
    has_res = "res_dict" in raw and len(R.rows_of(raw["res_dict"], num)) > 0
    for c, f in fits.items():
        x, tag = ref[c], f"{name} ({c}): " if multi else f"{name}: "
        if f.ID != name:
            return f"{tag}ID is {f.ID}"
        msg = same_definition(f, x)
        if msg:
            return tag + msg
        if (f.dataset is None) != (ds is None):
            return f"{tag}the dataset is {'missing' if f.dataset is None else 'present'}"
        if ds is not None:
            d = R.same_frame(f.dataset, ds, 1e-12)
            if d:
                return f"{tag}dataset: {d}"
        got = getattr(f, "aux_data", None)
        if (got is None) != (ax is None):
            return f"{tag}auxiliary data are {'missing' if got is None else 'present'}"
        if ax is not None:
            d = R.same_frame(got, ax, 1e-12)
            if d:
                return f"{tag}aux_data: {d}"
        ra = getattr(f, "reader_arg", None)
        want = B.reader_args({"items": [i]}, None)[0]
        for key, v in want.items():
            if not isinstance(ra, dict) or str(ra.get(key)) not in (str(v), norm(v)):
                return f"{tag}reader_arg is {ra}, expected {want}"
        if has_res:
            msg = same_results(f, x, ds is not None)
            if msg:
                return tag + msg
        elif getattr(f, "res_dict", None) is not None:
            return f"{tag}there are no stored results, but res_dict is {f.res_dict}"
    return None


def dump_differs(fit, name, i, r, ini, p, w, ns, F):
    """a fit that has been loaded from a dump-file"""
    ref = R.reference(ini, p, i, ns, w.scratch)
    multi = p.get("multi")
    if bool(multi) != hasattr(fit, "configs"):
        return f"the loaded object is a {type(fit).__name__}"
    fits = dict(zip(fit.config_names, fit.configs)) if multi else {"default": fit}
    if sorted(fits) != sorted(ref):
        return f"configs {sorted(fits)}, expected {sorted(ref)}"
    ax = B.aux(i) if p.get("aux") else None
    for c, f in fits.items():
        x, tag = ref[c], f"dump of {name} ({c}): " if multi else f"dump of {name}: "
        msg = same_definition(f, x)
        if msg:
            return tag + msg
        d = R.same_frame(f.dataset, x.dataset, 1e-12)
        if d:
            return f"{tag}dataset: {d}"
        got = getattr(f, "aux_data", None)
        if (got is None) != (ax is None):
            return f"{tag}auxiliary data are {'missing' if got is None else 'present'}"
        if ax is not None and R.same_frame(got, ax, 1e-12):
            return f"{tag}aux_data: {R.same_frame(got, ax, 1e-12)}"
        want = B.reader_args({"items": [i]}, None)[0]
        for key, v in want.items():
            if str((f.reader_arg or {}).get(key)) != str(v):
                return f"{tag}reader_arg is {f.reader_arg}, expected {want}"
        msg = same_results(f, x, True)
        if msg:
            return tag + msg
    return None


def same_definition(f, x):
    got = {k: str(v) for k, v in f._get_init_dict().items()}
    for key in ("int_Q", "sig0", "dB", "defdict", "set_V_SRF"):
        if got.get(key) != x.init.get(key):
            return f"definition of {key} is {got.get(key)}, expected {x.init.get(key)}"
    return None


def same_results(f, x, derived):
    got = getattr(f, "res_dict", None)
    if got is None:
        return "the parameters are missing"
    if sorted(got) != sorted(x.res_dict):
        return f"parameters {sorted(got)}, expected {sorted(x.res_dict)}"
    for key, v in x.res_dict.items():
        if not FB._close(list(got[key]), v):
            return f"parameter {key}: {list(got[key])}, expected {v}"
    if derived:
        d = R.same_frame(f.res_df, x.res_df)
        if d:
            return f"res_df: {d}"
        d = R.same_frame(f.calc_model(return_components=True), x.model)
        if d:
            return f"modelled values: {d}"
    return None


def reductions(scn):
    yield from FB.reductions(scn)
    for k, s in enumerate(scn["sessions"]):
        for j, a in enumerate(s["actions"]):
            if a["do"] != "read":
                continue
            for t, ops in enumerate(a["threads"]):
                if len(a["threads"]) > 1:
                    c = copy.deepcopy(scn)
                    del c["sessions"][k]["actions"][j]["threads"][t]
                    yield c
                for n in range(len(ops) - 1, -1, -1):
                    if len(ops) > 1:
                        c = copy.deepcopy(scn)
                        del c["sessions"][k]["actions"][j]["threads"][t][n]
                        yield c
