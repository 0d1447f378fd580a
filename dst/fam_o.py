"""Level C families with fit objects.

objects    histories of operations on several Fits and MultiFits objects          (C17)
dumps      saving and loading fits under faults, kills and concurrent readers     (C16)
"""
import copy
import os
import random

from . import level_c as C
from . import objects as O
from .fam_a import V, gen_sched
from .fam_c import REAL_COMPONENTS, STUB_COMPONENTS, account, new_stats, reductions  # noqa
from .kernel import HarnessError, SimKill
from .world import REAL, World

RTOL = 1e-7


def gen(family, seed):
    return GEN[family](random.Random(f"{family}/{seed}"), family, seed)


def execute(scn, ns, scratch, collect=None):
    vs, st = [], new_stats()
    w = World(scratch)
    lv = ns["rt1"].log.level
    ns["rt1"].log.setLevel(50)
    try:
        EXEC[scn["family"]](scn, ns, w, vs, st, collect)
    finally:
        ns["rt1"].log.setLevel(lv)
    return vs, st


# ====================================================================== C17
def gen_objects(r, family, seed):
    nthr = r.choice([1, 1, 1, 2, 2, 3])
    p_int = r.choice([0.0, 0.0, 0.3, 1.0])
    # a scenario uses few definitions, so that references can be shared
    dss = [O.gen_ds(r) for _ in range(2)]
    if r.random() < 0.5:
        # datasets of the same shape
        dss[1] = dss[0][:3] + [(dss[0][3] + r.choice([1, 2])) % 4]

    def cfg():
        c = O.gen_cfg(r, p_int)
        c["ds"] = r.choice(dss)
        return c

    def change():
        k = r.choice(["ds", "ds", "dd", "dd", "v", "v", "sig0", "dB", "int_Q", "nfev"])
        v = dict(ds=r.choice(dss), dd=r.choice(list(O.DEFD)), v=r.choice(list(O.VSRF)), sig0=r.random() < 0.5,
                 dB=r.random() < 0.5, int_Q=r.random() < (0.5 if p_int else 0.1), nfev=r.choice([2, 3]))[k]
        return [k, v]

    def reads(n):
        out = []
        for _ in range(n):
            x = r.random()
            out.append(r.choice(O.HEAVY) if x < 0.6 else r.choice(list(O.READS)))
        return out

    def op(shared_only=False):
        k = r.random()
        o = r.randrange(6)
        if shared_only:
            return ["read", o, reads(2)]
        if k < 0.1:
            return ["new", cfg()]
        if k < 0.2:
            return ["set", o, *change()]
        if k < 0.37:
            # the same quantities before and after a change
            return ["probe", o, reads(r.choice([1, 2, 4])), change(), r.random() < 0.4]
        if k < 0.47:
            return ["fit", o]
        if k < 0.78:
            return ["read", o, reads(r.choice([1, 2, 3]))]
        if k < 0.81:
            return ["deepcopy", o]
        if k < 0.83:
            return ["copy", o]
        if k < 0.85:
            # a copy is changed in-place and thrown away
            return ["scribble", o, r.choice(["reinit", "reinit", "deepcopy", "dumpload"]), reads(2)]
        if k < 0.88:
            if r.random() < 0.4:
                return ["attr", o, "aux", r.randrange(3)]
            return ["reinit", o, [change() for _ in range(r.choice([0, 1, 1, 2]))], r.random() < 0.3, r.random() < 0.5]
        if k < 0.9:
            return ["dumpload", o, r.random() < 0.5]
        if k < 0.93:
            return ["attr", o, r.choice(["id", "aux"]), r.randrange(3)]
        j = r.random()
        m = r.randrange(3)
        if j < 0.3:
            return ["multi", [[r.choice(["c1", "c2", "c3"]), cfg()] for _ in range(r.choice([1, 2, 3]))], r.choice(dss)]
        if j < 0.4:
            return ["mprobe", m, reads(2), r.choice(dss)]
        if j < 0.5:
            return ["mset", m, r.choice(["ds", "ds", "aux", "id"]), r.choice(dss), r.randrange(3)]
        if j < 0.6:
            return ["madd", m, r.choice(["c1", "c2", "c3"]), cfg()]
        if j < 0.85:
            return ["mread", m, reads(1)[0], r.choice(["apply", "config", "index", "acc"])]
        if j < 0.93:
            return ["mfit", m]
        return ["mdeepcopy", m]

    if r.random() < 0.25:
        # all quantities before and after a change
        c = cfg()
        d = r.choice(["ds", "ds", "ds", "dd", "v", "int_Q", "sig0", "dB"])
        v = dict(ds=dss[0] if c["ds"] == dss[1] else dss[1], dd=r.choice(list(O.DEFD)), v=r.choice(list(O.VSRF)),
                 int_Q=not c["int_Q"], sig0=not c["sig0"], dB=not c["dB"])[d]
        ops = [["new", c], ["probe", 2 * (r.random() < 0.7), r.sample(list(O.READS), len(O.READS)), [d, v], True]]
        return dict(
            level="C", family=family, seed=seed,
            sessions=[dict(prologue=[], threads=[ops], seed=r.randrange(1 << 30), sched=gen_sched(r, stalls=False), faults=[],
                           cache_size=r.choice([None, None, 1, 3]))],
        )

    # a prologue gives every thread something to work with
    pro = [["new", cfg()] for _ in range(r.choice([1, 2, 3]))]
    pro += [["fit", i] for i in range(len(pro)) if r.random() < 0.7]
    threads = []
    for t in range(nthr):
        ops = []
        if nthr > 1 or r.random() < 0.5:
            ops.append(["new", cfg()])
        if r.random() < 0.4:
            ops.append(["multi", [[n, cfg()] for n in r.sample(["c1", "c2", "c3"], r.choice([1, 2]))], r.choice(dss)])
        for _ in range(r.randint(4, 12 if nthr == 1 else 7)):
            ops.append(op())
        threads.append(ops)
    faults = []
    x = r.random()
    if x < 0.3:
        for _ in range(r.choice([1, 1, 2, 3])):
            faults.append(dict(kind="memory_error", op=r.choice(["cache.compute", "cache.compute", "cache.computed", "fit.eval"]),
                               n=r.choice([r.randint(1, 30), r.randint(1, 400)])))
    elif x < 0.55:
        for _ in range(r.choice([1, 1, 2])):
            faults.append(dict(kind="signal", sig="INT", op=r.choice(["*", "cache.c*", "cache.computed", "cache.clear", "fit.eval"]),
                               n=r.choice([r.randint(1, 40), r.randint(1, 800)]), target="main"))
    return dict(
        level="C", family=family, seed=seed,
        sessions=[dict(
            prologue=pro, threads=threads, seed=r.randrange(1 << 30), sched=gen_sched(r, stalls=False), faults=faults,
            cache_size=r.choice([None, None, 1, 2, 3, 5]),
        )],
    )


class M:
    """what is known about one fit object"""

    def __init__(self, cfg):
        self.cfg = dict(cfg)
        self.res = None  # definition of the fit that gave the results
        self.id, self.aux, self.cfgname = "RT1_fit", None, None

    def key(self):
        return copy.deepcopy((self.cfg, self.res, self.id, self.aux, self.cfgname))

    def clone(self):
        m = M(self.cfg)
        m.res, m.id, m.aux, m.cfgname = copy.deepcopy(self.res), self.id, self.aux, self.cfgname
        return m


class Entry:
    def __init__(self, obj, m):
        self.obj, self.m = obj, m


class MultiEntry:
    def __init__(self, obj, ds):
        self.obj, self.ds, self.aux = obj, ds, None
        self.fits = {}  # name -> Entry, in order


def exec_objects(scn, ns, w, vs, st, collect):
    ses = scn["sessions"][0]
    RF = ns["rt1.rtfits"]
    multi = len(ses["threads"]) > 1
    o = C.start_program(0, ses, w, cache_ops="all" if multi else True, cache_size=ses.get("cache_size"))
    sim = o.sim
    obs = []  # (where, model key, what, ok, value)
    cnt = dict(ops=0, failed=0)

    def add(kind, msg, **c):
        vs.append(V({"C17"}, kind, msg, **c))

    # evaluations of the model within a fit can fail as well
    real_lsq = getattr(RF, "least_squares", None)

    def lsq(fun, *a, **k):
        def wrapped(*b, **c):
            sim.op("fit.eval")
            if sim.check_fault("fit.eval", ("memory_error",)):
                raise MemoryError("simulated: fit.eval")
            return fun(*b, **c)

        return real_lsq(wrapped, *a, **k)

    class Space:
        """the objects of one thread"""

        def __init__(self, t):
            self.t, self.fits, self.multis = t, [], []

    def observe(where, e, what):
        before = sum(sim.fault_counts.values())
        key = e.m.key()
        try:
            v = ("ok", O.read(e.obj, what))
        except SimKill:
            raise
        except KeyboardInterrupt:
            raise
        except Exception as x:
            if isinstance(x, MemoryError) and sum(sim.fault_counts.values()) > before:
                raise
            v = ("exc", type(x).__name__)
            x = None
        obs.append((where, key, what, v))

    def settle(e, attr, old, new, probe):
        """an interrupted assignment: which value does the object have?"""
        e.m.cfg[attr] = new if probe(e.obj, new) else old

    def has(attr, fit, v):
        if attr == "ds":
            x = O.dataset(v)
            return fit.dataset is not None and O.canon(fit.dataset) in (O.canon(x), O.canon(x.sort_index()))
        if attr == "dd":
            return O.canon(fit.defdict.to_dict()) == O.canon(RF.Fits(defdict=O.DEFD[v]).defdict.to_dict())
        if attr == "v":
            return O.canon(fit.set_V_SRF) == O.canon(O.VSRF[v])
        return getattr(fit, attr) == v

    def assign(e, attr, v):
        old = e.m.cfg.get(attr)
        done = False
        try:
            if attr == "ds":
                e.obj.dataset = O.dataset(v)
            elif attr == "dd":
                e.obj.defdict = copy.deepcopy(O.DEFD[v])
            elif attr == "v":
                e.obj.set_V_SRF = copy.deepcopy(O.VSRF[v])
            elif attr == "nfev":
                e.obj.lsq_kwargs = dict(max_nfev=v)
            else:
                setattr(e.obj, attr, v)
            done = True
        finally:
            if done:
                e.m.cfg[attr] = v
            elif not o.sim.dead:
                pending.append((e, attr, old, v))

    pending = []

    def resolve():
        while pending:
            e, attr, old, v = pending.pop()
            if attr == "nfev":
                e.m.cfg[attr] = v if e.obj.lsq_kwargs == dict(max_nfev=v) else old
            else:
                e.m.cfg[attr] = v if has(attr, e.obj, v) else old

    def refit(e):
        """performfit: afterwards the object has the results of a fresh object"""
        cfg = dict(e.m.cfg)
        old = getattr(e.obj, "res_dict", None)
        try:
            e.obj.performfit()
            e.m.res = cfg
        except SimKill:
            raise
        except KeyboardInterrupt:
            if getattr(e.obj, "res_dict", None) is not old:
                e.m.res = cfg
            raise
        except Exception as x:
            if isinstance(x, MemoryError) and "simulated" in str(x):
                raise
            # (a fit can fail for all objects alike)
            obs.append(("performfit", (cfg, None, None, None, None), "fit", ("exc", type(x).__name__)))
            return

    def perform(sp, op, where):
        k = op[0]
        fits, multis = sp.fits, sp.multis
        if k == "new":
            m = M(op[1])
            kw = O.cfg_kwargs(op[1])
            e = Entry(RF.Fits(**kw), m)
            # (the definitions are copied)
            O.scribble_args(kw)
            fits.append(e)
            return
        if k[0] == "m":
            return perform_multi(sp, op, where)
        if not fits:
            return
        e = fits[op[1] % len(fits)]
        if k == "set":
            assign(e, op[2], op[3])
        elif k == "fit":
            refit(e)
        elif k == "probe":
            if op[4] and op[1] >= 2:
                refit(e)
            for what in op[2]:
                observe(where, e, what)
            assign(e, *op[3])
            if op[4]:
                refit(e)
            for what in op[2]:
                observe(where + " after the change", e, what)
        elif k == "read":
            pool = fits + (shared if sp is not main_space else [])
            e = pool[op[1] % len(pool)]
            for what in op[2]:
                observe(where, e, what)
        elif k == "deepcopy":
            fits.append(Entry(copy.deepcopy(e.obj), e.m.clone()))
        elif k == "copy":
            fits.append(Entry(copy.copy(e.obj), e.m.clone()))
        elif k == "reinit":
            # (the functions of the interaction can be shared if the definition stays the same)
            ch = [c for c in op[2] if not (op[3] and c[0] in ("dd", "v"))]
            m = M(e.m.cfg)
            for a, v in ch:
                m.cfg[a] = v
            kw = O.cfg_kwargs(m.cfg)
            name = dict(ds="dataset", dd="defdict", v="set_V_SRF", nfev="lsq_kwargs")
            kw = {name.get(a, a): kw[name.get(a, a)] for a, _ in ch}
            m.aux = e.m.aux if op[4] else None
            fits.append(Entry(e.obj.reinit_object(share_fnevals=op[3], share_auxdata=op[4], **kw), m))
        elif k == "dumpload":
            path = os.path.join(w.scratch, f"x{sp.t}.dump")
            m = e.m.clone()
            e.obj.dump(path, mini=op[2])
            fits.append(Entry(RF.load(path), m))
        elif k == "scribble":
            for what in op[3]:
                observe(where, e, what)
            if op[2] == "reinit":
                c = e.obj.reinit_object()
            elif op[2] == "deepcopy":
                c = copy.deepcopy(e.obj)
            else:
                path = os.path.join(w.scratch, f"x{sp.t}.dump")
                e.obj.dump(path, mini=False)
                c = RF.load(path)
            O.scribble(c, op[2] != "reinit")
            # (an assignment makes sure that the quantities are evaluated again)
            e.obj.sig0 = e.obj.sig0
            for what in op[3]:
                observe(where + f" after a copy ({op[2]}) has been changed", e, what)
        elif k == "attr":
            if op[2] == "id":
                e.obj.ID = f"id{op[3]}"
                e.m.id = f"id{op[3]}"
            else:
                e.obj.aux_data = f"aux{op[3]}"
                e.m.aux = f"aux{op[3]}"

    def add_config(me, name, cfg):
        m = M(cfg)
        f = RF.Fits(**O.cfg_kwargs(cfg))
        e = Entry(f, m)
        done = False
        try:
            me.obj.add_config(name, f)
            done = True
        finally:
            if not done and not o.sim.dead:
                if name in me.obj.config_names and getattr(me.obj.configs, name, None) is f:
                    done = True
            if done:
                m.cfg["ds"], m.aux, m.cfgname = me.ds, me.aux, name
                me.fits[name] = e

    def mset_ds(me, ds):
        old = me.ds
        try:
            me.obj.set_dataset(O.dataset(ds))
            me.ds = ds
            for e in me.fits.values():
                e.m.cfg["ds"] = ds
        except BaseException:
            if not o.sim.dead:
                me.ds = ds if has("ds", me.obj, ds) else old
                for e in me.fits.values():
                    pending.append((e, "ds", old, ds))
            raise

    def perform_multi(sp, op, where):
        k, multis = op[0], sp.multis
        if k == "multi":
            me = MultiEntry(RF.MultiFits(dataset=O.dataset(op[2])), op[2])
            multis.append(me)
            for name, cfg in op[1]:
                add_config(me, name, cfg)
            return
        if not multis:
            return
        me = multis[op[1] % len(multis)]
        if k == "madd":
            add_config(me, op[2], op[3])
        elif k == "mset":
            if op[2] == "ds":
                mset_ds(me, op[3])
            elif op[2] == "aux":
                me.obj.set_aux_data(f"aux{op[4]}")
                me.aux = f"aux{op[4]}"
                for e in me.fits.values():
                    e.m.aux = me.aux
            else:
                me.obj.set_ID(f"id{op[4]}")
                for e in me.fits.values():
                    e.m.id = f"id{op[4]}"
        elif k == "mprobe":
            for n in range(2):
                for e in me.fits.values():
                    for what in op[2]:
                        observe(where + (" after the change" if n else ""), e, what)
                if n == 0:
                    mset_ds(me, op[3])
        elif k == "mfit":
            for e in me.fits.values():
                refit(e)
        elif k == "mdeepcopy":
            new = MultiEntry(copy.deepcopy(me.obj), me.ds)
            new.aux = me.aux
            for name, e in me.fits.items():
                new.fits[name] = Entry(getattr(new.obj.configs, name), e.m.clone())
            multis.append(new)
        elif k == "mread":
            names = list(me.obj.config_names)
            if names != list(me.fits):
                add("config-names", f"{where}: the configurations are {names}, expected {list(me.fits)}")
                return
            what, how = op[2], op[3]
            if how == "apply":
                got = dict(me.obj.apply(lambda fit: fit))
            elif how == "config":
                got = {n: me.obj.configs[n] for n in names}
            elif how == "index":
                got = {n: me.obj.configs[i] for i, n in enumerate(names)}
                if len(list(me.obj.configs)) != len(names):
                    add("config-iter", f"{where}: iterating gives {len(list(me.obj.configs))} of {len(names)} configurations")
            else:
                got = me.obj.accessor.config_fits
            if list(got) != names or any(got[n] is not me.fits[n].obj for n in names if n in got):
                add("config-fits", f"{where}: {how} gives {list(got)} (wrong objects), expected {names}")
                return
            for n in names:
                observe(where, me.fits[n], what)
            if how == "acc" and what == "tot":
                vals = me.obj.accessor.calc_model()
                for n in names:
                    e = me.fits[n]
                    if e.m.res is None:
                        continue
                    try:
                        v = ("ok", O.canon(vals[n]()))
                    except (KeyboardInterrupt, MemoryError, SimKill):
                        raise
                    except Exception as x:
                        v = ("exc", type(x).__name__)
                    obs.append((where + " accessor", e.m.key(), "tot", v))

    def run_ops(sp, ops):
        for n, op in enumerate(ops):
            where = f"thread {sp.t} operation {n} ({op[0]})"
            cnt["ops"] += 1
            while True:
                try:
                    perform(sp, op, where)
                    break
                except SimKill:
                    raise
                except KeyboardInterrupt:
                    cnt["failed"] += 1
                    break
                except MemoryError as x:
                    if "simulated" not in str(x):
                        raise
                    x = None
                    cnt["failed"] += 1
                    break
            while True:
                try:
                    resolve()
                    break
                except KeyboardInterrupt:
                    pass
                except MemoryError:
                    pass

    main_space = Space("main")
    shared = main_space.fits

    def body():
        import threading

        main = sim.procs[0]
        if real_lsq is not None:
            RF.least_squares = lsq
        run_ops(main_space, ses["prologue"])
        spaces = [Space(t) for t in range(len(ses["threads"]))]
        if not multi:
            spaces[0].fits = main_space.fits
            shared_copy = []
        ts = [threading.Thread(target=(lambda t=t: run_ops(spaces[t], ses["threads"][t])), name=f"T{t}")
              for t in range(1, len(spaces))]
        h = main.sig.get("INT", "default")
        main.sig["INT"] = "ignore"
        for t in ts:
            t.start()
        main.sig["INT"] = h
        run_ops(spaces[0], ses["threads"][0])
        main.sig["INT"] = "ignore"
        for t in ts:
            t.join()
        # at the end all objects are read once more, without faults
        sim.triggers.clear()
        k = 0
        for sp in spaces + ([main_space] if multi else []):
            for e in sp.fits:
                observe(f"at the end (object {k})", e, ["tot", "contrib", "metric"][k % 3])
                for what in O.ATTR:
                    observe(f"at the end (object {k})", e, what)
                k += 1
            for me in sp.multis:
                for e in me.fits.values():
                    for what in ("tot", *O.ATTR):
                        observe("at the end (configuration)", e, what)

    try:
        C.run_program(o, w, body)
    finally:
        if real_lsq is not None:
            RF.least_squares = real_lsq
    account(st, o)
    if collect is not None:
        collect.append((ses, o, obs))
    for x in w.denied:
        raise HarnessError(f"denied {x}")
    if o.hang is not None:
        add("hang", f"the program never ends: {o.hang}")
        return
    if o.exc is not None or o.sim.thread_errors:
        import traceback

        raise HarnessError(f"{o.exc!r} {o.sim.thread_errors} " + ("".join(traceback.format_exception(o.exc))[-1500:] if o.exc else ""))
    judge_objects(ns, obs, add)
    p = st["probes"]
    p["values-compared"] = p.get("values-compared", 0) + sum(v[0] == "ok" for *_, v in obs)
    p["operations"] = p.get("operations", 0) + cnt["ops"]
    p["failed-operations"] = p.get("failed-operations", 0) + cnt["failed"]


RES = ("tot", "contrib", "res_df", "res_df_group", "metric", "metric_inter")


def suits(res, cfg):
    """do results have the shape that the definition and the dataset need?  (otherwise they mean nothing)"""
    a, b = res["ds"], cfg["ds"]
    return res["dd"] == cfg["dd"] and (a == b or (a[:2] == b[:2] and "uneven" not in (a[2], b[2])))


def judge_objects(ns, obs, add):
    for where, (cfg, res, id_, aux, cname), what, v in obs:
        if what in RES and res is not None and not suits(res, cfg):
            continue
        if what == "fit":
            try:
                O.results(ns, cfg)
                exp = ("ok", None)
            except Exception as e:
                exp = ("exc", type(e).__name__)
        elif what in O.ATTR:
            exp = ("ok", O.canon(dict(id=id_, aux=aux, cfgname=cname)[what]))
        else:
            exp = O.reference(ns, cfg, res, what)
        if v[0] != exp[0]:
            add("raises" if v[0] == "exc" else "no-error",
                f"{where}: reading {what} gave {str(v[1])[:200]}, a fresh object with {cfg} (results of {res}) gives {str(exp[1])[:200]}")
        elif v[0] == "exc":
            if v[1] != exp[1]:
                add("other-error", f"{where}: {what} raised {v[1]}, a fresh object raises {exp[1]}")
        else:
            d = O.differ(v[1], exp[1], RTOL)
            if d:
                add("stale", f"{where}: {what} of an object with {cfg} (results of {res}): {d}")


# ====================================================================== C16
PATHS = ["a.dump", "b.dump", "sub/c.dump"]


def gen_dumps(r, family, seed):
    dss = [O.gen_ds(r) for _ in range(2)]

    def cfg():
        c = O.gen_cfg(r, r.choice([0, 0.15]))
        c["ds"] = r.choice(dss)
        return c

    def make():
        if r.random() < 0.3:
            return ["multi", [[n, cfg()] for n in r.sample(["c1", "c2", "c3"], r.choice([1, 2, 3]))], r.choice(dss), r.random() < 0.7]
        return ["new", cfg(), r.random() < 0.7]

    def op():
        k = r.random()
        o = r.randrange(4)
        if k < 0.13:
            return make()
        if k < 0.55:
            return ["dump", o, r.choice(PATHS), r.random() < 0.65]
        if k < 0.68:
            return ["load", r.choice(PATHS)]
        if k < 0.76:
            return ["change", o, r.choice(["aux", "id", "arg", "ds", "extra"]), r.randrange(3), r.choice(dss)]
        if k < 0.82:
            return ["poison", o, r.random() < 0.6]
        if k < 0.92:
            return ["clone", o, r.choice(["deepcopy", "pickle", "copy"])]
        return ["dump", o, "missing/x.dump", r.random() < 0.65]

    ses = []
    for k in range(r.choice([1, 1, 2, 3])):
        ops = [make()] + [op() for _ in range(r.randint(3, 10))]
        readers = []
        if r.random() < 0.4:
            readers = [[r.choice(PATHS) for _ in range(r.randint(1, 4))] for _ in range(r.choice([1, 2]))]
        faults = []
        x = r.random()
        if x < 0.4:
            for _ in range(r.choice([1, 1, 2])):
                faults.append(dict(kind="file_error", op=r.choice(["file.open", "file.write", "file.write", "file.close", "os.*"]),
                                   n=r.choice([r.randint(1, 4), r.randint(1, 30)])))
        elif x < 0.6:
            faults.append(dict(kind="signal", sig="INT", op=r.choice(["*", "file.*", "os.*", "file.write"]), n=r.randint(1, 60), target="main"))
        elif x < 0.9:
            faults.append(dict(kind="kill", op=r.choice(["*", "file.*", "file.write", "os.*", "file.truncated"]), n=r.choice([r.randint(1, 8), r.randint(1, 50)])))
        ses.append(dict(ops=ops, readers=readers, seed=r.randrange(1 << 30), sched=gen_sched(r, stalls=False), faults=faults))
    return dict(level="C", family=family, seed=seed, sessions=ses)


def fp_fit(f, mini=False, full=True):
    """everything that a fit consists of"""
    d = dict(
        sig0=f.sig0, dB=f.dB, int_Q=f.int_Q, dataset=O.canon(f.dataset), set_V_SRF=O.canon(f.set_V_SRF),
        defdict=O.canon(f.defdict.to_dict()), lsq=O.canon(f.lsq_kwargs), ID=f.ID, backend=f.lambda_backend,
        aux=O.canon(getattr(f, "aux_data", None)), arg=O.canon(getattr(f, "reader_arg", None)),
        cfgname=getattr(f, "config_name", None), extra=getattr(f, "extra", None),
        res=O.canon(getattr(f, "res_dict", None)),
    )
    fo = getattr(f, "fit_output", None)
    keys = ("success", "status", "optimality")
    if fo is not None:
        g = {k: O.canon(fo[n]) for k in keys for n in (k, "fit_" + k) if n in fo}
        d["output"] = g
        if not mini and "x" in fo:
            d["output"] = dict(g, x=O.canon(fo["x"]), fun=O.canon(fo["fun"]), cost=O.canon(fo["cost"]))
    return d


def fp(obj, mini=False):
    if type(obj).__name__ != "MultiFits":
        return fp_fit(obj, mini)
    return dict(
        names=list(obj.config_names), aux=O.canon(obj.aux_data), arg=O.canon(obj.reader_arg), dataset=O.canon(obj.dataset),
        # (the configurations get the reader_arg of the container when it is loaded)
        fits={f.config_name: dict(fp_fit(f, mini), arg=None) for f in obj.configs}, shared=all(f.dataset is obj.dataset for f in obj.configs),
    )


def minied(x):
    """what a minimal dump keeps"""
    x = copy.deepcopy(x)
    for f in x["fits"].values() if "fits" in x else [x]:
        if f.get("output"):
            f["output"] = {k: v for k, v in f["output"].items() if k in ("success", "status", "optimality")}
        elif "output" in f and not f["output"]:
            f.pop("output")
    return x


def has_fnevals(obj):
    return [f._fnevals_input is not None for f in (obj.configs if type(obj).__name__ == "MultiFits" else [obj])]


def exec_dumps(scn, ns, w, vs, st, collect):
    import pickle
    import threading

    RF = ns["rt1.rtfits"]
    os.makedirs(os.path.join(w.scratch, "sub"), exist_ok=True)
    ok = {p: [None] for p in PATHS}  # possible contents (fingerprints) of every path
    for k, ses in enumerate(scn["sessions"]):

        def add(kind, msg, **c):
            vs.append(V({"C16"}, kind, f"session {k + 1}: {msg}", session=k, **c))

        # outside of the simulation: the results of the fits
        cfgs = [op[1] for op in ses["ops"] if op[0] == "new" and op[2]]
        cfgs += [dict(c, ds=op[2]) for op in ses["ops"] if op[0] == "multi" and op[3] for _, c in op[1]]
        for c in cfgs:
            try:
                O.results(ns, c)
            except Exception:
                pass
        o = C.start_program(k, ses, w)
        sim = o.sim
        objs = []
        cnt = dict(dumps=0, failed=0, loads=0, early=0)
        running = {}

        def fit(c, run):
            f = RF.Fits(**O.cfg_kwargs(c))
            if run:
                try:
                    f.performfit()
                except Exception:
                    pass
            return f

        def simulated(e):
            return isinstance(e, OSError) and e.errno in (28, 13, 5) and sim.fault_counts

        def check(path, where, accept):
            """load a dump and compare it with what may be there"""
            full = os.path.join(w.scratch, path)
            if not os.path.exists(full):
                if None not in accept:
                    add("missing", f"{where}: {path} is missing although it was dumped")
                return None
            try:
                obj = RF.load(full)
            except (SimKill, KeyboardInterrupt):
                raise
            except BaseException as e:
                add("unreadable", f"{where}: loading {path} raised {type(e).__name__}: {str(e)[:100]}")
                return None
            got = fp(obj)
            if not any(a is not None and O.differ(got_min(got, a), a[1], RTOL) is None for a in accept):
                ds = [O.differ(got_min(got, a), a[1], RTOL) for a in accept if a is not None] or ["nothing was dumped"]
                add("content", f"{where}: {path} loads as something that was not dumped: {ds[:3]}")
            return obj

        def got_min(got, a):
            return minied(got) if a[0] else got

        def dump(obj, path, mini, where):
            before, fn = fp(obj), has_fnevals(obj)
            version = (mini, minied(before) if mini else before)
            f0 = sum(sim.fault_counts.values())
            if path in ok:
                old = ok[path]
                ok[path] = old + [version]
            exc = None
            try:
                obj.dump(os.path.join(w.scratch, path), mini=mini)
                cnt["dumps"] += 1
            except SimKill:
                raise
            except BaseException as e:
                exc = e
                cnt["failed"] += 1
            if exc is None:
                if path in ok:
                    ok[path] = [version]
            elif isinstance(exc, OSError) and (path not in ok or simulated(exc)):
                pass
            elif isinstance(exc, KeyboardInterrupt):
                pass
            elif not poisoned(obj):
                add("dump-raises", f"{where}: dump({path}, mini={mini}) raised {exc!r}")
            if exc is None and path not in ok:
                add("no-error", f"{where}: dumping to a missing folder did not raise")
            d = O.differ(fp(obj), before, 0)
            if d:
                add("object-changed", f"{where}: dump({path}, mini={mini}) changed the object: {d}")
            if has_fnevals(obj) != fn:
                add("object-changed", f"{where}: dump({path}, mini={mini}) removed the functions of the interaction")
            # no copies of the object are affected either
            if not poisoned(obj):
                c = copy.deepcopy(obj)
                d = O.differ(fp(c), before, 0)
                if d:
                    add("copy-changed", f"{where}: after dump({path}, mini={mini}) -> {exc!r} a copy differs from the object: {d}")
            exc = None

        def poisoned(obj):
            fs = obj.configs if type(obj).__name__ == "MultiFits" else [obj]
            return any(hasattr(f, "poison") for f in fs)

        def perform(op, where):
            kind = op[0]
            if kind == "new":
                objs.append(fit(op[1], op[2]))
                return
            if kind == "multi":
                m = RF.MultiFits(dataset=O.dataset(op[2]))
                for n, c in op[1]:
                    m.add_config(n, fit(dict(c, ds=op[2]), op[3]))
                objs.append(m)
                return
            if kind == "load":
                p = op[1]
                x = check(p, where, list(ok[p]))
                cnt["loads"] += 1
                if x is not None:
                    objs.append(x)
                return
            if not objs:
                return
            obj = objs[op[1] % len(objs)]
            multi = type(obj).__name__ == "MultiFits"
            if kind == "dump":
                dump(obj, op[2], op[3], where)
            elif kind == "change":
                if op[2] == "aux":
                    v = O.dataset(op[4])[["tau"]] if op[3] == 0 else f"aux{op[3]}"
                    obj.set_aux_data(v) if multi else setattr(obj, "aux_data", v)
                elif op[2] == "id":
                    obj.set_ID(f"id{op[3]}") if multi else setattr(obj, "ID", f"id{op[3]}")
                elif op[2] == "arg":
                    v = dict(a=op[3], b=[1, 2])
                    obj.set_reader_arg(v) if multi else setattr(obj, "reader_arg", v)
                elif op[2] == "ds":
                    obj.set_dataset(O.dataset(op[4])) if multi else setattr(obj, "dataset", O.dataset(op[4]))
                elif not multi:
                    obj.extra = f"extra{op[3]}"
            elif kind == "poison":
                f = obj.configs[0] if multi else obj
                if hasattr(f, "poison"):
                    del f.poison
                elif op[2]:
                    f.poison = (i for i in range(3))
                else:
                    f.poison = memoryview(b"x")
            elif kind == "clone":
                if poisoned(obj):
                    return
                before = fp(obj)
                c = {"deepcopy": copy.deepcopy, "copy": copy.deepcopy if multi else copy.copy,
                     "pickle": lambda x: pickle.loads(RF.cloudpickle.dumps(x))}[op[2]](obj)
                d = O.differ(fp(c), before, 0) or O.differ(fp(obj), before, 0)
                if d:
                    add("clone", f"{where}: {op[2]} differs from the object: {d}")
                objs.append(c)

        def reader(t, paths):
            def f():
                for p in paths:
                    a0 = list(ok[p])
                    full = os.path.join(w.scratch, p)
                    sim.op("reader")
                    a0 = list(ok[p])
                    if not os.path.exists(full):
                        if None not in a0:
                            add("missing", f"reader {t}: {p} is missing although it was dumped")
                        continue
                    # (loading is a single step of the reader, the dump may be at any point)
                    check(p, f"reader {t}", a0)
                    cnt["early"] += 1
            return f

        def body():
            main = sim.procs[0]
            for p in PATHS:
                check(p, "at the start", list(ok[p]))
            h = main.sig.get("INT", "default")
            main.sig["INT"] = "ignore"
            ts = [threading.Thread(target=reader(t, ps), name=f"R{t}") for t, ps in enumerate(ses["readers"])]
            for t in ts:
                t.start()
            main.sig["INT"] = h
            for n, op in enumerate(ses["ops"]):
                try:
                    perform(op, f"operation {n} {op[0]}")
                except KeyboardInterrupt:
                    pass
            main.sig["INT"] = "ignore"
            for t in ts:
                t.join()
            sim.triggers.clear()
            for p in PATHS:
                check(p, "at the end", list(ok[p]))

        C.run_program(o, w, body)
        account(st, o)
        if collect is not None:
            collect.append((ses, o, None))
        for x in w.denied:
            raise HarnessError(f"denied {x}")
        if o.hang is not None:
            add("hang", f"the program never ends: {o.hang}")
            return
        if o.exc is not None or o.sim.thread_errors:
            import traceback

            raise HarnessError(f"{o.exc!r} {o.sim.thread_errors} " + ("".join(traceback.format_exception(o.exc))[-1500:] if o.exc else ""))
        # what is there now (the next program starts from it)
        for p in PATHS:
            if os.path.exists(os.path.join(w.scratch, p)):
                try:
                    got = fp(RF.load(os.path.join(w.scratch, p)))
                except BaseException as e:
                    add("unreadable", f"after the program: loading {p} raised {type(e).__name__}: {str(e)[:100]}")
                    return
                l = [a for a in ok[p] if a is not None and O.differ(got_min(got, a), a[1], RTOL) is None]
                if not l:
                    add("content", f"after the program: {p} loads as something that was not dumped")
                    return
                ok[p] = l
            elif None in ok[p]:
                ok[p] = [None]
            else:
                add("missing", f"after the program: {p} is missing although it was dumped")
                return
        p = st["probes"]
        for a in cnt:
            if cnt[a]:
                p[a] = p.get(a, 0) + cnt[a]


GEN = dict(objects=gen_objects, dumps=gen_dumps)
EXEC = dict(objects=exec_objects, dumps=exec_dumps)
