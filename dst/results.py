"""Operations of a program that reads the results of a project (RTresults, HDFaccessor, dumps)."""
import os
import pickle
from pathlib import Path

from .kernel import SimKill, current_sim
from .world import REAL


class Obs:
    """what one operation gave"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Slot:
    def __init__(self, res, how, dumps):
        self.res, self.how, self.dumps = res, how, dumps
        self.its = []


def open_results(ns, world, how, dumps):
    R = ns["rt1.rtresults"]
    base = Path(world.scratch) / "save"
    if how == "direct":
        return R.RTresults(base / "out", use_dumps=dumps)["out"]
    if how == "iter":
        return [x for x in R.RTresults(base, use_dumps=dumps) if x.name == "out"][0]
    if how == "str":
        return R.RTresults(str(base), use_dumps=dumps).out
    return R.RTresults(base, use_dumps=dumps).out


def listing(world):
    """the dump-files of the project"""
    d = os.path.join(world.scratch, "save", "out", "dumps")
    return sorted(f for f in os.listdir(d) if f.endswith(".dump")) if os.path.isdir(d) else []


def perform(act, slots, ns, world, obs, cat):
    """the operations of one program; cat: {ID: number} of the stored fits"""
    import threading

    sim = current_sim()
    names = sorted(cat, key=cat.get)
    for own in slots.values():
        for s in own:
            if "fit_db" not in s.res._hdf_paths and not s.dumps:
                # (files that have been created in the meantime are found if the folder is scanned again)
                s.res.rescan()

    def body(t, ops):
        own = slots.setdefault(t, [])
        for n, op in enumerate(ops):
            k = op[0]
            o = Obs(op=op, t=t, n=n, ret=None, exc=None, want=None, dumps=None, faults=sum(sim.fault_counts.values()))
            try:
                one(own, op, o)
            except SimKill:
                raise
            except Exception as e:
                o.exc = e
            o.faulty = sum(sim.fault_counts.values()) > o.faults
            if o.op is not None:
                obs.append(o)

    def slot(own, i):
        return own[i % len(own)] if own else None

    def one(own, op, o):
        k = op[0]
        if k == "open":
            o.kind = "open"
            s = Slot(open_results(ns, world, op[1], op[2]), op[1], op[2])
            own.append(s)
            return
        s = slot(own, op[1])
        if s is None:
            o.op = None
            return
        o.dumps = s.dumps
        o.kind = k
        if k == "load":
            by, pos, rid = op[2], op[3], op[4]
            if by == "rand":
                o.want = None
                arg = None
            elif s.dumps or by == "path":
                fs = listing(world)
                if not fs:
                    o.op = None
                    return
                f = fs[pos % len(fs)]
                o.want = f[:-5]
                arg = f if pos % 2 else f[:-5]
                if by == "path":
                    arg = Path(world.scratch) / "save" / "out" / "dumps" / f
                elif by == "num":
                    arg, o.want = pos % len(fs), None
                elif by == "missing":
                    arg, o.want = "no_such_fit", False
            else:
                if not names:
                    o.op = None
                    return
                o.want = names[pos % len(names)]
                arg = o.want if by == "name" else cat[o.want]
                if by == "missing":
                    arg, o.want = ("no_such_fit" if pos % 2 else max(cat.values()) + 1 + pos), False
            o.rid = rid
            o.from_dump = s.dumps or by == "path"
            o.ret = s.res.load_fit(arg, return_ID=True) if rid else s.res.load_fit(arg)
        elif k == "list":
            o.files = [f[:-5] for f in listing(world)] if s.dumps else None
            o.ret = [os.path.basename(x)[:-5] if s.dumps else x for x in (s.res.dump_files if not op[2] else iter(s.res))]
        elif k == "iter":
            s.its.append([iter(s.res.dump_fits), [], False, s.dumps])
            o.op = None
        elif k == "next":
            it = s.its[op[2] % len(s.its)] if s.its else None
            if it is None or it[2]:
                o.op = None
                return
            o.kind = "next"
            o.from_dump, o.dumps = it[3], it[3]
            o.files = [f[:-5] for f in listing(world)]
            o.seen = it[1]
            o.got = []
            for _ in range(op[3]):
                try:
                    f = next(it[0])
                except StopIteration:
                    it[2] = True
                    break
                except BaseException:
                    it[2] = True
                    raise
                o.got.append(f)
                it[1].append(getattr(f, "ID", None) or (f.configs[0].ID if hasattr(f, "configs") else None))
            o.end = it[2]
        elif k == "rescan":
            s.res.rescan(op[2])
            if op[2] is not None:
                s.dumps = op[2]
            s.its.clear()
            o.op = None
        elif k == "scan":
            s.res.scan_folder() if s.dumps else None
            o.op = None
        elif k == "pickle":
            own.append(Slot(pickle.loads(pickle.dumps(s.res)), s.how, s.dumps))
            o.op = None
        elif k == "cfg":
            c = s.res.load_cfg()
            o.ret = c.get_fitobject()
        elif k == "close":
            # the user closes the container
            s.its.clear()
            if not s.dumps:
                s.res.fit_db.close()
            o.op = None
        elif k == "db":
            # direct access to the container
            if not names:
                o.op = None
                return
            o.kind, o.rid, o.from_dump = "load", False, False
            o.want = names[op[3] % len(names)]
            with s.res.load_hdf("fit_db") as db:
                o.ret = db.load_fit(o.want if op[2] == "name" else cat[o.want])
        elif k == "table":
            if not names:
                o.op = None
                return
            ID = names[op[2] % len(names)]
            o.want = ID
            if s.dumps or not hasattr(s.res.fit_db.datasets, "dataset"):
                # (the dataset is not stored in all setups)
                o.op = None
                return
            o.ret = s.res.fit_db.datasets.dataset.get_id(ID if op[3] else cat[ID])
        else:
            raise ValueError(k)

    th = act["threads"]
    if len(th) == 1:
        body(0, th[0])
    else:
        ts = [threading.Thread(target=body, args=(t, ops), name=f"R{t}") for t, ops in enumerate(th)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def let_go(slots, how):
    """containers are not kept open for longer"""
    import gc

    for own in slots.values():
        for s in own:
            s.its.clear()
            try:
                if how == "close":
                    s.res.fit_db.close()
                elif how == "rescan":
                    s.res.rescan()
            except SimKill:
                raise
            except Exception:
                # (there is no container, or it cannot be opened)
                s.res.rescan()
    if how == "forget":
        slots.clear()
    gc.collect()
