"""Level C: programs that use the library directly (no processing pool).

A scenario is a list of sessions; every session is one simulated program with
one or several threads that perform generated operations on the real classes.
"""
import signal as _signal
import threading

from . import fakes_mp
from .kernel import Sim, SimKill
from .world import _ALL_CACHES


class Outcome:
    pass


def start_program(k, ses, world, **kw):
    world.hdf_log, world.denied = [], []
    world.write_time = ses.get("write_time", 0.0)
    world.wrap_appends = kw.pop("wrap_appends", False)
    world.cache_ops = kw.pop("cache_ops", False)
    world.cache_size = kw.pop("cache_size", None)
    world.files_open = []
    sim = Sim(
        seed=ses.get("seed", 0), sched=ses.get("sched"), faults=ses.get("faults", []),
        deviations=ses.get("deviations"), world=world, start=k * 86400.0,
        max_steps=ses.get("max_steps", 60000), max_time=ses.get("max_time", 20000.0),
    )
    sim.on_kill = world.snapshot
    o = Outcome()
    o.sim, o.exited, o.exc = sim, False, None
    return o


def run_program(o, world, body):
    """body() runs in the main thread of a new simulated program"""
    sim = o.sim

    def main():
        try:
            body()
        except SimKill:
            raise
        except BaseException as e:  # noqa
            o.exc = e
        p = sim.procs[0]
        fakes_mp.finally_exit(sim, p, 0)
        o.exited = True

    sim.run(main)
    o.hang, o.killed = sim.hang, sim.killed
    o.hdf_log, o.denied = list(world.hdf_log), list(world.denied)
    if sim.killed:
        world.restore_snapshot()
    world.wrap_appends = world.cache_ops = False
    world.cache_size = None
    for c in _ALL_CACHES:
        c.clear()
    return o


def run_threads(fns):
    """run the functions in simulated threads until all have ended"""
    ts = [threading.Thread(target=f, name=f"T{i}") for i, f in enumerate(fns)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def attempt(r, f):
    """perform one operation, note what it returned or raised"""
    try:
        r.ret = f()
        r.exc = None
    except SimKill:
        raise
    except BaseException as e:  # noqa
        r.ret, r.exc = None, e
    return r
