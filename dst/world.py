"""Per-process interpreter state, files and the HDF5 container behind the simulator.

`load_rt1()` imports the real rt1 package with every source of nondeterminism
replaced by the stand-ins of this package.
"""
import builtins
import collections
import datetime as _datetime
import errno
import functools
import gc
import io
import logging
import os
import shutil
import signal
import sys
import types
import warnings
import zlib
from pathlib import Path

from . import fakes_mp, fakes_threading
from .kernel import HarnessError, current_sim

REPO = os.environ.get("VERIF_REPO", "/repo")

REAL = dict(
    open=builtins.open, input=builtins.input, lru_cache=functools.lru_cache,
    rmtree=shutil.rmtree,
)
for _n in ("unlink", "remove", "rmdir", "rename", "replace", "mkdir", "fsync", "truncate", "link", "symlink", "scandir", "listdir"):
    REAL[_n] = getattr(os, _n)


def raw_copy(a, b):
    """copy bytes without passing through the simulation"""
    fa = os.open(a, os.O_RDONLY)
    fb = os.open(b, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        while True:
            d = os.read(fa, 1 << 20)
            if not d:
                break
            os.write(fb, d)
    finally:
        os.close(fa)
        os.close(fb)


def raw_copytree(a, b):
    REAL["mkdir"](b)
    for e in REAL["scandir"](a):
        t = os.path.join(b, e.name)
        if e.is_symlink():
            REAL["symlink"](os.readlink(e.path), t)
        elif e.is_dir():
            raw_copytree(e.path, t)
        else:
            raw_copy(e.path, t)


# ------------------------------------------------------------------ caches
def sim_lru_cache(maxsize=128, typed=False):
    """functools.lru_cache, one cache per simulated process (they share nothing)"""
    if callable(maxsize):
        return sim_lru_cache(128)(maxsize)

    def deco(f):
        if _LOADED is not None:
            # (made by a function at run time: never seen by others)
            return REAL["lru_cache"](maxsize=maxsize, typed=typed)(f)
        return SimLru(f, maxsize, typed)

    return deco


class SimLru:
    """the real cache of every simulated process behind a seam
    (like the original: pickled by its name, bound to instances, attributes of the function)"""

    __slots__ = ("_f", "_maxsize", "_typed", "_caches", "__dict__", "__weakref__")

    def __init__(self, f, maxsize, typed):
        self._f, self._maxsize, self._typed, self._caches = f, maxsize, typed, {}
        functools.update_wrapper(self, f)
        _ALL_CACHES.append(self._caches)

    def _cache(self):
        s = current_sim()
        caches = self._caches
        key = s.current.proc if s is not None else None
        c = caches.get(key)
        if c is None:
            # forget the caches of processes of earlier simulations
            for k in [k for k in caches if k is not None and (s is None or k.sim is not s)]:
                del caches[k]
            n = self._maxsize
            if s is not None and s.world is not None and s.world.cache_size is not None:
                # (as if many other objects were in use)
                n = s.world.cache_size if n is None else min(n, s.world.cache_size)
            c = caches[key] = REAL["lru_cache"](maxsize=n, typed=self._typed)(self._compute)
        return c

    def _compute(self, *a, **k):
        s = current_sim()
        if s is None or s.world is None or not s.world.cache_ops:
            return self._f(*a, **k)
        n = self._f.__name__
        s.op("cache.compute", n)
        if s.check_fault("cache.compute", ("memory_error",)):
            raise MemoryError(f"simulated: {n}")
        r = self._f(*a, **k)
        s.op("cache.computed", n)
        if s.check_fault("cache.computed", ("memory_error",)):
            raise MemoryError(f"simulated: {n}")
        return r

    def __call__(self, *a, **k):
        s = current_sim()
        if s is not None and s.world is not None and s.world.cache_ops == "all":
            s.op("cache.get", self._f.__name__)
        return self._cache()(*a, **k)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __reduce__(self):
        return self.__qualname__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def cache_info(self):
        return self._cache().cache_info()

    def cache_clear(self):
        s = current_sim()
        if s is not None and s.world is not None and s.world.cache_ops:
            s.op("cache.clear", self._f.__name__)
        return self._cache().cache_clear()

    def cache_parameters(self):
        return dict(maxsize=self._maxsize, typed=self._typed)


_ALL_CACHES = []


# ------------------------------------------------------------------ stdout
class _Out(io.TextIOBase):
    encoding = "utf-8"

    def __init__(self, real, which):
        self._real, self._which = real, which

    def write(self, x):
        s = current_sim()
        if s is None:
            return self._real.write(x)
        if not s.dead:
            s.stdout.append((s.current.proc.pid, self._which, x))
        return len(x)

    def flush(self):
        if current_sim() is None:
            self._real.flush()

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        return self._real.fileno()


# ------------------------------------------------------------------ files
class World:
    def __init__(self, scratch):
        self.scratch = str(Path(scratch).resolve())
        self.mod_names = set()
        self.hdf_open = []  # SimHDFStore handles
        self.hdf_log = []  # (event, ...) history of the container
        self.denied = []  # refused accesses outside of the scratch directory
        self.write_time = 0.0
        self.answers = None
        self.file_ops = True
        self.read_ops = False  # opening dump-files for reading is a seam
        self.fullfile = True
        self.wrap_appends = False  # writes to files opened for appending are seams
        self.cache_ops = False  # computing a cached quantity is a seam ("all": using it as well)
        self.cache_size = None  # upper limit of the cache sizes
        self.files_open = []  # files opened for writing

    # -- path guard
    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode()
        return p == self.scratch or p.startswith(self.scratch + os.sep)

    def deny(self, what, path):
        s = current_sim()
        self.denied.append((what, str(path)))
        s.ev("DENIED", f"{what} {path}")
        raise PermissionError(errno.EACCES, f"simulator: {what} outside of scratch", str(path))

    def rel(self, path):
        p = os.path.realpath(os.fspath(path))
        return p[len(self.scratch) + 1 :] if self.inside(p) else p

    # -- per process interpreter state
    def _capture(self):
        rt, root, pw = logging.getLogger("rt1"), logging.getLogger(), logging.getLogger("py.warnings")
        return dict(
            rt=(rt.handlers, rt.level, rt.propagate, rt.disabled, rt.filters),
            root=(root.handlers, root.level),
            pw=(pw.handlers, pw.level, pw.propagate),
            show=warnings.showwarning,
            lshow=logging._warnings_showwarning,
            filters=warnings.filters,
            path=sys.path,
            mods={n: sys.modules[n] for n in self.mod_names if n in sys.modules},
            cwd=os.getcwd(),
            disable=logging.root.manager.disable,
        )

    def _install(self, g):
        rt, root, pw = logging.getLogger("rt1"), logging.getLogger(), logging.getLogger("py.warnings")
        lv = (rt.level, root.level, pw.level, logging.root.manager.disable)
        rt.handlers, rt.level, rt.propagate, rt.disabled, rt.filters = g["rt"]
        root.handlers, root.level = g["root"]
        pw.handlers, pw.level, pw.propagate = g["pw"]
        warnings.showwarning = g["show"]
        logging._warnings_showwarning = g["lshow"]
        if warnings.filters is not g["filters"]:
            warnings.filters = g["filters"]
            warnings._filters_mutated()
        logging.root.manager.disable = g["disable"]
        if lv != (rt.level, root.level, pw.level, g["disable"]):
            logging.root.manager._clear_cache()
        sys.path = g["path"]
        for n in self.mod_names:
            if n in g["mods"]:
                sys.modules[n] = g["mods"][n]
            else:
                sys.modules.pop(n, None)
        if os.getcwd() != g["cwd"]:
            os.chdir(g["cwd"])

    def fresh(self, path, cwd):
        b = self.base
        return dict(
            rt=(list(b["rt"][0]), b["rt"][1], b["rt"][2], b["rt"][3], list(b["rt"][4])),
            root=(list(b["root"][0]), b["root"][1]),
            pw=(list(b["pw"][0]), b["pw"][1], b["pw"][2]),
            show=b["show"],
            lshow=b["lshow"],
            filters=list(b["filters"]),
            path=list(path),
            mods={},
            cwd=cwd,
            disable=b["disable"],
        )

    def new_proc_globals(self, p, parent, fork):
        if parent is None:
            self.base = self._capture()
            for n in self.mod_names:
                sys.modules.pop(n, None)
            p.g = self.fresh(self.base["path"], self.base["cwd"])
            return
        now = self._capture()
        if fork:
            p.g = dict(
                rt=(list(now["rt"][0]), *now["rt"][1:4], list(now["rt"][4])),
                root=(list(now["root"][0]), now["root"][1]),
                pw=(list(now["pw"][0]), *now["pw"][1:]),
                show=now["show"], lshow=now["lshow"], filters=list(now["filters"]),
                path=list(now["path"]), mods=dict(now["mods"]), cwd=now["cwd"],
                disable=now["disable"],
            )
            p.sig = dict(parent.sig)
        else:
            p.g = self.fresh(now["path"], now["cwd"])
            # ignored signals stay ignored across exec
            for k in ("INT", "TERM"):
                if parent.sig.get(k) == "ignore":
                    p.sig[k] = "ignore"
                    p.sig[k + "_raw"] = signal.SIG_IGN

    def swap(self, old, new):
        if old is not None:
            old.g = self._capture()
        self._install(new.g)

    def leave(self, sim):
        if getattr(self, "base", None) is not None:
            self._install(self.base)
        for h in list(self.hdf_open):
            h._force_close()
        self.hdf_open = []
        for f in list(self.files_open):
            f._shut()

    # -- ends of processes
    def proc_gone(self, p):
        """killed: the OS closes its files, nothing is flushed by the process"""
        for h in [h for h in self.hdf_open if h._sim_proc is p]:
            h._crash_close()

    def proc_exit(self, p):
        for h in [h for h in self.hdf_open if h._sim_proc is p]:
            h.close()

    def snapshot(self):
        """what is on disk at this instant (called when the whole tree is killed)"""
        self.snap = self.scratch + ".snap"
        raw_copytree(self.scratch, self.snap)

    def restore_snapshot(self):
        REAL["rmtree"](self.scratch)
        REAL["rename"](self.snap, self.scratch)


def world():
    s = current_sim()
    return None if s is None else s.world


class SimFile:
    """a file opened for writing: truncation, every half write and the close are
    separate points at which the process can die or the disk can fail"""

    def __init__(self, s, f, rel, truncated=True):
        self._s, self._f, self._rel = s, f, rel
        self.name, self.mode = f.name, f.mode
        s.world.files_open.append(self)
        if truncated:
            s.op("file.truncated", rel)

    def _check(self, kind):
        s = current_sim()
        if s is None or s is not self._s:
            return
        s.op(kind, self._rel)
        sp = s.check_fault(kind, ("file_error",))
        if sp is not None:
            raise OSError(errno.ENOSPC, "No space left on device", self._rel)

    def write(self, data):
        if not isinstance(data, (str, bytes)):
            data = bytes(data)
        h = len(data) // 2
        n = 0
        if h:
            self._check("file.write")
            self._f.write(data[:h])
            self._f.flush()
        self._check("file.write")
        self._f.write(data[h:])
        self._f.flush()
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def flush(self):
        pass

    def close(self):
        if not self._f.closed:
            try:
                self._check("file.close")
            finally:
                self._shut()

    def _shut(self):
        self._f.close()
        if self in self._s.world.files_open:
            self._s.world.files_open.remove(self)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is not None:
            self._shut()
        else:
            self.close()

    def __getattr__(self, k):
        return getattr(self._f, k)


def sim_open(file, mode="r", *a, **k):
    s = current_sim()
    if s is None or s.world is None or isinstance(file, int):
        return REAL["open"](file, mode, *a, **k)
    w = s.world
    if not any(c in mode for c in "wxa+"):
        if w.read_ops and os.fspath(file).endswith(".dump"):
            s.op("file.read", w.rel(file))
            if s.check_fault("file.read", ("file_error",)):
                raise OSError(errno.EIO, "Input/output error (simulated)", w.rel(file))
        return REAL["open"](file, mode, *a, **k)
    if os.fspath(file) in ("/dev/null", b"/dev/null"):
        return REAL["open"](file, mode, *a, **k)
    if not w.inside(file):
        w.deny("open", file)
    rel = w.rel(file)
    if "a" in mode or "r+" in mode:
        if w.file_ops:
            s.op("file.append", rel)
            if s.check_fault("file.append", ("file_error",)):
                raise OSError(errno.ENOSPC, "No space left on device", rel)
        f = REAL["open"](file, mode, *a, **k)
        if w.wrap_appends:
            return SimFile(s, f, rel, truncated=False)
        return f
    s.op("file.open", rel)
    if s.check_fault("file.open", ("file_error",)):
        raise OSError(errno.EACCES, "Permission denied", rel)
    return SimFile(s, REAL["open"](file, mode, *a, **k), rel)


def _os_guard(name, npaths):
    real = REAL[name]

    def f(*a, **k):
        s = current_sim()
        if s is None or s.world is None:
            return real(*a, **k)
        if k.get("dir_fd") is None and k.get("src_dir_fd") is None and k.get("dst_dir_fd") is None:
            for p in a[:npaths]:
                if not isinstance(p, int) and not s.world.inside(
                    os.path.join(os.path.dirname(os.path.abspath(os.fspath(p))), "x")
                ):
                    if name == "mkdir" and os.path.isdir(p):
                        continue
                    s.world.deny(name, p)
            s.op("os." + name, ", ".join(s.world.rel(p) for p in a[:npaths] if not isinstance(p, int)))
        else:
            s.op("os." + name, str(a[0]))
        if s.check_fault("os." + name, ("file_error",)):
            raise OSError(errno.EIO, "Input/output error", str(a[0]))
        return real(*a, **k)

    f.__name__ = name
    return f


def sim_rmtree(path, *a, **k):
    s = current_sim()
    if s is None or s.world is None:
        return REAL["rmtree"](path, *a, **k)
    w = s.world
    if not w.inside(path) or os.path.realpath(path) == w.scratch:
        w.deny("rmtree", path)
    s.op("rmtree", w.rel(path))
    # deterministic order; every removal is a point of interruption
    ignore = k.get("ignore_errors", a[0] if a else False)
    try:
        if os.path.islink(path):
            raise OSError("Cannot call rmtree on a symbolic link")
        for root, dirs, files in os.walk(path, topdown=False):
            for n in sorted(files):
                os.unlink(os.path.join(root, n))
            for n in sorted(dirs):
                q = os.path.join(root, n)
                os.unlink(q) if os.path.islink(q) else os.rmdir(q)
        os.rmdir(path)
    except OSError:
        if not ignore:
            raise


class _Entries:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _any_order(s, name):
    """the order of the entries of a directory is arbitrary (but stays the same)"""
    return zlib.crc32(f"{s.seed}/{os.fsdecode(name)}".encode()), os.fsdecode(name)


def sim_scandir(path="."):
    s = current_sim()
    if s is None or s.world is None or isinstance(path, int):
        return REAL["scandir"](path)
    with REAL["scandir"](path) as it:
        return _Entries(sorted(it, key=lambda e: _any_order(s, e.name)))


def sim_listdir(path="."):
    s = current_sim()
    if s is None or s.world is None or isinstance(path, int):
        return REAL["listdir"](path)
    return sorted(REAL["listdir"](path), key=lambda n: _any_order(s, n))


def sim_input(prompt=""):
    s = current_sim()
    if s is None:
        return REAL["input"](prompt)
    s.op("input", f"{len(s.world.answers)} answers left")
    if not s.world.answers:
        raise EOFError("EOF when reading a line")
    return s.world.answers.pop(0)


# ------------------------------------------------------------------ HDF5
def make_store(RealStore):
    class SimHDFStore(RealStore):
        _sim_proc = None
        _sim_mode = None

        def __init__(self, path, mode="a", *a, **k):
            s = current_sim()
            self._sim = s
            if s is None or s.world is None:
                super().__init__(path, mode, *a, **k)
                return
            w = s.world
            if not w.inside(path):
                w.deny("hdf", path)
            self._sim_key = os.path.realpath(os.fspath(path))
            self._sim_rel = w.rel(path)
            self._handle = None  # for __del__/is_open if we fail below
            super_init = super().__init__
            s.op("hdf.open", f"{self._sim_rel} {mode}")
            fault = s.check_fault("hdf.open-" + mode, ("hdf_open_error",))
            if fault:
                raise OSError(errno.EIO, "unable to open file (simulated I/O error)")
            proc = s.current.proc
            for h in w.hdf_open:
                if h._sim_key != self._sim_key:
                    continue
                if mode == "r" and h._sim_mode == "r":
                    continue
                same = h._sim_proc is proc
                w.hdf_log.append(
                    ("conflict", s.steps, self._sim_rel, proc.name, mode, h._sim_proc.name, h._sim_mode)
                )
                s.ev("hdf.conflict", f"{proc.name} {mode} vs {h._sim_proc.name} {h._sim_mode}")
                if same:
                    if mode == "a" and h._sim_mode == "a":
                        continue
                    raise ValueError(
                        f"The file '{self._sim_rel}' is already opened, but "
                        + ("not in read-only mode (as requested)." if mode == "r" else "in read-only mode.")
                    )
                raise BlockingIOError(
                    errno.EAGAIN, "unable to lock file, errno = 11, Resource temporarily unavailable"
                )
            super_init(path, mode, *a, **k)
            self._sim_proc, self._sim_mode = proc, mode
            w.hdf_open.append(self)
            w.hdf_log.append(("open", s.steps, self._sim_rel, proc.name, mode))

        def _note(self, what, key=None):
            s = self._sim
            if s is not None:
                s.world.hdf_log.append((what, s.steps, self._sim_rel, self._sim_proc.name, key))

        def close(self):
            s = self._sim
            try:
                if (
                    s is not None and self._sim_proc is not None and self in s.world.hdf_open
                    and current_sim() is s and not s.dead and s.current.proc is self._sim_proc
                    and self._sim_proc.alive
                ):
                    # closing takes a while, the container is in use until it is finished
                    s.op("hdf.close", self._sim_rel)
            finally:
                if s is not None and self in s.world.hdf_open:
                    s.world.hdf_open.remove(self)
                    s.world.hdf_log.append(
                        ("close", s.steps, self._sim_rel, self._sim_proc.name, self._sim_mode)
                    )
                try:
                    super().close()
                except AttributeError:
                    pass

        def _force_close(self):
            try:
                RealStore.close(self)
            except Exception:
                pass

        def _crash_close(self):
            """the owner died: keep the bytes that are on disk now"""
            s = self._sim
            if self in s.world.hdf_open:
                s.world.hdf_open.remove(self)
            if self._sim_mode != "r":
                tmp = self._sim_key + ".crash"
                raw_copy(self._sim_key, tmp)
                self._force_close()
                REAL["replace"](tmp, self._sim_key)
            else:
                self._force_close()

        def _write_op(self, what, key, value=None, torn=None):
            s = current_sim()
            if s is None or self._sim is None:
                return
            if self._sim_proc is not s.current.proc:
                raise ValueError("container handle used by another process")
            s.op("hdf." + what, f"{self._sim_rel}:{key}")
            if s.world.write_time:
                s.wait(None, s.world.write_time, "slow write")
            f = s.check_fault("hdf." + what, ("hdf_error",))
            self._note(what, key)
            if f:
                if f.get("torn") and torn is not None and value is not None and len(value) > 1:
                    s.probe("torn-write")
                    torn(value.iloc[: len(value) // 2])
                raise OSError(errno.ENOSPC, "write failed: No space left on device (simulated)")

        def append(self, key, value, *a, **k):
            sup = super().append
            self._write_op("append", key, value, lambda v: sup(key, v, *a, **k))
            r = sup(key, value, *a, **k)
            self._after()
            return r

        def put(self, key, value, *a, **k):
            self._write_op("put", key)
            r = super().put(key, value, *a, **k)
            self._after()
            return r

        def remove(self, key, *a, **k):
            self._write_op("remove", key)
            r = super().remove(key, *a, **k)
            self._after()
            return r

        def _after(self):
            if self._sim is not None:
                self.flush()

        # (properties: conditions refer to local variables of the calling frame)
        @property
        def select(self):
            self._read_op("select")
            return super().select

        @property
        def select_column(self):
            self._read_op("select_column")
            return super().select_column

        @property
        def select_as_coordinates(self):
            self._read_op("select_coord")
            return super().select_as_coordinates

        def _read_op(self, what):
            s = current_sim()
            if s is not None and self._sim is not None:
                s.op("hdf." + what, self._sim_rel)
                if s.check_fault("hdf." + what, ("hdf_read_error",)):
                    raise OSError(errno.EIO, "can not read data (simulated I/O error)")

    SimHDFStore.__name__ = "HDFStore"
    return SimHDFStore


class SimDatetime(_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        s = current_sim()
        if s is None:
            return _datetime.datetime.now(tz)
        return _datetime.datetime.fromtimestamp(s.now, tz or _datetime.timezone.utc).replace(tzinfo=tz)

    today = utcnow = now


# ------------------------------------------------------------------ import
_LOADED = None


def load_rt1():
    """import rt1 from REPO with all seams in place; returns a namespace"""
    global _LOADED
    if _LOADED is not None:
        return _LOADED
    os.environ.setdefault("MPLBACKEND", "Agg")
    # heavy dependencies first, so that only rt1 sees the stand-ins at import
    import numpy as np
    import pandas as pd
    import pandas.io.pytables as pdt
    import tables  # noqa
    import scipy.optimize, scipy.sparse, scipy.special  # noqa
    import sympy  # noqa
    import cloudpickle  # noqa

    try:
        import symengine  # noqa
    except Exception:
        pass
    import matplotlib  # noqa
    import matplotlib.pyplot  # noqa

    try:
        import xarray  # noqa
    except Exception:
        pass
    warnings.simplefilter("ignore")
    sys.stdout = _Out(sys.stdout, "out")
    sys.stderr = _Out(sys.stderr, "err")
    fakes_threading.install()
    fakes_mp.install()
    builtins.open = sim_open
    io.open = sim_open
    builtins.input = sim_input
    shutil.rmtree = sim_rmtree
    for n, c in (("unlink", 1), ("remove", 1), ("rmdir", 1), ("rename", 2), ("replace", 2),
                 ("mkdir", 1), ("link", 2), ("symlink", 2), ("truncate", 1)):
        setattr(os, n, _os_guard(n, c))
    os.scandir, os.listdir = sim_scandir, sim_listdir
    store = make_store(pdt.HDFStore)
    pd.HDFStore = store
    pdt.HDFStore = store
    functools.lru_cache = sim_lru_cache
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib

    names = [
        "rt1", "rt1.general_functions", "rt1._containers", "rt1.volume", "rt1.surface",
        "rt1.scatter", "rt1.rt1", "rt1.rtmetrics", "rt1.rtplots", "rt1.rtfits",
        "rt1.rtparse", "rt1.rtresults", "rt1.processing_config",
        "rt1._rtprocess_writer", "rt1.rtprocess",
    ]
    ns = {}
    for n in names:
        try:
            m = importlib.import_module(n)
        except ModuleNotFoundError as e:
            if e.name == n:
                continue
            raise
        ns[n] = m
    functools.lru_cache = REAL["lru_cache"]
    if not ns["rt1"].__file__.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"imported rt1 from {ns['rt1'].__file__}, not from {REPO}")
    for m in ns.values():
        if getattr(m, "datetime", None) is _datetime.datetime and m.__name__ == "rt1.rtprocess":
            m.datetime = SimDatetime
    gc.collect()
    gc.freeze()
    _LOADED = ns
    return ns
