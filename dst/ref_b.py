"""What an item's fit and its exported values have to look like.

The fit itself is done by rt1 on a fresh object with nothing but the item's own
dataset; everything derived from it (export tables, conversions, metrics) is
calculated here.
"""
import os
import shutil
import tempfile
import zlib
from pathlib import Path

import numpy as np
import pandas as pd

from . import level_b as B

_CACHE = {}
MODEL_KEYS = ("tot", "surf", "vol", "inter")


class Ref:
    """plain values of one finished fit"""


def config_key(ini_text, scratch):
    return ini_text.replace(str(scratch), "<>")


def reference(ini_text, p, ID, ns, scratch):
    """{config name: Ref} of an item under a configuration"""
    key = (config_key(ini_text, scratch), str(ID), bool(p.get("aux")), p.get("unique"), p.get("bsf", ""))
    if key not in _CACHE:
        if len(_CACHE) > 4000:
            _CACHE.clear()
        _CACHE[key] = _compute(key[0], p, ID, ns)
        B.clear_caches()
    return _CACHE[key]


def _compute(text, p, ID, ns):
    d = tempfile.mkdtemp(prefix="rt1ref-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        q = os.path.join(d, "config.ini")
        with open(q, "w") as f:
            f.write(text)
        fitobj = ns["rt1.rtparse"].RT1_configparser(Path(q)).get_fitobject()
    finally:
        shutil.rmtree(d)
    if isinstance(fitobj, ns["rt1.rtfits"].MultiFits):
        fits = dict(zip(fitobj.config_names, fitobj.configs))
    else:
        fits = {"default": fitobj}
    out = {}
    for name, fit in fits.items():
        fit.dataset = B.dataset(ID, p)
        fit.performfit()
        r = Ref()
        r.init = {k: str(v) for k, v in fit._get_init_dict().items()}
        r.dB = fit.dB
        r.defdict = fit.defdict.to_dict()
        r.dataset = fit.dataset.copy()
        r.res_df = fit.res_df.copy()
        r.res_dict = {k: list(v) for k, v in fit.res_dict.items()}
        r.model = fit.calc_model(return_components=True).copy()
        r.post = B.post_result(fit, 0).droplevel(0)
        out[name] = r
    return out


def export_tables(r, act, reader_arg):
    """the tables of one exported fit: {table: frame or dict}"""
    cols, static = {}, {}
    funcs = act.get("functions", [])
    dB = act.get("sig_to_dB", False)
    for key in act["parameters"]:
        if key in MODEL_KEYS:
            v = r.model[key]
            cols[key] = 10 * np.log10(v) if (dB and r.dB is False) else v
        elif key in funcs:
            if key == "total":
                static[key] = float(r.dataset.sig.sum())
            else:
                cols[key] = r.dataset.sig * 2.0
        elif key == "sig":
            cols[key] = 10 * np.log10(r.dataset.sig) if (dB and r.dB is False) else r.dataset.sig
        elif key == "inc":
            cols[key] = np.rad2deg(r.dataset.inc) if act.get("inc_to_degree") else r.dataset.inc
        elif key in r.defdict:
            d = r.defdict[key]
            if d[0] is True:
                if d[2] is None:
                    static[key] = r.res_dict[key][0]
                else:
                    cols[key] = r.res_df[key]
            elif d[1] == "auxiliary":
                cols[key] = r.dataset[key]
            else:
                static[key] = d[1]
        elif key in r.dataset:
            cols[key] = r.dataset[key]
        elif key in reader_arg:
            static[key] = reader_arg[key]
    out = {}
    if cols:
        out["dynamic"] = pd.concat(cols, axis=1)
    if static:
        out["static"] = static
    m = {}
    for name, (kind, a, b) in act.get("metrics", {}).items():
        x, y = _series(r, a), _series(r, b)
        if kind == "pearson":
            m[name] = float(np.corrcoef(x, y)[0, 1])
        elif kind == "rmsd":
            m[name] = float(np.sqrt(np.mean((np.asarray(x) - np.asarray(y)) ** 2)))
        elif kind == "bias":
            m[name] = float(np.mean(x) - np.mean(y))
    if m:
        out["metrics"] = m
    return out


def _series(r, key):
    if key in MODEL_KEYS:
        return r.model[key]
    if key in r.dataset:
        return r.dataset[key]
    return r.res_df[key]


# ------------------------------------------------------------------ comparing
def same_frame(got, exp, tol=1e-9):
    """None, or what differs between two frames (columns in any order)"""
    if set(map(str, got.columns)) != set(map(str, exp.columns)):
        return f"columns {sorted(map(str, got.columns))}, expected {sorted(map(str, exp.columns))}"
    if len(got) != len(exp):
        return f"{len(got)} rows, expected {len(exp)}"
    gi = [tuple(i) if isinstance(i, tuple) else i for i in got.index]
    ei = [tuple(i) if isinstance(i, tuple) else i for i in exp.index]
    if gi != ei:
        return f"index {gi[:3]}.., expected {ei[:3]}.."
    for c in exp.columns:
        a, b = got[c].values, exp[c].values
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            if list(map(str, a)) != list(map(str, b)):
                return f"{c}: {list(a)[:3]}, expected {list(b)[:3]}"
            continue
        if not np.allclose(a, b, rtol=tol, atol=1e-12, equal_nan=True):
            return f"{c}: {list(a)[:4]}, expected {list(b)[:4]}"
    return None


def same_values(got, exp, tol=1e-9):
    if set(got) != set(exp):
        return f"columns {sorted(got)}, expected {sorted(exp)}"
    for k in exp:
        a, b = got[k], exp[k]
        try:
            if not np.isclose(float(a), float(b), rtol=tol, atol=1e-12, equal_nan=True):
                return f"{k} = {a}, expected {b}"
        except (TypeError, ValueError):
            if str(a) != str(b):
                return f"{k} = {a}, expected {b}"
    return None


# ------------------------------------------------------------------ containers
def read_store(path):
    """{table: frame}, or a message if the container can not be read"""
    if not os.path.exists(path):
        return {}
    out = {}
    try:
        with pd.HDFStore(path, "r") as s:
            for k in s.keys():
                if "/meta/" in k or k.endswith("/meta"):
                    continue
                out[k.lstrip("/")] = s[k]
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return out


def table_ids(tables):
    """{ID: [numbers]} of the items that are listed in a container"""
    ids = {}
    df = tables.get("reader_arg")
    if df is None:
        return ids
    for num, ID in zip(df.index, df["ID"] if "ID" in df else df.index):
        ids.setdefault(str(ID), []).append(int(num) if str(num).isdigit() else num)
    return ids


def rows_of(df, num):
    """the rows of an item, without the number"""
    lv = df.index.get_level_values(0) if isinstance(df.index, pd.MultiIndex) else df.index
    sub = df[lv == num]
    if isinstance(df.index, pd.MultiIndex):
        sub = sub.droplevel(0)
    return sub


def crc(path):
    try:
        with open(path, "rb") as f:
            return zlib.crc32(f.read())
    except OSError:
        return None
