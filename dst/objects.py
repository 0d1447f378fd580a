"""Definitions of fit objects, their fingerprints and the reference values of fresh objects."""
import copy
import hashlib
import json

import numpy as np
import pandas as pd

from .world import _ALL_CACHES

# ------------------------------------------------------------------ definitions
_SRF = dict(SRF_name="HG_nadirnorm", NormBRDF="N", t="t_s", ncoefs=3, a=[-1.0, 1.0, 1.0])


def v_call(omega, tau, t_v, t_s, N, **kw):
    from rt1 import surface, volume

    V = volume.HenyeyGreenstein(t=t_v, ncoefs=2, omega=omega, tau=tau, a=[-1.0, 1.0, 1.0])
    SRF = surface.HG_nadirnorm(t=t_s, ncoefs=2, NormBRDF=N, a=[-1.0, 1.0, 1.0])
    return V, SRF


def v_expr(omega, tau, t_v, t_s, N, **kw):
    from rt1 import surface, volume

    V = volume.HenyeyGreenstein(t=t_v, ncoefs=3, omega=omega * 0.9, tau=2 * tau, a=[-1.0, 1.0, 1.0])
    SRF = surface.CosineLobe(i=3, ncoefs=4, NormBRDF=N, a=[1.0, 1.0, 1.0])
    return V, SRF


VSRF = {
    "hg": dict(V_props=dict(V_name="HenyeyGreenstein", tau="tau", omega="omega", t="t_v", ncoefs=3), SRF_props=_SRF),
    "ray": dict(V_props=dict(V_name="Rayleigh", tau="tau", omega="omega"), SRF_props=dict(_SRF, ncoefs=2)),
    "expr": dict(
        V_props=dict(V_name="HenyeyGreenstein", tau="tau * 1.5", omega="omega + 0.05", t="t_v", ncoefs=2),
        SRF_props=dict(SRF_name="HG_nadirnorm", NormBRDF="N / 2", t="t_s", ncoefs=3, a=[-1.0, 1.0, 1.0]),
    ),
    "comb": dict(
        V_props=dict(V_name="HenyeyGreenstein", tau="tau", omega="omega", t="t_v", ncoefs=2),
        SRF_props=dict(
            SRF_name="LinCombSRF", NormBRDF="N",
            SRFchoices=[
                [0.4, dict(SRF_name="HG_nadirnorm", NormBRDF=1.0, t=0.3, ncoefs=3, a=[-1.0, 1.0, 1.0])],
                [0.6, dict(SRF_name="Isotropic", NormBRDF=1.0)],
            ],
        ),
    ),
    "combv": dict(
        V_props=dict(
            V_name="LinCombV", tau="tau", omega="omega",
            Vchoices=[
                ["t_v", dict(V_name="Rayleigh", tau=0.3, omega=0.3)],
                [0.3, dict(V_name="HenyeyGreenstein", tau=0.3, omega=0.3, t=0.4, ncoefs=2)],
            ],
        ),
        SRF_props=_SRF,
    ),
    "call": v_call,
    "callexpr": v_expr,
}

DEFD = {
    "a": dict(omega=[True, 0.3, None, ([0.01], [0.6])], tau=[False, 0.3], t_v=[False, 0.2],
              t_s=[True, 0.3, "10D", ([0.01], [0.7])], N=[False, 0.15]),
    "b": dict(omega=[False, 0.25], tau=[True, 0.3, "10D", ([0.05], [1.0]), True], t_v=[False, 0.35],
              t_s=[False, 0.4], N=[True, 0.1, None, ([0.01], [0.4])]),
    "c": dict(omega=[False, "auxiliary"], tau=[False, 0.4], t_v=[False, 0.1],
              t_s=[False, 0.25], N=[True, 0.1, "manual", ([0.01], [0.4])]),
    "d": dict(omega=[True, 0.2, None, ([0.01], [0.6])], tau=[False, "auxiliary"], t_v=[True, 0.25, 3, ([0.01], [0.6])],
              t_s=[False, 0.45], N=[False, 0.2]),
    "e": dict(omega=[True, 0.2, "index", ([0.01], [0.6])], tau=[False, 0.5], t_v=[False, 0.1],
              t_s=[False, 0.45], N=[False, 0.1], bsf=[False, 0.2]),
    "f": dict(omega=[True, "auxiliary", None, ([0.01], [0.6])], tau=[False, 0.3], t_v=[False, 0.1],
              t_s=[False, 0.35], N=[True, "auxiliary", "manual", ([0.01], [0.6]), True]),
    "g": dict(omega=[False, 0.25], tau=[False, 0.35], t_v=[True, 0.2, "20D", ([0.01], [0.6]), True],
              t_s=[True, "auxiliary", "15D + manual", ([0.01], [0.7])], N=[False, 0.2]),
}


def dataset(spec):
    """[dates, repetitions, kind, seed] -> a DataFrame"""
    n, rep, kind, seed = spec
    rs = np.random.RandomState(seed)
    idx = pd.date_range("2020-03-01", periods=n, freq=f"{3 + seed % 4}D")
    reps = [rep] * n
    if kind == "uneven":
        reps = [1 + (i * 7 + seed) % 3 for i in range(n)]
    idx = idx.repeat(reps)
    m = len(idx)
    di = pd.factorize(idx)[0]
    df = pd.DataFrame(
        dict(
            inc=np.deg2rad(25 + 25 * rs.random_sample(m)), sig=0.05 + 0.2 * rs.random_sample(m),
            omega=0.1 + 0.3 * rs.random_sample(m), tau=0.1 + 0.4 * rs.random_sample(m),
            N_dyn=(di * 2 + 1) % 3 if seed % 4 else di // 2, t_s_dyn=(np.arange(m) // 5) % 2,
            omega_start=0.1 + 0.3 * rs.random_sample(m), t_s_start=0.1 + 0.3 * rs.random_sample(m),
            N_start=0.1 + 0.4 * rs.random_sample(m), data_weights=0.5 + rs.random_sample(m),
        ),
        index=idx,
    )
    if kind == "nw":
        df = df.drop(columns="data_weights")
    if kind == "unsorted":
        df = df.sample(frac=1.0, random_state=rs)
    return df


def cfg_kwargs(cfg):
    return dict(
        sig0=cfg["sig0"], dB=cfg["dB"], dataset=None if cfg["ds"] is None else dataset(cfg["ds"]),
        defdict=copy.deepcopy(DEFD[cfg["dd"]]), set_V_SRF=copy.deepcopy(VSRF[cfg["v"]]),
        lsq_kwargs=dict(max_nfev=cfg["nfev"]), int_Q=cfg["int_Q"], verbose=0,
    )


def scribble_args(kw):
    """change the arguments that have been passed to a fit object"""
    for x in kw["defdict"].values():
        x[0], x[1] = False, 0.66
    if isinstance(kw["set_V_SRF"], dict):
        kw["set_V_SRF"]["V_props"]["tau"] = 0.77
        kw["set_V_SRF"]["SRF_props"]["NormBRDF"] = 0.88
    kw["lsq_kwargs"]["max_nfev"] = 1


def scribble(f, everything):
    """change the nested objects of a fit"""
    for k in f.defdict.keys():
        f.defdict[k].val = 0.66
        f.defdict[k].minval = 0.011
        f.defdict[k].freq = "7D"
    if isinstance(f.set_V_SRF, dict):
        f.set_V_SRF["V_props"]["tau"] = 0.77
        f.set_V_SRF["SRF_props"]["NormBRDF"] = 0.88
    f.lsq_kwargs["max_nfev"] = 1
    if everything:
        if f.dataset is not None:
            f.dataset["sig"] = 0.123
            f.dataset["inc"] = 0.456
        for x in (getattr(f, "res_dict", None) or {}).values():
            x[0] = 0.0123


def gen_cfg(r, p_int=0.3):
    dB = r.random() < 0.3
    return dict(
        sig0=r.random() < 0.5, dB=dB, ds=gen_ds(r), dd=r.choice([*DEFD, "f", "g", "f"]), v=r.choice(list(VSRF)),
        nfev=r.choice([2, 3]), int_Q=r.random() < p_int,
    )


def gen_ds(r):
    return [r.choice([3, 5, 6]), r.choice([1, 2]), r.choice(["plain", "plain", "uneven", "nw", "unsorted"]), r.randrange(4)]


# ------------------------------------------------------------------ fingerprints
def num(x):
    return float(f"{x:.9e}")


def canon(x):
    """a structure of plain values that can be compared"""
    if isinstance(x, pd.DataFrame):
        return ["df", canon(x.index), {str(c): canon(x[c].values) for c in x.columns}]
    if isinstance(x, pd.Series):
        return ["series", canon(x.index), canon(x.values)]
    if isinstance(x, pd.MultiIndex):
        return ["mi", [canon(i) for i in x]]
    if isinstance(x, pd.Index):
        return ["index", [canon(i) for i in x]]
    if isinstance(x, np.ma.MaskedArray):
        return ["masked", canon(x.filled(np.nan)), canon(np.ma.getmaskarray(x))]
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            return [float(i) for i in x.ravel()] if x.ndim == 1 else [list(x.shape), [float(i) for i in x.ravel()]]
        return [canon(i) for i in x.tolist()] if x.ndim == 1 else [list(x.shape), [canon(i) for i in x.ravel().tolist()]]
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items(), key=lambda i: str(i[0]))}
    if isinstance(x, (list, tuple)) or type(x).__name__ in ("dict_keys", "dict_values", "chain", "odict_keys"):
        return [canon(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted(json.dumps(canon(i)) for i in x)]
    if isinstance(x, (bool, str, type(None))):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (pd.Timestamp, np.datetime64)):
        return str(pd.Timestamp(x))
    if callable(x) and hasattr(x, "__name__"):
        return "callable " + x.__name__
    return str(x)


def differ(a, b, rtol, path=""):
    """-> None or where two canonical values differ"""
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a is b or a == b else f"{path}: {a!r} instead of {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b) or abs(a - b) <= rtol * max(abs(a), abs(b), 1e-6):
            return None
        return f"{path}: {a!r} instead of {b!r}"
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return f"{path}: keys {sorted(a)} instead of {sorted(b)}"
        for k in a:
            d = differ(a[k], b[k], rtol, f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} values instead of {len(b)}"
        for n, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, f"{path}[{n}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {str(a)[:120]!r} instead of {str(b)[:120]!r}"


# ------------------------------------------------------------------ reading
def _contrib(fit):
    return fit.calc_model(return_components=True)


def _calc(fit):
    names = [k for k, v in fit.defdict.to_dict().items() if v[0] is True or v[1] == "auxiliary"]
    return fit.calc(
        {k: np.linspace(0.1, 0.3 + 0.05 * i, 4) for i, k in enumerate(sorted(names))},
        np.deg2rad(np.linspace(25, 45, 3)),
    )


def _vsrf(fit):
    out = []
    for o, n in ((fit.V, "tau"), (fit.V, "omega"), (fit.SRF, "NormBRDF")):
        x = getattr(o, n)
        out.append(str(x) if getattr(x, "free_symbols", None) else canon(x))
    return [type(fit.V).__name__, type(fit.SRF).__name__, out, sorted(map(str, fit.V._func.free_symbols))]


def _metric(fit):
    m = fit.metric.tot.sig
    return [m.rmsd, m.bias, m.mae]


def _metric_keys(fit):
    m = fit.metric
    return sorted(k for k in dir(m) if not k.startswith("_"))


def _metric_inter(fit):
    return fit.metric.surf.vol.rmsd


READS = {
    "tot": lambda f: f.calc_model(),
    "contrib": _contrib,
    "calc": _calc,
    "res_df": lambda f: f.res_df,
    "res_df_group": lambda f: f.res_df_group,
    "metric": _metric,
    "metric_keys": _metric_keys,
    "metric_inter": _metric_inter,
    "vsrf": _vsrf,
    "param_dyn": lambda f: f.param_dyn_dict,
    "param_dyn_df": lambda f: f.param_dyn_df,
    "meandt": lambda f: f.meandatetimes,
    "inc": lambda f: f.inc,
    "data": lambda f: f.data,
    "weights": lambda f: f.data_weights,
    "mask": lambda f: f.mask,
    "index": lambda f: list(f.index),
    "interp": lambda f: f.interp_vals,
    "fixed": lambda f: f.fixed_dict,
    "defdict": lambda f: f.defdict.to_dict(),
    "dataset": lambda f: f.dataset,
    "flags": lambda f: [f.sig0, f.dB, f.int_Q],
    "lsq": lambda f: f.lsq_kwargs,
    "res_dict": lambda f: getattr(f, "res_dict", None),
    "set_V_SRF": lambda f: f.set_V_SRF,
    "id": lambda f: f.ID,
    "aux": lambda f: getattr(f, "aux_data", None),
    "cfgname": lambda f: getattr(f, "config_name", None),
}
HEAVY = ["tot", "contrib", "calc", "res_df", "res_df_group", "metric", "metric_keys", "metric_inter", "vsrf"]
# what is determined by other attributes of the model
ATTR = ("id", "aux", "cfgname")


def read(fit, what):
    """-> ("ok", canonical value) or ("exc", type)"""
    return canon(READS[what](fit))


# ------------------------------------------------------------------ references
_MEMO = {}


def drop_caches():
    for c in _ALL_CACHES:
        c.clear()


def fresh(ns, cfg, res):
    f = ns["rt1.rtfits"].Fits(**cfg_kwargs(cfg))
    if res is not None:
        f.res_dict = copy.deepcopy(results(ns, res))
    return f


def results(ns, cfg):
    """res_dict of a fit on a fresh object"""
    key = "fit " + json.dumps(cfg, sort_keys=True)
    if key not in _MEMO:
        drop_caches()
        f = ns["rt1.rtfits"].Fits(**cfg_kwargs(cfg))
        f.performfit()
        _MEMO[key] = copy.deepcopy(f.res_dict)
        drop_caches()
    return _MEMO[key]


def reference(ns, cfg, res, what):
    """the value that is read from a fresh object: ("ok", value) or ("exc", type)"""
    key = json.dumps([cfg, res, what], sort_keys=True)
    if key not in _MEMO:
        if len(_MEMO) > 20000:
            _MEMO.clear()
        drop_caches()
        try:
            f = fresh(ns, cfg, res)
            drop_caches()
            _MEMO[key] = ("ok", read(f, what))
        except Exception as e:
            _MEMO[key] = ("exc", type(e).__name__)
        drop_caches()
    return _MEMO[key]
