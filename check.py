#!/opt/venv/bin/python
"""Decide one property by deterministic simulation.

    check.py C01 [--tier quick|thorough] [--seed N] [--budget SECONDS]
    check.py C01 --replay FILE          run one replay file
    check.py C01 --scenario FAMILY SEED run one generated scenario
    check.py --selftest                 determinism of the simulator
"""
import os
import sys

PY = "/opt/venv/bin/python"
FIXED_ENV = dict(
    PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
    NUMEXPR_MAX_THREADS="1", LC_ALL="C.UTF-8", TZ="UTC", HDF5_USE_FILE_LOCKING="FALSE",
    BLOSC_NTHREADS="1",
)
if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ)
    seed_override = env.get("VERIF_HASHSEED")
    env.update(FIXED_ENV)
    if seed_override:
        env["PYTHONHASHSEED"] = seed_override
    env["VERIF_REEXEC"] = "1"
    if os.path.isdir("/opt/vp/mplconfig"):
        env.setdefault("MPLCONFIGDIR", "/opt/vp/mplconfig")
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-X", "faulthandler", os.path.abspath(__file__), *sys.argv[1:]], env)

import argparse
import collections
import json
import shutil
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
os.environ.setdefault("VERIF_REPO", "/repo")

from dst import engine as E
from dst.checks import CHECKS


def jobs_for(spec, n, seed0):
    """n scenarios, the families interleaved by weight"""
    fams = spec["families"]
    tot = sum(w for _, _, w in fams)
    out, acc, cnt = [], [0.0] * len(fams), [0] * len(fams)
    for _ in range(n):
        for k, (_, _, w) in enumerate(fams):
            acc[k] += w / tot
        k = max(range(len(fams)), key=lambda i: acc[i])
        acc[k] -= 1
        m, fam, _ = fams[k]
        out.append((m, fam, seed0 * 1_000_000 + cnt[k]))
        cnt[k] += 1
    return out


def load():
    from dst import world

    return world.load_rt1()


def say(*a):
    print(*a, file=sys.__stdout__, flush=True)


def run_replay(prop, path):
    with open(path) as f:
        rep = json.load(f)
    ns = load()
    base = E.scratch_base()
    mod = E.module(rep["module"])
    scn = rep["scenario"]
    state, val = E.isolated(lambda: E.run_one(mod, scn, ns, base), 150)
    if state == "timeout":
        if rep["violation"]["kind"] == "wall-hang":
            say(f"VIOLATION property={rep['property']} replay={path}")
            say("  the code under test never came back (150 s of real time)")
            return 1
        say("HARNESS-ERROR: no answer in 150 s")
        return 2
    if state != "ok" or val[2] is not None:
        say("HARNESS-ERROR:", state, (val or [0, 0, ""])[2])
        return 2
    vs, st, _ = val
    want = rep["violation"]
    hit = [v for v in vs if rep["property"] in v["props"]]
    for v in hit:
        say(f"  {v['kind']}: {v['msg']}")
    same = [v for v in hit if v["kind"] == want["kind"]]
    if same:
        exact = st["digest"] == rep.get("digest") and any(v["msg"] == want["msg"] for v in same)
        say(f"VIOLATION property={rep['property']} replay={path}")
        say("  reproduced exactly (same event digest)" if exact else "  reproduced (the event history differs)")
        return 1
    say("not reproduced" + (f"; other violations: {hit}" if hit else ""))
    return 0


def confirm(mod_name, prop, scn, v, st, seed, fam, ns, base):
    """write the replay file, run it twice in fresh processes"""
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{prop}-{fam}-{seed}.json")
    rep = dict(
        property=prop, module=mod_name, family=fam, seed=seed, violation=v,
        digest=st["digest"] if st else None, scenario=scn,
    )
    with open(path, "w") as f:
        json.dump(rep, f, indent=1, default=str)
    import subprocess

    env = {k: x for k, x in os.environ.items() if k != "VERIF_REEXEC"}
    oks = 0
    for k in range(2):
        try:
            p = subprocess.run(
                [sys.executable, os.path.join(ROOT, "check.py"), prop, "--replay", path],
                capture_output=True, text=True, timeout=240, env=env,
            )
        except subprocess.TimeoutExpired:
            continue
        if p.returncode == 1 and "VIOLATION" in p.stdout:
            oks += 1
            if "exactly" not in p.stdout and v["kind"] != "wall-hang":
                say("  note: the replay shows the same violation with a different event history")
    return path, oks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--n", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--scenario", nargs=2)
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        from dst import selftest

        return selftest.main(a)
    prop = a.prop
    spec = CHECKS[prop]
    if a.replay:
        return run_replay(prop, a.replay)
    t_start = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    ev_path = os.path.join(ROOT, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    base = tempfile.mkdtemp(prefix="rt1chk-", dir=E.scratch_base())
    try:
        try:
            ns = load()
        except BaseException as e:
            # a tree that can not even be imported is no property violation
            say(f"HARNESS-ERROR: rt1 could not be loaded: {type(e).__name__}: {e}")
            return 2
        if a.scenario:
            fams = {f: m for c in CHECKS.values() for m, f, _ in c["families"]}
            mod = E.module(fams[a.scenario[0]])
            scn = mod.gen(a.scenario[0], int(a.scenario[1]))
            st, val = E.isolated(lambda: E.run_one(mod, scn, ns, base), 150)
            say(st, json.dumps(val, indent=1, default=str)[:20000])
            return 0
        return decide(prop, spec, tier, a, ns, base, ev_path, t_start)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def decide(prop, spec, tier, a, ns, base, ev_path, t_start):
    n = a.n or spec["n"][tier]
    budget = a.budget or spec["budget"][tier]
    jobs = jobs_for(spec, n, a.seed)
    known = E.load_known(prop)
    match = E.matcher(known)
    res = E.search(jobs, ns, base, budget, stop_after=6 if not known else 10**9, prop=prop)

    mine = [(m, f, s, v) for m, f, s, v in res.viol if prop in v["props"]]
    others = [(m, f, s, v) for m, f, s, v in res.viol if prop not in v["props"]]
    seen_known = collections.OrderedDict()
    fresh = []
    for x in mine:
        k = match(x[3])
        if k is not None:
            seen_known.setdefault(k["what"], 0)
            seen_known[k["what"]] += 1
        else:
            fresh.append(x)
    rc = 0
    reported = []
    unconfirmed = []

    # scenarios that did not return in real time: alone, with more time
    for m, f, s in res.walls[:2]:
        mod = E.module(m)
        scn = mod.gen(f, s)
        st, val = E.isolated(lambda: E.run_one(mod, scn, ns, base), 120)
        if st == "timeout":
            v = dict(props=[prop], kind="wall-hang", ctx={},
                     msg="a simulated program run never comes back (endless loop without any blocking operation)")
            fresh.append((m, f, s, v))
            break
        elif st == "ok":
            for v in val[0]:
                if prop in v["props"] and match(v) is None:
                    fresh.append((m, f, s, v))
        else:
            res.harness.append((m, f, s, "died without an answer"))

    kinds_done = set()
    fresh.sort(key=lambda x: len(json.dumps(E.module(x[0]).gen(x[1], x[2]))) if x[3]["kind"] != "wall-hang" else 0)
    for m, f, s, v in fresh:
        if v["kind"] in kinds_done or len(kinds_done) >= 3:
            continue
        mod = E.module(m)
        scn = mod.gen(f, s)
        left = (900 if tier == "quick" else 3000) - (time.time() - t_start)
        if v["kind"] == "wall-hang":
            path, oks = confirm(m, prop, scn, v, None, s, f, ns, base)
        else:
            sh = E.Shrinker(mod, prop, v["kind"], ns, base, min(40 if tier == "quick" else 300, max(5, left - 500)), match)
            scn2, r = sh.shrink(scn)
            if r is None:
                unconfirmed.append((m, f, s, v))
                continue
            path, oks = confirm(m, prop, scn2, r[0], r[1], s, f, ns, base)
            v = r[0]
        if oks == 0:
            unconfirmed.append((m, f, s, v))
            continue
        kinds_done.add(v["kind"])
        say(f"VIOLATION property={prop} replay={path}")
        say(f"  seed {s}, family {f}: {v['kind']}: {v['msg'][:600]}")
        reported.append(dict(replay=path, family=f, seed=s, kind=v["kind"], msg=v["msg"][:600]))
        rc = 1

    for what, cnt in seen_known.items():
        say(f"KNOWN-FINDING: property={prop} {what}")

    # same seed, same execution?
    det = determinism(res, ns, base, 3)

    runs = res.runs
    nontriv = [x for x in runs if spec["nontrivial"](x[3])]
    distinct = {x[3]["digest"] for x in nontriv}
    faults, probes = collections.Counter(), collections.Counter()
    for x in runs:
        faults.update(x[3]["faults"])
        probes.update(x[3]["probes"])
    ils = {i for x in runs for i in x[3]["il"]}
    wall = time.time() - t_start
    mods = sorted({E.module(m).__name__ for m, _, _ in spec["families"]})
    comp_real, comp_stub = [], []
    for m, _, _ in spec["families"]:
        for c in E.module(m).REAL_COMPONENTS:
            if c not in comp_real:
                comp_real.append(c)
        for c in E.module(m).STUB_COMPONENTS:
            if c not in comp_stub:
                comp_stub.append(c)
    samples = []
    for fam in sorted({x[1] for x in runs}):
        fr = [x for x in nontriv if x[1] == fam] or [x for x in runs if x[1] == fam]
        x = fr[len(fr) // 2]
        scn = E.module(x[0]).gen(x[1], x[2])
        samples.append(
            dict(family=fam, seed=x[2], digest=x[3]["digest"][:16], steps=x[3]["steps"],
                 simulated_s=round(x[3]["simtime"], 2), faults=x[3]["faults"], scenario=scn)
        )
    perfam = collections.Counter(x[1] for x in runs)
    cov = dict(
        evaluations=len(runs),
        distinct_nontrivial=len(distinct),
        rule=spec["rule"],
        samples=samples[:4],
        scenarios_per_family=dict(perfam),
        simulated_runs=sum(x[3]["sessions"] for x in runs),
        simulated_time_s=round(sum(x[3]["simtime"] for x in runs), 1),
        scheduler_steps=sum(x[3]["steps"] for x in runs),
        seeds=dict(first=a.seed * 1_000_000, explored=len(runs), planned=res.seeds_planned),
        search_wall_s=round(res.wall, 2),
        seeds_per_hour=int(len(runs) / max(res.wall, 0.01) * 3600),
        simulated_runs_per_hour=int(sum(x[3]["sessions"] for x in runs) / max(res.wall, 0.01) * 3600),
        faults_injected=dict(faults),
        probes=dict(probes),
        distinct_interleavings=len(ils),
        interleaving_measure="hash of the sequence of task ids the scheduler handed control to",
        components_real=comp_real,
        components_stub=comp_stub,
        determinism=det,
        harness_errors=len(res.harness),
        not_answered_in_real_time=len(res.walls),
        violations_of_other_properties=len(others),
        known_findings_seen=dict(seen_known),
        reported=reported,
        unconfirmed=[(m, f, s, v["kind"], v["msg"][:200]) for m, f, s, v in unconfirmed],
    )
    ev = dict(
        property=prop, tier=tier, seed=a.seed, level=spec["level"], coverage=cov,
        assumptions=spec["assumptions"], wall_s=round(wall, 2), violations=len(reported),
    )
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    say(
        f"{prop} [{tier}] {len(runs)} scenarios ({len(distinct)} distinct non-trivial), "
        f"{cov['simulated_runs']} simulated runs, {cov['simulated_time_s']:.0f} simulated s, "
        f"{len(ils)} interleavings, faults {dict(faults)}, {wall:.0f} s"
    )
    if others:
        kinds = collections.Counter((tuple(v["props"]), v["kind"]) for _, _, _, v in others)
        say("  (violations of other properties on the way: "
            + ", ".join(f"{'/'.join(p)} {k} x{c}" for (p, k), c in kinds.most_common(5)) + ")")
    if rc:
        return 1
    if res.harness:
        say(f"HARNESS-ERRORS: {len(res.harness)}; first: {res.harness[0][1]}/{res.harness[0][2]}\n{res.harness[0][3][-1500:]}")
        return 2
    if unconfirmed:
        m, f, s, v = unconfirmed[0]
        say(f"HARNESS-ERROR: a failure did not reproduce: {f}/{s} {v['kind']} {v['msg'][:300]}")
        return 2
    if not det["identical"]:
        say("HARNESS-ERROR: the same seed gave different executions")
        return 2
    if not runs or not distinct:
        say("HARNESS-ERROR: nothing relevant was explored")
        return 2
    return 0


def determinism(res, ns, base, k):
    """rerun some scenarios and compare the event histories"""
    pick = res.runs[:: max(1, len(res.runs) // k)][:k]
    same = 0
    for m, f, s, st in pick:
        mod = E.module(m)
        r, val = E.isolated(lambda: E.run_one(mod, mod.gen(f, s), ns, base), 120)
        if r == "ok" and val[1] is not None and val[1]["digest"] == st["digest"]:
            same += 1
    return dict(rerun=len(pick), same_digest=same, identical=same == len(pick))


if __name__ == "__main__":
    rc = main()
    sys.__stdout__.flush()
    os._exit(rc)
