"""Is one seed one execution?

Every family is run in fresh interpreters; with the hash seed that the checks pin (0) the event
digests and the violations have to be identical.  A third interpreter with another hash seed shows
where rt1 itself depends on it (it iterates over the set of configuration names); that is reported
only.

    ./check.py --selftest [--n SCENARIOS]
"""
import json
import os
import subprocess
import sys

from . import engine as E
from .checks import CHECKS

CODE = """
import json, sys
sys.path.insert(0, %(root)r)
from dst import engine as E, world
ns = world.load_rt1()
base = E.scratch_base()
out = {}
for m, fam in %(fams)r:
    mod = E.module(m)
    for k in range(%(n)d):
        scn = mod.gen(fam, 77000000 + k)
        st, val = E.isolated(lambda: E.run_one(mod, scn, ns, base), 120)
        out[fam + "/" + str(k)] = [st] + ([val[1] and val[1]["digest"], [v["msg"] for v in val[0]], val[2]] if val else [])
sys.__stdout__.write("RESULT" + json.dumps(out) + chr(10))
"""


def families():
    out = []
    for c in CHECKS.values():
        for m, f, _ in c["families"]:
            if (m, f) not in out:
                out.append((m, f))
    return out


def main(a):
    n = a.n or 6
    fams = families()
    procs = []
    for hs in ("0", "0", "4711"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        code = CODE % dict(root=E.ROOT, fams=fams, n=n)
        procs.append(subprocess.Popen([sys.executable, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    res = []
    for p in procs:
        txt = p.communicate()[0]
        line = [x for x in txt.splitlines() if x.startswith("RESULT")]
        if not line:
            print("selftest: no answer", p.returncode)
            return 2
        res.append(json.loads(line[0][6:]))
    bad = [k for k in res[0] if res[1][k] != res[0][k]]
    hashdep = [k for k in res[0] if res[2][k] != res[0][k]]
    notok = [k for k in res[0] if res[0][k][0] != "ok" or res[0][k][3]]
    print(f"selftest: {len(res[0])} scenarios of {len(fams)} families, {len(procs)} interpreters: {len(bad)} differ, "
          f"{len(notok)} without an answer, {len(hashdep)} depend on the hash seed {hashdep}")
    for k in bad[:10]:
        print("  differs:", k, [r[k] for r in res])
    for k in notok[:10]:
        print("  no answer:", k, res[0][k])
    return 1 if bad or notok else 0
