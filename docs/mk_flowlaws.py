#!/opt/veriftools/pyvenv/bin/python3
"""Recorded reference table of the creep-law database (run once on the reviewed tree; the result is committed in data/flowlaws.json)."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
LAWS = dict(pwl=list(range(10, 35)) + list(range(40, 47)), lin=[15, 19, 25, 40, 41], gbs=[40, 41], exp=[25, 40], gs=[9, 10, 40, 41, 42])
FL = dict(pwl="tnmrQVAfaF", lin="tnmrQVAfaF", gbs="tnmrQVAfaF", exp=["texp", "qexp", "Gexp", "Sexp", "Qexp", "Vexp", "Eexp", "nexp"], gs=["ppzm", "Kpzm", "Qpzm", "Vpzm", "Gpzm", "cpzm", "Lpzm"])
out = {}
exe = build("plain")
with Scratch() as d:
    for kind, ids in [(k, v[i:i + 8]) for k, v in LAWS.items() for i in range(0, len(v), 8)]:
        key = kind + "v" if kind != "gs" else "gs"
        s = Scenario(kind, dict(Nx=5, Nz=5, Nt=0), [dict(cstv=1)] + [dict(cstv=1, **{key: i}) for i in ids], ["fld T 1000"], ["init m*"])
        R = run_scn(exe, s, d)
        if not R.recs("init"): print(kind, ids, R.rc, R.out[-600:], R.err[-300:])
        q = R.recs("init")[0]
        for n, i in enumerate(ids, 1):
            e = {}
            for f in FL[kind]:
                nm = f if len(f) > 1 else f + kind
                if q.has("m." + nm): e[f] = float(q["m." + nm][n])
            out["%s%d" % (kind, i)] = e
json.dump(out, open(os.path.join(VERIF, "data", "flowlaws.json"), "w"), indent=0, sort_keys=True)
print(len(out))
