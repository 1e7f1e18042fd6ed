#!/opt/veriftools/pyvenv/bin/python3
"""run.py <property id> [--tier quick|thorough] [--seed N]   decide one property on /repo's working tree
   run.py --list | --all"""
import argparse, importlib, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter("ignore")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1"); os.environ.setdefault("OMP_NUM_THREADS", "1")
import core, reg
MODULES = [m[:-3] for m in sorted(os.listdir(os.path.join(core.VERIF, "lib"))) if m.startswith("p_") and m.endswith(".py")]
for m in MODULES:
    importlib.import_module(m)

def one(pid, tier, seed):
    f = reg.PROPS[pid]
    try:
        v = f(tier, seed)
        if os.environ.get("VERIF_WHY"):
            for R in core.LOG:
                if R.rc: print("   stopped %s rc=%s: %s" % (R.scn.name, R.rc, " | ".join((R.out or R.err).strip().splitlines()[-3:])))
        return core.finish(v, tier, seed, level=f.level, min_evals=f.min_evals, max_stop=f.max_stop)
    except core.HarnessError as e:
        print("ERROR: %s: %s" % (pid, e))
        return 3

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="*"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--setup", action="store_true"); ap.add_argument("--list", action="store_true"); ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    if a.setup:   # warm the object caches; every check rebuilds what is stale by itself
        for c in ("plain", "san", "omp"):
            try: core.build(c)
            except core.HarnessError as e: print("note:", str(e)[:500])
        sys.exit(0)
    if a.list:
        print("\n".join(sorted(reg.PROPS))); sys.exit(0)
    rc = 0
    for p in (sorted(reg.PROPS) if a.all else a.pid):
        t = time.time(); k = one(p, a.tier, a.seed)
        if a.all or len(a.pid) > 1:
            print("   %s rc=%d %.1fs" % (p, k, time.time() - t), flush=True)
        rc = max(rc, k)
    sys.exit(rc)
