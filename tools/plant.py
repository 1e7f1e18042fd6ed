#!/opt/veriftools/pyvenv/bin/python3
"""Development helper for planted bugs (never used by a check).
   plant.py new ID PROPERTY NEEDS BREAKS   save /repo's working-tree diff as seeded/ID and undo it (demo.py is read from stdin)
   plant.py try [ID ...]                   build, tests, demo and check with and without each change"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def kit(d):
    s = open(V + "/lib/core.py").read()
    s = s.replace('VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))', 'VERIF = os.path.dirname(os.path.abspath(__file__))')
    s = s.replace('REPO = os.environ.get("VERIF_REPO", "/repo")', 'REPO = os.getcwd()').replace('BUILD = os.path.join(VERIF, ".build")', 'BUILD = tempfile.mkdtemp(prefix="demo-"); import atexit; atexit.register(shutil.rmtree, BUILD, True)')
    s = s.replace('HARN = os.path.join(VERIF, "harness")', 'HARN = VERIF')
    s = s[:s.index("# ---------------------------------------------------------------- verdicts")]
    s += '''
def sim(par=None, phases=None, cfg=(), dumps=(), config="plain", files=None):
    """run one set-up on the code in the current directory"""
    global _exe
    exe = build(config)
    d = tempfile.mkdtemp(dir=BUILD)
    return run_scn(exe, Scenario("demo", par, phases, cfg, dumps, files), d)
def verdict(bad, msg=""):
    print(("FAIL " if bad else "ok ") + str(msg)); sys.exit(1 if bad else 0)
'''
    open(d + "/kit.py", "w").write(s)
    for f in ("sim.c", "monitor.c", "monitor.h"): shutil.copy(V + "/harness/" + f, d)
if sys.argv[1] == "new":
    id, prop, needs, br = sys.argv[2:6]
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    p = sh("git -C /repo diff").stdout
    assert p.strip(), "no change in /repo"
    open(d + "/patch.diff", "w").write(p); sh("git -C /repo checkout -- .")
    open(d + "/demo.py", "w").write(sys.stdin.read())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/veriftools/pyvenv/bin/python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=br), open(d + "/meta.json", "w"), indent=1)
    kit(d)
    sys.argv = ["", "try", id]
if sys.argv[1] == "kit":
    for i in os.listdir(V + "/seeded"): kit(V + "/seeded/" + i)
if sys.argv[1] == "try":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for id in ids:
        d = V + "/seeded/" + id; prop = json.load(open(d + "/meta.json"))["property"]
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(id, "PATCH DOES NOT APPLY", r.stderr); continue
        try:
            b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/t.json"); npass = len(json.load(open("/tmp/t.json"))["passed"])
            c = sh("bash %s/demo.sh" % d, cwd="/repo"); k = sh("./run.py %s --seed 1" % prop, cwd=V)
        finally:
            sh("git -C /repo checkout -- .")
        print(id, prop, "demo clean=%d buggy=%d build=%d tests=%d check=%d %s" % (a.returncode, c.returncode, b.returncode, npass, k.returncode, "CAUGHT" if k.returncode == 1 else "MISSED"))
        if a.returncode or not c.returncode: print("  clean:", a.stdout[-300:], a.stderr[-500:], "\n  buggy:", c.stdout[-300:], c.stderr[-300:])
        print("   ", k.stdout[:300].replace("\n", "\n    "))
    sh("bash /opt/vp/build.sh")
