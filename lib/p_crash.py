"""Crashes and full disks while files are written; damaged checkpoints."""
import glob
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
from p_io import restart_scenario, same, STATE

def shim():
    src = os.path.join(HARN, "crash.c")
    so = os.path.join(BUILD, "crash-%s.so" % _sha(open(src, "rb").read()))
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = so + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src], capture_output=True, text=True)
        if r.returncode: raise HarnessError("shim: " + r.stderr[-2000:])
        os.replace(tmp, so)
    return so
from core import _sha

def number(fn):
    m = re.search(r"(\d{5})", os.path.basename(fn))
    return int(m.group(1)) if m else None

def checkpoints(d):
    """final names only: {file name: bytes}"""
    return {os.path.basename(f): open(f, "rb").read() for f in glob.glob(os.path.join(d, "Breakpoint*.dat"))}

def outputs(d):
    fs = sorted(os.path.basename(f) for pat in ("Output*", "Particles*") for f in glob.glob(os.path.join(d, pat)))
    return read_h5(fs, d)

def same_h5(a, b, elastic=True):
    """first dataset that differs between two records of an HDF5 file"""
    for f in sorted(set(a.a) | set(b.a)):
        if f.startswith("Iterations/"): continue      # residuals are round-off, entries past the last iteration mean nothing
        if not elastic and f.startswith("Particles/s"): continue    # not carried by the markers, not part of the state
        if f.startswith("Model/") and "escription" in f: continue
        if not (a.has(f) and b.has(f)): return f + " missing"
        x, y = np.asarray(a[f], float), np.asarray(b[f], float)
        if x.shape != y.shape: return f + " shape"
        if f.startswith("VizGrid/compo"):
            if (x != y).mean() > .02: return f
            continue
        s = np.nanmax(abs(x)) if x.size else 0
        if not np.allclose(x, y, rtol=0, atol=3e-5 * max(s, 1e-300), equal_nan=True) and s > 0: return f
    return None

def setup(r, i):
    s = restart_scenario(r, i)
    s.par["writer_markers"] = r.i(0, 1)
    return s

@prop("P32", "crash points: every file operation of a run is a candidate; the process dies in it, or loses what was not synced, or the disk is full from there on, or only that operation fails; then every checkpoint left behind is compared with the uninterrupted run, continued from, and the final files compared; damaged checkpoints must be refused",
      ["the operating system keeps renames in order and keeps data that was synced"], min_evals=100)
def p32(v, tier, seed):
    exe, so = build("plain"), shim()
    nm, npts = n_of(tier, 24, 80), n_of(tier, 14, 60)
    with Scratch() as base:
        def case(i):
            r = rng(seed, "p32", i)
            s = setup(r, i)
            last = r.i(2, 4) * s.par["writer_step"]
            if s.par["delete_breakpoints"] == 1: last = max(last, 4 * s.par["writer_step"])
            s.par["Nt"] = last
            msgs = []
            saws = []
            def go(q, sub, n=0, mode="kill", log=False, shimmed=True):
                d = os.path.join(base, sub)
                env = dict(LD_PRELOAD=so, CRASH_AT=str(n), CRASH_MODE=mode) if shimmed else {}
                if log: env["CRASH_LOG"] = os.path.join(d, "ops")
                return run_scn(exe, q, base, env=env, sub=sub, log=log, timeout=200)
            def scen(dumps=(), **k):
                q = Scenario(s.name, s.par, s.phases, s.cfg, dumps); q.par.update(writer=1, **k); q.fam, q.meta = s.fam, s.meta
                return q
            root = "m%d" % i
            # the uninterrupted run and its checkpoints
            ref = scen(["prewrite " + STATE])
            A = go(ref, root + "-ref", log=True)
            if not A.ok: return s, None, None, [], []
            ops = [l.split(" ", 2) for l in open(os.path.join(A.dir, "ops")).read().splitlines()]
            A.trace()
            st = {int(q["step"]): q for q in A.recs("prewrite")}
            keep = go(scen(delete_breakpoints=0), root + "-keep")
            gold = {number(k): b for k, b in checkpoints(keep.dir).items()}
            goldset = set(checkpoints(A.dir))
            goldh5 = outputs(A.dir)
            # a control run with other round-off tells how firmly the model determines its states
            c = scen(["prewrite " + STATE]); c.par["writer"] = 0
            for k in ("bkg_strain_rate", "gz"): c.par[k] = c.get(k) * (1 + 1e-12)
            C = go(c, root + "-ctl", shimmed=False); C.trace()
            drift = max([same(st[int(q["step"])], q, f) for q in C.recs("prewrite") for f in ("u_in", "v_in", "p_in", "T", "sxxd", "p.x") if q.has(f) and int(q["step"]) in st and st[int(q["step"])].has(f) and not (f == "sxxd" and not s.par.get("elastic"))] or [0])
            firm = drift < 1e-8 and C.ok
            # which steps are written completely before an operation
            # (a file of a later step is touched)
            seen, begun = 0, []
            for o in ops:
                seen = max(seen, number(o[2]) or 0); begun.append(seen)
            N = len(ops)
            bp = [j + 1 for j, o in enumerate(ops) if "Breakpoint" in o[2]]
            names = [j + 1 for j, o in enumerate(ops) if o[1] in ("rename", "remove", "fsync", "fclose", "open") and "Breakpoint" in o[2]]
            # interesting points: every operation on names, a sample of the rest
            cand = []
            for _ in range(npts):
                x = r.u(0, 1)
                cand.append((r.c(names) if x < .35 and names else r.c(bp) if x < .7 and bp else r.i(1, N), r.c(["kill", "power", "full", "blip"])))
            def intact(fn, b, sub):
                """is this checkpoint one of the uninterrupted run? by its bytes or by what continues from it"""
                n = number(fn)
                if n is None: return any(b == g for g in gold.values())
                return gold.get(n) == b
            for n, mode in cand:
                sub = root + "-%s%d" % (mode, n)
                K = go(scen(), sub, n, mode)
                have = checkpoints(K.dir)
                saws.append((mode, ops[n - 1][1], "Breakpoint" if "Breakpoint" in ops[n - 1][2] else "Output", s.par["delete_breakpoints"]))
                at = "%s at operation %d of %d (%s %s)" % (mode, n, N, ops[n - 1][1], os.path.basename(ops[n - 1][2]))
                if mode in ("kill", "power"):
                    if K.rc != -9: msgs.append(("inject", "%s: %s ended with status %s" % (s.name, at, K.rc), K)); continue
                elif K.rc < 0 or K.timed_out:
                    msgs.append(("fault-crash", "%s: %s: the run crashed or hung (status %s)" % (s.name, at, K.rc), K))
                for fn, b in have.items():
                    if not intact(fn, b, sub):
                        # other bytes: judged by continuing from it
                        num = number(fn)
                        q = scen(["prewrite " + STATE], irestart=1, istep=num if num is not None else 0, Nt=(num or 0) + 1)
                        if num is not None and num < last and num in gold:
                            d2 = os.path.join(base, sub + "-x"); os.makedirs(d2)
                            open(os.path.join(d2, fn), "wb").write(b)
                            X = go(q, sub + "-x", shimmed=False); X.trace()
                            rec = {int(z["step"]): z for z in X.recs("prewrite")}
                            if X.ok and num + 1 in rec and all(same(st[num + 1], rec[num + 1], f) < 1e-6 for f in ("u_in", "v_in", "p_in", "T", "p.x", "p.z")): continue
                            shutil.rmtree(d2, ignore_errors=True)
                        msgs.append(("torn", "%s: %s leaves %s (%d bytes) that is not a checkpoint of the run (%d bytes)" % (s.name, at, fn, len(b), len(gold.get(num, b""))), K))
                # nothing that was complete is lost
                upto = (begun[n - 2] if n > 1 else 0) - s.par["writer_step"]
                if upto > 0:
                    ok = [number(f) if number(f) is not None else next((k for k, g in gold.items() if g == b), None) for f, b in have.items()]
                    if not any(k is not None and k >= upto for k in ok):
                        msgs.append(("lost", "%s: %s: step %d had been written completely but only checkpoints of %s are left" % (s.name, at, upto, ok), K))
                if K.rc == 0:
                    h5 = outputs(K.dir)
                    bad = sorted(goldset - set(have)) + sorted(set(goldh5) - set(h5)) + [f for f in goldh5 if f in h5 and same_h5(goldh5[f], h5[f], s.par.get("elastic"))]
                    if bad: msgs.append(("silent", "%s: %s: status 0 although %s missing or incomplete" % (s.name, at, bad[:3]), K))
                # carry on from the newest checkpoint
                newest = max([k for k in (number(f) for f in have) if k is not None] or [0])
                if s.par["delete_breakpoints"] == -1 and have: newest = next((k for k, g in gold.items() if g in have.values()), 0)
                if newest and newest < last and mode != "power" and K.rc:
                    q = scen(["prewrite " + STATE], irestart=1, istep=newest)
                    X = go(q, sub, shimmed=False); X.trace()
                    saws.append(("continued", mode, s.fam))
                    if not X.ok:
                        msgs.append(("continue", "%s: after %s the run cannot be continued from step %d: status %s %s" % (s.name, at, newest, X.rc, X.out[-200:]), X))
                    else:
                        for z in X.recs("prewrite"):
                            k = int(z["step"])
                            if not firm or k not in st: continue
                            for f in ("u_in", "v_in", "p_in", "T", "sxxd", "p.x", "p.z", "p.T", "p.P", "p.phase"):
                                if z.has(f) and not (f == "sxxd" and not s.par.get("elastic")) and not same(st[k], z, f) < 1e-6:
                                    msgs.append(("resume", "%s: after %s, continued from step %d: %s of step %d deviates by %.2g" % (s.name, at, newest, f, k, same(st[k], z, f)), X)); break
                        h5 = outputs(X.dir)
                        # what a crash leaves of a file that the continued run writes again does not count
                        miss = sorted(set(goldh5) - set(h5)) + ["%s: %s" % (f, same_h5(goldh5[f], h5[f], s.par.get("elastic"))) for f in goldh5 if f in h5 and firm and same_h5(goldh5[f], h5[f], s.par.get("elastic"))]
                        if miss: msgs.append(("files", "%s: after %s and continuation from step %d: %s missing or different" % (s.name, at, newest, miss[:3]), X))
                        lost = sorted(goldset - set(checkpoints(X.dir)))
                        if lost and s.par["delete_breakpoints"] != 1: msgs.append(("files", "%s: after %s and continuation from step %d: %s missing" % (s.name, at, newest, lost), X))
                shutil.rmtree(os.path.join(base, sub), ignore_errors=True)
            # damaged checkpoints
            for j in range(n_of(tier, 6, 20)):
                k = r.c(sorted(x for x in gold if x < last) or [0])
                if not k: break
                b = gold[k]
                kind = r.c(["cut", "cut", "tail", "empty", "text", "longer", "page"])
                if kind == "cut": nb = b[:r.i(1, len(b) - 1)]
                elif kind == "tail": nb = b[:len(b) - r.c([1, 4, 8, 120, 240])]
                elif kind == "page": nb = b[:r.i(0, (len(b) - 1) // 4096) * 4096]
                elif kind == "empty": nb = b""
                elif kind == "text": nb = bytes(r.i(32, 126) for _ in range(len(b) // 64)) * 64
                else: nb = b + b[:r.i(1, 400)]
                sub = root + "-t%d" % j
                d2 = os.path.join(base, sub); os.makedirs(d2, exist_ok=True)
                fn = "BreakpointXXXXX.dat" if s.par["delete_breakpoints"] == -1 else "Breakpoint%05d.dat" % k
                open(os.path.join(d2, fn), "wb").write(nb)
                X = go(scen(irestart=1, istep=k), sub, shimmed=False)
                made = sorted(set(os.listdir(d2)) - {fn, "in.txt", "in.cfg", "stdout", "stderr"})
                saws.append(("damaged", kind, s.par["delete_breakpoints"]))
                if X.rc <= 0 or X.timed_out or made:
                    msgs.append(("accepted", "%s: a damaged checkpoint (%s: %d of %d bytes) ends with status %s, new files %s" % (s.name, kind, len(nb), len(b), X.rc, made[:3]), X))
                shutil.rmtree(d2, ignore_errors=True)
            # a checkpoint of another setup
            if gold and min(gold) < last:
                k = min(gold)
                for what in ("Nx", "Nz", "Nt"):
                    sub = root + "-o" + what
                    d2 = os.path.join(base, sub); os.makedirs(d2, exist_ok=True)
                    fn = "BreakpointXXXXX.dat" if s.par["delete_breakpoints"] == -1 else "Breakpoint%05d.dat" % k
                    open(os.path.join(d2, fn), "wb").write(gold[k])
                    new = s.get(what) + (1 if what != "Nt" else 2)
                    X = go(scen(["prewrite dt"], irestart=1, istep=k, **{what: new, **({} if what == "Nt" else {"Nt": k + 1})}), sub, shimmed=False)
                    saws.append(("foreign", what))
                    if what == "Nt":
                        X.trace()
                        if X.rc < 0 or firm and max([int(z["step"]) for z in X.recs("prewrite")] or [0]) < last: msgs.append(("longer", "%s: continuing with two more steps than planned fails with status %s: %s" % (s.name, X.rc, X.out[-200:]), X))
                    elif X.rc <= 0: msgs.append(("foreign", "%s: the checkpoint of a model with another %s is accepted (status %s)" % (s.name, what, X.rc), X))
                    shutil.rmtree(d2, ignore_errors=True)
            # no checkpoint at all
            X = go(scen(irestart=1, istep=7 * s.par["writer_step"]), root + "-none", shimmed=False)
            saws.append(("absent",))
            if X.rc <= 0: msgs.append(("absent", "%s: continuing without a checkpoint ends with status %s" % (s.name, X.rc), X))
            shutil.rmtree(A.dir, ignore_errors=True); shutil.rmtree(keep.dir, ignore_errors=True); shutil.rmtree(C.dir, ignore_errors=True)
            return s, A, N, msgs, saws
        for s, A, N, msgs, saws in pmap(case, range(nm)):
            if A is None: v.count("models whose uninterrupted run stops"); continue
            v.count("file operations that can be hit", N)
            for k in saws: v.saw(k); v.count(k[0] + (" " + k[1] if k[0] in ("damaged", "foreign") else ""))
            for k, m, R in msgs: v.fail(k, m, s, R)
