"""P31: threads. ThreadSanitizer on an OpenMP run-time of plain pthreads (harness/gomp.c),
and the state of runs on different numbers of threads against the run on one."""
from core import *
from gen import *
from reg import prop, n_of
import zoo as Z
from p_io import same, RESULT

TSAN = "halt_on_error=0:exitcode=0:history_size=4:suppress_equal_addresses=1"
HOOKS = ("init", "presolve", "postsolve", "postthermal", "preadv", "prereseed", "step_end")

def races(txt):
    """{(kind, own lines): report} of the reports of ThreadSanitizer"""
    own = {f for f in os.listdir(os.path.join(REPO, "MDLIB")) if f.endswith((".c", ".h", ".cpp"))}
    out = {}
    for b in re.split(r"={18}\n", txt):
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", b)
        if not m or "at_exit_callback" in b: continue   # exit() by one thread while others run: a run that gives up
        if "data race" not in m.group(1): continue
        stacks = [s for s in re.split(r"\n\s*\n", b) if re.search(r"(Read|Write|read|write) of size", s)]
        top = []
        for s in stacks[:2]:
            f = [x for x in re.findall(r"#\d+ (\S+) \S*?/?([\w.]+\.(?:c|h|cpp)):(\d+)", s) if x[1] in own]
            top.append("%s (%s:%s)" % f[0] if f else "?")
        if all(t == "?" for t in top): continue
        loc = re.search(r"Location is [^\n]*", b)
        out[tuple(sorted(top))] = (m.group(1).strip() + ", " + (loc.group(0) if loc else ""))
    return out

def drift(A, B):
    """[(hook, step, worst deviation, field)] between two runs"""
    out = []
    for x, y in zip(A, B):
        w = (0., "")
        n = 0
        for f in [f for f in RESULT if x.has(f)] + [f for f in x.a if f[:2] in ("p.", "t.", "c.") or f.startswith("phase_perc")]:
            if x.where == "init" and f in ("c.z0", "c.ini_z0"): continue
            d = same(x, y, f) if y.has(f) else np.inf
            n += x.a[f].size
            if d > w[0]: w = (d, f)
        out.append((x.where, int(x["step"]), w[0], w[1], n))
    return out

@prop("P31", "ThreadSanitizer finds no data race between threads in runs of the whole zoo of set-ups on 2-8 threads with perturbed order; every recorded state (grid, markers, surface) of runs on 2-8 threads is that of the run on one thread up to round-off",
      ["round-off that an ill-conditioned model amplifies is measured by perturbing the forcing by 1e-12", "libraries (BLAS, SuiteSparse, HDF5) run on one thread"], min_evals=150, max_stop=.25)
def p31(v, tier, seed):
    ts, om = build("tsan"), build("omp")
    N = dict(OPENBLAS_NUM_THREADS="1", GOMP_SPINCOUNT="0")
    with Scratch() as base:
        pd = os.path.join(base, "pd"); Z.tables(pd)
        def race(i):
            s = Z.zoo(seed, i, "race", pd=pd)
            r = rng(seed, "race-n", i)
            s.par.update(nit_max=min(s.get("nit_max"), 3), Nt=min(s.get("Nt"), 2))
            nt = r.c([2, 3, 4, 4, 8])
            R = Z.runs(ts, s, base, env=dict(N, VERIF_THREADS=str(nt), VERIF_JITTER=str(r.i(0, 99)), TSAN_OPTIONS=TSAN), timeout=300)
            for q in R: shutil.rmtree(q.dir, ignore_errors=True)
            return s, nt, R
        for s, nt, R in pmap(race, range(n_of(tier, 65, 1200)), 5):
            for q in R:
                reg = re.findall(r"GOMP regions (\d+) threads (\d+)", q.err)
                if reg: v.count("parallel regions under ThreadSanitizer", int(reg[-1][0])); v.count("threads started in them", int(reg[-1][1]))
                if not reg and q.rc == 0: v.inconc("%s: no parallel region" % s.name); continue
                v.saw(("race", s.kind, nt, s.then))
                for (a, b), what in list(races(q.err).items())[:6]:
                    v.fail("race:" + a.split(" ")[0], "%s on %d threads: data race between %s and %s: %s" % (s.name, nt, a, b, what), s, q)
        def threads(i):
            s = Z.zoo(seed, i, "threads", pd=pd)
            r = rng(seed, "threads-n", i)
            s.par["Nt"] = min(s.get("Nt"), 3); s.then = None
            if any(p.get("plast") for p in s.phases): s.par["nit_max"] = min(s.get("nit_max"), 3)   # where iterations end is a matter of round-off
            s.dumps = [h + " grid* p* t* c*" for h in HOOKS]
            c = Scenario(s.name + "-c", dict(s.par), s.phases, s.cfg, s.dumps, getattr(s, "files", None)); c.meta = s.meta
            for k in ("bkg_strain_rate", "gz"): c.par[k] = c.get(k) * (1 + 1e-12)
            nts = [1, 2, 3] + [r.c([4, 5, 6, 7, 8])]
            R = [run_scn(om, s, base, sub="t%d-%d" % (i, n), env=dict(N, OMP_NUM_THREADS=str(n)), log=n == 1) for n in nts]
            C = run_scn(om, c, base, sub="t%d-c" % i, env=dict(N, OMP_NUM_THREADS="1"), log=False)
            out = []
            if R[0].rc == 0:
                T0 = R[0].recs()
                C0 = C.recs() if C.rc == 0 else []
                D0 = drift(T0, C0) if [x.where for x in C0] == [x.where for x in T0] else []
                for n, q in list(zip(nts, R))[1:]:
                    T = q.recs() if q.rc == 0 else []
                    same_seq = [(x.where, int(x["step"])) for x in T] == [(x.where, int(x["step"])) for x in T0]
                    out.append((n, q, same_seq, drift(T0, T) if same_seq else [], len(T)))
            else: D0 = []
            for q in R + [C]: shutil.rmtree(q.dir, ignore_errors=True)
            return s, R, C, D0, out
        def confirmed(s, n, h, st):
            """whether a deviation is due to the threads: it comes back, and no change of the forcing by round-off on one thread causes the like"""
            T0 = run_scn(om, s, base, sub="cf", env=dict(N, OMP_NUM_THREADS="1"), log=False).recs()
            def worst(q):
                T = q.recs() if q.rc == 0 else []
                if [(x.where, int(x["step"])) for x in T] != [(x.where, int(x["step"])) for x in T0]: return np.inf
                return max(d for hh, ss, d, _, _ in drift(T0, T) if ss < st or ss == st)
            def ctl(k):
                c = Scenario(s.name + "-c%d" % k, dict(s.par), s.phases, s.cfg, s.dumps, getattr(s, "files", None)); c.meta = s.meta
                e = 1 + rng(seed, "threads-ctl", k).u(-1, 1) * 10. ** (-13 + k % 3)
                for y in ("bkg_strain_rate", "gz"): c.par[y] = c.get(y) * e
                return worst(run_scn(om, c, base, env=dict(N, OMP_NUM_THREADS="1"), log=False))
            if max(pmap(ctl, range(16), 8)) > 1e-7: return False
            again = pmap(lambda k: worst(run_scn(om, s, base, sub="cf%d" % k, env=dict(N, OMP_NUM_THREADS=str(n)), log=False)), range(5), 2)
            return sum(not d < 1e-6 for d in again) >= 4
        for s, R, C, D0, out in pmap(threads, range(n_of(tier, 91, 1500)), 4):
            if R[0].rc:
                v.count("set-ups that give up on one thread")
                continue
            if not D0: v.count("set-ups whose control takes another course"); continue
            for n, q, ok, D, k in out:
                amp = 0.
                if q.rc and not confirmed(s, n, "", 10 ** 6): v.count("runs that end otherwise for round-off"); continue
                if q.rc:
                    v.fail("status", "%s: on one thread the run ends normally, on %d with status %s: %s" % (s.name, n, q.rc, q.out[-200:]), s, q); continue
                if not ok and not confirmed(s, n, "", 10 ** 6): v.count("runs that end otherwise for round-off"); continue
                if not ok:
                    v.fail("course", "%s: on %d threads the run takes another course (%d records)" % (s.name, n, k), s, q); continue
                for (h, st, d, f, m), c in zip(D, D0):
                    amp = max(amp, c[2])
                    if amp > 1e-7: v.count("states of ill-conditioned models left out"); break
                    v.count("states compared"); v.count("values compared", m)
                    v.peak("worst relative deviation", d)
                    v.saw(("threads", s.kind, n, h))
                    if not d < 1e-6:
                        if not confirmed(s, n, h, st): v.count("deviations that a model sensitive to round-off shows on one thread too"); break
                        v.fail("threads:" + f, "%s: on %d threads %s at %s of step %d deviates by %.3g of its size from the run on one thread" % (s.name, n, f, h, st, d), s, q); break
