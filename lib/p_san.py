"""Memory and undefined-behaviour sanitizers over a zoo of set-ups."""
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import zoo as Z

SAN = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")

def report(err):
    """(key, text) of the first sanitizer report, or None"""
    if "runtime error" not in err and "AddressSanitizer" not in err: return None
    L = err.splitlines()
    l = next((x for x in L if "runtime error" in x or "ERROR: AddressSanitizer" in x), "?")
    fr = [x.strip() for x in L if "/MDLIB/" in x and x.strip().startswith("#")]
    fn = re.sub(r"^#\d+ 0x\w+ in (\w+).*", r"\1", fr[0]) if fr else "?"
    kind = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", l.split("runtime error:")[-1] if "runtime error" in l else l.split("AddressSanitizer:")[-1].split(" on ")[0]).strip()
    return "%s in %s" % (kind[:70], fn), " | ".join([l.strip()[-160:]] + [f[-110:] for f in fr[:3]])

def watch(v, R):
    """looks for sanitizer reports in what a run left behind"""
    rep = report(R.err)
    if rep: v.fail(rep[0], "%s: %s" % (R.scn.name, rep[1]), R.scn, R)
    return rep

@prop("P28", "AddressSanitizer and UndefinedBehaviorSanitizer reports of the instrumented program over runs that switch every option of the setup file and every callback on and off at random, with continuations from checkpoints and runs from saved markers",
      ["models the program itself gives up on (empty cells, negative temperatures, refused combinations) are only watched up to that point"], min_evals=200, max_stop=.25)
def p28(v, tier, seed):
    exe = build("san")
    n = n_of(tier, 520, 6000)
    with Scratch() as base:
        pd = os.path.join(base, "pd"); Z.tables(pd)
        def one(i):
            s = Z.zoo(seed, i, pd=pd)
            Rs = Z.runs(exe, s, base, env=SAN)
            shutil.rmtree(Rs[0].dir, ignore_errors=True)
            return s, Rs
        for s, Rs in pmap(one, range(n)):
            for j, R in enumerate(Rs):
                if watch(v, R): R.rc = 0
                on = tuple(sorted(k for k in ("elastic", "thermal", "free_surface", "anisotropy", "compressible", "periodic_x", "Newton", "chemical_diffusion", "melting", "reseed_mode", "conserv_interp", "pure_shear_ALE", "density_variations", "kinetics", "writer", "writer_debug", "deformation_maps") if s.get(k)))
                v.saw((s.kind, j, on, R.rc)); v.count("runs of generator %d" % s.kind); v.count("steps", len(re.findall(r"Time step|Number of time step|\*\*\*\* *Step", R.out)) or 1)
                for o in on: v.count("runs with " + o)
                if j: v.count("continuations" if s.then == "restart" else "runs from saved markers")
                v.count("lines of output", R.out.count("\n"))

# ---------------------------------------------------------------- P29
def heap_shim():
    src = os.path.join(HARN, "heap.c")
    so = os.path.join(BUILD, "heap-%s.so" % _sha(open(src, "rb").read()))
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = so + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], capture_output=True, text=True)
        if r.returncode: raise HarnessError("shim: " + r.stderr[-2000:])
        os.replace(tmp, so)
    return so
from core import _sha

def marks(fn):
    """[(descriptors, live blocks, {allocation site of the library: [count, bytes]})] at every mark"""
    try: L = open(fn).read()
    except FileNotFoundError: return []
    out = []
    for e in L.split("MARK ")[1:]:
        l = e.splitlines()
        t = l[0].split()
        sites = {}
        for x in l[1:]:
            f = x.split()
            fr = [y.split(":") for y in f[2:] if y != "?"]
            own = [y[2] for y in fr if y[0] == "sim"]
            if any("hdf5" in y[0] for y in fr) and not any(y[1] in ("H5Fopen", "H5Fcreate", "H5Dopen2", "H5Gopen2", "H5Dcreate2", "H5Gcreate2") for y in fr): continue   # its own free lists
            q = sites.setdefault(tuple(own[:2]) or (fr[0][0] if fr else "?",), [0, 0])
            q[0] += 1; q[1] += int(f[1])
        out.append((int(t[2]), int(t[4]) - int(t[6]), sites, int(t[4])))
    return out

def where_is(exe, offs):
    a = [o for o in offs if re.fullmatch(r"[0-9a-f]+", o)]
    if not a: return " ".join(offs)
    return " < ".join(x.split(" ")[0] for x in subprocess.run(["addr2line", "-fpse", exe] + a, capture_output=True, text=True).stdout.splitlines()) if a else "?"

def eq_traces(p, q):
    """first difference between two sequences of records"""
    if [r.where for r in p] != [r.where for r in q]: return "different sequence of steps (%d, %d records)" % (len(p), len(q))
    for x, y in zip(p, q):
        for k in x.s:
            if x.where in ("init", "presolve") and k in ("nit", "stagnated", "resx", "resz", "resp"): continue   # of the solve to come
            if x.s[k] != y.s.get(k) and not (x.s[k] != x.s[k] and y.s.get(k) != y.s.get(k)): return "%s step %d: %s = %.17g, not %.17g" % (x.where, int(x["step"]), k, x.s[k], y.s.get(k, np.nan))
        for k in x.a:
            if x.where == "init" and k in ("c.z0", "c.ini_z0"): continue   # set at the start of each step
            a, b = x.a[k], y.a.get(k)
            if b is None or a.shape != b.shape: return "%s step %d: size of %s" % (x.where, int(x["step"]), k)
            if a.tobytes() != b.tobytes():
                i = int(np.nonzero(~((a == b) | ((a != a) & (b != b))))[0][0]) if not np.array_equal(a, b, equal_nan=True) else -1
                if i >= 0: return "%s step %d: %s[%d] = %.17g, not %.17g" % (x.where, int(x["step"]), k, i, a[i], b[i])
    return None

SEEN = [h + " grid* p* t*" for h in ("init", "presolve", "postsolve", "preadv", "step_end")]

@prop("P29", "runs of two random set-ups one after the other in one process: every recorded state bit for bit that of the same run alone in a fresh process, and after each run the library holds no memory, file or HDF5 object it acquired in it",
      ["the state of the C library's random generator is set by the caller before each run", "memory HDF5 keeps for reuse is not counted"], min_evals=120, max_stop=.25)
def p29(v, tier, seed):
    exe, so = build("o0"), heap_shim()
    n = n_of(tier, 91, 1500)
    def drop(*d):
        for x in d: shutil.rmtree(x, ignore_errors=True)
    with Scratch() as base:
        pd = os.path.join(base, "pd"); Z.tables(pd)
        def one(i):
            a, b = Z.zoo(seed, i, "rep", pd=pd), Z.zoo(seed, i * 7 + 3, "rep", pd=pd)
            a.dumps = b.dumps = SEEN
            b.then = None
            T = []
            if a.then:   # A followed by its own continuation
                R = Z.runs(exe, a, base)
                if len(R) < 2 or any(q.rc for q in R): return a, b, R, None, None
                # the second run has overwritten the trace of the first: run that one again elsewhere
                T = [None, R[1].recs()]
                b = Z.later(a)[0]; drop(R[0].dir)
                R0 = run_scn(exe, a, base, sub="i%da" % i); T[0] = R0.recs(); drop(R0.dir); R = [R0, R[1]]
            else:
                R = [run_scn(exe, a, base, sub="i%da" % i), run_scn(exe, b, base, sub="i%db" % i)]
                T = [q.recs() for q in R]; drop(*[q.dir for q in R])
            if any(q.rc for q in R): return a, b, R, None, None
            d = os.path.join(base, "i%d" % i)
            for s, nm in ((b, "b"), (a, "c"), (a, "d")): s.write(d, nm)
            X = run_scn(exe, a, base, sub="i%d" % i, args=["in.cfg", "b.cfg", "c.cfg", "d.cfg"], timeout=600, env=dict(LD_PRELOAD=so, HEAP_LOG="heap.log"))
            res = [(nm, eq_traces(T[j], read_trace(os.path.join(d, nm + ".trc"))[0]), len(T[j]), sum(x.nbytes for q in T[j] for x in q.a.values())) for nm, j in (("in", 0), ("b", 1), ("c", 0), ("d", 0))]
            M = marks(os.path.join(d, "heap.log"))
            drop(d)
            return a, b, R + [X], res, M
        for a, b, R, res, M in pmap(one, range(n)):
            if res is None: continue
            X = R[-1]
            if X.rc:
                v.fail("repeat-status", "%s: alone the runs end normally, one after the other with status %s" % (a.name, X.rc), a, X); X.rc = 0
                continue
            for (nm, d, k, nb), what in zip(res, ("first", "second, after another one", "third, after another one", "repeated at once")):
                v.saw((a.kind, getattr(b, "kind", -1), nm, a.then))
                v.count("records compared", k); v.count("megabytes compared", nb / 1e6)
                if d: v.fail("repeat-state", "%s: the run %s differs from the same run alone: %s" % ((b if nm == "b" else a).name, what, d), a, X)
            if len(M) < 5: v.inconc("no heap log of %s" % a.name); continue
            fd = [m[0] for m in M]
            v.check(len(set(fd)) == 1, "descriptors", "%s: files open before and after each run: %s" % (a.name, fd), a, X)
            v.saw((a.kind, "fd"))
            live = M[4][2]
            own = {k: q for k, q in live.items() if re.fullmatch(r"[0-9a-f]+", k[0])}
            v.saw((a.kind, "heap", a.then)); v.count("allocations followed", M[4][3] - M[0][3])
            for k, q in list(own.items())[:4]:
                v.fail("leak", "%s: %d blocks (%d bytes) allocated at %s in the last of four runs are never released" % (a.name, q[0], q[1], where_is(exe, k)), a, X)

# ---------------------------------------------------------------- P30
def memcheck(txt):
    """{(kind, own frames): count} of the reports of memcheck whose origin is in the library"""
    own = {f for f in os.listdir(os.path.join(REPO, "MDLIB")) if f.endswith((".c", ".h", ".cpp"))}
    N = {}
    for b in re.split(r"==\d+== \n", txt):
        fr = re.findall(r"(?:at|by) 0x\w+: (\S+) \(([^)]*?)\)", b)
        L = [re.sub(r"==\d+== ?", "", l) for l in b.splitlines()]
        if not fr or "realloc() with size 0" in L[0]: continue
        src = [(f, w) for f, w in fr if w.split(":")[0] in own]
        if src and any(w.split(":")[0] in ("monitor.c", "sim.c", "defined.c") for f, w in fr[:fr.index(src[0])]): continue   # the monitor itself
        if not src or "in /" in fr[0][1] and "hdf5" in fr[0][1]: continue
        k = (re.sub(r"\d+", "N", L[0].strip()), src[0][0])
        N.setdefault(k, []).append(" < ".join("%s %s" % x for x in src[:3]))
    return N

def vg(exe, s, base, sub):
    d = os.path.join(base, sub); s.write(d)
    cmd = ["valgrind", "-q", "--leak-check=no", "--log-file=vg.log", "--num-callers=25", "--error-limit=no", exe, "in.cfg"]
    rc, o, e, to, w = run_cmd(cmd, d, 600)
    R = Run(s, d, rc, o, e, to, w); R.vg = open(os.path.join(d, "vg.log")).read()
    LOG.append(R)
    return R

@prop("P30", "memcheck's account of which bytes are defined, over runs of random set-ups: no branch, address or system call of the library depends on undefined bytes, and no file, HDF5 dataset or grid, marker or surface field it leaves at an observation point contains any",
      ["fields are examined when the program gives them a meaning (not the material parameters of inactive flow laws)"], min_evals=2000, max_stop=.25)
def p30(v, tier, seed):
    exe = build("mc", extra=["defined.c"])
    with Scratch() as base:
        pd = os.path.join(base, "pd"); Z.tables(pd)
        def one(i):
            s = Z.zoo(seed, i, "zmc", pd=pd)
            s.dumps = SEEN
            if tier == "quick": s.par["nit_max"] = min(int(s.get("nit_max")), 8)
            sub = "z%d" % i
            out = [vg(exe, s, base, sub)]
            for q in Z.later(s):
                if out[0].rc == 0: out.append(vg(exe, q, base, sub))
            shutil.rmtree(os.path.join(base, sub), ignore_errors=True)
            return s, out
        for s, Rs in pmap(one, range(n_of(tier, 91, 1200))):
            for j, R in enumerate(Rs):
                m = re.findall(r"^SEEN (\d+) buffers (\d+) bytes", R.err, re.M)
                for a, b in m: v.saw((s.kind, j, s.then), int(a)); v.count("megabytes examined", int(b) / 1e6)
                bad = set()
                for l in R.err.splitlines():
                    f = l.split()
                    if not l.startswith("UNDEF ") or len(f) < 4: continue
                    if f[1] == "state" and f[2] in ("init", "presolve") and f[3] in ("nit", "stagnated", "resx", "resz", "resp", "c.z0", "c.ini_z0"): continue   # set at the start of each step or solve
                    what = " ".join(f[1:4])
                    if f[1] == "file": what = "file " + re.sub(r" at .*?([\w.]+:\d+).*", r" (\1)", subprocess.run(["addr2line", "-fpse", exe, f[2]], capture_output=True, text=True).stdout.strip())
                    if what not in bad: v.fail("undefined " + what, "%s%s: %s: undefined bytes in %s" % (R.scn.name, " (continued)" if j else "", what, l), s, R)
                    bad.add(what)
                for (kind, fn), fr in memcheck(R.vg).items():
                    v.fail("%s in %s" % (kind, fn), "%s%s: %s: %s" % (R.scn.name, " (continued)" if j else "", kind, fr[0]), s, R)
