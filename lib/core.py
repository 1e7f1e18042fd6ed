"""Shared machinery: builds the code under test from /repo's working tree, runs
the driver on generated setups, reads traces, and turns oracle results into
verdicts, replay files and evidence."""
import functools, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, concurrent.futures as cf
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARN = os.path.join(VERIF, "harness")
NPROC = os.cpu_count() or 4

class HarnessError(Exception):
    pass

# ---------------------------------------------------------------- build
CONFIGS = {
    "plain":  dict(cc="gcc", flags=["-O2", "-g1"]),
    "o0":     dict(cc="gcc", flags=["-O0", "-g"]),
    "san":    dict(cc="clang", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                    "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"]),
    "mc":     dict(cc="gcc", flags=["-O1", "-g"]),
    "omp":    dict(cc="gcc", flags=["-O1", "-g", "-fopenmp", "-D_OMP_"]),
    "tsan":   dict(cc="gcc", flags=["-O1", "-g", "-fopenmp", "-D_OMP_", "-fsanitize=thread"], gomp=True),
}
LIBS = ["-lumfpack", "-lcxsparse", "-lcholmod", "-lcolamd", "-lamd", "-lcamd", "-lccolamd", "-lsuitesparseconfig",
        "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lopenblas", "-lm", "-lpthread"]
INCS = ["-I/usr/include/suitesparse", "-I/usr/include/hdf5/serial"]

def repo_sources():
    txt = open(os.path.join(REPO, "MDLIB/CMakeLists.txt")).read()
    m = re.search(r"add_library\(\s*mdoodz\s+SHARED(.*?)\)", txt, re.S)
    if not m:
        raise HarnessError("cannot find the mdoodz source list")
    return [os.path.join(REPO, "MDLIB", f) for f in m.group(1).split() if f.endswith(".c")]

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def _hdr_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "MDLIB"), HARN):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp")):
                    h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()

_BUILDING = threading.RLock()
def _one_at_a_time(f):
    """Builds are called from worker threads too: two of them must not write the same file."""
    @functools.wraps(f)
    def g(*a, **k):
        with _BUILDING:
            return f(*a, **k)
    return g

def _compile(args):
    cc, flags, src, obj = args
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run([cc, "-std=gnu11", "-w", "-c", src, "-o", tmp] + flags, capture_output=True, text=True)
    if r.returncode:
        return "%s:\n%s" % (src, r.stderr[-4000:])
    os.replace(tmp, obj)
    return None

@_one_at_a_time
def build(config="plain", program="sim", extra=(), defines=()):
    """Compile the library sources of /repo together with harness program."""
    c = CONFIGS[config]
    flags = c["flags"] + INCS + ["-I" + os.path.join(REPO, "MDLIB"), "-I" + os.path.join(REPO, "MDLIB/include"), "-I" + HARN,
                                 "-DMDOODZ_VERIF", "-D_GNU_SOURCE"] + list(defines)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hd = _hdr_digest()
    srcs = repo_sources() + [os.path.join(HARN, f) for f in ([program + ".c"] + (["monitor.c"] if program in ("sim",) else []) + (["gomp.c"] if c.get("gomp") else []) + list(extra))]
    jobs, objs = [], []
    for s in srcs:
        k = _sha(c["cc"], " ".join(flags), hd, s, open(s, "rb").read())
        o = os.path.join(BUILD, "obj", os.path.basename(s)[:-2] + "-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((c["cc"], flags, s, o))
    if jobs:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            errs = [e for e in ex.map(_compile, jobs) if e]
        if errs:
            raise HarnessError("compile failed (%s):\n%s" % (config, "\n".join(errs)))
    exe = os.path.join(BUILD, "%s-%s-%s" % (program, config, _sha(*objs)))
    if not os.path.exists(exe):
        lf = [f for f in c["flags"] if f.startswith("-fsan") or (f == "-fopenmp" and not c.get("gomp"))]
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([c["cc"]] + lf + ["-o", tmp] + objs + LIBS, capture_output=True, text=True)
        if r.returncode:
            raise HarnessError("link failed (%s):\n%s" % (config, r.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe

@_one_at_a_time
def build_tool(name, libs=()):
    """A harness tool that does not contain code under test."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HARN, name + ".c")
    exe = os.path.join(BUILD, "%s-%s" % (name, _sha(open(src, "rb").read())))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-w", "-D_GNU_SOURCE", "-o", tmp, src] + INCS + LIBS + list(libs), capture_output=True, text=True)
        if r.returncode:
            raise HarnessError("tool build failed: " + r.stderr[-3000:])
        os.replace(tmp, exe)
    return exe

# ---------------------------------------------------------------- traces
class Rec:
    __slots__ = ("where", "seq", "s", "a")
    def __init__(self, where, seq):
        self.where, self.seq, self.s, self.a = where, seq, {}, {}
    def __getitem__(self, k):
        if k in self.a:
            return self.a[k]
        return self.s[k]
    def has(self, k):
        return k in self.a or k in self.s
    def n(self, k):   # centre field as (Nz-1, Nx-1)
        return self.a[k].reshape(self.Nz - 1, self.Nx - 1)
    def v(self, k):   # vertex field (Nz, Nx)
        return self.a[k].reshape(self.Nz, self.Nx)
    def u(self, k):
        return self.a[k].reshape(self.Nz + 1, self.Nx)
    def w(self, k):
        return self.a[k].reshape(self.Nz, self.Nx + 1)
    def x(self, k):   # extended centre field (Nz+1, Nx+1)
        return self.a[k].reshape(self.Nz + 1, self.Nx + 1)
    @property
    def Nx(self): return int(self.s["Nx"])
    @property
    def Nz(self): return int(self.s["Nz"])
    def perc_n(self):
        return np.array([self.n("phase_perc_n%d" % k) for k in range(int(self.s["Nb_phases"]))])
    def perc_s(self):
        return np.array([self.v("phase_perc_s%d" % k) for k in range(int(self.s["Nb_phases"]))])

_DT = {"d": np.float64, "f": np.float32, "i": np.int32, "c": np.int8}

def read_trace(fn):
    recs, calls, ended = [], None, False
    try:
        b = open(fn, "rb").read()
    except FileNotFoundError:
        return [], None, False
    i, n, cur = 0, len(b), None
    while i < n:
        j = b.find(b"\n", i)
        if j < 0:
            break
        t = b[i:j].decode().split()
        i = j + 1
        if not t:
            continue
        if t[0] == "R":
            cur = Rec(t[1], int(t[2]))
        elif t[0] == "S":
            cur.s[t[1]] = float(t[2])
        elif t[0] == "A":
            dt = _DT[t[2]]; cnt = int(t[3]); nb = cnt * np.dtype(dt).itemsize
            if i + nb > n:
                break
            cur.a[t[1]] = np.frombuffer(b, dt, cnt, i).copy()
            i += nb + 1
        elif t[0] == "E":
            recs.append(cur); cur = None
        elif t[0] == "CALLS":
            calls = [int(x) for x in t[1:]]
        elif t[0] == "END":
            ended = True
    return recs, calls, ended

# ---------------------------------------------------------------- setups
# The scaling of the setup file (eta, L, V, T) and all of its parameters, SI.
BASE = dict(writer=0, writer_step=1, writer_markers=0, writer_debug=0, noisy=0,
            eta=1.0, L=1.0, V=1.0, T=1.0,
            Nx=21, Nz=21, Nt=1, xmin=-0.5, xmax=0.5, zmin=-0.5, zmax=0.5, dt=0.1, Courant=0.3, penalty=1e5, eta_average=0,
            mechanical=1, thermal=0, elastic=0, advection=0, free_surface=0, constant_dt=1, RK=4, periodic_x=0,
            finite_strain=0, anisotropy=0, shear_style=0, pure_shear_ALE=0, compressible=0,
            lin_solver=2, lin_abs_div=1e-9, lin_rel_div=1e-9, lin_abs_mom=1e-9, lin_rel_mom=1e-9,
            Newton=0, nit_max=20, line_search=0, nonlin_abs_mom=1e-9, nonlin_abs_div=1e-9, nonlin_rel_mom=1e-9, nonlin_rel_div=1e-9,
            min_eta=1e-8, max_eta=1e8, bkg_strain_rate=1.0, gx=0.0, gz=0.0)
PHASE = dict(rho=1.0, alp=0.0, bet=1e-10, Cp=1.0, k=1.0, Qr=0.0, G=1.0, drho=0.0, T0=0.0, P0=0.0, density_model=0,
             C=1e30, phi=0.0, psi=0.0, Slim=1e30, plast=0, cstv=1, pwlv=0, linv=0, expv=0, gbsv=0, gsel=0, eta0=1.0, npwl=1.0, Qpwl=0.0)

def fmt(v):
    if isinstance(v, (bool, int, np.integer)):
        return str(int(v))
    if isinstance(v, str):
        return v
    return "%.17g" % v

def make_txt(par, phases, order=None):
    p = dict(BASE); p.update(par)
    lines = ["/**** %s ****/" % "generated setup"]
    for k, v in p.items():
        lines.append("%s = %s" % (k, fmt(v)))
    lines.append("Nb_phases = %d" % len(phases))
    for i, ph in enumerate(phases):
        q = dict(PHASE); q.update(ph)
        lines.append("ID = %d" % i)
        for k, v in q.items():
            lines.append("%s = %s / comment" % (k, fmt(v)))
    return "\n".join(lines) + "\n"

class Scenario:
    """par/phases -> setup file; cfg lines -> callbacks; dumps -> what to record."""
    def __init__(self, name, par=None, phases=None, cfg=(), dumps=(), files=None, txt=None):
        self.name, self.par, self.phases = name, dict(par or {}), [dict(p) for p in (phases or [{}])]
        self.cfg, self.dumps, self.files, self.txt = list(cfg), list(dumps), dict(files or {}), txt
    def get(self, k):
        return self.par.get(k, BASE.get(k))
    def ph(self, i, k):
        return self.phases[i].get(k, PHASE.get(k))
    def write(self, d, fname="in"):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, fname + ".txt"), "w") as f:
            f.write(self.txt if self.txt is not None else make_txt(self.par, self.phases))
        with open(os.path.join(d, fname + ".cfg"), "w") as f:
            f.write("input %s.txt\n" % fname)
            if self.dumps:
                f.write("trace %s.trc\n" % fname)
            for h in self.dumps:
                f.write("dump %s\n" % h)
            for c in self.cfg:
                f.write(c + "\n")
        for k, v in self.files.items():
            q = os.path.join(d, k)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if isinstance(v, bytes):
                open(q, "wb").write(v)
            else:
                open(q, "w").write(v)
    def describe(self):
        return dict(name=self.name, par=self.par, phases=self.phases, cfg=self.cfg)

class Run:
    def __init__(self, scn, d, rc, out, err, timed_out, wall):
        self.scn, self.dir, self.rc, self.out, self.err, self.timed_out, self.wall = scn, d, rc, out, err, timed_out, wall
        self._t = None
    def trace(self, fname="in"):
        if self._t is None:
            self._t = read_trace(os.path.join(self.dir, fname + ".trc"))
        return self._t
    def recs(self, *where):
        r = self.trace()[0]
        return [x for x in r if x.where in where] if where else r
    @property
    def ok(self):
        return self.rc == 0 and not self.timed_out

def read_h5(files, cwd):
    """datasets of HDF5 files, read by a tool that contains no code under test: {file name: Rec}"""
    if not files: return {}
    out = os.path.join(cwd, "h5.%d.trc" % len(files))
    subprocess.run([build_tool("h5dump"), out] + list(files), cwd=cwd, check=True, timeout=120)
    return {r.where: r for r in read_trace(out)[0]}

def run_cmd(cmd, cwd, timeout=120, env=None, limit_out=200000):
    e = dict(os.environ); e.pop("LD_PRELOAD", None)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C")
    if env:
        e.update(env)
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=open(os.path.join(cwd, "stdout"), "wb"),
                         stderr=open(os.path.join(cwd, "stderr"), "wb"), start_new_session=True)
    to = False
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        rc = p.wait()
    def tail(fn):
        with open(os.path.join(cwd, fn), "rb") as f:
            f.seek(0, 2); n = f.tell(); f.seek(max(0, n - limit_out))
            return f.read().decode("utf8", "replace")
    return rc, tail("stdout"), tail("stderr"), to, time.time() - t0

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="mdzv-")
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

LOG = []   # (scenario, status, timed out) of every run of the current property
def run_scn(exe, scn, base, timeout=120, env=None, args=None, sub=None, log=True):
    d = os.path.join(base, sub or re.sub(r"[^A-Za-z0-9_.-]", "_", scn.name))
    scn.write(d)
    rc, o, e, to, w = run_cmd([exe] + (args or ["in.cfg"]), d, timeout, env)
    if to:   # a loaded machine: once more before believing it
        rc, o, e, to, w = run_cmd([exe] + (args or ["in.cfg"]), d, timeout * 2, env)
    R = Run(scn, d, rc, o, e, to, w)
    if log:
        LOG.append(R)
    return R

def pmap(fn, items, n=None):
    with cf.ThreadPoolExecutor(n or NPROC) as ex:
        return list(ex.map(fn, items))

# ---------------------------------------------------------------- verdicts
class Verdict:
    """Collects oracle evaluations and violations for one property."""
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.viol, self.evals, self.keys, self.samples, self.counters, self.inconclusive = [], 0, set(), [], {}, []
        self.t0 = time.time()
    def saw(self, key, n=1):
        """one evaluation of the oracle on something real; key identifies distinct non-trivial cases"""
        self.evals += n
        if len(self.samples) < 8 and key not in self.keys:
            self.samples.append("case " + str(key))
        self.keys.add(key)
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n
    def peak(self, name, v):
        v = float(v)
        if v == v:
            self.counters[name] = max(self.counters.get(name, 0.0), v)
    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)
    def fail(self, key, msg, scn=None, run=None, extra=None):
        self.viol.append(dict(key=key, msg=msg, scn=scn, run=run, extra=extra))
    def check(self, cond, key, msg, scn=None, run=None):
        if not cond:
            self.fail(key, msg, scn, run)
        return cond
    def inconc(self, msg):
        self.inconclusive.append(msg)

def load_known():
    fn = os.path.join(VERIF, "known_findings.json")
    return json.load(open(fn))["findings"] if os.path.exists(fn) else []

def _jsonable(o):
    if isinstance(o, (np.integer,)): return int(o)
    if isinstance(o, (np.floating,)): return float(o)
    if isinstance(o, np.ndarray): return o.tolist()
    if isinstance(o, bytes): return o.hex()
    return str(o)

def finish(v, tier, seed, level="exploration", min_evals=1, max_stop=.12):
    # the workloads are valid set-ups: none of them may crash or hang, and they must keep producing observations
    if not any(x["key"] == "stopped" for x in v.viol):
        for R in LOG:
            if R.rc < 0 or R.timed_out:
                v.fail("stopped", "%s: the run ended abnormally (status %s%s)" % (R.scn.name, R.rc, ", out of time" if R.timed_out else ""), R.scn, R)
    stopped = [R for R in LOG if R.rc > 0]
    v.counters["runs"] = len(LOG); v.counters["runs that gave up (non-zero status)"] = len(stopped)
    if len(stopped) > max(3, max_stop * len(LOG)):
        v.fail("gave-up", "%d of %d valid set-ups end with an error, e.g. %s: %s" % (len(stopped), len(LOG), stopped[0].scn.name, stopped[0].out[-200:]), stopped[0].scn, stopped[0])
    if v.evals < min_evals:
        v.fail("silent", "only %d observations were made where a working program gives at least %d: %s" % (v.evals, min_evals, v.inconclusive[:3]))
    known = [k for k in load_known() if k["property"] == v.pid and not k.get("fixed")]
    rest, hit = [], []
    for x in v.viol:
        m = next((k for k in known if re.fullmatch(k["key"], x["key"])), None)
        if m:
            hit.append(m)
        else:
            rest.append(x)
    for k in known:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (v.pid, k["what"]))
    ev = dict(property=v.pid, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=v.evals, distinct_nontrivial=len(v.keys), rule=v.rule, samples=v.samples or ["(none)"],
                            observed={k: (float("%.6g" % x) if isinstance(x, float) else x) for k, x in sorted(v.counters.items())},
                            inconclusive=v.inconclusive[:20]),
              wall_s=round(time.time() - v.t0, 2), violations=len(rest), assumptions=v.assumptions)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", v.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_jsonable)
    if rest:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, v.pid + ".json")
        out = []
        for x in rest[:20]:
            r = x["run"]
            scn = x["scn"] or (r.scn if r is not None else None)
            out.append(dict(key=x["key"], message=x["msg"], scenario=scn.describe() if scn is not None else None, extra=x["extra"],
                            stdout_tail=r.out[-1500:] if r is not None else None, stderr_tail=r.err[-3000:] if r is not None else None))
        with open(rp, "w") as f:
            json.dump(dict(property=v.pid, seed=seed, tier=tier, violations=out), f, indent=1, default=_jsonable)
        for x in rest[:10]:
            print("  [%s] %s" % (x["key"], x["msg"]))
        print("VIOLATION property=%s replay=%s" % (v.pid, rp))
        return 1
    print("OK property=%s evaluations=%d distinct=%d runs=%d gave-up=%d inconclusive=%d" % (v.pid, v.evals, len(v.keys), len(LOG), len(stopped), len(v.inconclusive)))
    return 0
