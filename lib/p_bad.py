"""Input that cannot be a model is refused with a failing status."""
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import copy
import p_comp
from p_san import SAN
from p_input import PARAMS, p23_case, write as write_setup

def good(r, i):
    """a small set-up that runs, with phases 0..n-1 all present"""
    s = full(r, "bad%d" % i, fam=r.i(0, 5), Nt=1)
    s.par["Nx"] = s.par["Nz"] = r.i(11, 15)
    s.par["nit_max"] = 2
    s.par["writer"] = 0
    s.dumps = []
    return s

# name -> (change that makes the set-up impossible); returns None where it does not apply
def _phase(s, r, bad):
    b = [c for c in s.cfg if c.startswith("shape")]
    x0, x1, z0, z1 = (s.par[k] for k in ("xmin", "xmax", "zmin", "zmax"))
    w = r.u(.2, .5)
    cx, cz = x0 + r.u(.3, .6) * (x1 - x0), z0 + r.u(.1, .3) * (z1 - z0)
    s.cfg.append("shape r %d %.17g %.17g %.17g %.17g" % (bad, cx, cx + w * .3 * (x1 - x0), cz, cz + w * .3 * (z1 - z0)))

def breakages(s, r):
    n = len(s.phases)
    big = r.c([n, n + 1, n + 5, 20, 31, 1000])
    neg = r.c([-2, -3, -100])
    B = {}
    def add(name, f): B[name] = f
    add("no setup file", lambda s: setattr(s, "gone", True))
    add("phase section missing", lambda s: setattr(s, "edit", lambda t: t.replace("ID = %d\n" % (n - 1), "ID = %d\n" % (n + 3))))
    add("no flow mechanism", lambda s: s.phases[r.i(0, n - 1)].update(cstv=0, pwlv=0, linv=0, gbsv=0, expv=0))
    for nm, ok in (("pwlv", 90), ("linv", 90), ("gbsv", 90), ("expv", 90), ("gs", 90), ("kin", 90)):
        add("unknown law " + nm, lambda s, nm=nm: s.phases[r.i(0, n - 1)].update({nm: r.c([3, 77, 90, 999])}))
    def melt(s): s.par["melting"] = 1; s.phases[r.i(0, n - 1)]["melt"] = r.c([12, 13, 77, -1])
    add("unknown melting law", melt)
    add("more phases than the program holds", lambda s: setattr(s, "phases", s.phases + [dict(s.phases[0]) for _ in range(r.c([21, 25, 60]) - n)]))
    add("no phase at all", lambda s: setattr(s, "edit", lambda t: re.sub(r"Nb_phases = \d+", r.c(["Nb_phases = 0", "Nb_phases = -3", "Mb_phases = 3"]), t)))
    add("dilation without compressibility", lambda s: (s.par.update(compressible=0), s.phases[r.i(0, n - 1)].update(psi=r.u(1, 30)), [p.update(psi_soft=0) for p in s.phases]))
    add("stress limiter below cohesion", lambda s: s.phases[r.i(0, n - 1)].update(C=2.0, Slim=1.0))
    add("power-law viscoplasticity", lambda s: s.phases[r.i(0, n - 1)].update(n_vp=r.u(1.5, 5), eta_vp=1.0))
    add("interp_stencil", lambda s: s.par.update(interp_stencil=r.c([0, 2, 4, 8, -1])))
    for soft, e in (("coh_soft", ("C", "Ce")), ("phi_soft", ("phi", "phie"))):
        add("softening without difference " + soft, lambda s, soft=soft, e=e: s.phases[r.i(0, n - 1)].update({soft: 1, e[1]: None}))
    add("reaction into no phase", lambda s: s.phases[r.i(0, n - 1)].update(reac_soft=1, reac_phase=big))
    add("marker phase too big", lambda s: _phase(s, r, big))
    add("marker phase negative", lambda s: _phase(s, r, neg))
    add("adjusted phase", lambda s: s.cfg.append("adjust -1e30 %d %d" % (r.i(0, n - 1), r.c([big, neg]))))
    add("density table missing", lambda s: (s.par.update(import_files_dir="./nowhere"), s.phases[r.i(0, n - 1)].update(density_model=2, phase_diagram=r.i(0, 9))))
    add("density table not named", lambda s: (s.phases[r.i(0, n - 1)].update(density_model=2)))
    add("1D table missing", lambda s: s.phases[r.i(0, n - 1)].update(density_model=4))
    add("kinetic table missing", lambda s: s.par.update(kinetics=1, import_files_dir="./nowhere"))
    add("marker file missing", lambda s: s.par.update(load_initial_markers=1, initial_markers_file="nowhere.bin"))
    add("checkpoint missing", lambda s: s.par.update(istep=7, irestart=1, Nt=9))
    for k in ("Nx", "Nz"):
        add("grid " + k, lambda s, k=k: s.par.update({k: r.c([1, 0, -5])}))
    add("empty box x", lambda s: s.par.update(xmin=s.par["xmax"], xmax=s.par[r.c(["xmin", "xmax"])]))
    add("empty box z", lambda s: s.par.update(zmin=s.par["zmax"], zmax=s.par[r.c(["zmin", "zmax"])]))
    for k in ("Nx_part", "Nz_part"): add(k, lambda s, k=k: s.par.update({k: r.c([0, -2])}))
    add("zero scale", lambda s: s.par.update({r.c(["eta", "L", "V", "T"]): r.c([0.0, 0.0, -1.0])}))
    add("output folder", lambda s: (s.par.update(writer=1, writer_subfolder="in.txt/sub")))
    add("viscosity not a number", lambda s: s.phases[r.i(0, n - 1)].update(eta0="nan", cstv=1))
    add("no-name phase diagram", lambda s: (s.par.update(import_files_dir=PD), s.phases[r.i(0, n - 1)].update(density_model=2, phase_diagram=r.c([-2, 10, 11, 1000]))))
    add("mixing with no phase", lambda s: s.phases[r.i(0, n - 1)].update(phase_mix=1, phase_two=r.c([big, neg])))
    add("transmutation into no phase", lambda s: s.phases[r.i(0, n - 1)].update(transmutation=r.c([-1, 1]), transmutation_phase=r.c([big, neg])))
    add("sediment of no phase", lambda s: s.par.update({"surface_processes": 2, r.c(["surf_ised1", "surf_ised2"]): r.c([big, neg])}))
    def cut(s, f, size):
        s.files[f] = np.ones(int(size * r.c([0, .3, .99])) // 8, float).tobytes() + b"abc"
    add("marker file too short", lambda s: (s.par.update(load_initial_markers=1, initial_markers_file="m.bin"), cut(s, "m.bin", 20 * 16 * (s.par["Nx"] - 1) * (s.par["Nz"] - 1))))
    def markers(s):
        nb = s.get("Nx_part") or 4; nb = nb * (s.get("Nz_part") or 4) * (s.par["Nx"] - 1) * (s.par["Nz"] - 1)
        x0, x1, z0, z1 = (s.par[k] / s.par.get("L", 1.0) for k in ("xmin", "xmax", "zmin", "zmax"))
        g = np.random.default_rng(r.i(0, 10**6))
        ph = np.zeros(nb, np.int32); ph[r.i(0, nb - 1)] = r.c([big, neg])
        s.par.update(load_initial_markers=1, initial_markers_file="m.bin")
        s.files["m.bin"] = g.uniform(x0, x1, nb).tobytes() + g.uniform(z0, z1, nb).tobytes() + ph.tobytes()
    add("marker file with a phase that does not exist", markers)
    add("1D table too short", lambda s: (s.phases[r.i(0, n - 1)].update(density_model=4), cut(s, "PHASE_DIAGRAMS/QuartzCoesite600C.bin", 80000)))
    def short2d(s):
        pid = r.i(0, 9)
        s.par.update(import_files_dir="./tab"); s.phases[r.i(0, n - 1)].update(density_model=2, phase_diagram=pid)
        s.links = {"tab/" + p_comp.TAB[j][0]: os.path.join(PD, p_comp.TAB[j][0]) for j in p_comp.TAB}
        f = "tab/" + p_comp.TAB[pid][0]; s.links.pop(f)
        cut(s, f, p_comp.TAB[pid][1] * p_comp.TAB[pid][2] * 8)
    add("2D table too short", short2d)
    return B

PD = None

def hostile(r, src):
    """a setup file damaged as files get damaged"""
    b = src
    ints = {p["name"] for p in PARAMS if p["kind"] == "int" or p["name"] in ("cstv", "pwlv", "linv", "gbsv", "expv", "gs", "kin")} | {"Nx", "Nz", "gsel"}
    for _ in range(r.i(1, 6)):
        L = b.split(b"\n")
        j = r.i(0, len(L) - 1)
        op = r.i(0, 11)
        if op == 0: del L[j]
        elif op == 1: L = L[:j] + [L[j][:r.i(0, max(0, len(L[j]) - 1))]]
        elif op == 2 and L[j]:
            k = r.i(0, len(L[j]) - 1); L[j] = L[j][:k] + bytes([r.c([0, 9, 32, 61, 35, 255, 128, 13, 97])]) + L[j][k + 1:]
        elif op == 3: L.insert(j, bytes(r.i(0, 255) for _ in range(r.i(1, 300))).replace(b"\n", b""))
        elif op == 4: L.insert(j, b"x" * r.i(990, 5000))
        elif op == 5: L[j] = L[j].replace(b"=", b"")
        elif op == 6 and j + 1 < len(L): L[j] = L[j] + L.pop(j + 1)
        elif op == 7 and b"=" in L[j]:
            nm = L[j].split(b"=")[0].strip().decode("latin1")
            L[j] = nm.encode("latin1") + b" = " + (r.c([b"", b"-", b"abc", b"=", b"\t", b"0"]) if nm in ints else r.c([b"", b"nan", b"1e999", b"-1e999", b"abc", b"-", b"0"]))
        elif op == 8: L[j] = L[j] + b" " * r.i(900, 1100)
        elif op == 9: L[j] = b"\0" * r.i(1, 40) + L[j]
        elif op == 10: L.insert(j, r.c([b"ID", b"ID =", b"ID = -1", b"ID = abc", b"=", b"= 3", b" = 3", b"Nx", b"writer_subfolder", b"writer_subfolder ="]))
        elif op == 11: L = r.c([[b""], L[:j], L[j:]])
        b = b"\n".join(L)
    return b

def one(exe, q, base, sub):
    for p in q.phases:
        for k in [k for k in p if p[k] is None]: del p[k]
    if getattr(q, "edit", None): q.txt = q.edit(make_txt(q.par, q.phases))
    d = os.path.join(base, sub); q.write(d)
    for k, f in getattr(q, "links", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True); os.symlink(f, os.path.join(d, k))
    if getattr(q, "gone", None): os.remove(os.path.join(d, "in.txt"))
    rc, o, e, to, w = run_cmd([exe, "in.cfg"], d, 200, SAN)
    for k in q.files: os.remove(os.path.join(d, k))
    return rc, o, e, to

def report(e):
    m = re.search(r"AddressSanitizer: [\w-]+|runtime error: [^\n]*", e)
    if not m: return None
    f = re.search(r"#\d+ \S+ in (\w+) /repo|in (\w+) /[^\n]*MDLIB", e)
    return m.group(0)[:100] + (" in " + (f.group(1) or f.group(2)) if f else "")

@prop("P24", "set-ups that run are each made impossible in one way out of forty (missing, incomplete or contradictory files, sections, tables, phases, laws, grids); every such run must end by itself with a failing status and without touching memory it must not, and the unbroken twin must run; setup files damaged at random must be read or refused, with nothing else happening",
      ["what counts as impossible is the list in lib/p_bad.py"], min_evals=250)
def p24(v, tier, seed):
    global PD
    exe, rd = build("san"), build("san", program="readin")
    n, nf = n_of(tier, 8, 60), n_of(tier, 1500, 20000)
    with Scratch() as base:
        PD = os.path.join(base, "pd"); p_comp.write_tables(PD)
        jobs = []
        for i in range(n):
            r = rng(seed, "p24", i)
            s = good(r, i)
            jobs.append(("-", i, s))
            for nm, f in breakages(s, r).items():
                q = copy.deepcopy(s); f(q)
                jobs.append((nm, i, q))
        res = pmap(lambda j: one(exe, j[2], base, "c%d-%s" % (j[1], re.sub(r"\W", "_", j[0]))), jobs)
        bad_twin = {i for (nm, i, q), x in zip(jobs, res) if nm == "-" and x[0] != 0}
        for i in bad_twin: v.count("set-ups that did not run unbroken")
        v.check(len(bad_twin) <= .15 * n + 1, "twins", "%d of %d unbroken set-ups did not run" % (len(bad_twin), n))
        for (nm, i, q), (rc, o, e, to) in zip(jobs, res):
            if i in bad_twin: continue
            if nm == "-": v.count("unbroken set-ups that ran"); continue
            v.saw("%s/%s" % (nm, q.fam)); v.count("broken set-ups")
            last = o.strip().splitlines()[-1][:120] if o.strip() else ""
            rep = report(e)
            key = "bad:%s" % nm
            if to: v.fail(key, "%s: the run never ends" % nm, q)
            elif rep: v.fail(key, "%s: %s" % (nm, rep), q)
            elif rc == 0: v.fail(key, "%s: the run ends with status 0 (%s)" % (nm, last), q)
            elif rc < 0: v.fail(key, "%s: the run is killed by signal %d" % (nm, -rc), q)
        # damaged setup files
        files = []
        for i in range(nf):
            r = rng(seed, "p24f", i)
            if i % 40 == 0:
                r2, nph, sc, val, txt = p23_case(seed + 77, i)
                fn = os.path.join(base, "src%d" % i)
                write_setup(r2, min(nph, 20), txt, fn)
                src = open(fn, "rb").read()
            fn = os.path.join(base, "h%d.txt" % i)
            open(fn, "wb").write(hostile(r, src))
            files.append((fn, os.path.join(base, "h%d.out" % i)))
        def go(k):
            lst = os.path.join(base, "hl%d" % k)
            open(lst, "w").write("".join("%s %s\n" % x for x in files[k::16]))
            p = subprocess.run([rd, lst], capture_output=True, text=True, cwd=base, timeout=800, env=dict(os.environ, **SAN))
            return dict(l.rsplit(" ", 1) for l in p.stdout.splitlines())
        st = {}
        for d in pmap(go, range(16)): st.update(d)
        for fn, out in files:
            rc = int(st.get(out, "-99"))
            e = open(out + ".err", errors="replace").read() if os.path.exists(out + ".err") else ""
            v.count("damaged files read" if rc == 0 else "damaged files refused"); v.saw("damaged %d" % rc)
            rep = report(e)
            if rep or rc < 0 or rc in (97, 98, 99): v.fail("damaged:" + (rep or str(rc))[:60], "a damaged setup file: %s" % (rep or "signal or status %d" % rc), extra=repr(open(fn, "rb").read())[:20000])
