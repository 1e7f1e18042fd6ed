"""Metamorphic relations of the whole solver: same physics -> same answer."""
import copy, math
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
from p_stokes import conv_flags, FLOW, refused
import orc

CMP = "u_in v_in p_in sxxd szzd sxz eta_n eta_s exxd exz T X_n rho_n d_n BCp BCu BCv"

def rel(a, b, sc=None):
    sc = sc if sc is not None else max(abs(a).max(), abs(b).max(), 1e-300)
    return abs(a - b).max() / sc

def tight(s, rtol=1e-10, atol=1e-9):
    """tolerances tied to the problem's own force and rate scales, so that they mean the same in every unit system"""
    p = s.par
    L = max(p["xmax"] - p["xmin"], p["zmax"] - p["zmin"])
    e0 = s.meta["e0"]
    f = 2 * s.meta["eta_ref"] * e0 / L
    if p.get("gz"):
        f = max(f, .05 * abs(p["gz"]) * max(q.get("rho", 1.0) for q in s.phases))
    vol = (p["xmax"] - p["xmin"]) / (p["Nx"] - 1) * (p["zmax"] - p["zmin"]) / (p["Nz"] - 1) / p["L"] ** 2   # residuals are per cell
    fs = p["eta"] * p["V"] / p["L"] ** 2
    p.update(nonlin_abs_mom=atol * f / fs * vol, nonlin_abs_div=atol * e0 / (p["V"] / p["L"]) * vol, nonlin_rel_mom=rtol, nonlin_rel_div=rtol, nit_max=80, lin_abs_div=1e-12, lin_rel_div=1e-12, lin_abs_mom=1e-12, lin_rel_mom=1e-12)
    return s

# ------------------------------------------------------------------ strategy
@prop("P05", "pairs of runs of one problem that differ only in how the equations are solved (Picard, Newton, Picard-then-Newton, line search, penalty, preconditioner, scaling of the matrix, inner iterations); velocities, pressure and stresses compared where both report convergence; linear problems must be solved in one iteration",
      ["pressure compared up to its mean when the box is closed and incompressible"], min_evals=130)
def p05(v, tier, seed):
    exe = build("plain")
    def case(i):
        r = rng(seed, "strat", i)
        k = i % 6
        if k == 0: s = mech(r, "lin%d" % i, rheo=("cst",), elastic=r.p(.5), contrast=3, dumps=["postsolve " + FLOW])
        elif k == 1: s = mech(r, "pwl%d" % i, rheo=("pwl",), elastic=False, contrast=1.5, dumps=["postsolve " + FLOW])
        elif k == 2: s = mech(r, "vepwl%d" % i, rheo=("pwl", "cst"), elastic=True, contrast=1.5, dumps=["postsolve " + FLOW])
        elif k == 3: s = mech(r, "vep%d" % i, rheo=("cst",), elastic=True, plastic=True, contrast=1., dumps=["postsolve " + FLOW])
        elif k == 4:
            s = mech(r, "ani%d" % i, rheo=("cst", "pwl"), elastic=False, contrast=1.5, dumps=["postsolve " + FLOW])
            s.par.update(anisotropy=1, finite_strain=1)
            for p in s.phases: p.update(aniso_factor=r.u(1.2, 5.0), aniso_angle=r.u(0, 180))
        else: s = freesurf(r, "fs%d" % i, Nt=1, advection=0, dumps=["postsolve " + FLOW])
        s.k = k
        tight(s, 1e-9); s.par["nit_max"] = 150
        out = [s]
        variants = [("newton", dict(Newton=1)), ("linesearch", dict(line_search=1)), ("p2n", dict(Newton=1, Picard2Newton=1, Picard2Newton_tol=1e-1)),
                    ("penalty", dict(penalty=1e4)), ("penalty6", dict(penalty=1e6)), ("precond", dict(Newton=1, preconditioner=r.c([-1, 1]))), ("diag", dict(diag_scaling=0)), ("inner", dict(max_its_PH=30, rel_tol_KSP=1e-6, Newton=1))]
        r2 = rng(seed, "stratv", i)
        for nm, d in [variants[j] for j in sorted(r2.g.choice(len(variants), 3, replace=False))]:
            t = copy.deepcopy(s); t.name += "-" + nm; t.par.update(d); t.k = k; out.append(t)
        return out
    n = n_of(tier, 72, 600)
    cases = [case(i) for i in range(n)]
    with Scratch() as base:
        flat = [s for c in cases for s in c]
        runs = dict(zip([s.name for s in flat], pmap(lambda s: run_scn(exe, s, base), flat)))
        for c in cases:
            R0 = runs[c[0].name]
            for s in c:
                R = runs[s.name]
                if R.timed_out: v.inconc(s.name + " timed out")
                elif R.rc not in (0, 1): v.fail("crash", "%s: status %s" % (s.name, R.rc), run=R)
            q0 = R0.recs("postsolve")
            ok0 = conv_flags(R0)
            if R0.rc == 0 and c[0].k in (0, 5) and q0 and ok0:
                v.count("linear problems")
                if not ok0[0] or q0[0]["nit"] > 2:
                    v.fail("linear-iterations", "%s: linear problem needed %d iterations, converged=%s" % (c[0].name, q0[0]["nit"], ok0[0]), run=R0)
            if not q0 or not ok0[:1] == [True]:
                v.count("reference runs not converged"); continue
            a = q0[0]
            for s in c[1:]:
                R = runs[s.name]; qs = R.recs("postsolve")
                if R.rc or not qs or conv_flags(R)[:1] != [True]:
                    v.count("variants not converged"); continue
                b = qs[0]
                inn = a.n("BCp") == -1
                e = {}
                Vs = max(abs(a["u_in"]).max(), abs(a["v_in"]).max(), abs(b["u_in"]).max())
                Ss = max(abs(a["sxxd"]).max(), abs(a["sxz"]).max(), 1e-300)
                e["velocity"] = max(abs(a["u_in"] - b["u_in"]).max(), abs(a["v_in"] - b["v_in"]).max()) / Vs
                if a.s["gz"] or a.s["gx"]:
                    Ss = max(Ss, abs(a.n("p_in")[inn] - a.n("p_in")[inn].mean()).max())
                for f in ("sxxd", "szzd"):
                    e[f] = abs((a.n(f) - b.n(f))[inn]).max() / Ss
                e["sxz"] = abs(a["sxz"] - b["sxz"]).max() / Ss
                pa, pb = a.n("p_in")[inn], b.n("p_in")[inn]
                if s.k != 5 and not s.get("compressible"):
                    pa = pa - pa.mean(); pb = pb - pb.mean()
                e["pressure"] = abs(pa - pb).max() / max(Ss, abs(pa).max())
                w = max(e, key=e.get)
                lim = 1e-4
                v.peak("peak difference", e[w])
                if not e[w] < lim:
                    v.fail("strategy-" + s.name.split("-")[-1], "%s vs %s: %s differs by %.3g although both converged" % (s.name, c[0].name, w, e[w]), run=R)
                v.saw((s.k, s.name.split("-")[-1], s.meta["scale"], s.meta["bc"]))
                v.sample("%s %s" % (s.name, {k_: "%.1e" % x for k_, x in e.items()}))

# ------------------------------------------------------------------ units
SIF = dict(u_in="sc.V", v_in="sc.V", p_in="sc.S", sxxd="sc.S", szzd="sc.S", sxz="sc.S", eta_n="sc.eta", eta_s="sc.eta", exxd="sc.E", exz="sc.E", T="sc.T", rho_n="sc.rho", X_n=None)

def compare_si(v, A, B, key, tol, what):
    ra, rb = A.recs("postsolve", "step_end"), B.recs("postsolve", "step_end")
    if len(ra) != len(rb):
        v.fail(key + "-length", "%s: %d vs %d recorded states" % (what, len(ra), len(rb)), run=B); return
    fa, fb = conv_flags(A), conv_flags(B)
    for a, b in zip(ra, rb):
        st = int(a["step"]) - 1
        if not (all(fa[:st + 1]) and all(fb[:st + 1])):
            v.count("pairs with an unconverged step"); return
        t = tol * 10 ** min(st, 1)
        errs = {}
        air = a["BCp"] != -1
        Sref = max(abs(a["sxxd"]).max(), abs(a["sxz"]).max(), 1e-300) * a["sc.S"]
        for f, sc in SIF.items():
            if not a.has(f) or not b.has(f): continue
            x, y = a[f] * (a[sc] if sc else 1), b[f] * (b[sc] if sc else 1)
            s_ = max(abs(x).max(), 1e-300)
            if f in ("sxxd", "szzd", "sxz"): s_ = Sref
            if f in ("u_in", "v_in"): s_ = max(abs(a["u_in"]).max(), abs(a["v_in"]).max()) * a["sc.V"]
            if f in ("exxd", "exz"): s_ = max(abs(a["exxd"]).max(), abs(a["exz"]).max(), 1e-300) * a["sc.E"]
            if f == "p_in": s_ = max(s_, Sref)
            m = np.ones(len(x), bool)
            if len(x) == len(air): m = ~air
            errs[f] = abs(x - y)[m].max() / s_
        errs["time"] = abs(a["time"] * a["sc.t"] - b["time"] * b["sc.t"]) / max(abs(a["time"] * a["sc.t"]), 1e-300)
        w = max(errs, key=errs.get)
        v.peak("peak difference", errs[w])
        if not errs[w] < t:
            v.fail(key, "%s step %d (%s): %s differs by %.3g" % (what, a["step"], a.where, w, errs[w]), run=B)
            return
        v.saw((key, A.scn.fam, A.scn.meta["bc"], A.scn.meta["scale"], int(a["step"]), a.where))

@prop("P06", "pairs of runs of the same physical problem written with different characteristic units; every recorded field compared in SI at every step",
      ["a few time steps, before round-off can select a different marker for a cell"], min_evals=210)
def p06(v, tier, seed):
    exe = build("plain")
    def pair(i):
        r = rng(seed, "units", i)
        s = full(r, "u%d" % i, Nt=r.c([1, 2, 3]), dumps=["postsolve " + CMP, "step_end " + CMP], fam=i % 6)
        tight(s); s.par["initial_noise"] = 1   # on a regular lattice the nearest marker is a tie decided by round-off
        t = copy.deepcopy(s); t.name += "b"; t.fam = s.fam; t.meta = s.meta
        f = lambda: 10 ** r.u(-1.5, 1.5)
        for k in ("eta", "L", "V", "T"):
            t.par[k] = s.par[k] * f()
        tight(t)
        return run_scn(exe, s, base), run_scn(exe, t, base)
    with Scratch() as base:
        for A, B in pmap(pair, range(n_of(tier, 96, 900))):
            if A.timed_out or B.timed_out: v.inconc(A.scn.name); continue
            if A.rc != B.rc:
                if A.rc in (0, 1) and B.rc in (0, 1): v.count("one of the pair stopped by the linear solver"); continue
                v.fail("units-status", "%s: status %s in one unit system, %s in the other" % (A.scn.name, A.rc, B.rc), run=B); continue
            if A.rc: v.count("both stopped"); continue
            compare_si(v, A, B, "units", 1e-5, A.scn.name)
            v.sample("%s fam %d %s" % (A.scn.name, A.scn.fam, A.scn.meta["bc"]))

# ------------------------------------------------------------------ symmetries
def mirror_shape(c, x0):
    t = c.split()
    if t[1] == "e": t[3] = "%.15g" % (2 * x0 - float(t[3])); t[7] = "%.15g" % (-float(t[7]))
    elif t[1] == "r": a, b = float(t[3]), float(t[4]); t[3], t[4] = "%.15g" % (2 * x0 - b), "%.15g" % (2 * x0 - a)
    elif t[1] == "p": nx = float(t[3]); t[5] = "%.15g" % (float(t[5]) - 2 * x0 * nx); t[3] = "%.15g" % (-nx)
    else: return None
    return " ".join(t)

def shift_shape(c, ox, oz):
    t = c.split()
    g = lambda k, o: t.__setitem__(k, "%.17g" % (float(t[k]) + o))
    if t[1] == "e": g(3, ox); g(4, oz)
    elif t[1] == "r": g(3, ox); g(4, ox); g(5, oz); g(6, oz)
    elif t[1] == "p": t[5] = "%.17g" % (float(t[5]) + ox * float(t[3]) + oz * float(t[4]))
    else: return None
    return " ".join(t)

def transpose_shape(c):
    t = c.split()
    if t[1] == "e": t[3], t[4] = t[4], t[3]; t[5], t[6] = t[6], t[5]; t[7] = "%.15g" % (-float(t[7]))
    elif t[1] == "r": t[3], t[4], t[5], t[6] = t[5], t[6], t[3], t[4]
    elif t[1] == "p": t[3], t[4] = t[4], t[3]
    else: return None
    return " ".join(t)

SYM = "rx_abs rz_abs rp_abs rx_rel rz_rel rp_rel u_in v_in p_in sxxd szzd sxz eta_n eta_s T rho_n strain_n X_n rho_s BCp BCg BCu BCv"

def sym_case(seed, i):
    r = rng(seed, "sym", i)
    kind = ["mirror", "shift", "transpose", "shift", "mirror"][i % 5]
    rheo = r.c(["cst", "pwl", "ve", "vep", "ani"])
    bc = {"mirror": r.c(["pure", "lin", "linfs"]), "shift": r.c(["lin", "linfs"]), "transpose": r.c(["lin", "linfs"])}[kind]
    Nt = r.c([1, 2, 3])
    s = mech(r, "%s%d" % (kind, i), rheo=("pwl",) if rheo == "pwl" else ("cst",), bc=bc, elastic=rheo in ("ve", "vep"), plastic=rheo == "vep", contrast=1.5 if rheo == "vep" else 3, Nt=Nt,
             advection=int(Nt > 1), gravity=kind != "transpose" and r.p(.5), dumps=["postsolve " + SYM])
    s.par["initial_noise"] = 0
    s.par["gx"] = 0.0
    s.par["reseed_markers"] = 0
    if rheo == "vep":   # frictionless: a closed incompressible box leaves the pressure level, hence frictional strength, undetermined
        s.par["Newton"] = 1
        for p in s.phases: p["phi"] = 0.0
    if rheo == "ani":
        s.par.update(anisotropy=1, finite_strain=1)
        for p in s.phases: p.update(aniso_factor=r.u(1.2, 4), aniso_angle=r.u(10, 170))
    if kind != "shift" and "off" != "":
        c = .5 * (s.par["xmin"] + s.par["xmax"]); s.par["xmin"] -= c; s.par["xmax"] -= c
    # markers on a material boundary would be assigned by round-off: keep the boundaries off the marker lattice
    cfg = []
    for l in s.cfg:
        if l.startswith("shape") and l.split()[1] in "wc":
            L = s.par["xmax"] - s.par["xmin"]
            l = "shape e %s %.9g %.9g %.9g %.9g 27.3" % (l.split()[2], s.par["xmin"] + .43117 * L, s.par["zmin"] + .5613 * (s.par["zmax"] - s.par["zmin"]), .1713 * L, .1291 * L)
        cfg.append(l)
    s.cfg = cfg
    tight(s)
    t = copy.deepcopy(s); t.name += "b"
    lin = next(([float(x) for x in c.split()[1:]] for c in s.cfg if c.startswith("lin ")), None)
    t.cfg = [c for c in t.cfg if not c.startswith(("shape", "lin "))]
    sh = [c for c in s.cfg if c.startswith("shape")]
    if kind == "mirror":
        t.cfg = [mirror_shape(c, 0.0) for c in sh] + t.cfg
        if lin: t.cfg.append("lin %.17g %.17g %.17g %.17g %.17g %.17g" % (-lin[0], lin[1], -lin[2], lin[3], -lin[4], lin[5]))
        for p in t.phases:
            if "aniso_angle" in p: p["aniso_angle"] = -p["aniso_angle"]
    elif kind == "shift":
        L = s.par["xmax"] - s.par["xmin"]
        ox, oz = r.u(-2, 2) * L, r.u(-2, 2) * L
        t.cfg = [shift_shape(c, ox, oz) for c in sh] + t.cfg
        for k, o in (("xmin", ox), ("xmax", ox), ("zmin", oz), ("zmax", oz)): t.par[k] = s.par[k] + o
        t.cfg.append("lin %.17g %.17g %.17g %.17g %.17g %.17g" % (lin[0] - lin[1] * ox - lin[2] * oz, lin[1], lin[2], lin[3] - lin[4] * ox - lin[5] * oz, lin[4], lin[5]))
    else:
        t.cfg = [transpose_shape(c) for c in sh] + t.cfg
        for a, b in (("xmin", "zmin"), ("xmax", "zmax"), ("Nx", "Nz"), ("Nx_part", "Nz_part")):
            t.par[a], t.par[b] = s.par[b], s.par[a]
        t.cfg.append("lin %.17g %.17g %.17g %.17g %.17g %.17g" % (lin[3], lin[5], lin[4], lin[0], lin[2], lin[1]))
        for p in t.phases:
            if "aniso_angle" in p: p["aniso_angle"] = 90 - p["aniso_angle"]
    s.kind, s.rheo = kind, rheo
    return s, t

def balanced(q, tol=1e-7):
    (Fx, Sx, Mx), (Fz, Sz, Mz) = orc.momentum(q, q.n("sxxd"), q.n("szzd"), q.v("sxz"), q.n("p_in"))
    sc = max(Sx[Mx].max(), Sz[Mz].max()) or 1.0
    return max(abs(Fx[Mx]).max(), abs(Fz[Mz]).max()) < tol * sc

def sym_fields(q, kind):
    """fields of the transformed run brought back to the original frame"""
    o = dict(u=q.u("u_in"), w=q.w("v_in"), p=q.n("p_in"), xx=q.n("sxxd"), zz=q.n("szzd"), xz=q.v("sxz"), en=q.n("eta_n"), es=q.v("eta_s"), rho=q.n("rho_n"))
    if kind == "mirror":
        o = {k: a[:, ::-1] for k, a in o.items()}
        o["u"] = -o["u"]; o["xz"] = -o["xz"]
    elif kind == "transpose":
        o = {k: a.T for k, a in o.items()}
        o["u"], o["w"] = o["w"], o["u"]; o["xx"], o["zz"] = o["zz"], o["xx"]
    return o

@prop("P07", "pairs of runs related by a left-right reflection, a translation of the origin, or an exchange of the two axes; all fields compared after undoing the transformation",
      ["markers on a regular lattice, material boundaries off that lattice", "exchange of axes only without gravity"], min_evals=125)
def p07(v, tier, seed):
    exe = build("plain")
    with Scratch() as base:
        cs = [sym_case(seed, i) for i in range(n_of(tier, 110, 1000))]
        runs = pmap(lambda s: run_scn(exe, s, base), [s for c in cs for s in c])
        for A, B in zip(runs[::2], runs[1::2]):
            s = A.scn
            if A.timed_out or B.timed_out: v.inconc(s.name); continue
            if A.rc != B.rc:
                if {A.rc, B.rc} <= {0, 1}: v.count("one of the pair stopped by the linear solver"); continue
                v.fail("sym-status", "%s: status %s vs %s" % (s.name, A.rc, B.rc), run=B); continue
            fa, fb = conv_flags(A), conv_flags(B)
            for n, (a, b) in enumerate(zip(A.recs("postsolve"), B.recs("postsolve"))):
                if not (all(fa[:n + 1]) and all(fb[:n + 1])):
                    v.count("pairs with an unconverged step"); break
                if not (balanced(a) and balanced(b)):
                    v.count("pairs out of balance at the walls (see P01)"); break
                x, y = sym_fields(a, ""), sym_fields(b, s.kind)
                Vs = max(abs(x["u"]).max(), abs(x["w"]).max()); Ss = max(abs(x["xx"]).max(), abs(x["xz"]).max())
                e = {}
                for k in x:
                    sc = Vs if k in "uw" else Ss if k in ("xx", "zz", "xz") else abs(x[k]).max()
                    X, Y = x[k], y[k]
                    if k == "u": X, Y = X[1:-1], Y[1:-1]
                    if k == "w": X, Y = X[:, 1:-1], Y[:, 1:-1]
                    if k == "p": X = X - X.mean(); Y = Y - Y.mean(); sc = max(Ss, abs(X).max())
                    e[k] = abs(X - Y).max() / sc
                w = max(e, key=e.get)
                v.peak("peak asymmetry (%s)" % s.kind, e[w])
                if not e[w] < 1e-4:
                    v.fail("sym-" + s.kind, "%s (%s, %s) step %d: field %s differs by %.3g after %s" % (s.name, s.rheo, s.meta["bc"], a["step"], w, e[w], s.kind), run=B); break
                v.saw((s.kind, s.rheo, s.meta["bc"], s.meta["scale"], n))
            v.sample("%s %s %s" % (s.name, s.rheo, s.meta["bc"]))
