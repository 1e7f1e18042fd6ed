"""Motion: marker advection, deforming box, time step control."""
import math
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import mk
from p_mark import near, runs_of

# ------------------------------------------------------------------ P17
GR = "xg_coord zg_coord xvz_coord zvx_coord "

def _comp(F, tag, X, Z, dx, dz, x, z, curv, axis, vz):
    """bilinear value of a velocity component; nodes in the air are replaced by the node below/above, or by the nearest node of the other column;
    with 'curv' the conservative correction along the direction of the component is added"""
    nz, nx = F.shape
    i = np.clip(np.ceil((x - X[0]) / dx).astype(int) - 1, 0, nx - 2); j = np.clip(np.ceil((z - Z[0]) / dz).astype(int) - 1, 0, nz - 2)
    fx, fz = abs(x - X[i]) / dx, abs(z - Z[j]) / dz
    a = tag == 30
    g = lambda jj, ii: (F[np.clip(jj, 0, nz - 1), np.clip(ii, 0, nx - 1)], a[np.clip(jj, 0, nz - 1), np.clip(ii, 0, nx - 1)])
    (sw, asw), (se, ase), (nw, anw), (ne, ane) = g(j, i), g(j, i + 1), g(j + 1, i), g(j + 1, i + 1)
    SW, SE, NW, NE = np.where(asw, nw, sw), np.where(ase, ne, se), np.where(anw, sw, nw), np.where(ane, se, ne)
    e, w = ase & ane, asw & anw
    NE, SE = np.where(e, SW, NE), np.where(e, SW, SE)
    NW, SW = np.where(w, SE, NW), np.where(w, SE, SW)
    n_air = asw.astype(int) + ase + anw + ane
    if axis == 0:
        S, N = SW * (1 - fx) + SE * fx, NW * (1 - fx) + NE * fx
    else:
        S, N = SW * (1 - fz) + NW * fz, SE * (1 - fz) + NE * fz      # west, east
    if curv:
        f = fx if axis == 0 else fz
        hi = f >= .5
        k = .5 * (f - .5) ** 2
        if axis == 0:
            (s2, as2), (n2, an2) = g(j, i + 2), g(j + 1, i + 2); (s0, as0), (n0, an0) = g(j, i - 1), g(j + 1, i - 1)
            oks, okn = hi & (i < nx - 2), ~hi & (i > 0)
            lo = (SW, SE, NW, NE); raw = (sw, se, nw, ne)
        else:
            (s2, as2), (n2, an2) = g(j + 2, i), g(j + 2, i + 1); (s0, as0), (n0, an0) = g(j - 1, i), g(j - 1, i + 1)
            oks, okn = hi & (j < nz - 2), ~hi & (j > 0)
            lo = (SW, NW, SE, NE); raw = (sw, nw, se, ne)
        a0, a1, b0, b1 = lo
        s2 = np.where(as2, raw[0], s2); n2 = np.where(an2, raw[2], n2); s0 = np.where(as0, raw[1], s0); n0 = np.where(an0, raw[3], n0)
        S = S + np.where(oks, k * (a0 - 2 * a1 + s2), 0) + np.where(okn, k * (s0 - 2 * a0 + a1), 0)
        N = N + np.where(oks, k * (b0 - 2 * b1 + n2), 0) + np.where(okn, k * (n0 - 2 * b0 + b1), 0)
        n_air = n_air + as2 + an2 + as0 + an0
    f = fz if axis == 0 else fx
    return (1 - f) * S + f * N, n_air

def vel(q, x, z, curv):
    nx, nz, dx, dz = q.Nx, q.Nz, q.s["dx"], q.s["dz"]
    vx, a = _comp(q.u("u_in"), q.u("BCu"), q["xg_coord"], q["zvx_coord"], dx, dz, x, z, curv, 0, False)
    vz, b = _comp(q.w("v_in"), q.w("BCv"), q["xvz_coord"], q["zg_coord"], dx, dz, x, z, curv, 1, True)
    return vx, vz, a + b

def rk4(q, x0, z0, dt, curv):
    """positions after dt, mean velocity, flags: a stage left the box; some stage used nodes in the air"""
    s = q.s; per = int(s["periodic_x"]) == 1
    L = s["xmax"] - s["xmin"]
    out = np.zeros(len(x0), bool); air = np.zeros(len(x0), int)
    def place(x, z):
        if per: x = np.where(x < s["xmin"], x + L, np.where(x > s["xmax"], x - L, x))
        o = (z < s["zmin"]) | (z > s["zmax"])
        if not per: o = o | (x < s["xmin"]) | (x > s["xmax"])
        return x, z, o
    ks = []
    x, z = x0, z0
    edge = np.zeros(len(x0), bool)
    for h in (.5, .5, 1., None):
        vx, vz, a = vel(q, x, z, curv); air = np.maximum(air, a); ks.append((vx, vz))
        if h is None: break
        x, z, o = place(x0 + h * dt * vx, z0 + h * dt * vz)
        out |= o
    vx = (ks[0][0] + 2 * ks[1][0] + 2 * ks[2][0] + ks[3][0]) / 6; vz = (ks[0][1] + 2 * ks[1][1] + 2 * ks[2][1] + ks[3][1]) / 6
    xr, zr = x0 + dt * vx, z0 + dt * vz
    xf, zf, of = place(xr, zr)
    eps = 1e-9 * L
    edge = (abs(xr - s["xmin"]) < eps) | (abs(xr - s["xmax"]) < eps) | (abs(zr - s["zmin"]) < eps) | (abs(zr - s["zmax"]) < eps)
    return xf, zf, vx, vz, out, of, air, edge

def judge_move(v, run, a, b, scn, pre, nmax=None):
    """a: before the substep, b: after it; pre: 'p' rock markers, 'c' surface chain, 'ci' chain of the initial surface"""
    curv = int(scn.par.get("conserv_interp", 0)) == 1
    if pre == "p": fx, fz, fp = "p.x", "p.z", "p.phase"
    elif pre == "c": fx, fz, fp = "c.x", "c.z", "c.phase"
    else: fx, fz, fp = "c.ini_x", "c.ini_z", "c.ini_phase"
    x0, z0 = a[fx], a[fz]
    n = min(len(x0), len(b[fx]))
    act = a[fp] != -1 if fp else np.ones(len(x0), bool)
    # markers pushed out by the moving walls are dropped before they move
    s = b.s
    xf, zf, vx, vz, out, of, air, edge = rk4(b, x0, z0, b.s["dt"], curv)
    inside0 = (x0 >= s["xmin"]) & (x0 <= s["xmax"]) & (z0 >= s["zmin"]) & (z0 <= s["zmax"])
    ok = (act & ~out & ~of & ~edge & inside0)[:n]
    L, H = s["xmax"] - s["xmin"], s["zmax"] - s["zmin"]
    moved = np.hypot(xf - x0, zf - z0)
    if ok.any(): v.peak("largest move (cells)", float(np.max(np.where(ok, np.minimum(abs(xf - x0), L - abs(xf - x0))[:n] / s["dx"], 0))))
    v.saw((pre, curv, int(s["periodic_x"]), scn.par.get("pure_shear_ALE", 0), bool(air.any()), scn.meta["scale"], scn.fam))
    v.count("markers followed (%s)" % pre, int(ok.sum()))
    v.count("markers next to the surface", int((ok & (air > 0)[:n]).sum()))
    tol = 1e-9
    for m, e, sc in ((fx, xf, L), (fz, zf, H)):
        d = abs(b[m][:n] - e[:n]) / sc
        if m == fx and int(s["periodic_x"]) == 1: d = np.minimum(d, abs(1 - d))
        d = np.where(ok, d, 0); d = np.where(np.isfinite(d), d, np.inf)
        k = int(np.argmax(d)); v.peak("worst move", float(d[k]))
        if d[k] > tol:
            v.fail("advection-" + m, "%s step %d: %s of marker %d went from %.12g to %.12g, the velocity field takes it to %.12g" % (scn.name, a["step"], m, k, a[m][k], b[m][k], e[k]), scn, run)
    if fp:
        lost = ok & (b[fp][:n] == -1)
        if lost.any():
            k = int(np.argmax(lost)); v.fail("advection-lost", "%s step %d: marker %d inside the box at (%.6g, %.6g) was deactivated" % (scn.name, a["step"], k, xf[k], zf[k]), scn, run)
        o = (act & of & ~edge)[:n]
        if pre == "p" and scn.par.get("pure_shear_ALE", 0) == -1: o &= (b[fx][:n] == x0[:n])  # a free slot may be refilled by inflow at once
        else:
            v.count("markers that left (%s)" % pre, int(o.sum()))
            kept = o & (b[fp][:n] != -1)
            if kept.any():
                k = int(np.argmax(kept)); v.fail("advection-outside", "%s step %d: marker %d left the box (%.6g, %.6g) and is still active" % (scn.name, a["step"], k, xf[k], zf[k]), scn, run)
        al = b[fp][:n] != -1
        bad = al & ((b[fx][:n] < s["xmin"]) | (b[fx][:n] > s["xmax"]) | (b[fz][:n] < s["zmin"]) | (b[fz][:n] > s["zmax"]))
        if bad.any():
            k = int(np.argmax(bad)); v.fail("advection-outside", "%s step %d: active marker %d lies outside the box (%.9g, %.9g)" % (scn.name, a["step"], k, b[fx][k], b[fz][k]), scn, run)
        if pre == "p":
            same = ok & (a[fp][:n] != b[fp][:n])
            if same.any():
                k = int(np.argmax(same)); v.fail("advection-phase", "%s step %d: marker %d changed from phase %d to %d while moving" % (scn.name, a["step"], k, a[fp][k], b[fp][k]), scn, run)
            vs = max(abs(vx[:n][ok]).max(), abs(vz[:n][ok]).max()) if ok.any() else 0
            for m, e in (("p.Vx", vx), ("p.Vz", vz)):
                err, loc = near(b[m][:n], e[:n], ok, vs or 1.0)
                if err > 1e-8: v.fail("advection-" + m, "%s step %d: velocity %s of marker %d is %.9g, interpolated %.9g" % (scn.name, a["step"], m, loc[0], b[m][loc], e[loc]), scn, run)
            if scn.par.get("pure_shear_ALE", 0) != -1:
                dead = (a[fp][:n] == -1) & (b[fp][:n] != -1)
                if dead.any(): v.fail("advection-revived", "%s step %d: a deactivated marker became active by moving" % (scn.name, a["step"]), scn, run)

def judge_box(v, run, a, b, scn):
    """walls of a deforming box follow the velocity prescribed on them; the grid stays regular"""
    A, B = a.s, b.s; dt = B["dt"]; ale = scn.par.get("pure_shear_ALE", 0)
    L, H = A["xmax"] - A["xmin"], A["zmax"] - A["zmin"]
    if ale <= 0:
        if any(A[k] != B[k] for k in ("xmin", "xmax", "zmin", "zmax")): v.fail("box-moved", "%s step %d: the box of a fixed domain moved" % (scn.name, a["step"]), scn, run)
        return
    u, tu, w, tw = a.u("u_in"), a.u("BCu"), a.w("v_in"), a.w("BCv")
    exp = {}
    for k, F, T in (("xmin", u[:-1, 0], tu[:-1, 0]), ("xmax", u[:-1, -1], tu[:-1, -1])):
        f = F[T == 0]
        if f.size and np.ptp(f) <= 1e-9 * max(abs(f).max(), 1e-300): exp[k] = A[k] + dt * f.mean()
    if not scn.get("free_surface"):
        for k, F, T in (("zmin", w[0, 1:-1], tw[0, 1:-1]), ("zmax", w[-1, 1:-1], tw[-1, 1:-1])):
            f = F[T == 0]
            if f.size and np.ptp(f) <= 1e-9 * max(abs(f).max(), 1e-300): exp[k] = A[k] + dt * f.mean()
    else:
        f = a.w("BCv_val")[0, 1:-1] if a.has("BCv_val") else None
        if f is not None and np.ptp(f) <= 1e-9 * max(abs(f).max(), 1e-300): exp["zmin"] = A["zmin"] + dt * f.mean()
    for k, e in exp.items():
        err = abs(B[k] - e) / (L if k[0] == "x" else H)
        v.peak("worst wall", err); v.saw(("wall", k, scn.meta["scale"], ale)); v.count("walls followed")
        v.peak("largest wall move (cells)", abs(e - A[k]) / (A["dx"] if k[0] == "x" else A["dz"]))
        if err > 1e-9: v.fail("wall-" + k, "%s step %d: %s moved from %.12g to %.12g, its velocity takes it to %.12g" % (scn.name, a["step"], k, A[k], B[k], e), scn, run)
    for X, lo, hi, d in ((b["xg_coord"], B["xmin"], B["xmax"], B["dx"]), (b["zg_coord"], B["zmin"], B["zmax"], B["dz"])):
        e = np.linspace(lo, hi, len(X))
        if abs(X - e).max() > 1e-9 * (hi - lo) or abs(d - (hi - lo) / (len(X) - 1)) > 1e-9 * d: v.fail("wall-grid", "%s step %d: after the walls moved the grid does not divide the box evenly" % (scn.name, a["step"]), scn, run)

def p17_case(seed, i):
    r = rng(seed, "p17", i)
    k = i % 6
    if k == 0: s = mech(r, "mov%d" % i, Nt=3, advection=1, bc=r.c(["lin", "linfs"]), rheo=("cst", "pwl"), gravity=True); s.fam = 0
    elif k == 1: s = mech(r, "mov%d" % i, Nt=3, advection=1, bc="simple"); s.fam = 1
    elif k == 2: s = mech(r, "mov%d" % i, Nt=3, advection=1, bc="pure"); s.fam = 2; s.par["pure_shear_ALE"] = r.i(0, 1)
    elif k == 3: s = freesurf(r, "mov%d" % i, Nt=3); s.fam = 3; s.par["pure_shear_ALE"] = r.i(0, 1)
    elif k == 4: s = mech(r, "mov%d" % i, Nt=3, advection=1, bc="pure"); s.fam = 4; s.par["pure_shear_ALE"] = -1
    else: s = full(r, "mov%d" % i, Nt=3, fam=r.c([1, 2, 3, 4]))
    if k == 3:
        for j, c in enumerate(s.cfg):       # a different number of air cells at either wall
            if c.startswith("fld surf") and i % 12 == 3:
                w = c.split(); w[3] = "%.9g" % (.05 * [-1, 1][i // 12 % 2]); s.cfg[j] = " ".join(w)
    if k in (0, 1, 2, 4):
        s.par["dt"] = r.lu(.01, .08) / s.meta["e0"]
        s.par["constant_dt"] = r.c([1, 0, 0]); s.par["Courant"] = r.u(.1, .5); s.par["dt_max"] = 1e3 / s.meta["e0"]; s.par["dt_min"] = 1e-12 / s.meta["e0"]
    if k in (0, 3) and s.par["constant_dt" if "constant_dt" in s.par else "dt"] == 1: s.par["dt"] *= .3
    if r.p(.5): s.par["conserv_interp"] = 1
    s.par["initial_noise"] = 1
    ch = " c.x c.z c.phase c.ini_x c.ini_z c.ini_phase BCv_val" if s.get("free_surface") else ""
    s.dumps = ["substep_begin u_in v_in BCu BCv p.x p.z p.phase" + ch, "moved u_in v_in BCu BCv p.Vx p.Vz p.x p.z p.phase " + GR + ch]
    return s

def substeps(run):
    """(start, moved) records of every advection substep"""
    a = None
    for q in run.recs("substep_begin", "moved"):
        if q.where == "substep_begin": a = q
        elif a is not None: yield a, q; a = None

@prop("P17", "every marker and every point of the surface chain before/after each advection substep, and the walls of deforming boxes", min_evals=500)
def p17(v, tier, seed):
    exe = build()
    scns = [p17_case(seed, i) for i in range(n_of(tier, 120, 700))]
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            for a, b in substeps(run):
                judge_move(v, run, a, b, run.scn, "p")
                if run.scn.get("free_surface"):
                    judge_move(v, run, a, b, run.scn, "c"); judge_move(v, run, a, b, run.scn, "ci")
                judge_box(v, run, a, b, run.scn)

# ------------------------------------------------------------------ P22
TS = "u_in v_in "

def courant(q, dt0, scn, dt_now):
    """the largest admissible time step for the velocities of a record"""
    s = q.s
    vmax = max(abs(q["u_in"]).max(), abs(q["v_in"]).max())
    if scn.get("constant_dt") == 1: return s["dt_start"], "fixed"
    d = min(s["dx"], s["dz"])
    lim = []
    if vmax > 0: lim.append((s["Courant"] * d / vmax, "courant"))
    lim.append(((1.25 if scn.get("elastic") else 2.0) * dt0, "growth"))
    vi = scn.par.get("surf_Vinc", 0.0) / s["sc.V"]
    if scn.par.get("surface_processes", 0) > 0 and vi: lim.append((s["Courant"] * d / abs(vi), "incision"))
    if scn.par.get("chemical_diffusion"): lim.append((s["user1"] / s["sc.t"] / scn.par.get("dt_reduction_factor", 1.0), "reaction"))
    dt, why = min(lim)
    if dt > 1e30 or vmax < 1e-30: dt, why = s["dt_start"], "start"
    if dt > s["dt_max"]: dt, why = s["dt_max"], "max"
    if dt < s["dt_min"]: dt, why = s["dt_min"], "min"
    return dt, why

def p22_case(seed, i):
    r = rng(seed, "p22", i)
    k = i % 8
    if k in (0, 1, 2): s = mech(r, "dt%d" % i, Nt=6, advection=1, elastic=k == 1, rheo=("cst", "pwl"), gravity=k == 2); s.fam = 0
    elif k == 3: s = freesurf(r, "dt%d" % i, Nt=5); s.fam = 3; s.par["surface_processes"] = r.i(0, 1)
    elif k == 4:
        s = full(r, "dt%d" % i, Nt=5, fam=5)
    elif k == 5: s = mech(r, "dt%d" % i, Nt=6, advection=1, bc=r.c(["pure", "simple"]), elastic=True); s.fam = 5; s.par["pure_shear_ALE"] = r.c([0, 1]) if s.meta["bc"] == "pure" else 0
    elif k == 6: s = full(r, "dt%d" % i, Nt=5, fam=r.c([0, 1, 2, 4]))
    else:   # buoyancy-driven flow, much faster than the initial guess of the velocity: sub-stepped advection
        s = mech(r, "dt%d" % i, Nt=4, advection=1, gravity=True, bc="pure", nph=3, elastic=False); s.fam = 7; s.par["bkg_strain_rate"] *= r.lu(.02, .5)
        for q in s.phases: q["rho"] *= r.u(.4, 1.6)
    if k != 6 or r.p(.5): s.par["constant_dt"] = 0
    e0 = s.meta["e0"]
    geo = s.meta["geo"]
    s.par["dt"] = r.lu(1e-3, .3) / e0 if k != 3 else s.par["dt"] * r.lu(.1, 10)
    s.par["Courant"] = r.u(.1, .5)
    if r.p(.3): s.par["dt_max"] = s.par["dt"] * r.lu(.3, 5)
    if r.p(.3): s.par["dt_min"] = min(s.par["dt"] * r.lu(.05, 1), s.par.get("dt_max", 1e99))
    if s.par.get("surface_processes"):
        L = s.par["xmax"] - s.par["xmin"]
        s.par["surf_diff"] = .01 * L * L / (s.par["dt"] * 100); s.par["surf_baselev"] = -1e9 if geo else -1e3
        s.par["surf_Vinc"] = s.par["Courant"] * L / s.par["Nx"] / (s.par["dt"] * r.lu(.3, 3)) if r.p(.7) else 0.0
    if s.par.get("chemical_diffusion"):
        s.par["user1"] = s.par["dt"] * r.lu(.3, 10)
        if r.p(.5): s.par["dt_reduction_factor"] = r.u(1, 5)
    if k == 7:
        s.par["dt"] = r.u(.1, .4) / e0; s.par.pop("dt_max", None); s.par.pop("dt_min", None)
    if i % 16 == 8:      # a model at rest
        s.par.update(bkg_strain_rate=0.0, gz=0.0, constant_dt=0, advection=1); s.fam = 11
        for q in s.phases: q["rho"] = s.phases[0]["rho"]
    s.dumps = ["init eta_s eta_n", "step_begin " + TS, "dt " + TS, "preadv " + TS, "substep_begin " + TS, "substep_end nothing", "step_end " + TS]
    return s

def maxwell_case(seed, i):
    r = rng(seed, "p22m", i)
    s = mech(r, "mxw%d" % i, Nt=2, advection=1, elastic=True, nph=1 if i % 2 == 0 else 3, contrast=4.0); s.fam = 9
    for p in s.phases: p["eta0"] = max(p["eta0"], 2 * s.par["min_eta"])
    t = min(p["eta0"] / p["G"] for p in s.phases)
    s.par.update(constant_dt=0, dt=t * r.c([r.lu(.05, .9), r.lu(1.5, 200)]))
    s.dumps = ["init nothing", "step_begin " + TS, "dt " + TS]
    return s

def safe_case(seed, i):
    r = rng(seed, "p22s", i)
    s = mech(r, "safe%d" % i, Nt=4, advection=r.i(0, 1), elastic=True, plastic=True, gravity=False, bc="pure", contrast=1.0, nph=2); s.fam = 10
    s.par.update(safe_mode=1, safe_dt_div=r.c([2.0, 5.0, 3.0]), max_num_stag=8, constant_dt=i % 2, line_search=1, nit_max=100, nonlin_abs_mom=1e-3 * s.meta['tau_ref'], nonlin_rel_mom=1e-6, nonlin_rel_div=1e-6, nonlin_abs_div=1e-4, dt=r.u(.3, 1.5) * .05 / s.meta["e0"], Newton=r.i(0, 1))
    for p in s.phases:
        p.update(C=s.meta["tau_ref"] * r.u(.2, .6), phi=r.u(0, 30), eta_vp=s.meta["eta_ref"] * r.lu(1e-4, 1e-2), G=s.meta["tau_ref"] * r.u(50, 200))
    s.dumps = ["init nothing", "step_begin " + TS, "dt " + TS, "preadv " + TS, "substep_begin " + TS, "substep_end nothing", "step_end " + TS]
    return s

def judge_dt(v, run, scn):
    tol = 1e-12
    rel = lambda a, b: abs(a - b) / max(abs(b), 1e-300)
    recs = list(run.recs("init", "step_begin", "dt", "preadv", "substep_begin", "substep_end", "step_end"))
    el = scn.get("elastic"); cst = scn.get("constant_dt") == 1
    old = None; sub = []; pre = None; dtr = None
    total = 0.0; t0 = None; base = None
    for q in recs:
        s = q.s
        if q.where == "init":
            d0 = scn.par["dt"] / s["sc.t"]
            tm = [scn.ph(k, "eta0") / scn.ph(k, "G") / s["sc.t"] for k in range(len(scn.phases))]
            if rel(s["dt_start"], d0) > tol: v.fail("dt-start", "%s: the time step at the start is %.9g, the input file says %.9g" % (scn.name, s["dt_start"], d0), scn, run)
            if scn.fam == 9:
                lo, hi = min(d0, min(tm)), min(d0, max(tm))
                v.saw(("maxwell", len(scn.phases), d0 > min(tm), scn.meta["scale"]))
                if s["dt"] < lo * (1 - 1e-9) or s["dt"] > hi * (1 + 1e-9): v.fail("dt-maxwell", "%s: the first elastic time step is %.9g, input %.9g, Maxwell times %s" % (scn.name, s["dt"], d0, tm), scn, run)
            elif not (el and not cst) and rel(s["dt"], d0) > tol: v.fail("dt-start", "%s: the time step at the start is %.9g instead of %.9g" % (scn.name, s["dt"], d0), scn, run)
            t0 = s["time"]
        elif q.where == "step_begin":
            old = q; sub = []; pre = None
        elif q.where == "dt":
            e, why = courant(q, old.s["dt"], scn, None)
            v.saw(("step", why, scn.fam, scn.meta["scale"], bool(el)))
            v.count("steps limited by " + why)
            if rel(s["dt"], e) > tol: v.fail("dt-choice", "%s step %d: dt=%.12g, expected %.12g (%s; previous %.6g)" % (scn.name, q["step"], s["dt"], e, why, old.s["dt"]), scn, run)
            if rel(s["time"] - old.s["time"], s["dt"]) > 1e-9 and abs(s["time"] - old.s["time"] - s["dt"]) > 1e-12 * abs(s["time"]):
                v.fail("time-advance", "%s step %d: the model time went from %.12g to %.12g with dt=%.9g" % (scn.name, q["step"], old.s["time"], s["time"], s["dt"]), scn, run)
            dtr = q
        elif q.where == "preadv":
            pre = q
            if s["dt"] != dtr.s["dt"]:
                n = math.log(dtr.s["dt"] / s["dt"]) / math.log(scn.par.get("safe_dt_div", 5.0))
                v.count("steps restarted with a divided dt"); v.saw(("divided", round(n), cst, scn.fam))
                if scn.par.get("safe_mode") != 1 or abs(n - round(n)) > 1e-6: v.fail("dt-changed", "%s step %d: dt changed from %.9g to %.9g during the solve" % (scn.name, q["step"], dtr.s["dt"], s["dt"]), scn, run)
            total += s["dt"]
            if abs(s["time"] - (t0 + total)) > 1e-9 * max(abs(s["time"]), abs(total)):
                v.fail("time-sum", "%s step %d: the model time is %.12g, the steps taken add up to %.12g" % (scn.name, q["step"], s["time"], t0 + total), scn, run)
        elif q.where == "substep_begin":
            sub.append(q)
        elif q.where == "step_end":
            if pre is None: continue
            if rel(s["dt"], pre.s["dt"]) > tol: v.fail("dt-restored", "%s step %d: dt is %.9g after the step, %.9g was used to solve" % (scn.name, q["step"], s["dt"], pre.s["dt"]), scn, run)
            if not scn.get("advection"): continue
            e, why = courant(pre, dtr.s["dt"], scn, None)
            n = 1
            if e < .95 * pre.s["dt"]: n = math.ceil(pre.s["dt"] / e * (1 - 1e-13))
            v.saw(("sub", min(n, 6), why, scn.fam)); v.peak("largest number of substeps", n)
            if n > 1: v.count("steps with several advection substeps")
            if abs(len(sub) - n) > (0 if abs(pre.s["dt"] / e - round(pre.s["dt"] / e)) > 1e-9 else 1): v.fail("substeps", "%s step %d: %d advection substeps, expected %d (dt=%.6g, advection limit %.6g)" % (scn.name, q["step"], len(sub), n, pre.s["dt"], e), scn, run)
            tot = sum(x.s["dt"] for x in sub)
            if rel(tot, pre.s["dt"]) > 1e-9: v.fail("substep-sum", "%s step %d: the advection substeps add up to %.12g, the step is %.12g" % (scn.name, q["step"], tot, pre.s["dt"]), scn, run)
            vm = max(abs(pre["u_in"]).max(), abs(pre["v_in"]).max())
            if not cst and sub:
                d = min(pre.s["dx"], pre.s["dz"])
                c = vm * max(x.s["dt"] for x in sub) / d
                v.peak("largest Courant number / limit", c / s["Courant"])
                if c > s["Courant"] / .95 * (1 + 1e-9) and why not in ("min",): v.fail("courant", "%s step %d: an advection substep moves markers by %.4g cells, the limit is %.4g" % (scn.name, q["step"], c, s["Courant"]), scn, run)
            if max(x.s["dt"] for x in sub) > min(x.s["dt"] for x in sub) * (1 + 1e-9): v.fail("substep-equal", "%s step %d: unequal advection substeps" % (scn.name, q["step"]), scn, run)

@prop("P22", "time step and model time of every step, and every advection substep, against the limits recomputed from the recorded velocities", min_evals=900)
def p22(v, tier, seed):
    exe = build()
    scns = [p22_case(seed, i) for i in range(n_of(tier, 120, 700))] + [p22_case(seed, 8 * i + 7) for i in range(1000, 1000 + n_of(tier, 24, 120))] + [maxwell_case(seed, i) for i in range(n_of(tier, 12, 60))]
    safe = [safe_case(seed, i) for i in range(n_of(tier, 16, 80))]
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            judge_dt(v, run, run.scn)
        # a run in safe mode may stop when it does not converge: what it did before counts all the same
        for run in pmap(lambda s: run_scn(exe, s, base, 120), safe):
            if run.rc < 0: v.fail("stopped", "%s: the run ended abnormally (status %s)" % (run.scn.name, run.rc), run.scn, run)
            judge_dt(v, run, run.scn)
