"""Density (equations of state, tables), lithostatic pressure; composition (reaction, diffusion)."""
import math
import numpy as np
from scipy.special import erfc
from core import *
from gen import *
from reg import prop, n_of
import mk
from p_mark import AX, near, runs_of
from p_therm import conduction, ZC

# ------------------------------------------------------------------ tables
TAB = {0: ("Hawaiian_Pyrolite_rho_bin.dat", 1000, 1000, 473.0, 2273.0, 100e6, 15e9), 1: ("Hawaiian_Pyrolite_HR_rho_bin.dat", 1500, 1500, 273.0, 2273.0, 1e5, 25e9),
       2: ("MORB_H2Osat_rho_bin.dat", 1000, 1000, 573.0, 1273.0, 100e6, 5.1e9), 3: ("Andesite.dat", 1249, 1249, 373.0, 1373.0, 10.13e6, 5.5816e9),
       4: ("Hydrated_Pdt.dat", 793, 793, 373.0, 1373.0, 10.13e6, 5.5816e9), 5: ("MORB.dat", 1249, 1249, 373.0, 1373.0, 10.13e6, 5.5816e9),
       6: ("Pelite.dat", 1249, 1249, 373.0, 1373.0, 10.13e6, 5.5816e9), 7: ("Rhyolite.dat", 1249, 1249, 373.0, 1373.0, 10.13e6, 5.5816e9),
       8: ("Serpentinite.dat", 793, 793, 373.0, 1373.0, 10.13e6, 5.5816e9), 9: ("SiO2_nsm010.dat", 675, 2500, 398.001, 1073.0, .9e6, 4.9989e9)}

def table(i):
    """synthetic phase diagram: (nP, nT) array, SI"""
    _, nT, nP, T0, T1, P0, P1 = TAB[i]
    t, p = np.linspace(0, 1, nT)[None, :], np.linspace(0, 1, nP)[:, None]
    a = 2700 + 40 * i + 600 * p - 150 * t + 120 * np.tanh((p - .3 - .4 * t) / .02) + 25 * np.sin(9 * t + i) * np.cos(13 * p)
    return a + 3 * ((np.arange(nT)[None, :] * 7 + np.arange(nP)[:, None] * 13) % 5)      # rough at the grid scale

def table1d():
    p = np.linspace(0, 1, 10000)
    return 2600 + 150 * p + 140 * np.tanh((p - .27) / .01)

def write_tables(d):
    os.makedirs(d, exist_ok=True)
    T = {}
    for i in TAB:
        T[i] = table(i); T[i].astype(np.float64).tofile(os.path.join(d, TAB[i][0]))
    return T

def lookup(A, i, T, P):
    """bilinear; (value, tolerance) - points outside take the value at the edge"""
    _, nT, nP, T0, T1, P0, P1 = TAB[i]
    dT, dP = (T1 - T0) / (nT - 1), (P1 - P0) / (nP - 1)
    out = (T < T0) | (T > T1) | (P < P0) | (P > P1)
    a, b = np.clip((T - T0) / dT, 0, nT - 1), np.clip((P - P0) / dP, 0, nP - 1)
    j, k = np.minimum(a.astype(int), nT - 2), np.minimum(b.astype(int), nP - 2)
    a, b = a - j, b - k
    c = [A[k, j], A[k, j + 1], A[k + 1, j], A[k + 1, j + 1]]
    v = (1 - a) * (1 - b) * c[0] + a * (1 - b) * c[1] + (1 - a) * b * c[2] + a * b * c[3]
    rngc = np.max(c, 0) - np.min(c, 0)
    return v, np.where(out, .05 * rngc, 1e-6 * rngc)

def smooth1d(a):
    a = a.copy()
    for _ in range(200):
        a[1:-1] = a[1:-1] + (a[2:] - 2 * a[1:-1] + a[:-2]) / 2.1
    return a

def lookup1d(A, P):
    x = np.clip((P - 1e5) / ((1e10 - 1e5) / 9999), 0, 9999)
    i = np.minimum(x.astype(int), 9998)
    v = A[i] + (x - i) * (A[i + 1] - A[i])
    return v, np.where((P < 1e5) | (P > 1e10), .05, 1e-6) * abs(A[i + 1] - A[i])

def eos(s, q, k, T, P, X, phi, tabs):
    """SI density of phase k at SI temperature and pressure"""
    p = s.phases[k]; g = lambda a: s.ph(k, a)
    m = int(g("density_model") or 0)
    rho, al, be = g("rho"), g("alp"), g("bet")
    if m == 0: return rho + 0 * T, 0 * T
    if m == 1: return (rho + X * g("drho")) * (1 - al * (T - ZC)) * (1 + be * (P - 1e5)), 0 * T
    if m == 2: return lookup(tabs[int(g("phase_diagram"))], int(g("phase_diagram")), T, P)
    if m == 3:
        r = rho
        if s.get("density_variations"): r = (1 - X) * rho + X * s.ph(int(g("reac_phase")), "rho")
        return r * np.exp(be * P - al * T), 0 * T
    if m == 4: return lookup1d(tabs["1d"], P)
    if m == 5: return (rho + phi * g("drho")) * np.exp(be * P - al * T), 0 * T

def bulk(s, q, tabs, T=None, P=None, X=None, phi=None):
    T = (q.n("T") if T is None else T) * q["sc.T"]; P = (q.n("p_in") if P is None else P) * q["sc.S"]
    X = q.n("X_n") if X is None else X; phi = q.n("phi_n") if phi is None else phi
    r, t = 0, 0
    for k in range(len(s.phases)):
        f = q.n("phase_perc_n%d" % k)
        with np.errstate(all="ignore"):
            v, e = eos(s, q, k, T, P, X, phi, tabs)
        r = r + f * v; t = t + f * e
    return r / q["sc.rho"], t / q["sc.rho"]

def surfw(q, s):
    """filled fraction of the cells and vertices cut by the free surface"""
    air = np.isin(q.n("BCp"), (30, 31)); w = np.ones_like(q.n("T"))
    if not s.get("free_surface"): return air, w
    h = q["t.b"] + q["t.a"] * q["xc_coord"]
    top = ~air & (q.n("BCp") == -1); top[:-1] &= q.n("BCp")[1:] == 31; top[-1] = False
    w = np.where(top, abs(h[None, :] - q["zc_coord"][:, None]) / q.s["dz"], 1.0)
    return air, w

DF = AX + "T p_in X_n phi_n X0_n phi0_n rho_n rho_s rho0_n phase* p_lith BCt t.a t.b p.x p.z p.phase p.rho p.divth T0_n divth_n divth0_n m.alp m.rho p.P p.X p0_n"

def litho(q, rho, air, bkg):
    g, dz = q.s["gz"], q.s["dz"]
    P = np.zeros_like(rho); nz = rho.shape[0]
    for l in range(nz - 2, -1, -1): P[l] = np.where(air[l], 0, P[l + 1] - g * dz * rho[l])
    return np.where(air, 0, P + .5 * g * dz * rho + bkg)

def judge_density(v, run, q, s, tabs, when):
    air, w = surfw(q, s)
    e, t = bulk(s, q, tabs)
    if when != "preadv": e = e * w
    ok = ~air
    x = np.where(ok, (abs(q.n("rho_n") - e) - t) / abs(e), 0); x = np.where(np.isfinite(x), x, np.inf)
    loc = np.unravel_index(np.argmax(x), x.shape)
    models = tuple(sorted({int(p.get("density_model", 0)) for p in s.phases}))
    v.saw((when, models, s.meta["scale"], bool(s.get("free_surface")))); v.count("cells judged", int(ok.sum())); v.peak("worst density", x[loc])
    for m in models: v.count("cells with model %d" % m, int(sum((q.n("phase_perc_n%d" % k) > .01).sum() for k, p in enumerate(s.phases) if p.get("density_model", 0) == m)))
    if x[loc] > 1e-9:
        v.fail("density", "%s %s step %d: density of cell %s is %.10g, the equation of state gives %.10g (phases %s)" % (s.name, when, q["step"], loc, q.n("rho_n")[loc] * q["sc.rho"], e[loc] * q["sc.rho"], models), s, run)
    if not s.get("free_surface"):
        es = mk.c2v(q.n("rho_n"))
        if int(q.s["periodic_x"]):
            m = .5 * (q.n("rho_n")[:, 0] + q.n("rho_n")[:, -1]); M = np.concatenate((m[:1], .5 * (m[1:] + m[:-1]), m[-1:])); es[:, 0] = es[:, -1] = M
        err, loc = near(q.v("rho_s"), es, np.ones_like(es, bool))
        v.saw(("vertices", when, int(q.s["periodic_x"])))
        if err > 1e-12: v.fail("density-vertex", "%s %s step %d: density of vertex %s is %.10g, the cells around it give %.10g" % (s.name, when, q["step"], loc, q.v("rho_s")[loc], es[loc]), s, run)

def judge_start(v, run, q, s, tabs):
    judge_density(v, run, q, s, tabs, "presolve")
    air, w = surfw(q, s)
    # composition and melt used are those of the markers
    stl = s.get("interp_stencil") or 1
    for g, m in (("X_n", "p.X"),):
        e, W = mk.m2g(q, q[m], "c", stl)
        err, loc = near(q.n(g), e, ~air & (W > 1e-6), 1.0)
        v.saw(("state", g, stl))
        if err > 1e-9: v.fail("density-state", "%s step %d: the density of cell %s is taken at %s = %.6g, the markers there have %.6g" % (s.name, q["step"], loc, g, q.n(g)[loc], e[loc]), s, run)
    err, loc = near(q.n("phi_n"), q.n("phi0_n"), ~air, 1.0)
    if err > 1e-9: v.fail("density-state", "%s step %d: the density of cell %s is taken at a melt fraction of %.6g, the markers there have %.6g" % (s.name, q["step"], loc, q.n("phi_n")[loc], q.n("phi0_n")[loc]), s, run)
    err, loc = near(q.n("p_lith"), litho(q, q.n("rho_n"), air, (s.get("bkg_pressure") or 0) / q["sc.S"]), ~air)
    v.saw(("lithostatic", bool(s.get("free_surface")), s.meta["scale"])); v.peak("worst lithostatic", err)
    if err > 1e-10: v.fail("lithostatic", "%s step %d: lithostatic pressure of cell %s is %.10g" % (s.name, q["step"], loc, q.n("p_lith")[loc]), s, run)

def judge_init(v, run, q, s, tabs):
    air, w = surfw(q, s)
    pl = litho(q, q.n("rho_n"), air, (s.get("bkg_pressure") or 0) / q["sc.S"])
    for nm in ("p_in", "p0_n"):
        err, loc = near(q.n(nm), pl, ~air)
        v.saw(("initial", nm, bool(s.get("free_surface")), s.meta["scale"])); v.peak("worst initial pressure", err)
        if err > 1e-6: v.fail("initial-pressure", "%s: initial %s of cell %s is %.9g, the weight of the material above it gives %.9g" % (s.name, nm, loc, q.n(nm)[loc], pl[loc]), s, run)
    X, W = mk.m2g(q, q["p.X"], "c", s.get("interp_stencil") or 1)
    e, t = bulk(s, q, tabs, X=X); e = e * w
    x = np.where(~air & (W > 1e-6), (abs(q.n("rho_n") - e) - t) / abs(e), 0); loc = np.unravel_index(np.argmax(x), x.shape)
    v.saw(("initial", "rho", s.meta["scale"]))
    if not x[loc] < 1e-8: v.fail("initial-density", "%s: initial density of cell %s is %.9g, the equation of state gives %.9g" % (s.name, loc, q.n("rho_n")[loc], e[loc]), s, run)
    pm, cl = mk.g2m_c(q, q.n("p_in"), air)
    err, loc = near(q["p.P"], pm, mk.active(q) & cl)
    if err > 1e-9: v.fail("initial-marker-P", "%s: marker %s starts at P = %.9g, the initial field there is %.9g" % (s.name, loc[0], q["p.P"][loc], pm[loc]), s, run)
    rm, cl = mk.g2m_c(q, q.n("rho_n") / w, air)
    err, loc = near(q["p.rho"], rm, mk.active(q) & cl)
    v.saw(("initial", "marker rho"))
    if err > 1e-9: v.fail("initial-marker-rho", "%s: marker %s starts with density %.9g, the field there is %.9g" % (s.name, loc[0], q["p.rho"][loc], rm[loc]), s, run)

def judge_end(v, run, a, b, s, tabs):
    """a: before the solve (markers' density of the start), b: end of the step"""
    judge_density(v, run, b, s, tabs, "preadv")
    air, w = surfw(a, s)
    d, cl = mk.g2m_c(b, np.where(air, 0, b.n("rho_n") - b.n("rho0_n") / w), air)
    ok = mk.active(b) & cl
    err, loc = near(b["p.rho"], a["p.rho"] + d, ok)
    v.saw(("marker", bool(s.get("free_surface")), s.meta["scale"])); v.count("markers judged", int(ok.sum())); v.peak("worst marker", err)
    if err > 1e-9: v.fail("marker-rho", "%s step %d: density of marker %s is %.10g after the step, expected %.10g (was %.10g)" % (s.name, b["step"], loc[0], b["p.rho"][loc], (a["p.rho"] + d)[loc], a["p.rho"][loc]), s, run)
    if s.get("compressible"):
        e = 0
        for k in range(len(s.phases)):
            with np.errstate(all="ignore"): e = e + b.n("phase_perc_n%d" % k) * b["m.alp"][k] * b["m.rho"][k] / b.n("rho_n") * (b.n("T") - b.n("T0_n")) / b.s["dt"]
        err, loc = near(b.n("divth_n"), e, ~air)
        v.saw(("thermal divergence", s.meta["scale"]))
        # cancellation in T - T0
        sc = max(abs(e[~air]).max(), 1e-300)
        if err > 1e-6: v.fail("divth", "%s step %d: thermal divergence of cell %s is %.9g, expected %.9g" % (s.name, b["step"], loc, b.n("divth_n")[loc], e[loc]), s, run)
        d, cl = mk.g2m_c(b, np.where(air, 0, b.n("divth_n") - b.n("divth0_n")), air)
        err, loc = near(b["p.divth"], a["p.divth"] + d, mk.active(b) & cl)
        if err > 1e-9: v.fail("marker-divth", "%s step %d: thermal divergence of marker %s is %.9g, expected %.9g" % (s.name, b["step"], loc[0], b["p.divth"][loc], (a["p.divth"] + d)[loc]), s, run)

def p12_case(seed, i, pd):
    r = rng(seed, "p12", i)
    tab = i % 4 == 3
    kw = dict(scale=r.c(["geo", "geo2"])) if tab else {}
    if i % 4 == 1: s = freesurf(r, "rho%d" % i, Nt=3, **kw); thermalise(r, s)
    else: s = mech(r, "rho%d" % i, rheo=("cst", "pwl"), elastic=bool(i % 4 == 2), compressible=int(i % 4 == 2), Nt=3, advection=1, gravity=True, **kw); thermalise(r, s)
    if i % 4 == 2: s.par["bkg_pressure"] = 0.0
    geo = s.meta["geo"]; Lx, Lz = s.par["xmax"] - s.par["xmin"], s.par["zmax"] - s.par["zmin"]
    Pm = 3000 * abs(s.par["gz"]) * Lz if geo else abs(s.par["gz"]) * Lz
    DTm = abs(s.meta["Tb"] - s.meta["Tt"])
    for k, p in enumerate(s.phases):
        m = r.c([2, 2, 4, 1]) if tab else r.c([0, 1, 1, 3, 3, 5, 5])
        p["density_model"] = m
        p["alp"] = r.u(.01, .08) / DTm
        if i % 4 != 2: p["bet"] = r.u(.01, .08) / Pm
        if m in (3, 5): p["alp"] = r.u(.01, .08) / (DTm * 4)
        p["drho"] = r.u(-.15, .15) * p["rho"] if m == 1 else -r.u(.02, .15) * p["rho"]
        if m == 1 and not geo: p["alp"] = r.u(.5, 1.) * 1e-3; p["bet"] = r.u(.2, 1) * 1e-6      # the reference state is 0 C and 1 bar
        if m == 2: p["phase_diagram"] = r.c([0, 4, 8, 9, 2, 3, 1, 5, 6, 7])
    if tab:
        # spread pressures and temperatures over the tables, some outside
        s.par["bkg_pressure"] = r.c([0.0, 1e9, 3e9, 6e9])
        s.par["import_files_dir"] = pd
        s.files["PHASE_DIAGRAMS/QuartzCoesite600C.bin"] = table1d().tobytes()
    s.cfg += ["fld X .5 0 0 .4 %.9g 0 %.9g 0" % (7 / Lx, 5 / Lx)]
    if r.p(.7): s.cfg += ["fld phi .2 0 0 .15 %.9g 0 %.9g 1" % (5 / Lx, 8 / Lx)]
    if s.par.get("free_surface") != 1 and r.p(.5):
        s.par["chemical_diffusion"] = 1
        s.cfg.append("bcc 0 0 0 0 %s 0 0" % ("-2 0 -2 0" if s.par.get("periodic_x") else "0 0 0 0"))
        for p in s.phases: p["k_chem"] = r.u(.2, 1) * .01 * Lx * Lx / s.par["dt"]
    s.dumps = ["init " + DF, "presolve " + DF, "preadv " + DF]
    return s

@prop("P12", "density of every cell, vertex and marker, lithostatic pressure and initial pressure, with every density model (constant, linear, exponential, melt mixture, 1D and 2D tables) in multi-step runs", min_evals=250)
def p12(v, tier, seed):
    exe = build()
    with Scratch() as base:
        pd = os.path.join(base, "pd")
        tabs = write_tables(pd); tabs["1d"] = smooth1d(table1d())
        scns = [p12_case(seed, i, pd) for i in range(n_of(tier, 32, 320))]
        for run in runs_of(v, exe, scns, base, 200):
            s = run.scn
            for q in run.recs("init"): judge_init(v, run, q, s, tabs)
            A, B = run.recs("presolve"), run.recs("preadv")
            for a in A: judge_start(v, run, a, s, tabs)
            for a, b in zip(A, B): judge_end(v, run, a, b, s, tabs)

# ------------------------------------------------------------------ P16
CF = AX + "X_n X0_n p_in kc_x kc_z BCc phase* p.x p.z p.phase p.X m.k_chem m.reac_soft m.Pr m.dPr m.tau_kin"

def judge_react(v, run, q, s, got, key):
    """composition after the reaction, before diffusion"""
    dt, P, X0 = q.s["dt"], q.n("p_in"), q.n("X0_n")
    e = 0; prod = s.get("chemical_production")
    for k in range(len(s.phases)):
        x = X0
        if prod and s.ph(k, "reac_soft"):
            tk = q["m.tau_kin"][k]
            eq = 1 - .5 * erfc((P - q["m.Pr"][k]) / q["m.dPr"][k])        # equilibrium amount of product
            x = (tk * X0 + dt * eq) / (tk + dt)
        e = e + q.n("phase_perc_n%d" % k) * x
    return e

def judge_chem(v, run, b, c, d, s):
    """b: after the mechanical solve, c: after the chemical step on the grid, d: markers updated"""
    air = np.isin(c.n("BCp"), mk.AIRT)
    dt = c.s["dt"]
    R = judge_react(v, run, c, s, None, None)
    diff = s.get("chemical_diffusion")
    kc = {int(k): p for k, p in enumerate(s.phases)}
    if diff:
        cc = [l.split() for l in s.cfg if l.startswith("bcc ")][0][1:]
        bcc = {k: (int(float(cc[2 * i])), float(cc[2 * i + 1])) for i, k in enumerate("NSWEF")}
        # diffusivities are those of the markers
        for at, nm in (("u", "kc_x"), ("w", "kc_z")):
            e, W = mk.m2g(c, c["m.k_chem"][np.maximum(c["p.phase"], 0)], at, s.get("interp_stencil") or 1)
            a = dict(u=c.u, w=c.w)[at](nm)
            ok = (W > 1e-6); ok[0] = ok[-1] = False
            if at == "w": ok = W > 1e-6; ok[:, 0] = ok[:, -1] = False
            if int(c.s["periodic_x"]) and at == "u":
                edge = ok[:, 0] & ok[:, -1]
                if (s.get("interp_stencil") or 1) == 9: edge[:] = False
                ok[:, 0] = edge; ok[:, -1] = edge
            err, loc = near(a, e, ok)
            v.saw(("diffusivity", nm, s.get("interp_stencil")))
            if err > 1e-9: v.fail("diffusivity", "%s step %d: %s at %s is %.9g, the markers give %.9g" % (s.name, c["step"], nm, loc, a[loc], e[loc]), s, run)
        H, Z = conduction(c, bcc, air, c.u("kc_x"), c.w("kc_z"), c.n("X_n"))
        res = (c.n("X_n") - R) / dt - H
        Z = Z + (abs(c.n("X_n")) + abs(R)) / dt
        e = abs(res) / Z; loc = np.unravel_index(np.argmax(e), e.shape)
        v.saw(("cell", s.meta["scale"], tuple(bcc[k][0] for k in "NSWE"), bool(s.get("chemical_production")))); v.count("cells judged", e.size); v.peak("worst imbalance", e[loc])
        if not e[loc] < 1e-9: v.fail("balance", "%s step %d: composition of cell %s is not what reaction and diffusion give (off by %.3g of the terms; X0 %.9g, X %.9g)" % (s.name, c["step"], loc, e[loc], c.n("X0_n")[loc], c.n("X_n")[loc]), s, run)
        if all(bcc[k][0] != 1 for k in "NSWE") and bcc["S"][1] == 0:
            g, t = abs((c.n("X_n") - R).sum()), abs(R).sum()
            v.saw(("closed box", int(c.s["periodic_x"]))); v.peak("closed box", g / t)
            if g > 1e-9 * t: v.fail("closed-box", "%s step %d: diffusion in a closed box changed the total amount by %.3g of it" % (s.name, c["step"], g / t), s, run)
        if bcc["S"][0] != 0 or bcc["S"][1] == 0:
            ext = [R.min(), R.max()] + [bcc[k][1] for k in "NSWE" if bcc[k][0] == 1]
            v.saw(("extremes",))
            if c.n("X_n").min() < min(ext) - 1e-9 or c.n("X_n").max() > max(ext) + 1e-9:
                v.fail("extremes", "%s step %d: diffusion produced compositions %.9g..%.9g outside %.9g..%.9g" % (s.name, c["step"], c.n("X_n").min(), c.n("X_n").max(), min(ext), max(ext)), s, run)
    else:
        err, loc = near(c.n("X_n"), R, ~air, 1.0)
        v.saw(("reaction", s.meta["scale"], bool(s.get("chemical_production")))); v.count("cells judged", int((~air).sum())); v.peak("worst reaction", err)
        if err > 1e-9: v.fail("reaction", "%s step %d: composition of cell %s is %.9g, expected %.9g (was %.9g)" % (s.name, c["step"], loc, c.n("X_n")[loc], R[loc], c.n("X0_n")[loc]), s, run)
    inc, cl = mk.g2m_c(c, np.where(air, 0, c.n("X_n") - c.n("X0_n")))
    e = np.clip(c["p.X"] + inc, 0, 1)
    ok = mk.active(c) & cl
    err, loc = near(d["p.X"], e, ok, 1.0)
    v.saw(("marker", s.meta["scale"], int(c.s["periodic_x"]))); v.count("markers judged", int(ok.sum()))
    if err > 1e-10: v.fail("marker-X", "%s step %d: composition of marker %s is %.10g after the step, expected %.10g (was %.10g)" % (s.name, c["step"], loc[0], d["p.X"][loc], e[loc], c["p.X"][loc]), s, run)

def p16_case(seed, i):
    r = rng(seed, "p16", i)
    kind = i % 4
    s = mech(r, "chem%d" % i, rheo=(("cst", "pwl") if kind == 0 else ("cst",)), elastic=r.p(.4), Nt=4, advection=1, gravity=True, compressible=0) if kind != 3 else mech(r, "chem%d" % i, rheo=("cst",), elastic=True, compressible=1, Nt=3, advection=1, gravity=True)
    Lx, Lz = s.par["xmax"] - s.par["xmin"], s.par["zmax"] - s.par["zmin"]
    geo = s.meta["geo"]; Pm = (3000 if geo else 1) * abs(s.par["gz"]) * Lz
    s.fam = kind
    per = int(s.par.get("periodic_x", 0))
    if kind in (0, 1):
        s.par["chemical_diffusion"] = 1
        bc = []
        for k in "NSWE": bc.append((-2, 0) if k in "WE" and per else ((1, r.u(0, 1)) if r.p(.45) else (0, 0.0)))
        D = r.lu(.05, 20) * (Lz / s.par["Nz"]) ** 2 / s.par["dt"]
        for p in s.phases: p["k_chem"] = D * r.lu(.2, 5)
        if bc[1][0] == 0 and r.p(.4): bc[1] = (0, None)
        s._flux = bc[1][1] is None
        bc = [(t, 0.0 if x is None else x) for t, x in bc]
        s.cfg.append("bcc " + " ".join("%d %.12g" % b for b in bc) + " 0 0")
    if kind in (1, 2, 3):
        s.par["chemical_production"] = 1
        for k, p in enumerate(s.phases):
            p.update(reac_soft=int(k == 0 or r.p(.6)), reac_phase=r.i(0, len(s.phases) - 1), Pr=r.u(.2, .8) * Pm, dPr=r.u(.05, .3) * Pm, tau_kin=s.par["dt"] * r.lu(.1, 30))
    if not (kind == 0 and i % 8 == 4): s.cfg.append("fld X %.6g 0 0 %.6g %.9g 0 %.9g 0" % ((.5, .45, 7 / Lx, 5 / Lx) if kind < 2 else (.1, .05, 7 / Lx, 5 / Lx)))
    else: s.cfg.append("fld X .5 0 0 .5 %.9g 0 0 0" % (2 * math.pi / Lx))
    s.dumps = ["postsolve " + CF, "chem_grid " + CF, "postchem p.X p.phase"]
    return s

@prop("P16", "composition of every cell and marker after reaction and diffusion, over walls of every kind, diffusivity contrasts and reaction kinetics, in multi-step runs", min_evals=250)
def p16(v, tier, seed):
    exe = build()
    scns = [p16_case(seed, i) for i in range(n_of(tier, 36, 320))]
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            A, B, C = run.recs("postsolve"), run.recs("chem_grid"), run.recs("postchem")
            for a, b, c in zip(A, B, C): judge_chem(v, run, a, b, c, run.scn)
