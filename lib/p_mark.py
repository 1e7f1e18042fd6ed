"""Marker <-> grid transfer, stress carried by markers, strain, softening, finite strain."""
import math
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import orc, mk

AX = "xg_coord zg_coord xc_coord zc_coord xvz_coord zvx_coord BCp BCg BCu BCv "

def near(got, exp, ok, scale=None):
    """largest deviation relative to the size of the field"""
    if not ok.any(): return 0.0, None
    g, e = np.asarray(got, float), np.asarray(exp, float)
    s = scale if scale is not None else max(np.nanmax(abs(e[ok])), np.nanmax(abs(g[ok])))
    d = np.where(ok, abs(g - e), 0.0)
    d = np.where(np.isfinite(d), d, np.inf)
    return float(d.max() / (s or 1.0)), np.unravel_index(int(np.argmax(d)), d.shape)

def tidy(r):
    """interior markers: safely away from a tie between two nodes"""
    return mk.active(r)

def runs_of(v, exe, scns, base, timeout=120):
    for run in pmap(lambda s: run_scn(exe, s, base, timeout), scns):
        if run.rc < 0 or run.timed_out:
            v.fail("stopped", "%s: the run ended abnormally (status %s%s)" % (run.scn.name, run.rc, ", out of time" if run.timed_out else ""), run.scn, run)
        elif not run.ok:
            v.inconc("%s: rc=%d %s" % (run.scn.name, run.rc, run.out[-120:].replace("\n", " | ")))
        yield run

# ------------------------------------------------------------------ P19
M2G = [  # grid field, marker quantity, node kind, fixed stencil or None
    ("T0_n", "p.T", "c", 1), ("divth0_n", "p.divth", "c", 1), ("Cp", "m.Cp", "c", 1), ("Qr", "m.Qr", "c", 1), ("kx", "m.k_eff", "u", 1), ("kz", "m.k_eff", "w", 1),
    ("p0_n", "p.P", "c", None), ("phi0_n", "p.phi", "c", None), ("sxxd0", "p.sxxd", "c", None), ("szzd0", "p.szzd", "c", None), ("sxz0", "p.sxz", "v", None),
    ("X0_n", "p.X", "c", None), ("X0_s", "p.X", "v", None), ("noise_n", "p.noise", "c", None), ("noise_s", "p.noise", "v", None), ("d0_n", "p.d", "c", None), ("rho0_n", "p.rho", "c", None)]
BC = dict(c="BCp", v="BCg", u="BCu", w="BCv")
P19F = AX + " ".join(a for a, *_ in M2G) + " phase* p.x p.z p.phase p.T p.divth p.P p.phi p.sxxd p.szzd p.sxz p.X p.noise p.d p.rho p.nx p.nz p.Fxx p.Fxz p.Fzx p.Fzz d1_n d2_n angle_n d1_s d2_s angle_s FS_AR_n FS_AR_s T d_n m.Cp m.Qr m.k_eff"

def get(r, at, k):
    return dict(c=r.n, v=r.v, u=r.u, w=r.w)[at](k)

def judge_m2g(v, run, q, scn):
    stl = scn.par.get("interp_stencil", 1)
    per = int(q.s["periodic_x"]) == 1
    wts = {}
    items = [(g, q[m] if m.startswith("p.") else q[m][np.maximum(q["p.phase"], 0)], at, s or stl, m) for g, m, at, s in M2G if q.has(g) and q.has(m) and not (m in ("p.sxxd", "p.szzd", "p.sxz") and not scn.get("elastic")) and not (g == "rho0_n" and scn.get("free_surface"))]
    if scn.get("anisotropy"):
        nx, nz = q["p.nx"], q["p.nz"]
        F = np.array([[q["p.Fxx"], q["p.Fxz"]], [q["p.Fzx"], q["p.Fzz"]]]).transpose(2, 0, 1)
        F[~mk.active(q)] = np.eye(2)
        sv = np.linalg.svd(F, compute_uv=False)
        ar = sv[:, 0] / sv[:, 1]
        for at in "cv":
            t = "n" if at == "c" else "s"
            items += [("d1_" + t, 2 * nx ** 2 * nz ** 2, at, stl, "director"), ("d2_" + t, nx * nz * (nz ** 2 - nx ** 2), at, stl, "director"), ("angle_" + t, np.arccos(np.clip(nx, -1, 1)), at, stl, "director"),
                      ("FS_AR_" + t, ar, at, stl, "strain ellipse")]
    for g, val, at, s, m in items:
        e, W = mk.m2g(q, val, at, s)
        a = get(q, at, g)
        ok = ~np.isin(get(q, at, BC[at]), mk.AIRT) & (W > 1e-6)
        if per and at in "vu":
            edge = ok[:, 0] & ok[:, -1] & (W[:, 0] > 1e-6) & (W[:, -1] > 1e-6)
            if s == 9: edge[:] = False
            ok[:, 0] = edge; ok[:, -1] = edge
        act = mk.active(q)
        # rounding of a weight near the edge of the support matters only where all weights are tiny
        tol = 1e-6 if m == "strain ellipse" else 1e-9
        err, loc = near(a, e, ok, max(abs(val[act]).max(), 1e-300) if act.any() else None)
        v.peak("worst " + at, err)
        v.saw((g, s, scn.meta.get("scale"), scn.fam))
        if err > tol:
            v.fail("m2g-" + g, "%s step %d: %s at node %s is %.9g, the average of the surrounding markers' %s is %.9g" % (scn.name, q["step"], g, loc, a[loc], m, e[loc]), scn, run)
        # never outside the range of the markers
        lo, hi = val[act].min(), val[act].max()
        b = a[~np.isin(get(q, at, BC[at]), mk.AIRT) & (W > 1e-6)]
        if b.size and (b.min() < lo - tol * max(abs(lo), abs(hi)) or b.max() > hi + tol * max(abs(lo), abs(hi))):
            v.fail("m2g-range-" + g, "%s step %d: %s leaves the range of the markers [%g, %g]: [%g, %g]" % (scn.name, q["step"], g, lo, hi, b.min(), b.max()), scn, run)
    # what the rheology sees is what was transferred
    air = np.isin(q.n("BCp"), mk.AIRT)
    for a, b in (("T", "T0_n"), ("d_n", "d0_n")):
        e, loc = near(q.n(a), q.n(b), ~air)
        if e > 1e-12: v.fail("m2g-" + a, "%s step %d: %s differs from the marker average %s" % (scn.name, q["step"], a, b), scn, run)
    if not scn.get("free_surface"):
        ph = q["p.phase"]
        for at, key in (("c", "n"), ("v", "s")):
            K = int(q["Nb_phases"])
            ind = np.array([(ph == k).astype(float) for k in range(K)])
            e, W = mk.m2g(q, ind, at, stl)
            ok = W > 1e-6
            if per and at == "v": ok[:, 0] = ok[:, -1] = False
            tot = 0
            for k in range(K):
                a = get(q, at, "phase_perc_%s%d" % (key, k)); tot = tot + a
                err, loc = near(a, e[k], ok, 1.0)
                v.saw(("phase", at, stl, K))
                if err > 1e-9:
                    v.fail("m2g-phase", "%s step %d: fraction of phase %d at %s node %s is %.9g, the markers give %.9g" % (scn.name, q["step"], k, at, loc, a[loc], e[k][loc]), scn, run)
            err, loc = near(tot, np.ones_like(tot), ok, 1.0)
            if err > 1e-9: v.fail("m2g-phase-sum", "%s step %d: phase fractions add up to %.9g at %s node %s" % (scn.name, q["step"], tot[loc], at, loc), scn, run)

def p19_case(seed, i):
    r = rng(seed, "p19", i)
    fam = i % 6
    s = full(r, "m2g%d" % i, Nt=3, fam=fam, dumps=["presolve " + P19F])
    for p in s.phases:
        p["gs_ref"] = r.lu(1e-4, 1e-2)
        p["k"] = p.get("k", 1.0) * r.u(.5, 2)
    Lx = s.par["xmax"] - s.par["xmin"]
    s.cfg += ["fld phi .1 0 0 .05 %.9g 0 %.9g 0" % (7 / Lx, 5 / Lx)] if r.p(.5) else []
    s.par["initial_noise"] = 1
    return s

@prop("P19", "every quantity that the markers hand to the grid, at every grid node with markers around it, over multi-step runs of six physics families", min_evals=900)
def p19(v, tier, seed):
    exe = build()
    scns = [p19_case(seed, i) for i in range(n_of(tier, 24, 240))]
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            for q in run.recs("presolve"):
                judge_m2g(v, run, q, run.scn)

# ------------------------------------------------------------------ P10
POST = AX + "u_in v_in p_in p0_n sxxd szzd sxz sxxd0 szzd0 sxz0 eta_phys_n eta_phys_s p.x p.z p.phase p.sxxd p.szzd p.sxz p.P m.G m.bet"
PRET = "p.sxxd p.szzd p.sxz p.P p.x p.z p.phase"

def judge_stress(v, run, a, b, scn):
    """a: record right after the solve, b: after the marker update"""
    dt = a.s["dt"]
    act = mk.active(a)
    k = orc.kin(a, False)
    airc, airv = np.isin(a.n("BCp"), mk.AIRT), np.isin(a.v("BCg"), mk.AIRT)
    sub = int(scn.par.get("subgrid_diffusion", 0)); stl = scn.par.get("interp_stencil", 1)
    cl = act.copy()
    def toc(F):
        x, c = mk.g2m_c(a, F); np.logical_and(cl, c, out=cl); return x
    def tov(F):
        x, c = mk.g2m_v(a, F); np.logical_and(cl, c, out=cl); return x
    ph = np.maximum(a["p.phase"], 0)
    air0 = lambda F, m: np.where(m, 0.0, F)
    inc = {"p.sxxd": (air0(a.n("sxxd") - a.n("sxxd0"), airc), a.n("sxxd0"), "c"), "p.szzd": (air0(a.n("szzd") - a.n("szzd0"), airc), a.n("szzd0"), "c"), "p.sxz": (air0(a.v("sxz") - a.v("sxz0"), airv), a.v("sxz0"), "v")}
    new = {}
    if sub == 2:
        fac = 1 - np.exp(-dt / (tov(a.v("eta_phys_s")) / a["m.G"][ph]))
    for f, (d, old, at) in inc.items():
        to = toc if at == "c" else tov
        if sub == 2:
            rel = -(a[f] - to(old)) * fac
            rel = np.where(act, rel, 0)
            g, W = mk.m2g(a, rel, at, stl)
            g = np.where((W < 1e-30) | (airc if at == "c" else airv), 0.0, g)
            new[f] = a[f] + rel + to(np.where(airc if at == "c" else airv, 0.0, d - g))
            if at == "v" and int(a.s["periodic_x"]) == 1 and stl == 9:   # wrapped vertex columns: not judged
                i = np.floor((a["p.x"] - a["xg_coord"][0]) / a.s["dx"])
                cl &= (i >= 1) & (i <= a.Nx - 3)
        else:
            new[f] = a[f] + to(d)
    w = tov(np.where(airv, 0.0, k["wxz"]))
    xx, zz, xz = new["p.sxxd"], new["p.szzd"], new["p.sxz"]
    rot = int(scn.par.get("stress_rotation", 1))
    if rot == 1:   # corotational rate over dt
        e = {"p.sxxd": xx - 2 * dt * w * xz, "p.szzd": zz + 2 * dt * w * xz, "p.sxz": xz + dt * w * (xx - zz)}
    elif rot == 2:   # finite rotation by dt*w
        c, s = np.cos(dt * w), np.sin(dt * w)
        e = {"p.sxxd": c * c * xx - 2 * c * s * xz + s * s * zz, "p.szzd": s * s * xx + 2 * c * s * xz + c * c * zz, "p.sxz": c * s * (xx - zz) + (c * c - s * s) * xz}
    else:
        e = {"p.sxxd": xx, "p.szzd": zz, "p.sxz": xz}
    sc = max(abs(x[cl]).max() for x in e.values()) if cl.any() else 1
    for f in e:
        err, loc = near(b[f], e[f], cl, sc)
        v.peak("worst stress", err); v.saw((f, sub, rot, stl, scn.meta["scale"], scn.fam))
        if err > 1e-8:
            v.fail("marker-stress", "%s step %d: %s of marker %s is %.9g after the step, expected %.9g (was %.9g, subgrid=%d, rotation=%d)" % (scn.name, a["step"], f, loc[0], b[f][loc], e[f][loc], a[f][loc], sub, rot), scn, run)
    v.peak("largest rotation per step", abs(dt * w[cl]).max() if cl.any() else 0)

def judge_pressure(v, run, a, b, scn):
    dt = a.s["dt"]; act = mk.active(a); cl = act.copy()
    air = np.isin(a.n("BCp"), mk.AIRT)
    dp = np.where(air, 0, a.n("p_in") - a.n("p0_n"))
    def toc(F):
        x, c = mk.g2m_c(a, F); np.logical_and(cl, c, out=cl); return x
    ph = np.maximum(a["p.phase"], 0)
    if int(scn.par.get("subgrid_diffusion", 0)) >= 2:
        rel = -(a["p.P"] - toc(np.where(air, 0.0, a.n("p0_n")))) * (1 - np.exp(-dt / (toc(a.n("eta_phys_n")) * a["m.bet"][ph])))
        rel = np.where(act, rel, 0)
        g, W = mk.m2g(a, rel, "c", 1)
        g = np.where((W < 1e-30) | air, 0.0, g)
        e = a["p.P"] + rel + toc(np.where(air, 0.0, dp - g))
    else:
        e = a["p.P"] + toc(dp)
    err, loc = near(b["p.P"], e, cl)
    v.peak("worst pressure", err); v.saw(("p.P", scn.par.get("subgrid_diffusion", 0), scn.meta["scale"], scn.fam))
    if err > 1e-8:
        v.fail("marker-pressure", "%s step %d: pressure of marker %s is %.9g after the step, expected %.9g (was %.9g)" % (scn.name, a["step"], loc[0], b["p.P"][loc], e[loc], a["p.P"][loc]), scn, run)

def p10_case(seed, i):
    r = rng(seed, "p10", i)
    fam = (0, 1, 4, 0, 2, 6)[i % 6]
    if fam == 6:   # rotating, strongly elastic
        s = mech(r, "sig%d" % i, rheo=("cst",), elastic=True, contrast=2, Nt=4, advection=1, bc=r.c(["simple", "lin"])); s.fam = 6
        s.par["dt"] = r.u(.01, .05) / s.meta["e0"]
    else:
        s = full(r, "sig%d" % i, Nt=3, fam=fam)
    s.par["elastic"] = 1
    s.par["subgrid_diffusion"] = r.c([0, 1, 2, 2])
    s.par["stress_rotation"] = r.c([1, 1, 2, 0])
    for p in s.phases: p["bet"] = p.get("bet", 1e-11) * 1.0
    if fam == 2:
        t = 2 * s.meta["eta_ref"] * s.meta["e0"]
        for p in s.phases: p["G"] = t * r.u(20, 80); p["bet"] = 1 / (t * 100)
    t = 2 * s.meta["eta_ref"] * s.meta["e0"]
    Lx = s.par["xmax"] - s.par["xmin"]
    if r.p(.6): s.cfg += ["fld Txx %.9g 0 0 %.9g %.9g 0 %.9g 0" % (r.u(-t, t), .5 * t, 6 / Lx, 5 / Lx), "fld Tzz %.9g" % r.u(-t, t), "fld Txz %.9g 0 0 %.9g %.9g 1 %.9g 0" % (r.u(-t, t), t, 4 / Lx, 7 / Lx)]
    s.par["initial_noise"] = 1
    s.dumps = ["postsolve " + POST, "prethermal " + PRET]
    return s

def jaumann_case(seed, i):
    """a purely elastic block in simple shear: tau_xz = G sin(gamma), tau_xx = G (1 - cos gamma)"""
    r = rng(seed, "p10j", i)
    sc = r.c(list(SCALES)); geo = sc.startswith("geo")
    par = dict(SCALES[sc]); par.update(domain(r, geo, 9, 15))
    e0 = r.lu(1e-16, 1e-14) if geo else r.u(.3, 2)
    G = 1e10 if geo else r.u(.5, 2)
    dg = .01
    par.update(Nt=r.i(40, 60), bkg_strain_rate=r.c([1, -1]) * e0, shear_style=1, periodic_x=1, elastic=1, advection=0, dt=dg / (2 * e0), initial_noise=0, stress_rotation=1 + i % 2,
               max_eta=1e12 * G / e0, min_eta=1e-8 * G / e0, interp_stencil=r.c([1, 9]), subgrid_diffusion=r.c([0, 2]))
    s = Scenario("jau%d" % i, par, [dict(rho=1.0, eta0=1e6 * G / e0, G=G, bet=1 / (100 * G))], ["fld T %g" % (800 if geo else 1)], ["postsolve u_in v_in sxxd szzd sxz"])
    s.meta = dict(scale=sc, G=G, e0=e0); s.fam = 9
    return s

@prop("P10", "marker stresses and pressures before/after every step against the transferred grid change and the local rotation; large elastic shear against the closed form", min_evals=180)
def p10(v, tier, seed):
    exe = build()
    scns = [p10_case(seed, i) for i in range(n_of(tier, 24, 240))] + [jaumann_case(seed, i) for i in range(n_of(tier, 4, 16))]
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            s = run.scn
            if s.name.startswith("jau"):
                gam = 0.0
                n = run.recs("postsolve")
                for q in n:
                    K = orc.kin(q, False)
                    gam += float((K["dudz"] + 0 * K["dudz"]).mean()) * q.s["dt"]
                if not n: continue
                S = n[-1].s["sc.S"]
                c = (slice(2, -2), slice(2, -2))
                xz, xx = n[-1].v("sxz")[c].mean() * S, n[-1].n("sxxd")[c].mean() * S
                ez, ex = s.meta["G"] * math.sin(gam), s.meta["G"] * (1 - math.cos(gam))
                v.saw(("closed form", s.par["stress_rotation"], s.meta["scale"])); v.peak("largest shear strain", abs(gam)); v.peak("closed-form error", max(abs(xz - ez), abs(xx - ex)) / s.meta["G"])
                if max(abs(xz - ez), abs(xx - ex)) > .03 * s.meta["G"]:
                    v.fail("elastic-shear", "%s: after a shear strain of %.3g an elastic block carries tau_xz=%.4g, tau_xx=%.4g (in G: %.4f, %.4f), expected G sin(gamma)=%.4f G and G(1-cos gamma)=%.4f G" % (s.name, gam, xz, xx, xz / s.meta["G"], xx / s.meta["G"], math.sin(gam), 1 - math.cos(gam)), s, run)
                continue
            for a, b in zip(run.recs("postsolve"), run.recs("prethermal")):
                judge_stress(v, run, a, b, s)
                judge_pressure(v, run, a, b, s)

# ------------------------------------------------------------------ P13
STR = [("p.strain_el", "eII_el"), ("p.strain_pl", "eII_pl"), ("p.strain_pwl", "eII_pwl"), ("p.strain_exp", "eII_exp"), ("p.strain_lin", "eII_lin"), ("p.strain_gbs", "eII_gbs")]
ST = " ".join(a for a, _ in STR) + " p.strain "
EII = " ".join(b for _, b in STR) + " eII_cst "

def erfc(x):
    return np.vectorize(math.erfc)(x)

def softened(scn, k, key, end, flag, s):
    a = scn.ph(k, key); b = scn.phases[k].get(end, a)
    if not scn.phases[k].get(flag): return a + 0 * s
    s0, s1 = scn.phases[k].get("plss", 1.0), scn.phases[k].get("plse", 2.0)
    if int(scn.par.get("smooth_softening", 1)) == 1:
        m, d = .5 * (s0 + s1), s1 - s0
        return b + (a - b) * erfc((s - m) / d) / math.erfc(-m / d)
    return a + (b - a) * np.clip((s - s0) / (s1 - s0), 0, 1)

def judge_soft(v, run, q, scn):
    stl = scn.par.get("interp_stencil", 1); S = q.s["sc.S"]
    per = int(q.s["periodic_x"]) == 1
    for at, t in (("c", "n"), ("v", "s")):
        e, W = mk.m2g(q, q["p.strain_pl"], at, stl)
        ok = ~np.isin(get(q, at, BC[at]), mk.AIRT) & (W > 1e-6)
        if per and at == "v": ok[:, 0] = ok[:, -1] = False
        e = np.where(ok, e, 0)
        if ok.any(): v.peak("largest plastic strain", e[ok].max())
        for fld, key, end, flag, u in (("C_", "C", "Ce", "coh_soft", 1 / S), ("fric_", "phi", "phie", "phi_soft", math.pi / 180), ("dil_", "psi", "psie", "psi_soft", math.pi / 180)):
            x = sum(get(q, at, "phase_perc_%s%d" % (t, k)) * softened(scn, k, key, end, flag, e) * u for k in range(len(scn.phases)))
            if fld == "C_" and scn.par.get("marker_noise"): x = x * (1 + get(q, at, "noise_" + t))
            a = get(q, at, fld + t)
            err, loc = near(a, x, ok)
            v.peak("worst softening", err)
            part = [k for k in range(len(scn.phases)) if scn.phases[k].get(flag)]
            v.saw((fld, at, bool(part), int(scn.par.get("smooth_softening", 1)), scn.meta["scale"], bool(e.max() > 1e-4), any(e.max() > scn.phases[k].get("plse", 2.0) for k in part)))
            v.count("nodes softened to the end (%s)" % fld[:-1], int(sum(((get(q, at, "phase_perc_%s%d" % (t, k)) > .01) & ok & (e > scn.phases[k].get("plse", 2.0))).sum() for k in part)))
            if err > 1e-8:
                v.fail("softening-" + fld + t, "%s step %d: %s%s at node %s is %.9g, the softening curve gives %.9g at plastic strain %.4g" % (scn.name, q["step"], fld, t, loc, a[loc], x[loc], e[loc]), scn, run)

def judge_strain(v, run, a, b, scn):
    n = min(len(a["p.x"]), len(b["p.strain"]))
    air = np.isin(a.n("BCp"), mk.AIRT)
    act = mk.active(a); dt = a.s["dt"]
    tot = sum(a.n(e) for _, e in STR) + a.n("eII_cst")
    for f, e in STR + [("p.strain", None)]:
        F = tot if e is None else a.n(e)
        inc, inside, den = mk.g2m_x(a, F * dt, air)
        ok = (act & inside & (den > .05))[:n]
        got = b[f][:n] - a[f][:n]
        sc = max(abs(b[f][:n][ok]).max() if ok.any() else 0, abs(inc[:n][ok]).max() if ok.any() else 0)
        err, loc = near(got, inc[:n], ok, sc or 1.0)
        v.peak("worst strain", err); v.saw((f, bool(sc > 0), scn.meta["scale"], scn.fam))
        if err > 1e-9:
            v.fail("strain-" + f, "%s step %d: %s of marker %d grew by %.9g, the local strain rate times dt is %.9g" % (scn.name, a["step"], f, loc[0], got[loc], inc[loc]), scn, run)
        if ok.any() and (b[f][:n] - a[f][:n])[ok].min() < -1e-12 * max(sc, 1e-300):
            v.fail("strain-decrease", "%s step %d: %s of a marker decreased" % (scn.name, a["step"], f), scn, run)

def p13_case(seed, i):
    r = rng(seed, "p13", i)
    comp = i % 4 == 3
    if i % 5 == 4:
        import p_rheo
        s = p_rheo.creep_case(r, i, "soft", Nt=3, plast=True); s.par.update(advection=1, nit_max=3); s.fam = 7
        s.par["dt"] = .005 / abs(s.par["bkg_strain_rate"])
    else:
        s = mech(r, "soft%d" % i, rheo=("cst", "pwl"), elastic=True, plastic=True, contrast=1.5, Nt=5, advection=1, compressible=int(comp)); s.fam = 8
        s.par["dt"] = r.u(.003, .02) / s.meta["e0"]; s.par["nit_max"] = 8
    s.par["initial_noise"] = 1
    s.par["smooth_softening"] = r.i(0, 1); s.par["marker_noise"] = r.i(0, 1)
    for p in s.phases:
        if r.p(.8):
            a = r.u(.001, .03) if i % 3 else r.lu(1e-4, 5e-3)          # every third case: strains well beyond the softening range
            p.update(plss=a, plse=a + (r.lu(.005, .2) if i % 3 else r.lu(3e-4, 1e-2)))
            if r.p(.7) and p["C"] > 3: p.update(coh_soft=1, Ce=p["C"] * r.u(.05, .6))
            if r.p(.6) and p["phi"] > 2: p.update(phi_soft=1, phie=p["phi"] * r.u(.1, .8))
            if comp and s.fam == 8:
                p["psi"] = r.u(1, 10)
                if r.p(.7): p.update(psi_soft=1, psie=p["psi"] * r.u(0, .5))
    s.cfg.append("fld noise 0 0 0 .2 %.9g 0 %.9g 0" % (30 / (s.par["xmax"] - s.par["xmin"]), 20 / (s.par["zmax"] - s.par["zmin"])))
    s.dumps = ["presolve " + AX + "C_n C_s fric_n fric_s dil_n dil_s noise_n noise_s phase* p.x p.z p.phase p.strain_pl", "moved " + AX + EII + ST + "p.x p.z p.phase", "prereseed " + ST + "p.phase"]
    return s

@prop("P13", "accumulated strains of all markers before/after each step and cohesion, friction and dilation angle at every node at the start of each solve", min_evals=1500)
def p13(v, tier, seed):
    exe = build()
    scns = [p13_case(seed, i) for i in range(n_of(tier, 48, 320))]
    for i in range(n_of(tier, 6, 40)):
        r = rng(seed, "p13f", i)
        s = full(r, "acc%d" % i, Nt=3, fam=i % 6); s.dumps = scns[0].dumps[1:]
        scns.append(s)
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            for q in run.recs("presolve"): judge_soft(v, run, q, run.scn)
            for a, b in zip(run.recs("moved"), run.recs("prereseed")): judge_strain(v, run, a, b, run.scn)

# ------------------------------------------------------------------ P21
FF = ("p.Fxx", "p.Fxz", "p.Fzx", "p.Fzz")

def judge_defgrad(v, run, a, b, scn):
    n = min(len(a["p.x"]), len(b["p.Fxx"]))
    k = orc.kin(a, False); dt = a.s["dt"]
    xx, c1 = mk.g2m_c(a, k["dudx"]); zz, c2 = mk.g2m_c(a, k["dwdz"]); xz, c3 = mk.g2m_v(a, k["dudz"]); zx, c4 = mk.g2m_v(a, k["dwdx"])
    ok = (mk.active(a) & c1 & c2 & c3 & c4)[:n]
    I = np.zeros((len(xx), 2, 2)); I[:, 0, 0] = 1 + dt * xx; I[:, 0, 1] = dt * xz; I[:, 1, 0] = dt * zx; I[:, 1, 1] = 1 + dt * zz
    F = np.array([[a[FF[0]], a[FF[1]]], [a[FF[2]], a[FF[3]]]]).transpose(2, 0, 1)
    E = (I @ F)[:n]
    for m, (i, j) in zip(FF, ((0, 0), (0, 1), (1, 0), (1, 1))):
        err, loc = near(b[m][:n], E[:, i, j], ok, abs(E[ok]).max() if ok.any() else 1)
        v.peak("worst F", err); v.saw((m, scn.meta["scale"], scn.fam))
        if err > 1e-9:
            v.fail("finite-strain", "%s step %d: %s of marker %d is %.9g, the velocity gradient at the marker gives %.9g" % (scn.name, a["step"], m, loc[0], b[m][loc], E[loc[0], i, j]), scn, run)

def judge_director(v, run, a, b, scn):
    k = orc.kin(a, False); dt = a.s["dt"]
    air = np.isin(a.n("BCp"), mk.AIRT)
    xx, c1 = mk.g2m_c(a, np.where(air, 0, k["dudx"])); zz, c2 = mk.g2m_c(a, np.where(air, 0, k["dwdz"])); xz, c3 = mk.g2m_v(a, k["dudz"]); zx, c4 = mk.g2m_v(a, k["dwdx"])
    act = mk.active(a); ok = act & c1 & c2 & c3 & c4
    nx, nz = a["p.nx"], a["p.nz"]
    # a line of material normals: dn/dt = -(grad v)^T n, projected on the unit circle
    tx, tz = -(xx * nx + zx * nz), -(xz * nx + zz * nz)
    al = tx * nx + tz * nz
    ex, ez = nx + dt * (tx - al * nx), nz + dt * (tz - al * nz)
    h = np.hypot(ex, ez); ex, ez = ex / h, ez / h
    for m, e in (("p.nx", ex), ("p.nz", ez)):
        err, loc = near(b[m], e, ok, 1.0)
        v.peak("worst director", err); v.saw((m, scn.meta["scale"], scn.fam))
        if err > 1e-9:
            v.fail("director", "%s step %d: %s of marker %d is %.9g, the material line it is normal to has turned to %.9g" % (scn.name, a["step"], m, loc[0], b[m][loc], e[loc]), scn, run)
    u = np.hypot(b["p.nx"], b["p.nz"])[act]
    if abs(u - 1).max() > 1e-12: v.fail("director-length", "%s step %d: a director has length %.12g" % (scn.name, a["step"], u[np.argmax(abs(u - 1))]), scn, run)

def p21_case(seed, i):
    r = rng(seed, "p21", i)
    k = i % 3
    if k == 0:
        s = full(r, "fin%d" % i, Nt=4, fam=3)
    elif k == 1:
        s = full(r, "fin%d" % i, Nt=4, fam=4)
    else:
        s = full(r, "fin%d" % i, Nt=3, fam=2); s.par["finite_strain"] = 1
    s.par["finite_strain"] = 1
    s.par["track_T_P_x_z"] = 1
    s.par["initial_noise"] = 1
    if r.p(.5): s.cfg.append("defgrad %g %g %g %g" % (1 + r.u(-.2, .2), r.u(-.3, .3), r.u(-.3, .3), 1 + r.u(-.2, .2)))
    if r.p(.5) and k == 0: s.cfg.append("fld angle %.6g 0 0 40 %.6g 0 %.6g 0" % (r.u(0, 180), 5 / (s.par["xmax"] - s.par["xmin"]), 3 / (s.par["zmax"] - s.par["zmin"])))
    tr = "p.x0 p.z0 p.P0 p.T0 p.Tmax p.Pmax p.T p.P p.phase p.generation"
    s.dumps = ["postsolve " + AX + "u_in v_in p.nx p.nz p.x p.z p.phase", "prethermal p.nx p.nz", "moved " + AX + "u_in v_in p.x p.z p.phase " + " ".join(FF), "prereseed p.phase " + " ".join(FF), "preadv p.x p.z " + tr, "step_begin p.x p.z " + tr, "init p.x p.z " + tr]
    return s

def uniform_case(seed, i):
    """uniform deformation over many steps: F and the director have closed forms"""
    r = rng(seed, "p21u", i)
    sc = r.c(list(SCALES)); geo = sc.startswith("geo")
    par = dict(SCALES[sc]); par.update(domain(r, geo, 9, 13))
    e0 = r.lu(1e-16, 1e-14) if geo else r.u(.3, 2)
    simple = i % 2
    ang = r.u(0, 180)
    par.update(Nt=40, bkg_strain_rate=r.c([1, -1]) * e0, shear_style=simple, periodic_x=simple, advection=1, dt=.01 / e0, finite_strain=1, anisotropy=1, initial_noise=0,
               pure_shear_ALE=0 if simple else 1, max_eta=1e26 if geo else 1e6, min_eta=1e15 if geo else 1e-6, reseed_markers=0)
    s = Scenario("uni%d" % i, par, [dict(rho=1.0, eta0=1e21 if geo else 1.0, aniso_factor=1.0, aniso_angle=ang, ani_fstrain=0)], ["fld T %g" % (800 if geo else 1)],
                 ["postsolve u_in v_in", "step_end p.phase p.nx p.nz " + " ".join(FF)])
    s.meta = dict(scale=sc, ang=ang); s.fam = 9
    return s

@prop("P21", "deformation gradient, director and pressure-temperature history of all markers before/after each step; closed forms for uniform deformation", min_evals=270)
def p21(v, tier, seed):
    exe = build()
    scns = [p21_case(seed, i) for i in range(n_of(tier, 18, 180))] + [uniform_case(seed, i) for i in range(n_of(tier, 4, 16))]
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            s = run.scn
            if s.name.startswith("uni"):
                n = run.recs("step_end")
                if len(n) < 40: continue
                L = np.zeros((2, 2)); t = 0
                import scipy.linalg as sl
                F = np.eye(2)
                for q in run.recs("postsolve"):
                    k = orc.kin(q, False)
                    g = np.array([[k["dudx"].mean(), k["dudz"][1:-1].mean()], [k["dwdx"].mean(), k["dwdz"].mean()]]) * q.s["dt"]
                    F = sl.expm(g) @ F
                q = n[-1]; a = mk.active(q)
                got = np.array([[q[FF[0]][a].mean(), q[FF[1]][a].mean()], [q[FF[2]][a].mean(), q[FF[3]][a].mean()]])
                an = math.radians(s.meta["ang"])
                # initial director makes the given angle with ... : recover it from its own history (first record)
                n0 = np.array([n[0]["p.nx"][mk.active(n[0])].mean(), n[0]["p.nz"][mk.active(n[0])].mean()])
                q0 = run.recs("postsolve")[0]; k = orc.kin(q0, False)
                F1 = sl.expm(np.array([[k["dudx"].mean(), k["dudz"][1:-1].mean()], [k["dwdx"].mean(), k["dwdz"].mean()]]) * q0.s["dt"])
                G = F @ np.linalg.inv(F1)
                e = np.linalg.inv(G).T @ n0; e /= np.linalg.norm(e)
                d = np.array([q["p.nx"][a].mean(), q["p.nz"][a].mean()])
                v.saw(("closed form", s.par["shear_style"], s.meta["scale"])); v.peak("closed-form F error", abs(got - F).max()); v.peak("closed-form director error", abs(abs(d @ e) - 1))
                if abs(got - F).max() > .03: v.fail("finite-strain-uniform", "%s: after uniform deformation F=%s, expected %s" % (s.name, got.tolist(), F.tolist()), s, run)
                if abs(abs(d @ e) - 1) > 2e-3: v.fail("director-uniform", "%s: director %s, expected %s" % (s.name, d.tolist(), e.tolist()), s, run)
                continue
            if s.get("anisotropy"):
                for a, b in zip(run.recs("postsolve"), run.recs("prethermal")): judge_director(v, run, a, b, s)
            for a, b in zip(run.recs("moved"), run.recs("prereseed")): judge_defgrad(v, run, a, b, s)
            hist, cont = None, None
            for q in run.recs("preadv", "prereseed"):
                if q.where == "prereseed":   # a slot that is empty here may be given to a new marker
                    al = q["p.phase"] != -1
                    cont = al if cont is None else np.pad(cont, (0, max(0, len(al) - len(cont))))[:len(al)] & al
                    continue
                a = mk.active(q)
                for m, f in (("p.Tmax", "p.T"), ("p.Pmax", "p.P")):
                    v.saw((m, s.meta["scale"], s.fam))
                    if (q[m] < q[f] - 1e-12 * abs(q[f]))[a].any():
                        v.fail("peak-" + f, "%s step %d: recorded peak %s of a marker is below its present value" % (s.name, q["step"], f), s, run)
                    if hist is not None:   # same marker (same slot, same generation): the peak is the largest value seen so far
                        h, n = hist, min(len(hist["p.T"]), len(q["p.T"]))
                        same = (h["p.x0"][:n] == q["p.x0"][:n]) & (h["p.z0"][:n] == q["p.z0"][:n]) & a[:n] & mk.active(h)[:n] & np.pad(cont, (0, n))[:n]
                        e = np.maximum(h[m][:n], q[f][:n])
                        err, loc = near(q[m][:n], e, same)
                        v.count("peak histories", int(same.sum()))
                        if err > 1e-12: v.fail("peak-" + f, "%s step %d: peak %s of marker %d is %.9g, history gives %.9g" % (s.name, q["step"], f, loc[0], q[m][loc], e[loc]), s, run)
                hist, cont = q, None
