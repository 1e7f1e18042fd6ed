"""Melting (melt fraction, latent heat) and temperature-driven phase changes."""
import math
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import mk
from p_mark import AX, near, runs_of
import p_rheo

LQ = {1: 320e3, 10: 380e3, 11: 300e3, 40: 400e3, 41: 300e3}

def curves(m, P):
    """solidus and liquidus (K) at P in MPa; Stuewe 1995, Gerya 2010, Schenker et al. 2012"""
    if m == 1: Ts, Tl = 873.15 + 0 * P, 1473.15 + 0 * P
    elif m == 10: Ts, Tl = np.where(P > 1600, 935 + .0035 * P + 6.2e-6 * P ** 2, 973 - 70400 / (P + 354) + 7.78e7 / (P + 354) ** 2), 1423 + .105 * P
    elif m == 11: Ts, Tl = np.where(P > 1200, 831 + .06 * P, 889 + 17900 / (P + 54) + 20200 / (P + 54) ** 2), 1262 + .09 * P
    else: Ts, Tl = np.where(P > 10000, 2212 + .030819 * (P - 10000), 1394 + .132899 * P - 5.014e-6 * P ** 2), 2073 + .114 * P
    return np.where(Ts > Tl - 100, Tl - 100, Ts), Tl

def melt(m, T, P, phi0, f):
    """melt fraction; f = dt/(tk+dt). T in K, P in Pa"""
    if m == 0: return 0 * T
    a = -.1 if m == 1 else 1e-7
    Ts, Tl = curves(m, P / 1e6)
    with np.errstate(all="ignore"):
        eq = np.expm1(a * (T - Ts)) / np.expm1(a * (Tl - Ts))
        return np.clip(f * eq + (1 - f) * phi0, 0, 1)

def judge_melt(v, run, q, T, coeff):
    s = run.scn
    K, S = q["sc.T"], q["sc.S"]
    T = T * K; P = q.n("p_in") * S; phi0 = q.n("phi0_n"); dt = q.s["dt"] * q["sc.t"]
    ok = (q.n("BCp") == -1) & (P > 1e3)
    phi = 0; cp = 0; al = 0; tol = 0; smooth = ok.copy()
    for k in range(len(s.phases)):
        w = q.n("phase_perc_n%d" % k); m = int(s.phases[k].get("melt") or 0)
        f = dt / (s.ph(k, "tau_kin") + dt); g = lambda T, P: melt(m, T, P, phi0, f)
        x = g(T, P); phi = phi + w * x
        h, hp = 1e-3 * np.ones_like(T), 1e-5 * P
        dT, dP = (g(T + h, P) - g(T - h, P)) / (2 * h), (g(T, P + hp) - g(T, P - hp)) / (2 * hp)
        on = x > 1e-13
        L = LQ.get(m, 0.)
        cp = cp + w * (s.ph(k, "Cp") + np.where(on, L * dT, 0)); al = al + w * (s.ph(k, "alp") - np.where(on, L * dP / T * q.n("rho_n") * q["sc.rho"], 0))
        tol = tol + w * np.where(on, L / T * q.n("rho_n") * q["sc.rho"] * 1e-10 / (2e-6 * P), 0)
        if m:      # derivatives are one-sided at the ends and where the curves have a kink
            smooth &= ~((w > 1e-13) & (((x < 1e-4) & (g(T + .02 * T, P) > 0)) | (x > 1 - 1e-4) | (abs(P / 1e6 - 1600) < 1) | (abs(P / 1e6 - 1200) < 1) | (abs(P / 1e6 - 10000) < 1)))
            a, b = (curves(m, P * c / 1e6) for c in (1 - 1e-4, 1 + 1e-4)); sw = lambda c: abs(c[1] - c[0] - 100) < 1e-9
            smooth &= sw(a) == sw(b)
            v.count("cells between solidus and liquidus (model %d)" % m, int((ok & (w > .01) & (x > 0) & (x < 1)).sum()))
            v.count("cells molten or solid (model %d)" % m, int((ok & (w > .01) & ((x == 0) | (x == 1))).sum()))
    st = int(q["step"])
    err, loc = near(q.n("phi_n"), phi, ok, 1.)
    v.peak("worst melt fraction", err)
    if err > 1e-6: v.fail("melt", "%s step %d (%s): melt fraction of cell %s is %.8g, solidus and liquidus give %.8g (T %.5g K, P %.4g MPa)" % (s.name, st, q.where, loc, q.n("phi_n")[loc], phi[loc], T[loc], P[loc] / 1e6), s, run)
    v.saw((tuple(sorted({int(p.get("melt") or 0) for p in s.phases})), s.meta["scale"], q.where, bool((phi[ok] > 0).any()), s.get("tau_kin") is not None))
    if coeff:
        C = q.n("Cp") * q["sc.Cp"]; A = q.n("alp") / K
        e = np.where(smooth, abs(C - cp) / cp, 0); l = np.unravel_index(np.argmax(e), e.shape); v.peak("worst heat capacity", e[l])
        v.count("heat capacities judged", int(smooth.sum()))
        if e[l] > 1e-4: v.fail("capacity", "%s step %d: heat capacity of cell %s is %.8g, with latent heat it should be %.8g" % (s.name, st, l, C[l], cp[l]), s, run)
        sc = abs(al) + 1e-9
        e = np.where(smooth, (abs(A - al) - tol) / sc, 0); l = np.unravel_index(np.argmax(e), e.shape); v.peak("worst expansivity", e[l])
        if e[l] > 1e-3: v.fail("expansivity", "%s step %d: expansivity of cell %s is %.8g, with latent heat it should be %.8g" % (s.name, st, l, A[l], al[l]), s, run)

def judge_marker(v, run, a, b):
    air = np.isin(a.n("BCp"), mk.AIRT); act = mk.active(a)
    inc, inside, den = mk.g2m_x(a, np.where(air, 0, b.n("phi_n") - b.n("phi0_n")), air)
    ok = act & inside & (den > .05)
    want = np.clip(a["p.phi"] + inc, 0, 1); got = b["p.phi"]
    err, loc = near(got, want, ok, 1.)
    v.peak("worst melt fraction of a marker", err); v.count("markers with changed melt fraction", int((ok & (abs(inc) > 1e-6)).sum()))
    if err > 1e-9: v.fail("marker", "%s step %d: melt fraction of marker %d went from %.8g to %.8g, the grid changed by %.8g there" % (run.scn.name, a["step"], loc[0], a["p.phi"][loc], got[loc], inc[loc]), run.scn, run)

def p34_case(seed, i):
    r = rng(seed, "melt", i)
    s = p_rheo.creep_case(r, 0, "melt%d_" % i, Nt=r.i(1, 3))
    ms = [[1], [10], [11], [40], [41], [0, 1, 10, 11, 40, 41]][i % 6]
    L = r.lu(1, 30) if i % 6 in (1, 2, 3, 4, 5) else 1.
    for k in ("xmin", "xmax", "zmin", "zmax"): s.par[k] *= L
    s.cfg = shapes(r, s.par["xmin"], s.par["xmax"], s.par["zmin"], s.par["zmax"], len(s.phases))
    H = s.par["zmax"] - s.par["zmin"]; Lx = s.par["xmax"] - s.par["xmin"]
    Pm = 3000 * 10 * H / 2 / 1e6
    Ts, Tl = curves(ms[-1], np.array(Pm))
    s.cfg.append("fld T %.9g 0 %.9g %.9g %.9g 0 %.9g 0" % (r.u(.9 * Ts, Tl), -r.u(0, 500) / H, r.u(50, 400), 6 / Lx, 5 / H))
    if r.p(.5): s.cfg.append("fld phi %.9g 0 0 %.9g %.9g 0 %.9g 0" % (.3, .25, 5 / Lx, 7 / H))
    s.par.update(gz=-10.0, melting=1, thermal=1, advection=1, shear_heating=r.i(0, 1), adiab_heating=r.i(0, 2), elastic=r.i(0, 1), dt=r.lu(1e8, 1e11), Nt=r.i(1, 3))
    if r.p(.3): s.par.update(compressible=1)
    for p in s.phases:
        p["melt"] = r.c(ms if r.p(.9) else ms + [0]); p.update(rho=r.u(2500, 3400), Cp=r.u(700, 1300), k=r.u(1, 5), alp=r.lu(1e-5, 5e-5), bet=r.lu(1e-12, 1e-11), Qr=r.lu(1e-10, 1e-6), density_model=r.c([1, 3, 5]), drho=-r.u(0, 400))
        p["tau_kin"] = r.c([0.0, 0.0, s.par["dt"] * r.lu(.1, 10)])
    s.dumps = ["postsolve " + AX + "p.x p.z p.phase p.phi phi_n phi0_n", "prethermal " + AX + "p.x p.z p.phase p.phi phi_n phi0_n p_in T rho_n Cp alp phase*", "chem_grid " + AX + "phi_n phi0_n p_in T rho_n phase*"]
    return s

@prop("P34", "twice per step and cell: melt fraction against solidus, liquidus and kinetics of the phases present; heat capacity and expansivity with latent heat; change of the markers' melt fraction",
      ["solidus and liquidus as published (Stuewe 1995, Gerya 2010, Schenker et al. 2012)", "cells at negative pressure are not judged; derivatives not at the ends of melting or at kinks of the curves"], min_evals=250)
def p34(v, tier, seed):
    exe = build()
    with Scratch() as base:
        for run in runs_of(v, exe, [p34_case(seed, i) for i in range(n_of(tier, 96, 1500))], base):
            R = run.recs("postsolve", "prethermal", "chem_grid")
            T0 = {}
            for a, b in zip(run.recs("postsolve"), run.recs("prethermal")):
                judge_melt(v, run, b, b.n("T"), True); judge_marker(v, run, a, b)
            for c in run.recs("chem_grid"): judge_melt(v, run, c, c.n("T"), False)

# ------------------------------------------------------------------ P36
def p36_case(seed, i):
    r = rng(seed, "trans", i)
    s = full(r, "tr%d" % i, Nt=3, fam=(i // 2) % 6) if i % 2 else p_rheo.creep_case(r, 0, "tr%d_" % i, Nt=3)
    if not i % 2:
        s.par.update(advection=1, thermal=1, dt=r.lu(1e10, 1e12)); s.fam = 9
        while len(s.phases) < 2: s.phases.append(dict(s.phases[0]))
    n = len(s.phases)
    for c in s.cfg:
        if c.startswith("fld T "): T0 = float(c.split()[2]); break
    else:
        s.cfg.append("fld T %.9g" % 600.)
        T0 = 600.
    for p in s.phases:
        p.update(transmutation=r.c([0, 1, -1, 1, -1]), transmutation_phase=r.i(0, n - 1), transmutation_temperature=T0 * r.u(.7, 1.2))
    if i % 3 != 2: s.cfg.append("dual %d" % r.i(0, n - 1))       # phase 0 is displayed as another one
    s.dumps = ["step_begin p.phase p.dual p.T p.x p.z p.P p.d p.X p.strain", "dt p.phase p.dual p.T p.x p.z p.P p.d p.X p.strain"]
    return s

@prop("P36", "every step: phase and dual phase of every marker before and after the change of phases, everything else the markers carry unchanged", min_evals=200)
def p36(v, tier, seed):
    exe = build()
    with Scratch() as base:
        for run in runs_of(v, exe, [p36_case(seed, i) for i in range(n_of(tier, 60, 600))], base):
            s = run.scn
            for a, b in zip(run.recs("step_begin"), run.recs("dt")):
                ph = a["p.phase"].astype(int); T = a["p.T"] * a["sc.T"]
                g = lambda k, d=0: np.array([p.get(k, d) for p in s.phases], float)
                m = ph >= 0; j = np.where(m, ph, 0)
                mode, Tt, to = g("transmutation")[j], g("transmutation_temperature")[j], g("transmutation_phase")[j]
                tie = abs(T - Tt) < 1e-9 * Tt
                go = m & (((mode == -1) & (T <= Tt)) | ((mode == 1) & (T >= Tt)))
                wp, wd = np.where(go, to, ph), np.where(go, to, a["p.dual"])
                v.count("markers changed whose dual phase differed", int((go & (a["p.dual"] != ph)).sum()))
                v.count("markers whose phase changed", int((go & (to != ph)).sum())); v.count("markers kept", int((~go).sum()))
                for q in (-1, 0, 1):
                    for d in (0, 1):
                        if (m & (mode == q) & (go == bool(d))).any(): v.saw((s.fam, q, d, s.meta["scale"], int(a["step"])))
                for f, w in (("p.phase", wp), ("p.dual", wd)):
                    bad = (b[f] != w) & ~tie
                    if bad.any():
                        k = int(np.argmax(bad)); v.fail("change:" + f, "%s step %d: marker %d (phase %d, %.6g K; mode %d at %.6g K to phase %d) has %s %d" % (s.name, a["step"], k, ph[k], T[k], mode[k], Tt[k], to[k], f, b[f][k]), s, run)
                for f in ("p.T", "p.x", "p.z", "p.P", "p.d", "p.X", "p.strain"):
                    if f in a.a: v.check(np.array_equal(a[f], b[f]), "other:" + f, "%s step %d: %s of markers changed with the phase" % (s.name, a["step"], f), s, run)
