"""Rheology: creep laws, yielding, softening, density and elastic parameters,
all recomputed in SI from the set-up file and the recorded state."""
import math
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import orc, rheo, mk

RH = ("u_in v_in p_in p_corr T d0_n phi0_n X0_n X_n mu_n mu_s bet_n bet_s exxd ezzd exz_n exz exxd_s ezzd_s sxxd0 szzd0 sxz0_n sxz0 sxxd0_s szzd0_s T_s P_s d0_s phi0_s X0_s X_s "
      "C_n fric_n dil_n C_s fric_s dil_s eta_n eta_s eta_phys_n eta_phys_s sxxd szzd sxz sxz_n sxxd_s szzd_s eII_el eII_pl eII_pwl eII_exp eII_lin eII_gbs eII_cst Wtot Wel Wdiss OverS_n "
      "div_u_pl div_u_el p0_n p0_s BCp BCg d_n phase* div_u rho_n rho0_n")

def creep_case(r, i, name="cr", Nt=1, plast=None, elastic=None, dumps=("residual " + RH,)):
    """rock-like mixtures of the database's creep laws under realistic conditions"""
    sc = r.c(["geo", "geo2"])
    par = dict(SCALES[sc]); par.update(domain(r, True, 9, 17))
    par.update(Nt=Nt, nit_max=r.i(1, 3), bkg_strain_rate=r.c([1, -1]) * r.lu(1e-17, 1e-13), gz=0.0, interp_stencil=r.c([1, 9]), eta_average=i % 3,
               min_eta=10 ** r.u(17, 20), max_eta=10 ** r.u(23, 26), initial_noise=1, elastic=int(r.p(.5) if elastic is None else elastic))
    par["dt"] = r.lu(1e9, 1e13)
    nph = r.i(1, 4)
    phases = []
    for k in range(nph):
        ph = dict(rho=3000.0, cstv=0, eta0=r.lu(1e18, 1e24), G=r.lu(1e10, 8e10), bet=r.lu(1e-12, 1e-10), gs_ref=r.lu(1e-5, 1e-2), plast=0)
        m = r.i(1, 15)
        if m & 1: ph["pwlv"] = r.c([-1, 1]) * r.c(list(range(10, 35)) + list(range(40, 47))) if r.p(.7) else 1
        if m & 2: ph["linv"] = r.c([-1, 1, 1]) * r.c([15, 19, 25, 40, 41])
        if m & 4: ph["expv"] = r.c([25, 40])
        if m & 8 and r.p(.6): ph["gbsv"] = r.c([-1, 1, 1]) * r.c([40, 41])
        if r.p(.3) or not any(ph.get(q) for q in ("pwlv", "linv", "gbsv")): ph["cstv"] = 1
        if ph.get("pwlv") == 1:
            n = r.u(1, 5); ph.update(npwl=n, Qpwl=r.u(0, 3e5), eta0=1e21 * 1e-15 ** (1 - 1 / n) * math.exp(-1e5 / (n * 8.314 * 1000)))
            ph["cstv"] = 0
        ph["pref_pwl"] = r.c([1.0, 1.0, r.u(.1, 10)])
        if plast: ph.update(plast=1, C=r.lu(1e6, 1e8), phi=r.u(0, 40), eta_vp=r.c([0.0, r.lu(1e18, 1e22)]), Slim=r.c([1e90, 5e8, 1.2e8]))
        phases.append(ph)
    cfg = shapes(r, par["xmin"], par["xmax"], par["zmin"], par["zmax"], nph)
    Lx, Lz = par["xmax"] - par["xmin"], par["zmax"] - par["zmin"]
    cfg.append("fld T %.9g 0 %.9g %.9g %.9g 0 %.9g 0" % (r.u(700, 1500), -r.u(0, 900) / Lz, r.u(0, 100), 6 / Lx, 5 / Lz))
    if r.p(.5):
        for ph in phases: ph["gs_ref"] = phases[0]["gs_ref"]
    cfg.append("fld phi %.9g" % r.c([0.0, r.u(0, .05)]))
    if r.p(.6):
        t = r.lu(1e6, 3e8)
        cfg += ["fld Txx %.9g 0 0 %.9g %.9g 0 %.9g 0" % (r.u(-t, t), .5 * t, 6 / Lx, 5 / Lz), "fld Tzz %.9g" % r.u(-t, t), "fld Txz %.9g" % r.u(-t, t)]
    if r.p(.5): par["gz"] = -r.u(1, 10)
    if i % 5 == 3 and "compressible" not in par: par["compressible"] = 1
    comp = ""
    if i % 4 == 1:       # composition: blended constant viscosities and reacting aggregates
        comp = r.c(["blend", "react"])
        if comp == "blend":
            par.update(diffuse_X=1, diffuse_avg=r.i(0, 2)); phases[r.i(0, nph - 1)]["cstv"] = 1
            for ph in phases: ph.update(phase_mix=int(r.p(.7)), phase_two=r.i(0, nph - 1))
        else:
            par.update(chemical_production=1)
            Lx, Lz = par["xmax"] - par["xmin"], par["zmax"] - par["zmin"]
            for k, ph in enumerate(phases):
                ph["pwlv"] = r.c(rheo.PLAIN) if rheo.PLAIN and r.p(.5) else 1
                if ph["pwlv"] == 1:
                    n = r.u(1, 5); ph.update(npwl=n, Qpwl=r.u(0, 3e5), eta0=1e21 * 1e-15 ** (1 - 1 / n) * math.exp(-1e5 / (n * 8.314 * 1000)), cstv=0)
            for k, ph in enumerate(phases):
                ph.update(reac_soft=int(k == 0 or r.p(.6)), reac_phase=r.i(0, nph - 1), Pr=r.u(-1e8, 1e9), dPr=r.lu(1e7, 1e9), tau_kin=par["dt"] * r.lu(.1, 30))
        cfg.append("fld X %.9g 0 0 %.9g %.9g 0 %.9g 0" % (.5, r.u(.1, .49), 5 / Lx, 7 / Lz))
        if r.p(.5) and comp == "react": cfg.append("fld P %.9g" % r.u(0, 1e9))
    s = Scenario("%s%d" % (name, i), par, phases, cfg, list(dumps))
    s.meta = dict(scale=sc, bc="pure", geo=True, comp=comp)
    return s

def avg(scn, w, vals):
    """phase average chosen in the set-up"""
    k = int(scn.get("eta_average"))
    if k == 0: return sum(a * b for a, b in zip(w, vals))
    if k == 1: return 1 / sum(a / b for a, b in zip(w, vals))
    return np.exp(sum(a * np.log(b) for a, b in zip(w, vals)))

class Node:
    """recorded inputs of the rheology at cell centres (c) or vertices (v), in SI"""
    def __init__(self, q, at):
        S, E, L, T, t = q["sc.S"], q["sc.E"], q["sc.L"], q["sc.T"], q["sc.t"]
        self.el = bool(q["elastic"]); self.dt = q["dt"] * t
        if at == "c":
            g = lambda k: q[k]
            self.ok = q["BCp"] == -1
            self.T, self.P, self.d, self.phi = g("T") * T, g("p_in") * S, g("d0_n") * L, g("phi0_n")
            self.G, self.bet = g("mu_n") * S, g("bet_n") / S
            e = [g("exxd") * E, g("ezzd") * E, g("exz_n") * E]; s0 = [g("sxxd0") * S, g("szzd0") * S, g("sxz0_n") * S]
            self.C, self.fr, self.di = g("C_n") * S, g("fric_n"), g("dil_n")
            self.w = [q["phase_perc_n%d" % k] for k in range(int(q["Nb_phases"]))]
            self.eta, self.phys, self.st = g("eta_n") * q["sc.eta"], g("eta_phys_n") * q["sc.eta"], [g("sxxd") * S, g("szzd") * S, g("sxz_n") * S]
            self.P0 = g("p0_n") * S; self.X = g("X0_n")
        else:
            g = lambda k: q[k]
            self.ok = q["BCg"] != 30
            self.T, self.P, self.d, self.phi = g("T_s") * T, g("P_s") * S, g("d0_s") * L, g("phi0_s"); self.X = g("X0_s")
            self.G, self.bet = g("mu_s") * S, g("bet_s") / S
            e = [g("exxd_s") * E, g("ezzd_s") * E, g("exz") * E]; s0 = [g("sxxd0_s") * S, g("szzd0_s") * S, g("sxz0") * S]
            self.C, self.fr, self.di = g("C_s") * S, g("fric_s"), g("dil_s")
            self.w = [q["phase_perc_s%d" % k] for k in range(int(q["Nb_phases"]))]
            self.eta, self.phys, self.st = g("eta_s") * q["sc.eta"], g("eta_phys_s") * q["sc.eta"], [g("sxxd_s") * S, g("szzd_s") * S, g("sxz") * S]
        if self.el:
            e = [a + b / (2 * np.where(self.ok, self.G, 1) * self.dt) for a, b in zip(e, s0)]
        self.e, self.s0 = e, s0
        yy = -(e[0] + e[1])
        self.Eii = np.maximum(np.sqrt(.5 * (e[0] ** 2 + e[1] ** 2 + yy ** 2) + e[2] ** 2), 1e-30)
        m = self.ok
        for k in ("T", "P", "d", "phi", "G", "bet", "C", "fr", "di", "eta", "phys", "Eii", "X"):
            setattr(self, k, getattr(self, k)[m])
        self.e = [a[m] for a in self.e]; self.s0 = [a[m] for a in self.s0]; self.w = [a[m] for a in self.w]; self.st = [a[m] for a in self.st]

def rheology(scn, n, q):
    """expected phase-averaged quantities at the nodes"""
    lo, hi = scn.get("min_eta"), scn.get("max_eta")
    ev, ph, part, gd, pc, pl = [], [], {}, [], [], []
    W = dict(tot=0, el=0, diss=0, over=0); div = 0; trial = 0 * n.eta
    for k in range(len(scn.phases)):
        eel = n.G * n.dt if n.el else None
        d = np.maximum(n.d, 1e-300)
        mix = rheo.composite(scn, k, n.T, n.P, n.X, n.dt) if scn.get("chemical_production") and rheo.par(scn, k, "reac_soft") else None
        cst = rheo.blend(scn, k, n.X) if scn.get("diffuse_X") and rheo.par(scn, k, "phase_mix") else None
        tau, rates = rheo.creep(scn, k, n.Eii, n.T, n.P, d, n.phi, eel, mix, cst)
        eve = tau / (2 * n.Eii)
        K = 1 / n.bet if n.el else 1e10 * q["sc.S"] + 0 * n.bet
        di = n.di if n.el else 0 * n.di
        t2, g, Pc, on = rheo.plastic(scn, k, tau, n.Eii, eve, n.P, n.C, n.fr, di, K, n.dt)
        ev.append(np.clip(t2 / (2 * n.Eii), lo, hi))
        inv = sum(2 * r_ / tau for nm, r_ in rates.items() if nm != "el") + np.where(on, g / t2, 0)
        with np.errstate(all="ignore"):
            ep = 1 / inv
        ph.append(np.clip(np.where(inv > 0, ep, np.inf), lo, hi))
        rates["pl"] = g / 2
        for nm, r_ in rates.items():
            if nm != "el": part[nm] = part.get(nm, 0) + n.w[k] * r_
        if n.el:
            te = [t2 / n.Eii * a for a in n.e]
            de = [(a - b) / (2 * eel) for a, b in zip(te, n.s0)]
            part["el"] = part.get("el", 0) + n.w[k] * np.sqrt(.5 * (de[0] ** 2 + de[1] ** 2 + (de[0] + de[1]) ** 2) + de[2] ** 2)
        W["diss"] = W["diss"] + n.w[k] * t2 ** 2 * inv
        W["over"] = W["over"] + n.w[k] * rheo.par(scn, k, "eta_vp") * g
        div = div + n.w[k] * (Pc - n.P) / (K * n.dt)
        pc.append(n.w[k] * Pc); trial = np.maximum(trial, np.where(n.w[k] > 0, tau, 0))
        pl.append((on & (n.w[k] > .01)))
    return avg(scn, n.w, ev), avg(scn, n.w, ph), part, W, div, sum(pc), np.any(pl, axis=0), trial

def rel(a, b, s=None):
    return np.abs(a - b) / (np.maximum(np.abs(a), np.abs(b)) if s is None else s)

def each_state(v, runs, hook="residual"):
    for R in runs:
        if R.timed_out: v.inconc(R.scn.name); continue
        if R.rc not in (0, 1) and not (R.rc == 77 and "simulation will stop" in R.out) and not (R.rc == 122 and "nan" in R.out.lower()):
            v.fail("crash", "%s: status %s" % (R.scn.name, R.rc), run=R); continue
        if "iterations failed" in R.out: v.count("runs whose local rheology iterations gave up")
        for q in R.recs(hook):
            yield R, q

def judge(v, R, q, key, what, err, tol, n=None):
    err = np.asarray(err)
    if not err.size: return True
    m = np.nan_to_num(err, nan=1e9).max()
    v.peak("peak " + what, m)
    if m < tol: return True
    v.fail(key, "%s step %d it %d: %s off by %.3g at node %d" % (R.scn.name, q["step"], q["nit"], what, m, int(np.argmax(np.nan_to_num(err, nan=1e9)))), run=R)
    return False

@prop("P08", "at every non-linear iteration and every cell centre and vertex: recorded effective viscosity, creep-rate partition and dissipation against an independent SI solution of 'strain rates of the active mechanisms add up'",
      ["reference values of the creep-law database recorded from the reviewed tree (data/flowlaws.json)", "Peierls creep only below 1200 C, as in the code's documentation"], min_evals=600)
def p08(v, tier, seed):
    exe = build("plain")
    with Scratch() as base:
        runs = pmap(lambda i: run_scn(exe, creep_case(rng(seed, "creep", i), i), base), range(n_of(tier, 200, 2500)))
        for R, q in each_state(v, runs):
            s = R.scn
            K = orc.kin(q, int(q["compressible"])); top = max(abs(K["dudx"]).max(), abs(K["dwdz"]).max(), abs(K["exz"]).max())
            for nm, m in (("exxd", q.n("BCp") == -1), ("ezzd", q.n("BCp") == -1), ("exz", q.v("BCg") != 30)):
                judge(v, R, q, "strain-rate", "strain rate " + nm, abs((q.v if nm == "exz" else q.n)(nm) - K[nm])[m] / top, 1e-9)
            for at in "cv":
                n = Node(q, at)
                ev, ph, part, W, div, pc, pl, _ = rheology(s, n, q)
                judge(v, R, q, "viscosity", "effective viscosity", rel(ev, n.eta), 1e-6)
                # the reported creep viscosity uses each phase's own grain size: only comparable where it is the node's
                same = np.ones(len(n.eta), bool)
                for k in range(len(s.phases)):
                    if rheo.par(s, k, "linv"): same &= ~((n.w[k] > 0) & (abs(n.d / rheo.par(s, k, "gs_ref") - 1) > 1e-9))
                judge(v, R, q, "viscosity-phys", "dissipative viscosity", rel(ph, n.phys)[same], 1e-6)
                v.count("nodes with comparable dissipation", int(same.sum()))
                for a, b in zip(n.st, n.e):
                    judge(v, R, q, "stress", "stress = 2 eta E", abs(a - 2 * n.eta * b) / (2 * n.eta * n.Eii + 1e-300), 1e-9)
                v.count("nodes evaluated", len(n.eta))
                if at == "c":
                    E = q["sc.E"]
                    for nm in ("cst", "pwl", "lin", "exp", "gbs", "el"):
                        judge(v, R, q, "partition-" + nm, "strain rate by " + nm, abs(q["eII_" + nm][n.ok] * E - part.get(nm, 0)) / n.Eii, 1e-6)
                    judge(v, R, q, "dissipation", "dissipation", rel(q["Wdiss"][n.ok] * q["sc.S"] * E, W["diss"], W["diss"] + 1e-12 * (n.eta * n.Eii ** 2).max())[same], 1e-6)
                cl = tuple(sorted({nm for k in range(len(s.phases)) for nm, _ in rheo.laws(s, k)}))
                v.saw((cl, int(s.get("eta_average")), n.el, at, s.meta["scale"], s.meta["comp"]))
                if s.meta["comp"]: v.count("nodes with composition-dependent creep (%s)" % s.meta["comp"], len(n.eta))
            v.sample("%s laws %s" % (s.name, [[nm + str(s.phases[k].get(nm + "v")) for nm, _ in rheo.laws(s, k)] for k in range(len(s.phases))]))

@prop("P09", "every non-linear iteration, cell centre and vertex of yielding materials: stress, plastic rate, pressure correction, overstress and dilation against an independent return mapping, plus yield inequality and complementarity on single-material nodes",
      ["cohesion, friction and dilation at the node are those recorded (their history dependence is decided by P13)"], min_evals=580)
def p09(v, tier, seed):
    exe = build("plain")
    def case(i):
        r = rng(seed, "yield", i)
        s = creep_case(r, i, "yl", plast=True, Nt=r.c([1, 1, 2]))
        if s.get("elastic") and r.p(.6):
            s.par["compressible"] = 1
            for p in s.phases: p["psi"] = r.u(0, 15)
        if r.p(.5):      # strong creep so that yielding is common
            for p in s.phases:
                for k in ("pwlv", "linv", "expv", "gbsv"): p[k] = 0
                p.update(cstv=1, eta0=r.lu(1e22, 1e26), reac_soft=0)
        s.par["bkg_strain_rate"] *= 10
        if r.p(.3): s.cfg.append("fld P %.9g" % r.u(-1e8, 1e9))
        for p in s.phases: p["C"] = min(p["C"], .9 * p["Slim"])
        return s
    with Scratch() as base:
        runs = pmap(lambda i: run_scn(exe, case(i), base), range(n_of(tier, 160, 2000)))
        for R, q in each_state(v, runs):
            s = R.scn
            S, E = q["sc.S"], q["sc.E"]
            for at in "cv":
                n = Node(q, at)
                if n.el and (n.bet <= 0).any(): continue
                ev, ph, part, W, div, pc, pl, trial = rheology(s, n, q)
                tau = 2 * n.eta * n.Eii
                tol = tau + 1e-3 * trial           # the local return mapping is solved relative to the trial stress
                judge(v, R, q, "viscosity", "effective viscosity", 2 * n.Eii * abs(ev - n.eta) / tol, 1e-6)
                one = np.zeros(len(tau), int) - 1
                for k in range(len(s.phases)): one[n.w[k] > 1 - 1e-12] = k
                v.count("yielding nodes", int(pl.sum())); v.count("nodes", len(pl))
                if at == "c":
                    m = n.ok
                    g = 2 * q["eII_pl"][m] * E
                    judge(v, R, q, "plastic-rate", "plastic strain rate", abs(g / 2 - part["pl"]) / n.Eii, 1e-6)
                    judge(v, R, q, "pressure", "corrected pressure", abs(q["p_corr"][m] * S - pc) / (abs(pc) + tol + 1), 1e-6)
                    judge(v, R, q, "overstress", "overstress", abs(q["OverS_n"][m] * S - W["over"]) / (tol + W["over"]), 1e-6)
                    judge(v, R, q, "dilation", "plastic dilation", abs(q["div_u_pl"][m] * E - div) / n.Eii, 1e-6)
                    v.check((g >= 0).all(), "negative-rate", "%s: negative plastic multiplier" % s.name, run=R)
                    for k in range(len(s.phases)):
                        z = (one == k) & (n.eta > s.get("min_eta") * 1.001)
                        if not z.any() or not rheo.par(s, k, "plast"): continue
                        Pc = q["p_corr"][m] * S
                        lim = rheo.par(s, k, "Slim")   # the ceiling is applied to the yield stress at the trial pressure
                        Y = np.where(n.C * np.cos(n.fr) + n.P * np.sin(n.fr) > lim, lim, n.C * np.cos(n.fr) + Pc * np.sin(n.fr)) + rheo.par(s, k, "eta_vp") * g
                        Y = np.maximum(Y, 1e5)
                        judge(v, R, q, "beyond-yield", "stress beyond yield", ((tau - Y) / (tol + 1))[z], 1e-6)
                        active = z & (g > 1e-9 * n.Eii) & (tau > 1.0001e5) & (n.eta < .999 * s.get("max_eta"))
                        judge(v, R, q, "complementarity", "plastic flow below yield", ((Y - tau) / (tol + 1))[active], 1e-6)
                        v.count("single-material nodes against the yield inequality", int(z.sum()))
                if pl.any(): v.saw((at, n.el, bool(s.get("compressible")), s.get("eta_average"), len(s.phases), any(rheo.par(s, k, "eta_vp") for k in range(len(s.phases))), s.meta["scale"]))
            v.sample("%s C %s phi %s" % (s.name, [p["C"] for p in s.phases], [p["phi"] for p in s.phases]))

# ------------------------------------------------------------------ P33
AXM = "xg_coord zg_coord xc_coord zc_coord xvz_coord zvx_coord BCp "
GSLAW = {9: 15, 10: 15, 40: 40, 41: 40}      # piezometer: its rock's flow laws

def p33_case(seed, i):
    r = rng(seed, "grain", i)
    s = creep_case(r, 0, "gs%d_" % i, Nt=r.i(1, 2), plast=False)
    calcite = r.p(.5)
    for k, p in enumerate(s.phases):
        for q in ("pwlv", "linv", "expv", "gbsv", "cstv"): p[q] = 0
        p["gs"] = r.c(([9, 10] if calcite else [40, 41]) + [0] * bool(k)); p["pref_pwl"] = 1
        p["pwlv"] = law = 15 if calcite else 40
        if r.p(.8): p["linv"] = law
        if not calcite and r.p(.3): p["expv"] = 40
        if not calcite and r.p(.3): p["gbsv"] = r.c([-1, 1]) * 40
        if r.p(.2): p["cstv"] = 1; p["eta0"] = r.lu(1e19, 1e22)
        p["gs_ref"] = r.lu(5e-6, 1e-4)
    s.cfg = [c for c in s.cfg if not c.startswith(("fld T", "fld phi"))]
    s.par.update(elastic=int(r.p(.7)), advection=1, gz=0, bkg_strain_rate=r.c([1, -1]) * r.lu(1e-16, 1e-14), dt=r.lu(1e10, 1e12), min_eta=1e14, max_eta=10 ** r.u(22, 23.5))
    Lx, Lz = s.par["xmax"] - s.par["xmin"], s.par["zmax"] - s.par["zmin"]
    T = r.u(560, 800) if calcite else r.u(950, 1250)
    s.cfg.append("fld T %.9g 0 %.9g %.9g %.9g 0 %.9g 0" % (T, -r.u(0, 40) / Lz, r.u(0, 15), 6 / Lx, 5 / Lz))
    s.dumps = ["residual " + RH, "postsolve " + AXM + "p.x p.z p.d p.phase d_n", "prethermal p.d p.x"]
    return s

@prop("P33", "every non-linear iteration and cell: grain size, viscosity, stress and shares of the mechanisms against an independent solution in which grain growth balances its reduction by dislocation creep; markers take the grain size of their position",
      ["constants of the piezometers recorded from the reviewed tree (data/flowlaws.json); growth without its activation volume, as in the code", "the two stress piezometers listed in the code (11, 12), which stop the run, are left out"], min_evals=500)
def p33(v, tier, seed):
    exe = build("plain")
    with Scratch() as base:
        runs = pmap(lambda i: run_scn(exe, p33_case(seed, i), base), range(n_of(tier, 96, 1500)))
        for R, q in each_state(v, runs):
            s = R.scn
            for at in "cv":
                n = Node(q, at)
                ev, ph, part, W, div, pc, pl, _ = rheology(s, n, q)
                judge(v, R, q, "viscosity", "effective viscosity", rel(ev, n.eta), 1e-6)
                for a, b in zip(n.st, n.e):
                    judge(v, R, q, "stress", "stress = 2 eta E", abs(a - 2 * n.eta * b) / (2 * n.eta * n.Eii + 1e-300), 1e-9)
                if at == "v": continue
                for nm in ("pwl", "lin", "gbs", "exp", "el", "cst"):
                    judge(v, R, q, "partition-" + nm, "strain rate by " + nm, abs(q["eII_" + nm][n.ok] * q["sc.E"] - part.get(nm, 0)) / n.Eii, 1e-6)
                inv = 0
                for k, p in enumerate(s.phases):
                    if p["gs"]:
                        tau, r_ = rheo.creep(s, k, n.Eii, n.T, n.P, n.d, n.phi, n.G * n.dt if n.el else None)
                        d = np.exp(rheo.wattmeter(s, k, n.T, np.log(tau), np.log(r_["pwl"])))
                        v.count("cells with evolving grain size", int((n.w[k] > .01).sum()))
                        v.saw((p["gs"], bool(p.get("linv")), p["pwlv"] == 1, bool(p.get("expv")), n.el, s.meta["scale"]))
                    else: d = rheo.par(s, k, "gs_ref") + 0 * n.T
                    inv = inv + n.w[k] / d
                judge(v, R, q, "grain", "grain size", rel(1 / inv, q["d_n"][n.ok] * q["sc.L"]), 1e-6)
        for R in runs:
            for a, b in zip(R.recs("postsolve"), R.recs("prethermal")):
                air = np.isin(a.n("BCp"), mk.AIRT)
                want, inside, den = mk.g2m_x(a, a.n("d_n"), air)
                ok = mk.active(a) & inside & (den > .05)
                err = abs(b["p.d"] / np.where(ok, want, 1) - 1)[ok]
                v.count("markers given a grain size", int(ok.sum())); v.peak("worst grain size of a marker", err.max())
                if err.max() > 1e-9: v.fail("marker", "%s step %d: a marker's grain size is off by %.3g of the grid's at its position" % (R.scn.name, a["step"], err.max()), run=R)
