"""Heat: energy balance of every cell, temperature of the markers, initial cooling."""
import math
import numpy as np
import scipy.sparse as sp, scipy.sparse.linalg as spl
from core import *
from gen import *
from reg import prop, n_of
import mk
from p_mark import AX, near, runs_of

ZC = 273.15

def neighbours(A, per):
    """W, E, S, N neighbours of a cell field, with a mask telling whether they exist"""
    nz, nx = A.shape
    W = np.roll(A, 1, 1); E = np.roll(A, -1, 1); S = np.roll(A, 1, 0); N = np.roll(A, -1, 0)
    one = np.ones_like(A, bool)
    hw, he, hs, hn = one.copy(), one.copy(), one.copy(), one.copy()
    if not per: hw[:, 0] = False; he[:, -1] = False
    hs[0] = False; hn[-1] = False
    return (W, hw), (E, he), (S, hs), (N, hn)

def conduction(q, bct, air, kx, kz, T):
    """net conductive heating of each cell and the size of the terms; bct: {N,S,W,E,F: (type, value)} in code units"""
    dx, dz = q.s["dx"], q.s["dz"]
    per = bct["W"][0] == -2
    kW, kE, kS, kN = kx[1:-1, :-1], kx[1:-1, 1:], kz[:-1, 1:-1], kz[1:, 1:-1]
    ks = np.maximum(.25 * (kW + kE + kS + kN), kx.min())
    AN = neighbours(air, per); TN = neighbours(T, per)
    surf = ~air & AN[3][0] & AN[3][1] & (bct["F"][0] == 1)
    H = np.zeros_like(T); Z = np.zeros_like(T)
    for i, (k, d, wall) in enumerate(((kW, dx, "W"), (kE, dx, "E"), (kS, dz, "S"), (kN, dz, "N"))):
        Tn, has = TN[i]; an = AN[i][0] & has
        inner = has & ~an
        f = np.where(inner, k * (Tn - T) / d ** 2, 0.0)
        z = np.where(inner, k * (abs(Tn) + abs(T)) / d ** 2, 0.0)
        f += np.where(an & surf, 2 * ks * (bct["F"][1] - T) / d ** 2, 0.0)
        z += np.where(an & surf, 2 * ks * (abs(bct["F"][1]) + abs(T)) / d ** 2, 0.0)
        ty, val = bct[wall]
        if ty == 1:
            f += np.where(~has, 2 * k * (val - T) / d ** 2, 0.0); z += np.where(~has, 2 * k * (abs(val) + abs(T)) / d ** 2, 0.0)
        elif ty == 0 and wall == "S":
            f += np.where(~has, -val / d, 0.0); z += np.where(~has, abs(val) / d, 0.0)
        H += f; Z += z
    return H, Z

def bct_of(s, q):
    """boundary conditions requested in the set-up, in code units"""
    c = [l.split() for l in s.cfg if l.startswith("bct ")][0][1:]
    out = {}
    for i, k in enumerate("NSWEF"):
        ty, val = int(float(c[2 * i])), float(c[2 * i + 1])
        out[k] = (ty, val / q["sc.T"] if ty == 1 else val / q["sc.W"] * q["sc.L"] ** 2)
    return out

TH = AX + "T T0_n rho_n Cp kx kz Qr Wdiss alp v_in p_in p0_n BCt p.x p.z p.phase p.T m.Cp m.k phase* m.alp"

def judge_grid(v, run, a, b, s):
    air = a.n("BCt") == 30
    bct = bct_of(s, a)
    dt = a.s["dt"]
    kx, kz = a.u("kx"), a.w("kz")
    T0, T1 = a.n("T"), b.n("T")
    rc = a.n("rho_n") * a.n("Cp")
    H, Z = conduction(a, bct, air, kx, kz, T1)
    src = a.n("Qr").copy()
    alp = a.n("alp")
    if not s.get("melting"):
        alp = np.tensordot(a["m.alp"][:int(a["Nb_phases"])], a.perc_n(), 1)
        e = np.where(air, 0, abs(alp - a.n("alp"))).max(); v.peak("thermal expansivity", e / (abs(alp).max() or 1))
    if s.get("shear_heating"): src = src + a.n("Wdiss")
    ad = int(s.get("adiab_heating") or 0)
    vz = a.w("v_in"); vz = .5 * (vz[:-1, 1:-1] + vz[1:, 1:-1])
    if ad == 1: ha = T0 * alp * vz * a.s["gz"] * a.n("rho_n")
    elif ad == 2: ha = T0 * alp * (a.n("p_in") - a.n("p0_n")) / dt
    else: ha = 0 * T0
    R = rc * (T1 - T0) / dt - H - src - ha
    Z = Z + rc * (abs(T1) + abs(T0)) / dt + abs(src) + abs(ha)
    ok = ~air
    e = np.where(ok, abs(R) / Z, 0)
    w = np.unravel_index(np.argmax(np.where(np.isfinite(e), e, np.inf)), e.shape)
    v.peak("worst imbalance of a cell", e[w])
    v.saw(("cell", s.meta["scale"], s.fam, tuple(bct[k][0] for k in "NSWEF"), ad, int(s.get("shear_heating") or 0)))
    v.count("cells judged", int(ok.sum())); v.count("cells next to the free surface", int((ok & np.roll(air, -1, 0)).sum()))
    if not e[w] < 1e-9:
        v.fail("balance", "%s step %d: heat balance of cell %s is off by %.3g of its terms (T %.9g -> %.9g; walls %s, adiabatic %d)" % (s.name, a["step"], w, e[w], T0[w], T1[w], bct, ad), s, run)
    # global: what the cells gain is what the sources and the walls bring
    if not air.any() and all(bct[k][0] != 1 for k in "NSWE"):
        per = bct["W"][0] == -2
        gain = (rc * (T1 - T0)).sum() / dt
        inn = (src + ha).sum() - (bct["S"][1] / a.s["dz"] * (a.Nx - 1) if bct["S"][0] == 0 else 0.0)
        sc = (rc * abs(T1 - T0)).sum() / dt + abs(src).sum() + abs(ha).sum()
        v.saw(("closed box", per, s.meta["scale"])); v.peak("closed box", abs(gain - inn) / (sc or 1))
        # rounding of temperatures against small changes
        if abs(gain - inn) > 1e-8 * sc + 1e-11 * (rc * abs(T1)).sum() / dt:
            v.fail("closed-box", "%s step %d: a thermally closed box gains %.6g while sources give %.6g" % (s.name, a["step"], gain, inn), s, run)
    # no source: no new extremes
    if not s.get("shear_heating") and ad == 0 and a.n("Qr")[ok].max() == 0 and (bct["S"][0] != 0 or bct["S"][1] == 0):
        ext = [T0[ok].min(), T0[ok].max()] + [bct[k][1] for k in "NSWE" if bct[k][0] == 1] + ([bct["F"][1]] if air.any() and bct["F"][0] == 1 else [])
        v.saw(("extremes", s.meta["scale"], s.fam))
        lo, hi = min(ext), max(ext)
        if T1[ok].min() < lo - 1e-9 * hi or T1[ok].max() > hi * (1 + 1e-9):
            v.fail("extremes", "%s step %d: conduction alone produced temperatures %.9g..%.9g outside %.9g..%.9g" % (s.name, a["step"], T1[ok].min(), T1[ok].max(), lo, hi), s, run)
    if air.any():
        x = abs(T1[air] * a["sc.T"] - ZC).max()
        if x > 1e-6: v.fail("air", "%s: temperature of the air cells is not 0 C (off by %.3g)" % (s.name, x), s, run)

def judge_markers(v, run, a, b, c, s):
    """a before the heat solve, b after it (grid), c after the marker update"""
    air = a.n("BCt") == 30
    act = mk.active(a); cl = act.copy()
    def to(F):
        x, k = mk.g2m_c(a, F, air); np.logical_and(cl, k, out=cl); return x
    dT = np.where(air, 0, b.n("T") - a.n("T0_n"))
    sub = int(s.get("subgrid_diffusion") or 0)
    if sub >= 1:
        ph = np.maximum(a["p.phase"], 0)
        tau = a["m.Cp"][ph] * to(a.n("rho_n")) / (a["m.k"][ph] * (1 / a.s["dx"] ** 2 + 1 / a.s["dz"] ** 2))
        rel = np.where(act, -(a["p.T"] - to(a.n("T0_n"))) * (1 - np.exp(-a.s["dt"] / tau)), 0)
        rel = np.where(np.isfinite(rel), rel, 0)
        g, W = mk.m2g(a, rel, "c", 1)
        g = np.where((W < 1e-30) | air, 0, g)
        e = a["p.T"] + rel + to(np.where(air, 0, dT - g))
    else:
        e = a["p.T"] + to(dT)
    # next to the free surface the transferred sub-grid part also involves cells without material
    if air.any() and sub >= 1:
        pass
    err, loc = near(c["p.T"], e, cl)
    v.peak("worst marker temperature", err); v.saw(("marker", sub, s.meta["scale"], s.fam)); v.count("markers judged", int(cl.sum()))
    if err > 1e-9:
        v.fail("marker-T", "%s step %d: temperature of marker %s is %.12g after the step, expected %.12g (was %.12g, subgrid=%d)" % (s.name, a["step"], loc[0], c["p.T"][loc], e[loc], a["p.T"][loc], sub), s, run)

def p14_case(seed, i):
    r = rng(seed, "p14", i)
    fam = (0, 2, 4, 0, 2, 7)[i % 6]
    if fam == 7:   # slow conduction with strongly contrasting conductors and every kind of wall
        s = mech(r, "heat%d" % i, rheo=("cst",), elastic=False, contrast=1, Nt=3, advection=1, bc=r.c(["pure", "simple"])); thermalise(r, s); s.fam = 7
    else:
        s = full(r, "heat%d" % i, Nt=3, fam=fam)
    geo = s.meta["geo"]
    Tt, Tb = s.meta["Tt"], s.meta["Tb"]
    per = int(s.par.get("periodic_x", 0))
    ty = []
    for k in "NSWEF":
        if k in "WE" and per: ty.append((-2, 0)); continue
        t = 1 if r.p(.55) else 0
        val = {"N": Tt, "F": Tt, "S": Tb}.get(k, r.u(Tt, Tb))
        ty.append((1, val) if t else (0, 0.0))
    if r.p(.3): ty = [(0, 0.0) if t[0] == 1 else t for t in ty]
    Lz = s.par["zmax"] - s.par["zmin"]
    kref = np.mean([p.get("k", 1.0) for p in s.phases])
    if ty[1][0] == 0 and r.p(.6): ty[1] = (0, -r.u(.2, 2) * kref * abs(Tb - Tt) / Lz)
    s.cfg = [c for c in s.cfg if not c.startswith("bct ")]
    s.cfg.append("bct " + " ".join("%d %.12g" % t for t in ty))
    # a diffusion distance of the order of a cell or more per step
    kap = r.lu(.05, 20) * (Lz / s.par["Nz"]) ** 2 / s.par["dt"]
    for p in s.phases:
        p["k"] = kap * p["rho"] * p["Cp"] * r.lu(.2, 5)
        p["Qr"] = r.c([0.0, 1.0]) * p["rho"] * p["Cp"] * (Tb - Tt) * .02 / s.par["dt"] * r.u(0, 1)
    if ty[1][0] == 0 and ty[1][1] != 0: ty[1] = (0, -r.u(.1, 1) * np.mean([p["k"] for p in s.phases]) * (Tb - Tt) / Lz)
    s.cfg[-1] = "bct " + " ".join("%d %.12g" % t for t in ty)
    s.par["shear_heating"] = r.i(0, 1); s.par["adiab_heating"] = r.c([0, 1, 2, 0])
    s.par["subgrid_diffusion"] = r.c([0, 1, 2])
    vary = i // 2 % 3 == 1 and not s.par.get("chemical_diffusion")
    if vary:          # steps that grow or shrink
        s.par.update(constant_dt=0, Courant=.5, dt_max=1e3 * s.par["dt"], dt_min=1e-3 * s.par["dt"])
        if r.p(.5): s.par["adiab_heating"] = 2
    if r.p(.4) and not vary:
        s.par["shear_heating"] = s.par["adiab_heating"] = 0
        for p in s.phases: p["Qr"] = 0.0
        if ty[1][0] == 0: s.cfg[-1] = "bct " + " ".join("%d %.12g" % (t if j != 1 else (0, 0.0)) for j, t in enumerate(ty))
    s.dumps = ["prethermal " + TH, "thermal_grid T", "postthermal p.T p.phase"]
    return s

def cool_case(seed, i):
    """initial cooling of a known temperature field, with an optional anomaly"""
    r = rng(seed, "p14c", i)
    s = mech(r, "cool%d" % i, rheo=("cst",), elastic=False, contrast=1, Nt=1, bc=r.c(["pure", "simple"]), gravity=False); thermalise(r, s); s.fam = 8
    s.par["adiab_heating"] = 0
    Lx, Lz = s.par["xmax"] - s.par["xmin"], s.par["zmax"] - s.par["zmin"]
    s.par["initial_cooling"] = int(i % 4 != 3)
    D = r.lu(1e12, 1e15) if s.meta["geo"] else r.u(.5, 5)
    s.par["cooling_duration"] = D
    for p in s.phases: p["k"] = p["rho"] * p["Cp"] * r.lu(.02, .5) * Lz ** 2 / D; p["Qr"] = r.u(0, 1) * p["rho"] * p["Cp"] * .1 * (s.meta["Tb"] - s.meta["Tt"]) / D
    if i % 2:
        s.par.update(therm_perturb=1, therm_perturb_x0=r.u(s.par["xmin"], s.par["xmax"]), therm_perturb_z0=r.u(s.par["zmin"], s.par["zmax"]), therm_perturb_rad_x=r.u(.1, .3) * Lx, therm_perturb_rad_z=r.u(.1, .3) * Lz,
                     therm_perturb_dT=.1 * (s.meta["Tb"] - s.meta["Tt"]))
    s.dumps = ["init " + AX + "T T0_n rho_n Cp kx kz Qr BCt p.x p.z p.phase p.T"]
    return s

def judge_cool(v, run, q, s):
    bct = bct_of(s, q)
    nz, nx = q.Nz - 1, q.Nx - 1
    air = np.zeros((nz, nx), bool)
    f = [float(x) for x in [l for l in s.cfg if l.startswith("fld T ")][0].split()[2:]] + [0] * 12
    L = q["sc.L"]; x, z = q["p.x"] * L, q["p.z"] * L
    Tm = (f[0] + f[1] * x + f[2] * z + f[3] * np.cos(f[4] * x + f[5]) * np.cos(f[6] * z + f[7])) / q["sc.T"]
    T, W = mk.m2g(q, Tm, "c", 1)
    if (W < 1e-9).any(): return
    rc = q.n("rho_n") * q.n("Cp")
    if s.par["initial_cooling"]:
        dt = s.par["cooling_duration"] / q["sc.t"] / 10
        n = nz * nx
        # conduction is affine in T: assemble it by probing is too slow; build the matrix column pattern from unit responses of 5 colours
        b0, _ = conduction(q, bct, air, q.u("kx"), q.w("kz"), np.zeros((nz, nx)))
        I = np.arange(n).reshape(nz, nx)
        rows, cols, vals = [], [], []
        kx, kz, dx, dz = q.u("kx"), q.w("kz"), q.s["dx"], q.s["dz"]
        per = bct["W"][0] == -2
        diag = np.zeros((nz, nx))
        for k, d, wall, sh, ax in ((kx[1:-1, :-1], dx, "W", 1, 1), (kx[1:-1, 1:], dx, "E", -1, 1), (kz[:-1, 1:-1], dz, "S", 1, 0), (kz[1:, 1:-1], dz, "N", -1, 0)):
            J = np.roll(I, sh, ax); has = np.ones((nz, nx), bool)
            if not (per and ax == 1):
                if wall == "W": has[:, 0] = False
                if wall == "E": has[:, -1] = False
            if wall == "S": has[0] = False
            if wall == "N": has[-1] = False
            rows.append(I[has]); cols.append(J[has]); vals.append((k / d ** 2)[has])
            diag -= np.where(has, k / d ** 2, 0)
            if bct[wall][0] == 1: diag -= np.where(~has, 2 * k / d ** 2, 0)
        K = sp.csr_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), (n, n)) + sp.diags(diag.ravel())
        lu = spl.splu((sp.diags((rc / dt).ravel()) - K).tocsc())
        for _ in range(10):
            T = lu.solve((rc / dt * T + q.n("Qr") + b0).ravel()).reshape(nz, nx)
    if s.par.get("therm_perturb"):
        X, Z = np.meshgrid(q["xc_coord"] * L, q["zc_coord"] * L)
        e = ((X - s.par["therm_perturb_x0"]) / s.par["therm_perturb_rad_x"]) ** 2 + ((Z - s.par["therm_perturb_z0"]) / s.par["therm_perturb_rad_z"]) ** 2
        T = T + np.where(e < 1, s.par["therm_perturb_dT"] / q["sc.T"], 0)
        near_edge = abs(e - 1) < 1e-9
    else: near_edge = air
    for nm in ("T", "T0_n"):
        err, loc = near(q.n(nm), T, ~near_edge)
        v.saw(("initial", nm, s.par["initial_cooling"], s.par.get("therm_perturb", 0), s.meta["scale"])); v.peak("initial temperature", err)
        if err > 1e-8: v.fail("initial", "%s: initial temperature of cell %s is %.9g, expected %.9g" % (s.name, loc, q.n(nm)[loc], T[loc]), s, run)
    e, cl = mk.g2m_c(q, q.n("T"))
    err, loc = near(q["p.T"], e, mk.active(q) & cl)
    if err > 1e-9: v.fail("initial-markers", "%s: marker %s starts with T %.9g, the initial field there is %.9g" % (s.name, loc[0], q["p.T"][loc], e[loc]), s, run)

@prop("P14", "heat balance of every cell of every step, temperature update of every marker, initial cooling and anomalies, over walls of every kind, sources, free surfaces and conductivity contrasts", min_evals=250)
def p14(v, tier, seed):
    exe = build()
    scns = [p14_case(seed, i) for i in range(n_of(tier, 36, 360))] + [cool_case(seed, i) for i in range(n_of(tier, 8, 60))]
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            s = run.scn
            if s.fam == 8:
                for q in run.recs("init"): judge_cool(v, run, q, s)
                continue
            A, B, C = run.recs("prethermal"), run.recs("thermal_grid"), run.recs("postthermal")
            for a, b, c in zip(A, B, C):
                judge_grid(v, run, a, b, s); judge_markers(v, run, a, b, c, s)
