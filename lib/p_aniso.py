"""Layered (anisotropic) materials: viscosity, anisotropy strength and the stress
tensor in the frame of the layers, recomputed in SI from the recorded state."""
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import orc, rheo
from p_rheo import RH, Node, creep_case, avg, rel, each_state, judge

AN = " FS_AR_n FS_AR_s aniso_factor_n aniso_factor_s d1_n d2_n d1_s d2_s phase_eta_n* phase_eta_s*"

def case(seed, i):
    r = rng(seed, "aniso", i)
    s = creep_case(r, 0, "an%d_" % i, Nt=r.c([1, 2, 2, 3]), plast=r.p(.5), elastic=int(r.p(.6)))
    s.par.update(anisotropy=1, finite_strain=1, ani_average=i % 3, advection=1, initial_noise=1)
    if r.p(.5):
        s.par["compressible"] = 1
        for p in s.phases: p["psi"] = r.u(0, 15)
    if r.p(.4):           # strong creep so that yielding is common
        for p in s.phases:
            for k in ("pwlv", "linv", "expv"): p[k] = 0
            p.update(cstv=1, eta0=r.lu(1e22, 1e25))
        s.par["bkg_strain_rate"] *= 10
    s.par["dt"] = min(s.par["dt"], r.u(.02, .2) / abs(s.par["bkg_strain_rate"]))
    Lx, Lz = s.par["xmax"] - s.par["xmin"], s.par["zmax"] - s.par["zmin"]
    s.cfg = [c for c in s.cfg if not c.startswith("fld T ")]
    s.cfg.append("fld T %.9g 0 %.9g %.9g %.9g 0 %.9g 0" % (r.u(900, 1500), -r.u(0, 400) / Lz, r.u(0, 100), 6 / Lx, 5 / Lz))
    for p in s.phases:
        p.update(gbsv=0, aniso_factor=r.c([1.0, r.u(1, 2), r.u(1.5, 12), r.u(.4, 1)]), aniso_angle=r.u(0, 180), ani_fstrain=r.i(0, 1), ani_fac_max=r.c([1000.0, r.u(1.02, 1.6)]))
        if not any(p.get(k) for k in ("cstv", "pwlv", "linv")): p["cstv"] = 1
        if p.get("plast"): p["C"] = min(p["C"], .9 * p["Slim"])
    if r.p(.4):
        s.par["marker_aniso_angle"] = 1
        s.cfg.append("fld angle %.6g 0 0 %.6g %.6g 0 %.6g 0" % (r.u(0, 180), r.u(0, 60), 7 / Lx, 5 / Lz))
    if r.p(.6): s.cfg.append("defgrad %g %g %g %g" % (1 + r.u(-.3, .3), r.u(-.5, .5), r.u(-.3, .3), 1 + r.u(-.3, .3)))
    s.dumps = ["residual " + RH + AN]
    return s

def quiet(f):
    with np.errstate(all="ignore"): return f()

def frame(a, d1, d2):
    """map (Exx, Ezz, Exz) -> stress / 2 eta of a layered material with strength delta = 1/(1-a)"""
    A = np.empty(d1.shape + (3, 3))
    A[..., 0, 0] = A[..., 1, 1] = 1 - a * d1
    A[..., 0, 1] = A[..., 1, 0] = a * d1
    A[..., 0, 2] = -2 * a * d2; A[..., 1, 2] = 2 * a * d2
    A[..., 2, 0] = -a * d2; A[..., 2, 1] = a * d2
    A[..., 2, 2] = 1 - a + 2 * a * d1
    return A

@prop("P11", "every non-linear iteration, cell centre and vertex of anisotropic models: anisotropy strength, viscosity of the mixture, yielding, shares of the creep mechanisms and all stress components against an independent solution in the frame of the layers",
      ["the orientation at the nodes is the recorded one (its averaging from the markers is decided by P19, its rotation by P21)", "the reported elastic share (eII_el) of anisotropic models is not judged: the code reports its square", "yield stresses are 1e5 Pa where tension leaves no strength, as for isotropic materials"], min_evals=800, max_stop=.2)
def p11(v, tier, seed):
    exe = build("plain")
    with Scratch() as base:
        runs = pmap(lambda i: run_scn(exe, case(seed, i), base), range(n_of(tier, 150, 2000)))
        for R, q in each_state(v, runs):
            s = R.scn
            S, E, ETA = q["sc.S"], q["sc.E"], q["sc.eta"]
            kind = int(s.get("ani_average"))
            for at in "cv":
                t = "n" if at == "c" else "s"
                n = Node(q, at)
                m = n.ok; el = n.el
                if el and (n.bet <= 0).any(): continue
                # strength of the fabric
                ar = q["FS_AR_" + t][m]
                f = [np.minimum(ar, rheo_par(s, k, "ani_fac_max")) if int(s.phases[k]["ani_fstrain"]) else s.phases[k]["aniso_factor"] + 0 * ar for k in range(len(s.phases))]
                de = sum(w * x for w, x in zip(n.w, f)) if kind == 0 else 1 / sum(w / x for w, x in zip(n.w, f)) if kind == 1 else np.exp(sum(w * np.log(x) for w, x in zip(n.w, f)))
                fac = q["aniso_factor_" + t][m]
                per = int(q["periodic_x"]) and at == "v"
                inner = np.ones(m.shape, bool)
                if per: inner = np.repeat(False, m.size).reshape(m.shape); w_ = inner.reshape(int(q["Nz"]), int(q["Nx"])); w_[:, 1:-1] = True
                judge(v, R, q, "strength", "anisotropy strength", rel(de, fac)[inner[m]], 1e-9)
                # strain rate with the elastic part of layers
                d1, d2, a = q["d1_" + t][m], q["d2_" + t][m], 1 - 1 / fac
                A = frame(a, d1, d2)
                if at == "c": e = [q["exxd"] * E, q["ezzd"] * E, q["exz_n"] * E]; s0 = [q["sxxd0"] * S, q["szzd0"] * S, q["sxz0_n"] * S]
                else: e = [q["exxd_s"] * E, q["ezzd_s"] * E, q["exz"] * E]; s0 = [q["sxxd0_s"] * S, q["szzd0_s"] * S, q["sxz0"] * S]
                e = np.stack([x[m] for x in e], -1); s0 = np.stack([x[m] for x in s0], -1)
                if el: e = e + np.linalg.solve(A, s0[..., None])[..., 0] / (2 * (n.G * n.dt)[:, None])
                n.Eii = np.sqrt(.5 * (e[:, 0] ** 2 + e[:, 1] ** 2 + (e[:, 0] + e[:, 1]) ** 2) + e[:, 2] ** 2)
                # viscosity of every phase
                ev, ph, part, div, pc, over, diss = [], [], {}, 0, 0, 0, 0
                ok = n.Eii > 1e-30; npl = 0 * n.Eii; trial = 0 * n.Eii
                for k in range(len(s.phases)):
                    here = n.w[k] > 1e-13
                    tau, rates = rheo.creep(s, k, n.Eii, n.T, n.P, np.maximum(n.d, 1e-300), n.phi, n.G * n.dt if el else None)
                    eve = tau / (2 * n.Eii); trial = np.maximum(trial, np.where(here, tau, 0))
                    K = 1 / n.bet
                    g = 0 * tau; t2 = tau; Pc = n.P
                    if int(rheo.par(s, k, "plast")):
                        t2, g, Pc, on = rheo.plastic(s, k, tau, n.Eii, eve, n.P, n.C, n.fr, n.di if el else 0 * n.di, K, n.dt)
                        cut = on & (Pc == n.P) & (t2 <= 1e5); v.count("nodes at the tensile cut-off", int((here & cut).sum()))
                        npl += here & on
                    ev.append(t2 / (2 * n.Eii))
                    inv = sum(2 * r_ / tau for nm, r_ in rates.items() if nm != "el")
                    # the reported dissipation: creep rates at the trial stress, plastic rate at the final one
                    inv = inv + np.where(g > 0, g / np.maximum(t2, 1e-12 * tau), 0)
                    with np.errstate(all="ignore"): ph.append(1 / inv)
                    diss = diss + n.w[k] * t2 ** 2 * inv
                    for nm, r_ in rates.items():
                        if nm != "el": part[nm] = part.get(nm, 0) + n.w[k] * r_
                    part["pl"] = part.get("pl", 0) + n.w[k] * g / 2
                    over = over + n.w[k] * rheo.par(s, k, "eta_vp") * g; pc = pc + n.w[k] * Pc
                    div = div + n.w[k] * (Pc - n.P) / (K * n.dt)
                with np.errstate(all="ignore"):
                    eta, phys = avg(s, n.w, ev), avg(s, n.w, ph)
                J = lambda key, what, err, tol=1e-6: judge(v, R, q, key, what, quiet(err)[ok], tol)
                ok &= trial < 1e8 * 2 * eta * n.Eii                  # the stress at yield is what is left of the trial stress
                lossy = 1 + 1e-3 * trial / np.maximum(2 * eta * n.Eii, 1e-30 * trial)
                J("viscosity", "viscosity of the mixture", lambda: rel(eta, n.eta) / lossy)
                J("viscosity-phys", "dissipative viscosity", lambda: rel(phys, n.phys) / lossy)
                want = 2 * n.eta[:, None] * (A @ e[..., None])[..., 0]
                for j, nm in enumerate(("xx", "zz", "xz")):
                    J("stress-" + nm, "stress " + nm, lambda: abs(n.st[j] - want[:, j]) / (2 * n.eta * n.Eii), 1e-8)
                if at == "c":
                    for nm in ("cst", "pwl", "lin", "exp", "pl"):
                        J("partition-" + nm, "strain rate by " + nm, lambda: abs(q["eII_" + nm][m] * E - part.get(nm, 0)) / n.Eii)
                    J("pressure", "corrected pressure", lambda: abs(q["p_corr"][m] * S - pc) / (abs(pc) + 2 * eta * n.Eii + 1))
                    J("overstress", "overstress", lambda: abs(q["OverS_n"][m] * S - over) / (2 * eta * n.Eii + over))
                    J("dilation", "plastic dilation", lambda: abs(q["div_u_pl"][m] * E - div) / n.Eii)
                    J("dissipation", "dissipation", lambda: rel(q["Wdiss"][m] * S * E, diss, diss + 1e-12 * (eta * n.Eii ** 2).max()) / lossy)
                    # single materials: shear along the layers is weaker by the strength, stress normal to them is not
                    v.count("yielding nodes", int((npl[ok] > 0).sum()))
                v.count("nodes evaluated", int(ok.sum())); v.count("nodes left out (trial stress beyond 1e8 times the strength)", int((~ok).sum()))
                v.peak("largest anisotropy strength", fac.max()); v.count("nodes with a fabric", int((abs(a) > .01).sum()))
                v.saw((kind, el, at, int(s.get("eta_average")), bool(npl.any()), bool(s.get("marker_aniso_angle")), bool(s.get("compressible")), s.meta["scale"]))
            v.sample("%s factors %s angles %s" % (s.name, [p["aniso_factor"] for p in s.phases], [p["aniso_angle"] for p in s.phases]))

def rheo_par(s, k, name):
    x = s.phases[k].get(name)
    return 1000.0 if x is None else x
