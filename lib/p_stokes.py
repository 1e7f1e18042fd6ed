"""Momentum, mass and boundary conditions of the solved flow."""
import math
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import orc

FLOW = "u_in v_in p_in p_corr sxxd szzd sxz sxz0 sxxd0 szzd0 exxd ezzd exz div_u wxz eta_n eta_s mu_n mu_s rho_n rho_s bet_n p0_n BCu BCv BCp BCg BCu_val BCv_val rhs_p divth0_n comp_cells xg_coord zg_coord xc_coord zc_coord xvz_coord zvx_coord"

def flow_case(seed, i, dumps, tag="flow", Nt=None):
    """a random flow problem; index selects the family so that every family is present in every tier"""
    r = rng(seed, tag, i)
    fam = i % 8
    Nt = Nt or r.c([1, 1, 2, 3])
    kw = dict(dumps=dumps, Nt=Nt, advection=int(Nt > 1))
    if fam == 0:
        s = mech(r, "lin%d" % i, rheo=("cst",), elastic=False, contrast=4.0, **kw)
    elif fam == 1:
        s = mech(r, "pwl%d" % i, rheo=("cst", "pwl"), elastic=False, **kw); s.par["Newton"] = r.i(0, 1)
    elif fam == 2:
        s = mech(r, "ve%d" % i, rheo=("cst", "pwl"), elastic=True, **kw); s.par["Newton"] = r.i(0, 1)
    elif fam == 3:
        s = mech(r, "vep%d" % i, rheo=("cst", "pwl"), elastic=True, plastic=True, contrast=1.5, **kw); s.par["Newton"] = 1
    elif fam == 4:
        s = freesurf(r, "fs%d" % i, Nt=Nt, dumps=dumps)
    elif fam == 5:
        s = mech(r, "comp%d" % i, rheo=("cst",), elastic=True, compressible=1, **kw)
    elif fam == 6:
        s = mech(r, "ani%d" % i, rheo=("cst",), elastic=False, contrast=2.0, **kw)
        s.par.update(anisotropy=1, finite_strain=1, Newton=r.i(0, 1))
        for p in s.phases:
            p.update(aniso_factor=r.u(1.2, 5.0), aniso_angle=r.u(0, 180), ani_fac_v=r.u(1.2, 5.0), ani_fac_e=1.0)
    else:
        s = mech(r, "el0_%d" % i, rheo=("cst", "pwl"), elastic=True, **kw)
        t = s.meta["tau_ref"] * .3
        L = s.par["xmax"] - s.par["xmin"]
        a, b = r.u(-t, t), r.u(-t, t)
        s.cfg += ["fld Txx %.9g 0 0 %.9g %.9g 0 %.9g 0" % (a, .3 * t, 6 / L, 5 / L), "fld Tzz %.9g 0 0 %.9g %.9g 0 %.9g 0" % (-a, -.3 * t, 6 / L, 5 / L), "fld Txz %.9g" % b]
    s.par["nit_max"] = 60
    s.par["nonlin_abs_mom"] = s.par["nonlin_abs_div"] = 1e-11
    s.par["nonlin_rel_mom"] = s.par["nonlin_rel_div"] = 1e-9
    s.fam = fam
    if rng(seed, tag + "pin", i).p(.3): s.cfg.append("pinned 1")
    if fam != 4 and rng(seed, tag + "oop", i).p(.15): s.par["out_of_plane"] = 1
    return s

def conv_flags(run):
    """per time step: did the code announce convergence?"""
    parts = run.out.split("****************** Time step ")[1:]
    return ["Non-linear solver converged to" in p for p in parts]

def refused(R):
    """the code stops, with a message, when a step moves markers too far for reseeding"""
    return R.rc == 77 and "simulation will stop" in R.out

def flow_runs(v, exe, seed, n, base, dumps, tag="flow"):
    for R in pmap(lambda i: run_scn(exe, flow_case(seed, i, dumps, tag), base), range(n)):
        if R.timed_out:
            v.inconc(R.scn.name + " timed out"); continue
        if R.rc in (0, 1) or refused(R):
            if R.rc:
                v.count("runs the code itself refused to continue")
            yield R
        else:
            v.fail("crash", "%s: run ended with status %s" % (R.scn.name, R.rc), run=R)

def cells_in(q):
    return q.n("BCp") == -1

@prop("P01", "per time step that the code reports as converged: force balance at every free velocity node, relative to the largest term; stress equal to what the recorded strain rates and viscosities imply",
      ["grids 15..36 nodes a side", "residual threshold 1e-4 of the largest term (tolerances in the setup are 1e-9..1e-11)"], min_evals=200)
def p01(v, tier, seed):
    exe = build("plain")
    with Scratch() as base:
        for R in flow_runs(v, exe, seed, n_of(tier, 192, 1600), base, ["postsolve " + FLOW]):
            cf_ = conv_flags(R)
            for q, ok in zip(R.recs("postsolve"), cf_):
                v.count("solves observed")
                if not ok:
                    v.count("solves not claimed converged"); continue
                stab = R.scn.par.get("free_surface_stab", 0.0)
                (Fx, Sx, Mx), (Fz, Sz, Mz) = orc.momentum(q, q.n("sxxd"), q.n("szzd"), q.v("sxz"), q.n("p_in"), stab)
                sc = max(Sx[Mx].max(), Sz[Mz].max()) or 1.0
                # the absolute tolerance of the set-up is on the root mean square of the force per cell times the diagonal of the system (a viscosity)
                vol = q["dx"] * q["dz"] * np.min(q.n("eta_n")[cells_in(q)]) * min(q["dx"] / q["dz"], q["dz"] / q["dx"])
                for nm, F, M in (("x", Fx, Mx), ("z", Fz, Mz)):
                    e = np.where(M, abs(F), 0) / sc
                    lim = max(1e-4, 3 * R.scn.get("nonlin_abs_mom") * math.sqrt(M.sum()) / (vol * sc))
                    v.peak("peak force imbalance " + nm, e.max()); v.count("force balances evaluated", int(M.sum()))
                    if lim > 1e-4: v.count("balances with an absolute tolerance above 1e-4 of the forces")
                    if not e.max() < lim:
                        k = np.unravel_index(np.argmax(np.nan_to_num(e, nan=9)), e.shape)
                        v.fail("balance-" + nm, "%s step %d: %s-force imbalance %.3g of the largest term at node %s although convergence was reported" % (R.scn.name, q["step"], nm, e[k], k), run=R)
                k = (R.scn.fam, R.scn.meta["bc"], R.scn.meta["scale"], R.scn.par.get("Newton", 0), int(q["step"]))
                v.saw(k); v.sample("%s %s" % (R.scn.name, k))

@prop("P02", "per converged time step: divergence (plus compression rate when compressible) of every cell, relative to the largest velocity gradient; net inflow of the box equals the volume change",
      ["cells above the free surface carry no mass"], min_evals=200)
def p02(v, tier, seed):
    exe = build("plain")
    with Scratch() as base:
        for R in flow_runs(v, exe, seed, n_of(tier, 192, 1600), base, ["postsolve phase* m.bet " + FLOW]):
            for q, ok in zip(R.recs("postsolve"), conv_flags(R)):
                if not ok:
                    v.count("solves not claimed converged"); continue
                comp = int(q["compressible"])
                K = orc.kin(q, comp)
                inn = cells_in(q)
                g = max(abs(K["dudx"][inn]).max(), abs(K["exz"]).max(), 1e-300)
                src = np.zeros_like(K["div"])
                if comp:
                    bet = 1 / np.maximum(np.tensordot(1 / q["m.bet"][:int(q["Nb_phases"])], q.perc_n(), 1), 1e-300)
                    src = -np.where(inn, bet, 0) * (q.n("p_in") - q.n("p0_n")) / q.s["dt"] + q.n("divth0_n")
                e = np.where(inn, abs(K["div"] - src), 0) / g
                v.peak("peak mass imbalance" + (" (compressible)" if comp else ""), e.max())
                if comp:
                    v.peak("peak |div| in compressible runs", (abs(K["div"][inn]) / g).max())
                if not e.max() < 1e-6:
                    k = np.unravel_index(np.argmax(np.nan_to_num(e, nan=9)), e.shape)
                    v.fail("mass", "%s step %d: cell %s gains mass at %.3g of the strain rate" % (R.scn.name, q["step"], k, e[k]), run=R)
                v.count("cells evaluated", int(inn.sum()))
                k = (R.scn.fam, R.scn.meta["bc"], R.scn.meta["scale"], int(q["step"]))
                v.saw(k); v.sample("%s %s" % (R.scn.name, k))

# ------------------------------------------------------------------ boundary conditions
@prop("P03", "per solve, every wall: imposed normal velocity, imposed or stress-free tangential motion, periodic wrap - computed from the setup, not from the code's own tags",
      ["walls crossed by the free surface are judged only below it"], min_evals=1500)
def p03(v, tier, seed):
    exe = build("plain")
    with Scratch() as base:
        def case(i):
            s = flow_case(seed, i, ["postsolve " + FLOW], "bc")
            r = rng(seed, "bcx", i)
            if i % 3 == 1 and s.meta["bc"] in ("pure",) and s.fam != 4:
                s.par["pure_shear_ALE"] = 1; s.par["advection"] = 1; s.par["Nt"] = 3; s.par["dt"] = .02 / abs(s.par["bkg_strain_rate"])
                s.par["gz"] = s.par["gx"] = 0.0
            return run_scn(exe, s, base)
        for R in pmap(case, range(n_of(tier, 192, 1200))):
            if R.timed_out:
                v.inconc(R.scn.name); continue
            if R.rc not in (0, 1) and not refused(R):
                v.fail("crash", "%s: status %s" % (R.scn.name, R.rc), run=R); continue
            for q in R.recs("postsolve"):
                check_bc(v, R, q)

def check_bc(v, R, q):
    s, m = R.scn, R.scn.meta
    V, L = q["sc.V"], q["sc.L"]
    u, w = q.u("u_in") * V, q.w("v_in") * V
    xmin, xmax, zmin, zmax = (q[k] * L for k in ("xmin", "xmax", "zmin", "zmax"))
    x = np.linspace(xmin, xmax, q.Nx); z = np.linspace(zmin, zmax, q.Nz)
    xc, zc = .5 * (x[1:] + x[:-1]), .5 * (z[1:] + z[:-1])
    e = s.par["bkg_strain_rate"]
    air_c = (q.n("BCp") == 30) | (q.n("BCp") == 31)
    fs = s.get("free_surface") == 1
    okW, okE = ~air_c[:, 0], ~air_c[:, -1]
    tests = []
    bc = m["bc"]
    if bc == "pure":
        tests += [("W normal", u[1:-1, 0][okW], np.full(okW.sum(), -xmin * e)), ("E normal", u[1:-1, -1][okE], np.full(okE.sum(), -xmax * e)),
                  ("S normal", w[0, 1:-1], np.full(q.Nx - 1, zmin * e))]
        if not fs:
            tests.append(("N normal", w[-1, 1:-1], np.full(q.Nx - 1, zmax * e)))
        tests += [("S slip", u[0, 1:-1], u[1, 1:-1])]
        if not fs:
            tests += [("N slip", u[-1, 1:-1], u[-2, 1:-1]), ("W slip", w[1:-1, 0], w[1:-1, 1]), ("E slip", w[1:-1, -1], w[1:-1, -2])]
    elif bc == "simple":
        Lz = zmax - zmin
        tests += [("N tangential", .5 * (u[-1] + u[-2])[:-1], np.full(q.Nx - 1, e * Lz)), ("S tangential", .5 * (u[0] + u[1])[:-1], np.full(q.Nx - 1, -e * Lz)),
                  ("N normal", w[-1, 1:-1], 0 * xc), ("S normal", w[0, 1:-1], 0 * xc),
                  ("periodic Vx", u[1:-1, 0], u[1:-1, -1]), ("periodic Vz W", w[1:-1, 0], w[1:-1, -2]), ("periodic Vz E", w[1:-1, -1], w[1:-1, 1])]
    else:
        lin = [float(t) for t in next(c for c in s.cfg if c.startswith("lin ")).split()[1:]]
        fx = lambda X, Z: lin[0] + lin[1] * X + lin[2] * Z
        fz = lambda X, Z: lin[3] + lin[4] * X + lin[5] * Z
        tests += [("W normal", u[1:-1, 0], fx(xmin, zc)), ("E normal", u[1:-1, -1], fx(xmax, zc)), ("S normal", w[0, 1:-1], fz(xc, zmin)), ("N normal", w[-1, 1:-1], fz(xc, zmax))]
        if bc == "lin":
            tests += [("N tangential", .5 * (u[-1] + u[-2])[1:-1], fx(x, zmax)[1:-1]), ("S tangential", .5 * (u[0] + u[1])[1:-1], fx(x, zmin)[1:-1]),
                      ("E tangential", .5 * (w[:, -1] + w[:, -2])[1:-1], fz(xmax, z)[1:-1]), ("W tangential", .5 * (w[:, 0] + w[:, 1])[1:-1], fz(xmin, z)[1:-1])]
        else:
            tests += [("N slip", u[-1, 1:-1], u[-2, 1:-1]), ("S slip", u[0, 1:-1], u[1, 1:-1]), ("W slip", w[1:-1, 0], w[1:-1, 1]), ("E slip", w[1:-1, -1], w[1:-1, -2])]
    sc = max(abs(e) * max(xmax - xmin, zmax - zmin), 1e-300)
    if bc in ("lin", "linfs"):
        sc = max(sc, max(abs(t[2]).max() for t in tests))
    for nm, a, b in tests:
        d = abs(a - b).max() / sc if len(a) else 0.0
        v.peak("peak wall mismatch", d)
        v.count("wall nodes evaluated", len(a))
        if not d < 1e-7:
            v.fail("wall", "%s step %d (%s): %s velocity off by %.3g of the imposed scale" % (s.name, q["step"], bc, nm, d), run=R)
        v.saw((bc, nm, m["scale"], s.fam, min(int(q["step"]), 3), s.get("pure_shear_ALE")))
    v.sample("%s %s step %d" % (s.name, bc, q["step"]))

# ------------------------------------------------------------------ exact solutions
def homog(r, i, dumps):
    """one material (possibly split in identical phases), affine boundary velocities: the flow must be that affine field"""
    kind = r.c(["cst", "pwl", "ve", "vep", "aniso", "comp", "ve"])
    nph = r.i(1, 3)
    s = mech(r, "patch%d" % i, nph=nph, rheo=("pwl",) if kind == "pwl" else ("cst",), bc=r.c(["pure", "lin", "linfs", "simple"]), elastic=kind in ("ve", "vep", "comp"), gravity=False,
             Nt=r.c([1, 1, 2, 4]), advection=0, dumps=dumps, compressible=int(kind == "comp"))
    for p in s.phases[1:]:
        p.clear(); p.update(s.phases[0])
    if kind == "vep":
        for p in s.phases:
            p.update(plast=1, C=s.meta["tau_ref"] * .3, phi=0.0, eta_vp=s.meta["eta_ref"] * .2)
        s.par["Newton"] = 1; s.par["nit_max"] = 40
    if kind == "aniso":
        s.par.update(anisotropy=1, finite_strain=1)
        f, a = r.u(1.5, 6), r.u(0, 180)
        for p in s.phases:
            p.update(ani_fac_v=f, aniso_factor=f, aniso_angle=a)
    s.par["nonlin_abs_mom"] = s.par["nonlin_abs_div"] = 1e-13; s.par["nonlin_rel_mom"] = s.par["nonlin_rel_div"] = 1e-11
    s.par["nit_max"] = 25
    s.kind = kind
    return s

def affine(s, q):
    e, L = s.par["bkg_strain_rate"], q["sc.L"]
    if s.meta["bc"] == "pure":
        return [0, -e, 0, 0, 0, e]
    if s.meta["bc"] == "simple":
        zc = .5 * (q["zmin"] + q["zmax"]) * L
        return [-2 * e * zc, 0, 2 * e, 0, 0, 0]
    return [float(t) for t in next(c for c in s.cfg if c.startswith("lin ")).split()[1:]]

@prop("P04", "runs with a known exact answer: affine flow of a uniform material, hydrostatic rest of a horizontally layered one, Couette flow of viscous layers; velocities, stresses and pressure compared node by node",
      ["uniform or horizontally layered materials"], min_evals=160)
def p04(v, tier, seed):
    exe = build("plain")
    n = n_of(tier, 120, 900)
    with Scratch() as base:
        for R in pmap(lambda i: run_scn(exe, homog(rng(seed, "patch", i), i, ["postsolve " + FLOW + " d1_n"]), base), range(n)):
            s = R.scn
            if R.timed_out: v.inconc(s.name); continue
            if R.rc:
                v.fail("crash", "%s (%s): uniform material, status %s" % (s.name, s.kind, R.rc), run=R); continue
            tau_xx = tau_xz = 0.0
            for q, ok in zip(R.recs("postsolve"), conv_flags(R)):
                if not ok:
                    v.count("solves not claimed converged"); break   # later steps inherit its stresses
                V, L, S = q["sc.V"], q["sc.L"], q["sc.S"]
                A = affine(s, q)
                x, z = q["xg_coord"] * L, q["zg_coord"] * L
                xv, zu = q["xvz_coord"] * L, q["zvx_coord"] * L
                ue = A[0] + A[1] * x[None, :] + A[2] * zu[:, None]; we = A[3] + A[4] * xv[None, :] + A[5] * z[:, None]
                sc = max(abs(ue).max(), abs(we).max())
                du = abs(q.u("u_in") * V - ue)[1:-1].max() / sc; dw = abs(q.w("v_in") * V - we)[:, 1:-1].max() / sc
                v.peak("peak velocity error (affine)", max(du, dw))
                if not max(du, dw) < 2e-6:
                    v.fail("affine-velocity", "%s (%s, %s) step %d: uniform material under affine boundary motion deviates by %.3g" % (s.name, s.kind, s.meta["bc"], q["step"], max(du, dw)), run=R)
                # stress from the closed form
                exx, exz = A[1], .5 * (A[2] + A[4])
                eii = math.hypot(exx, exz)
                p0 = s.phases[0]
                if s.kind in ("cst", "pwl", "ve", "vep"):
                    eta = p0["eta0"] if s.kind != "pwl" else p0["eta0"] * eii ** (1 / p0["npwl"] - 1)
                    if s.kind == "pwl":
                        eta = pwl_factor(p0["npwl"]) * eta
                    if s.kind in ("ve", "vep"):
                        dt, G = q["dt"] * q["sc.t"], p0["G"]
                        eve = 1 / (1 / eta + 1 / (G * dt))
                        ax, az = exx + tau_xx / (2 * G * dt), exz + tau_xz / (2 * G * dt)
                        txx, txz = 2 * eve * ax, 2 * eve * az
                        if s.kind == "vep":
                            tii = math.hypot(txx, txz)
                            if tii > p0["C"]:   # overstress viscoplasticity: tau = tau_y + eta_vp * rate
                                ty = tii - (tii - p0["C"]) * eve / (eve + p0["eta_vp"])
                                txx *= ty / tii; txz *= ty / tii
                        # rotation of the stored stress is checked elsewhere; with advection off it is still applied, so only the first step is exact here
                    else:
                        txx, txz = 2 * eta * exx, 2 * eta * exz
                    first = int(q["step"]) == 1
                    if first or s.kind in ("cst", "pwl"):
                        sii = math.hypot(txx, txz)
                        d1 = abs(q.n("sxxd") * S - txx).max() / sii; d2 = abs(q.v("sxz") * S - txz)[1:-1, 1:-1].max() / sii; d3 = abs(q.n("szzd") * S + txx).max() / sii
                        v.peak("peak stress error (affine)", max(d1, d2, d3))
                        if not max(d1, d2, d3) < 1e-5:
                            v.fail("affine-stress", "%s (%s) step %d: stress of uniform material off by %.3g" % (s.name, s.kind, q["step"], max(d1, d2, d3)), run=R)
                        pp = q.n("p_in") * S
                        if s.kind != "comp":
                            dp = (pp.max() - pp.min()) / sii
                            v.peak("peak pressure spread (affine)", dp)
                            if not dp < 3e-4:
                                v.fail("affine-pressure", "%s (%s): pressure of uniform weightless material varies by %.3g of the stress" % (s.name, s.kind, dp), run=R)
                v.saw(("affine", s.kind, s.meta["bc"], s.meta["scale"], min(int(q["step"]), 2)))
            v.sample("%s %s %s" % (s.name, s.kind, s.meta["bc"]))
        # ---- hydrostatic rest and Couette layers
        def lay(i):
            r = rng(seed, "layer", i)
            hyd = i % 2 == 0
            s = mech(r, ("hydro%d" if hyd else "couette%d") % i, nph=r.i(2, 4), rheo=("cst",), bc="linfs" if hyd else "simple", elastic=False, gravity=hyd, Nt=1, dumps=["postsolve " + FLOW + " p_lith"])
            s.par["gx"] = 0.0
            s.par["initial_noise"] = 0
            s.par["eta_average"] = r.c([0, 1, 2])
            n = len(s.phases)
            L = s.par["zmax"] - s.par["zmin"]
            s.cfg = [c for c in s.cfg if not c.startswith(("shape", "lin"))]
            zb = s.par["zmin"]
            for k in range(1, n):
                s.cfg.append("shape p %d 0 1 %.12g" % (k, s.par["zmin"] + k * L / n))
            if hyd:
                s.cfg.append("lin 0 0 0 0 0 0")
            s.par["nonlin_abs_mom"] = s.par["nonlin_abs_div"] = 1e-14; s.par["nonlin_rel_mom"] = 1e-12
            s.hyd = hyd
            return run_scn(exe, s, base)
        for R in pmap(lay, range(n_of(tier, 40, 300))):
            s = R.scn
            if R.timed_out: v.inconc(s.name); continue
            qs = R.recs("postsolve")
            if R.rc or not qs:
                v.fail("crash", "%s: layered material, status %s" % (s.name, R.rc), run=R); continue
            q = qs[0]
            if s.hyd:
                rg = abs(q.s["gz"]) * q.n("rho_n").mean(); H = q["zmax"] - q["zmin"]
                vel = max(abs(q["u_in"]).max(), abs(q["v_in"]).max()); vs = rg * H * H / q["eta_n"].min()
                v.peak("peak spurious velocity at rest", vel / vs)
                if not vel / vs < 1e-6:
                    v.fail("rest", "%s: horizontally layered fluid at rest moves at %.3g of the buoyant scale" % (s.name, vel / vs), run=R)
                p, rn = q.n("p_in"), q.n("rho_n")
                dp = np.diff(p, axis=0) + .5 * (rn[1:] + rn[:-1]) * abs(q.s["gz"]) * q["dz"]
                e = abs(dp).max() / (rg * q["dz"])
                v.peak("peak hydrostatic pressure error", e)
                if not e < 1e-5:
                    v.fail("hydrostatic", "%s: vertical pressure gradient differs from the weight by %.3g" % (s.name, e), run=R)
                # density of each layer is what the setup says
                v.saw(("hydro", s.meta["scale"], len(s.phases), s.par["eta_average"]))
            else:
                t = q.v("sxz")[:, 1:-1]
                e = (t.max() - t.min()) / abs(t).max()
                v.peak("peak Couette stress spread", e)
                es, ez = q.v("eta_s")[:, 1:-1], 2 * q.v("exz")[:, 1:-1]
                if not e < 1e-5:
                    v.fail("couette-stress", "%s: shear stress across viscous layers varies by %.3g" % (s.name, e), run=R)
                # total velocity jump is the imposed one
                mid = q.u("u_in")[:, 3]
                # interior layers carry their own viscosity
                ed = q.v("eta_s") * q["sc.eta"]
                etas = [p["eta0"] for p in s.phases]
                lo, hi = min(etas) * (1 - 1e-9), max(etas) * (1 + 1e-9)
                if ed.min() < lo or ed.max() > hi:
                    v.fail("couette-viscosity", "%s: layer viscosity outside the range of the materials" % s.name, run=R)
                v.saw(("couette", s.meta["scale"], len(s.phases), s.par["eta_average"]))
            v.sample(s.name)

def pwl_factor(n):
    """invariant conversion used for user-defined power-law prefactors (none: eta0 is the viscosity prefactor)"""
    return 1.0
