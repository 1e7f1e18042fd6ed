"""P35: the linearised system the solver builds is that of the equations it solves."""
import math
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import orc
from p_stokes import FLOW, cells_in, refused

TIGHT = dict(nonlin_abs_mom=1e-13, nonlin_abs_div=1e-13, nonlin_rel_mom=1e-10, nonlin_rel_div=1e-10, lin_abs_mom=1e-12, lin_abs_div=1e-13, lin_rel_mom=1e-7, lin_rel_div=1e-7)

def p35_case(seed, i):
    r = rng(seed, "p35", i)
    fam = i % 10
    bc = r.c(["pure", "simple", "linfs"])      # the Newton matrix leaves out some terms next to walls of imposed tangential motion
    kw = dict(Nt=r.i(1, 2), advection=1, dumps=["residual m.bet phase* " + FLOW])
    if fam == 0: s = mech(r, "lin%d" % i, rheo=("cst",), elastic=False, **kw)
    elif fam == 1: s = mech(r, "el%d" % i, rheo=("cst",), elastic=True, **kw)
    elif fam == 2: s = mech(r, "co%d" % i, rheo=("cst",), elastic=True, compressible=1, **kw)
    elif fam == 3:
        s = mech(r, "an%d" % i, rheo=("cst",), elastic=False, contrast=2, bc=bc, **kw)
        s.par.update(anisotropy=1, finite_strain=1)
        for p in s.phases: p.update(aniso_factor=r.u(1.2, 5), aniso_angle=r.u(0, 180), ani_fac_v=r.u(1.2, 5), ani_fac_e=1.)
    elif fam == 4:
        s = freesurf(r, "fs%d" % i, **kw); s.par["elastic"] = r.i(0, 1)
    elif fam == 5: s = mech(r, "pwl%d" % i, rheo=("cst", "pwl", "pwl"), elastic=False, bc=bc, compressible=r.c([0, 0, 1]), **kw)
    elif fam in (6, 7): s = mech(r, "ve%d" % i, rheo=("pwl",), elastic=True, bc=bc, compressible=r.c([0, 0, 1]), **kw)
    else: s = mech(r, "vep%d" % i, rheo=("cst", "pwl"), elastic=True, plastic=True, compressible=1, contrast=1., bc=bc, **kw)
    s.fam = fam
    s.linear = fam <= 4
    s.par.update(TIGHT)
    s.par["Newton"] = r.i(0, 1) if s.linear else 1
    s.par["nit_max"] = 2 if s.linear else 12
    if s.linear and r.p(.3): s.par.update(lin_solver=1, rel_tol_KSP=1e-12)
    if fam != 4 and r.p(.2): s.par["out_of_plane"] = 1
    if r.p(.4): s.cfg.append("pinned 1")
    if r.p(.3): s.par["line_search"] = 1
    return s

def imbalance(q, stab=0.):
    """largest momentum and mass imbalance relative to the largest term"""
    comp = int(q["compressible"])
    (Fx, Sx, Mx), (Fz, Sz, Mz) = orc.momentum(q, q.n("sxxd"), q.n("szzd"), q.v("sxz"), q.n("p_corr"), stab)
    sc = max(Sx[Mx].max(), Sz[Mz].max()) or 1.
    F = max(abs(Fx[Mx]).max(), abs(Fz[Mz]).max()) / sc
    K = orc.kin(q, comp); inn = cells_in(q)
    g = max(abs(K["dudx"][inn]).max(), abs(K["exz"]).max(), 1e-300)
    src = 0
    if comp:
        bet = 1 / np.maximum(np.tensordot(1 / q["m.bet"][:int(q["Nb_phases"])], q.perc_n(), 1), 1e-300)
        src = -np.where(inn, bet, 0) * (q.n("p_in") - q.n("p0_n")) / q.s["dt"] + q.n("divth0_n")
    D = np.where(inn, abs(K["div"] - src), 0).max() / g
    return F, D

@prop("P35", "per solve of a model with linear rheology: force and mass balance, recomputed from the recorded fields, hold after one linear solve; per Newton solve of a non-linear one: the imbalance of the last iteration but one, once below 1e-5, drops by more than 30 in the next",
      ["force balance to 1e-5 of the largest term, mass balance to 1e-4 of the largest strain rate", "the coupled Krylov solver weighs the two balances together: 1e-4 and 2e-2 there; the direct solver with penalty, which checks no force balance, is left out", "non-linear: walls of imposed tangential motion left out, where the matrix omits terms; with plasticity 5% of the solves may switch between yielding and not"], min_evals=250)
def p35(v, tier, seed):
    exe = build("plain")
    slow, n = [], 0
    with Scratch() as base:
        for R in pmap(lambda i: run_scn(exe, p35_case(seed, i), base), range(n_of(tier, 320, 3200))):
            s = R.scn
            if R.timed_out: v.inconc(s.name); continue
            if R.rc not in (0, 1) and not refused(R): v.fail("crash", "%s: status %s" % (s.name, R.rc), run=R); continue
            if R.rc: v.count("runs the code itself refused to continue")
            st = {}
            for q in R.recs("residual"): st.setdefault(int(q["step"]), []).append(imbalance(q, s.par.get("free_surface_stab", 0.)))
            tag = (s.fam, s.meta["bc"], s.meta["scale"], s.par["Newton"], "pinned 1" in s.cfg, s.par.get("out_of_plane", 0), s.get("lin_solver"))
            for k, l in st.items():
                if s.linear:
                    if len(l) < 2: continue
                    F, D = l[1]
                    v.saw(tag + (k,)); v.peak("peak force imbalance after one linear solve", F); v.peak("peak mass imbalance after one linear solve", D)
                    k1 = s.get("lin_solver") == 1
                    if not F < (1e-4 if k1 else 1e-5): v.fail("linear-momentum", "%s step %d: the flow of a linear rheology is out of balance by %.2g of the largest force after a linear solve" % (s.name, k, F), run=R)
                    if not D < (2e-2 if k1 else 1e-4): v.fail("linear-mass", "%s step %d: mass imbalance of %.2g of the strain rate after a linear solve" % (s.name, k, D), run=R)
                else:
                    t = [(b / a, a, b, j) for j, ((a, _), (b, _)) in enumerate(zip(l, l[1:])) if j >= 1 and 1e-8 <= a < 1e-5]
                    if not t: continue
                    q, a, b, j = t[-1]
                    v.saw(tag + (k,)); v.count("Newton iterations seen", len(l) - 1)
                    if s.fam < 8:
                        v.peak("peak of the last reduction", q)
                        if not q < 1 / 30: v.fail("newton", "%s step %d: iteration %d of Newton's method takes the imbalance from %.2g only to %.2g" % (s.name, k, j + 1, a, b), run=R)
                    else:
                        n += 1
                        if not q < 1 / 30: slow.append((s, R, k, j, a, b))
        v.count("solves with plasticity", n); v.count("of these slow", len(slow))
        if len(slow) > max(3, .05 * n):
            s, R, k, j, a, b = slow[0]
            v.fail("newton-plastic", "%d of %d solves with plasticity do not converge as Newton's method should, e.g. %s step %d: iteration %d takes the imbalance from %.2g only to %.2g" % (len(slow), n, s.name, k, j + 1, a, b), run=R)
