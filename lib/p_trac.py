"""Walls on which a normal stress is imposed instead of a velocity."""
import math
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import orc
from p_stokes import FLOW, conv_flags

W_, E_, S_, N_ = 1, 2, 4, 8

def p37_case(seed, i):
    r = rng(seed, "trac", i)
    uni = i % 3 == 0
    kind = r.c(["cst", "pwl", "ve"])
    s = mech(r, "trac%d" % i, nph=1 if uni else None, rheo=("cst", "pwl") if kind != "cst" and not uni else (kind if kind == "pwl" else "cst",), elastic=kind == "ve", bc="lin", gravity=False,
             Nt=1 if uni else r.i(1, 3), advection=0, dumps=["postsolve " + FLOW], contrast=2.0)
    s.par.update(gx=0.0, gz=0.0, Newton=0, nit_max=60, nonlin_abs_mom=1e-12, nonlin_abs_div=1e-12, nonlin_rel_mom=1e-10, nonlin_rel_div=1e-10, interp_stencil=r.c([1, 9]))
    slip = uni or r.p(.5)
    mask = r.c([E_, W_, S_, N_, E_ | N_, E_ | S_, W_ | N_, W_ | S_] + ([] if slip else [W_ | E_, S_ | N_, 15, 7, 14]))
    tau, e0 = s.meta["tau_ref"], s.meta["e0"]
    s.val = [tau * r.u(-2, 2) for _ in range(4)]
    a, x0, z0 = r.c([-1, 1]) * e0, r.u(-.2, .2) * e0 * (s.par["xmax"] - s.par["xmin"]), r.u(-.2, .2) * e0 * (s.par["zmax"] - s.par["zmin"])
    s.cfg = [c for c in s.cfg if not c.startswith(("bcv", "lin"))]
    s.lin = [x0, a, 0 if slip else r.u(-1, 1) * e0, z0, 0 if slip else r.u(-1, 1) * e0, -a]
    s.cfg += ["bcv %d" % (4 if slip else 3), "lin " + " ".join("%.12g" % t for t in s.lin), "bcs %d " % mask + " ".join("%.12g" % t for t in s.val)]
    s.mask, s.uni, s.kind, s.slip = mask, uni, kind, slip
    return s

@prop("P37", "every converged solve: balance of the half cells along walls of imposed normal stress from recorded stresses; balance of all inner points; uniform material against the closed form; walls of imposed velocity in the same model",
      ["fixed-point iterations only: the Newton matrix lacks such walls (noted in its source; such runs end with an error)", "no gravity: the code does not halve the weight of the half cells along such walls", "at most as many stress walls as leave no rigid motion free"], min_evals=130)
def p37(v, tier, seed):
    exe = build("plain")
    lin = bad = 0; last = None
    with Scratch() as base:
        for R in pmap(lambda i: run_scn(exe, p37_case(seed, i), base), range(n_of(tier, 96, 1200))):
            s = R.scn
            if R.timed_out: v.inconc(s.name); continue
            if R.rc not in (0, 1): v.fail("crash", "%s: status %s" % (s.name, R.rc), run=R); continue
            if s.kind != "pwl":
                lin += 1; fl = list(conv_flags(R))
                if R.rc or not all(fl): bad += 1; last = (s, R)
            for q, ok in zip(R.recs("postsolve"), conv_flags(R)):
                if not ok:
                    v.count("solves not claimed converged"); break
                S, V, L = q["sc.S"], q["sc.V"], q["sc.L"]
                txx, tzz, sxz = (q.n("sxxd") - q.n("p_in")) * S, (q.n("szzd") - q.n("p_in")) * S, q.v("sxz") * S
                dx, dz = q["dx"] * L, q["dz"] * L
                val = s.val
                (Fx, Sx, Mx), (Fz, Sz, Mz) = orc.momentum(q, q.n("sxxd"), q.n("szzd"), q.v("sxz"), q.n("p_in"), 0.0)
                sc = max(Sx[Mx].max(), Sz[Mz].max()) * S / L
                for nm, F, M in (("x", Fx, Mx), ("z", Fz, Mz)):
                    e = abs(F[M]).max() * S / L / sc
                    v.peak("worst balance of inner points", e)
                    v.check(e < 5e-4, "inner-" + nm, "%s step %d: force balance of inner points off by %.3g" % (s.name, q["step"], e), s, R)
                wall = dict(W=(W_, (txx[:, 0] - val[0]) / dx, sxz[:, 0], dz), E=(E_, (val[1] - txx[:, -1]) / dx, sxz[:, -1], dz),
                            S=(S_, (tzz[0] - val[2]) / dz, sxz[0], dx), N=(N_, (val[3] - tzz[-1]) / dz, sxz[-1], dx))
                for nm, (bit, a, t, h) in wall.items():
                    if not s.mask & bit: continue
                    e = abs(a + .5 * (t[1:] - t[:-1]) / h).max() / sc
                    v.peak("worst balance along a wall of imposed stress", e); v.count("half cells judged", len(a))
                    v.check(e < 5e-4, "wall-" + nm, "%s step %d: balance of the half cells along wall %s (imposed stress %.4g Pa) off by %.3g" % (s.name, q["step"], nm, val["WESN".index(nm)], e), s, R)
                    v.saw((nm, s.mask, s.slip, s.kind, s.uni, s.meta["scale"]))
                x, z, xv, zu = (q[k] * L for k in ("xg_coord", "zg_coord", "xvz_coord", "zvx_coord"))
                fx = lambda X, Z: s.lin[0] + s.lin[1] * X + s.lin[2] * Z
                fz = lambda X, Z: s.lin[3] + s.lin[4] * X + s.lin[5] * Z
                u, w = q.u("u_in") * V, q.w("v_in") * V
                vs = max(abs(u).max(), abs(w).max())
                for bit, nm, A, B in ((W_, "W", u[1:-1, 0], fx(x[0], zu[1:-1])), (E_, "E", u[1:-1, -1], fx(x[-1], zu[1:-1])), (S_, "S", w[0, 1:-1], fz(xv[1:-1], z[0])), (N_, "N", w[-1, 1:-1], fz(xv[1:-1], z[-1]))):
                    if not s.mask & bit:
                        e = abs(A - B).max() / vs
                        v.check(e < 1e-7, "velocity-" + nm, "%s step %d: imposed velocity of wall %s off by %.3g" % (s.name, q["step"], nm, e), s, R)
                if s.uni and s.kind != "ve":
                    p0 = s.phases[0]; n = p0["npwl"] if s.kind == "pwl" else 1.0
                    mx, mz = s.mask & (W_ | E_), s.mask & (S_ | N_)
                    sx = val[0] if s.mask & W_ else val[1]; sz = val[2] if s.mask & S_ else val[3]
                    if mx and mz:                    # both stresses known: the flow follows
                        txd, P = .5 * (sx - sz), -.5 * (sx + sz)
                        A = p0["eta0"] if s.kind == "cst" else None
                        exx = txd / (2 * A) if A else None
                    else:
                        exx = s.lin[1]
                        txd = None
                    if s.kind == "cst":
                        if txd is None: txd = 2 * p0["eta0"] * exx
                        if mx and not mz: P = txd - sx
                        elif mz and not mx: P = -txd - sz
                        xf = x[-1] if s.mask & W_ else x[0]; zf = z[-1] if s.mask & S_ else z[0]
                        if mx and mz:
                            ue = fx(xf, 0) + exx * (x - xf); we = fz(0, zf) - exx * (z - zf)
                            ref = max(abs(ue).max(), abs(we).max())
                            e = max(abs(u[1:-1] - ue[None]).max(), abs(w[:, 1:-1] - we[:, None]).max()) / ref
                        else:
                            ue, we = fx(x, 0), fz(0, z); ref = max(abs(ue).max(), abs(we).max())
                            e = max(abs(u[1:-1] - ue[None]).max(), abs(w[:, 1:-1] - we[:, None]).max()) / ref
                        v.peak("worst velocity of a uniform material", e)
                        v.check(e < 5e-4, "uniform-velocity", "%s: velocity of a uniform material between walls of imposed stress off by %.3g" % (s.name, e), s, R)
                        ts = abs(txd) + abs(P)
                        e = max(abs(q.n("sxxd") * S - txd).max(), abs(q.n("p_in") * S - P).max()) / ts
                        v.peak("worst stress of a uniform material", e)
                        v.check(e < 5e-4, "uniform-stress", "%s: stress or pressure of a uniform material between walls of imposed stress off by %.3g" % (s.name, e), s, R)
                v.sample("%s mask %d %s" % (s.name, s.mask, s.kind))
    v.count("linear models", lin); v.count("linear models with a step that did not converge", bad)
    if last: v.check(bad < .2 * lin, "convergence", "%d of %d models of linear materials between walls of imposed stress do not converge" % (bad, lin), *last)
