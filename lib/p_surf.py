"""P20: the free surface: topography, surface processes, the staircase of cells under it."""
import math
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import mk
from p_mark import runs_of

CH = "c.x c.z c.z0 c.phase c.ini_x c.ini_z c.ini_z0 c.ini_phase"
FLAGS = "BCu BCv BCp BCg BCt T xg_coord zg_coord xc_coord zc_coord xvz_coord zvx_coord"

def p20_case(seed, i):
    r = rng(seed, "p20", i)
    s = freesurf(r, "surf%d" % i, Nt=4); s.fam = i % 6
    L = s.par["zmax"] - s.par["zmin"]; W = s.par["xmax"] - s.par["xmin"]; dx = W / (s.par["Nx"] - 1)
    T = s.par["dt"]; e0 = s.meta["e0"]
    s.par["pure_shear_ALE"] = r.c([-1, 0, 1, 1]); s.par["topo_update"] = r.c([0, 1, 1])
    s.par.update(constant_dt=r.c([1, 1, 0]), Courant=r.u(.1, .5), dt_max=T * 20, dt_min=T * 1e-9)
    if i % 3 == 1:                      # strong strain: the chain is thinned, leaves, enters
        s.par["pure_shear_ALE"] = r.c([-1, -1, 0]); s.par["bkg_strain_rate"] = r.c([-1, 1]) * r.u(.01, .06) / T; s.par["Nt"] = 6
        if r.p(.5):                     # and moves across the box: a wall lets it in, the other out
            e = s.par["bkg_strain_rate"] * r.u(-1, 1); U = r.c([-1, 1]) * r.u(.3, .9) * dx / T
            s.cfg = [c for c in s.cfg if not c.startswith("bcv")] + ["bcv 4", "lin %.9g %.9g 0 %.9g 0 %.9g" % (U, -e, -e * s.par["zmin"] * 0, e)]
    mode = [0, 1, 2, 5, 1, 2][i % 6] if r.p(.8) else r.i(0, 5)
    s.par["surface_processes"] = mode
    s.par.update(surf_diff=dx * dx / T * r.lu(.02, 4) if r.p(.9) else 0.0, surf_sedirate=r.c([0, 1, 1]) * .01 * L / T * r.u(.1, 2), surf_baselev=s.meta["zs"] + s.meta["A"] * r.u(-1.5, 1.5),
                 surf_Vinc=.01 * L / T * r.u(.1, 1), surf_Winc=W * r.u(.1, .8), surf_ised1=r.i(0, len(s.phases) - 1), surf_ised2=r.i(0, len(s.phases) - 1))
    if r.p(.15): s.par["zero_mean_topo"] = 1
    if r.p(.3): s.par.update(finite_strain=1, track_T_P_x_z=1)
    if r.p(.4):
        for p in s.phases: p["rho"] = s.phases[0]["rho"]
    if r.p(.2): thermalise(r, s)
    if i % 10 == 7:                     # a rugged surface: peaks and holes one column wide
        dz = L / (s.par["Nz"] - 1); lam = dx * r.u(3, 5); A = min(dz * r.u(1, 8), .3 * L)
        if A > 2 * dz: s.par["Nt"] = 0  # nothing flows on such a surface: only its staircase is judged
        s.cfg = [c for c in s.cfg if not c.startswith("fld surf")] + ["fld surf %.12g 0 0 %.12g %.12g %.6g 0 0" % (s.meta["zs"] - .6 * A, A, 2 * math.pi / lam, r.u(0, 6.28))]
    s.par["min_part_cell"] = r.c([4, 8, 16]); s.par["reseed_mode"] = r.c([0, 0, 1])
    s.par["initial_noise"] = 1
    for p in s.phases: p["gs_ref"] = r.lu(1e-4, 1e-2)
    if s.meta["geo"] and r.p(.5): s.par["dt"] = T   # the sedimentary phase alternates every million years
    s.dumps = ["init t* c.x c.z c.phase " + FLAGS, "presolve rho_n rho_s FreeSurfW_n FreeSurfW_s t.a t.b t.height " + FLAGS, "preadv t* u_in v_in " + FLAGS, "step_begin t*",
               "substep_begin t.height t.ini_height", "moved t* p*", "prereseed t* p* " + FLAGS, "substep_end t.height t.a t.b p.x p.z p.phase " + FLAGS]
    return s

def project(M, x, z, z0, ph, h0, upd, ale):
    """heights at the columns from the chain"""
    s = M.s; dx = s["dx"]; n = M.Nx - 1
    a = ph != -1
    q = (x[a] - M["xc_coord"][0]) / dx
    k = np.ceil(q + .5).astype(int) - 1
    if a.any() and (k.min() < 0 or k.max() > n - 1): return None
    w = 1 - 2 * abs(M["xc_coord"][k] - x[a]) / dx
    val = z[a] - z0[a] if upd else z[a]
    Wm = np.bincount(k, w, n); B = np.bincount(k, w * val, n)
    D = np.where(Wm < 1e-30, 0, B / np.where(Wm < 1e-30, 1, Wm))
    h = np.zeros(M.Nx)
    h[1:-1] = .5 * (D[1:] + D[:-1]) + (h0[1:-1] if upd else 0)
    h[0] = h[1]; h[-1] = h[-2]
    return h

def line(M, h):
    a = np.diff(h) / M.s["dx"]
    return a, h[:-1] - M["xg_coord"][:-1] * a

def col(M, x):
    k = np.ceil((x - M.s["xmin"] - M.s["dx"] / 2) / M.s["dx"] + .5).astype(int) - 1
    return np.clip(k, 0, M.Nx - 2)

def at(M, ab, x):
    k = col(M, x)
    return ab[1][k] + ab[0][k] * x

def remesh(v, M, x, z, z0, ph, ab, ab0):
    """half columns left with fewer than four points of the chain get two more"""
    s = M.s; dx = s["dx"]; n = 2 * (M.Nx - 1)
    inb = (x <= s["xmax"]) & (x >= s["xmin"])
    c = {}
    for e in (-1e-9, 1e-9):
        k = np.clip(np.floor((x[inb] - s["xmin"]) / dx * 2 + e).astype(int), 0, n - 1); c[e] = np.bincount(k, minlength=n)
    lo, hi = np.minimum(c[-1e-9], c[1e-9]), np.maximum(c[-1e-9], c[1e-9])
    if ((lo < 4) & (hi >= 4)).any(): return None
    add = np.nonzero(hi < 4)[0]
    nx = np.concatenate([s["xmin"] + add * dx / 2 + dx / 8, s["xmin"] + add * dx / 2 + 3 * dx / 8])
    v.count("chain points added", len(nx)); v.count("chain points out of the box", int((~inb).sum()))
    X = np.concatenate([x[inb], nx]); Z = np.concatenate([z[inb], at(M, ab, nx)]); Z0 = np.concatenate([z0[inb], at(M, ab0, nx)])
    return X, Z, Z0, np.zeros(len(X), int)

def processes(M, h, scn):
    """erosion and sedimentation of the heights during dt"""
    s = M.s; mode = int(scn.par["surface_processes"]); dt, dx = s["dt"], s["dx"]
    par = scn.par; L, t = s["sc.L"], s["sc.t"]
    D = par["surf_diff"] / L * t / L; base = par["surf_baselev"] / L; sed = par["surf_sedirate"] / s["sc.V"]; Winc = par["surf_Winc"] / L; Vinc = par["surf_Vinc"] / s["sc.V"]
    h = h.copy(); ok = True
    close = lambda a: np.any(abs(a - base) < 1e-10 * (abs(base) + abs(a).max()))
    if mode in (1, 5):
        lim = .4 * dx * dx / D if D > 0 else math.inf
        n = int(dt / lim + 1); ds = dt if lim > dt else dt / n
        x = M["xg_coord"][1:-1]
        val = np.zeros(len(x))
        if mode == 5:
            inv = abs(x) < .5 * Winc
            if np.any(abs(abs(x) - .5 * Winc) < 1e-9 * dx): return None
            if inv.any(): val[inv] = -Vinc * Winc / (inv.sum() * dx)   # what is carved out in total is Winc * Vinc
        for _ in range(n):
            if close(h) and sed: return None
            lap = h[:-2] + h[2:] - 2 * h[1:-1]
            h[1:-1] += D * ds / dx ** 2 * lap + np.where(h[1:-1] < base, sed * ds, 0) + val * ds
    elif mode == 2:
        if close(h) and sed: return None
        h = np.where(h < base, h + sed * dt, h)
    return h

def same(v, key, got, want, scale, tol, where, scn, run, what):
    if got.shape != want.shape: v.fail(key, "%s: %s: %d values instead of %d" % (where, what, len(got), len(want)), scn, run); return False
    d = abs(got - want) / scale; d = np.where(np.isfinite(d), d, np.inf)
    v.peak("worst difference of " + key, float(d.max(initial=0))); v.count("values of " + key, d.size)
    if d.max(initial=0) > tol:
        k = int(np.argmax(d)); v.fail(key, "%s: %s[%d] is %.12g, expected %.12g" % (where, what, k, got.ravel()[k], want.ravel()[k]), scn, run); return False
    return True

def judge_substep(v, run, B, M, P, scn):
    s = M.s; H = s["zmax"] - s["zmin"]; W = s["xmax"] - s["xmin"]
    where = "%s step %d" % (scn.name, int(s["step"])); par = scn.par
    upd = int(par["topo_update"]) == 1; mode = int(par["surface_processes"]); ale = par["pure_shear_ALE"]
    tol = 1e-9
    M.a.update({k: P[k] for k in FLAGS.split() if k.endswith("coord")})
    if B is not None:
        if not same(v, "height0", M["t.height0"], B["t.height"], H, 0, where, scn, run, "the previous height"): return
    h0 = M["t.height0"]
    out = {}
    for pre in ("", "ini_"):
        x, z, z0, ph = (M["c." + pre + f] for f in ("x", "z", "z0", "phase"))
        hh0 = h0 if pre == "" else B["t.ini_height"]
        e = 1e-9 * W
        q = (x - s["xmin"]) / s["dx"]
        if np.any((ph != -1) & ((abs(x - s["xmin"]) < e) | (abs(x - s["xmax"]) < e))): v.count("substeps left out: chain on the wall"); return
        h = project(M, x, z, z0, ph, hh0, upd, ale)
        if h is None: v.fail("outside", "%s: an active point of the chain lies outside the box" % where, scn, run); return
        rm = remesh(v, M, x, z, z0, ph, line(M, h), line(M, hh0))
        if rm is None: v.count("substeps left out: count of chain points decided by round-off"); return
        h = project(M, *rm, hh0, upd, ale)
        out[pre] = (rm, h)
    rm, h = out[""]
    before = h
    h = processes(M, h, scn)
    if h is None: v.count("substeps left out: threshold decided by round-off"); return
    if int(par.get("zero_mean_topo") or 0): h = h - h.mean()
    D = par["surf_diff"] * s["dt"] * s["sc.t"] > 0
    v.saw((mode, upd, float(ale), scn.meta["scale"], len(rm[0]) > len(M["c.x"]), bool((M["c.phase"] == -1).any()), int(par.get("zero_mean_topo") or 0)))
    v.count("substeps judged"); v.count("substeps with surface processes", int(np.any(h != before)))
    if not same(v, "height", P["t.height"], h, H, tol, where, scn, run, "topography"): return
    ab = line(M, P["t.height"])
    same(v, "slope", P["t.a"], ab[0], max(1e-3, abs(ab[0]).max()), 1e-8, where, scn, run, "slope of the surface")
    same(v, "offset", P["t.b"], ab[1], max(W, H), 1e-9, where, scn, run, "surface at the origin")
    hf = np.stack([.75 * before[:-1] + .25 * before[1:], .25 * before[:-1] + .75 * before[1:]], 1).ravel()
    same(v, "hfine", P["t.hfine"], hf, H, tol, where, scn, run, "height of the fine columns")
    # the chain lies on the surface afterwards
    ok = P["c.phase"] != -1
    o = np.lexsort((P["c.z"][ok], P["c.x"][ok])); x1, z1, z01 = P["c.x"][ok][o], P["c.z"][ok][o], P["c.z0"][ok][o]
    w = np.sort(rm[0])
    if not same(v, "chain", x1, w, W, tol, where, scn, run, "position of the chain"): return
    amb = abs((x1 - s["xmin"]) / s["dx"] - np.round((x1 - s["xmin"]) / s["dx"])) < 1e-9
    e = at(P, (P["t.a"], P["t.b"]), x1)
    same(v, "chain-z", z1[~amb], e[~amb], H, tol, where, scn, run, "height of the chain"); same(v, "chain-z0", z01[~amb], e[~amb], H, tol, where, scn, run, "previous height of the chain")
    # the reference surface below the sediments
    rmi, hi = out["ini_"]
    if not same(v, "ini-height", P["t.ini_height"], hi, H, tol, where, scn, run, "height of the reference surface"): return
    ok = P["c.ini_phase"] != -1
    o = np.argsort(P["c.ini_x"][ok]); x1, z1 = P["c.ini_x"][ok][o], P["c.ini_z"][ok][o]
    if not same(v, "ini-chain", x1, np.sort(rmi[0]), W, tol, where, scn, run, "position of the reference chain"): return
    amb = abs((x1 - s["xmin"]) / s["dx"] - np.round((x1 - s["xmin"]) / s["dx"])) < 1e-9
    e = np.minimum(at(P, (P["t.ini_a"], P["t.ini_b"]), x1), at(P, (P["t.a"], P["t.b"]), x1))
    same(v, "ini-chain-z", z1[~amb], e[~amb], H, tol, where, scn, run, "height of the reference chain")
    # markers: those above the surface are taken out, sediments fill what was added
    n0, n1 = len(M["p.x"]), len(P["p.x"])
    ex = {}
    if mode == 2:
        dx = s["dx"]; k = np.arange(4 * (P.Nx - 1)); xs = s["xmin"] + (k + .5) * dx / 4
        hm0, hm = at(P, line(P, h0), xs), at(P, (P["t.a"], P["t.b"]), xs)
        sure, may = hm > hm0 + 1e-11 * H, hm > hm0 - 1e-11 * H
        v.count("sediment markers", int(sure.sum()))
        got = P["p.x"][n0:]
        hit = np.isin(np.round((got - s["xmin"]) / dx * 4 - .5).astype(int), k[may])
        if not v.check(sure.sum() <= len(got) <= may.sum() and hit.all(), "sediment-number", "%s: the surface rose at %d places and %d sediment markers were added" % (where, sure.sum(), len(got)), scn, run): return
        kk = np.round((got - s["xmin"]) / dx * 4 - .5).astype(int)
        if not v.check(np.isin(k[sure], kk).all(), "sediment-place", "%s: sediments were added at the wrong places" % where, scn, run): return
        if len(got):
            same(v, "sediment-x", got, xs[kk], W, tol, where, scn, run, "position of the sediments"); same(v, "sediment-z", P["p.z"][n0:], .5 * (hm + hm0)[kk], H, tol, where, scn, run, "height of the sediments")
            my = s["time"] * s["sc.t"] / (3600 * 365.25 * 24 * 1e6)
            if abs(my - round(my)) > 1e-6 or round(my) == 0:
                phs = int(par["surf_ised1"] if int(math.floor(my + 1e-9 * (round(my) == 0))) % 2 else par["surf_ised2"])
                v.saw(("My", int(math.floor(my)) % 2))
                gone = P["p.z"][n0:] > at(P, (P["t.a"], P["t.b"]), got) - 1e-9 * H
                v.check(((P["p.phase"][n0:] == phs) | (gone & (P["p.phase"][n0:] == -1))).all(), "sediment-phase", "%s: sediments of phase %s instead of %d" % (where, np.unique(P["p.phase"][n0:]), phs), scn, run)
                v.check((P["p.dual"][n0:] == phs).all(), "sediment-dual", "%s: sediments of dual phase %s instead of %d" % (where, np.unique(P["p.dual"][n0:]), phs), scn, run)
                v.check((abs(P["p.rho"][n0:] * s["sc.rho"] / float(scn.ph(phs, "rho")) - 1) < 1e-9).all(), "sediment:rho", "%s: fresh sediments have density %.9g, phase %d %s" % (where, P["p.rho"][n0] * s["sc.rho"], phs, scn.ph(phs, "rho")), scn, run)
            z = 273.15 / s["sc.T"]
            want = dict(d=float(scn.ph(phs, "gs_ref") or 2e-3) / s["sc.L"], T=z, P=0, Vx=0, Vz=0, sxxd=0, szzd=0, sxz=0, strain=0, strain_el=0, strain_pl=0, strain_pwl=0, strain_exp=0, strain_lin=0, strain_gbs=0, phi=0, X=0, divth=0, noise=0,
                        Fxx=1, Fzz=1, Fxz=0, Fzx=0, T0=z, Tmax=z, P0=0, Pmax=0)
            for f, e in want.items():
                if "p." + f in P.a: v.check((abs(P["p." + f][n0:] - e) <= 1e-12 * abs(e)).all(), "sediment:" + f, "%s: fresh sediments have %s = %.9g instead of %.9g" % (where, f, P["p." + f][n0:][0], e), scn, run)
            if "p.x0" in P.a: v.check((P["p.x0"][n0:] == got).all() and (P["p.z0"][n0:] == P["p.z"][n0:]).all(), "sediment:x0", "%s: fresh sediments have another origin than their position" % where, scn, run)
    else:
        if not v.check(n0 == n1, "markers", "%s: the number of markers changed from %d to %d with the surface" % (where, n0, n1), scn, run): return
    hx = at(P, (P["t.a"], P["t.b"]), M["p.x"])
    act = M["p.phase"] != -1
    near = abs(M["p.z"] - hx) < 1e-10 * H
    want = np.where(act & (M["p.z"] > hx), -1, M["p.phase"])
    bad = ~near & (want != P["p.phase"][:n0])
    v.count("markers compared with the surface", int(act.sum())); v.count("markers eroded", int((want != M["p.phase"]).sum()))
    if bad.any(): k = int(np.argmax(bad)); v.fail("eroded", "%s: marker %d at z = %.9g under a surface at %.9g has phase %d, before %d" % (where, k, M["p.z"][k], hx[k], P["p.phase"][k], M["p.phase"][k]), scn, run)
    for f in M.a:
        if f.startswith("p.") and not f.startswith(("p.strain", "p.F")) and f not in ("p.phase", "p.intag", "p.generation"):
            if not np.array_equal(M[f], P[f][:n0], equal_nan=True): v.fail("untouched:" + f, "%s: the surface changed %s of a marker" % (where, f), scn, run); break

def staircase(R):
    """the classification of cells and nodes under a topography; None where round-off decides"""
    nx, nz = R.Nx, R.Nz; H = R.s["zmax"] - R.s["zmin"]
    a, b, h = R["t.a"], R["t.b"], R["t.height"]
    ci = np.clip(np.arange(-1, nx), 0, nx - 2)
    hc = b[ci] + a[ci] * R["xvz_coord"]
    Z = R["zvx_coord"][:, None]
    if (abs(Z - hc) < 1e-11 * H).any() or (abs(R["zg_coord"][:, None] - h) < 1e-11 * H).any(): return None
    air = Z > hc
    t0 = np.where(air, 30, -1)
    g = t0.copy(); g[1:-1][t0[1:-1] != t0[:-2]] = 60
    t0 = g.copy(); g = t0.copy()
    c, w, e = t0[:, 1:-1], t0[:, :-2], t0[:, 2:]
    q = g[:, 1:-1]
    q[(c == -1) & (w == 60) & (e == 60)] = 60
    # the neighbour to the east / west of the last / first cell is the ghost column
    q[(c == 30) & (e == -1) & ((w == 30) | (w == 60))] = 60
    q[(c == 30) & (w == -1) & ((e == 30) | (e == 60))] = 60
    q[(c == 30) & (w == -1) & (e == -1)] = 60
    g[:, -1] = g[:, -2]
    out = {}
    inner = g[1:-1, 1:-1]
    out["BCp"] = np.where(inner == 60, 31, inner); out["BCt"] = np.where(inner == 60, 30, inner)
    rock = g == -1
    u = np.full((nz + 1, nx), 30); u[rock[:, :-1] | rock[:, 1:]] = -1
    u[:, 0] = u[:, 1]; u[:, -1] = u[:, -2]
    w_ = np.full((nz, nx + 1), 30); w_[rock[:-1] | rock[1:]] = -1
    w_[:, 0] = w_[:, 1]; w_[:, -1] = w_[:, -2]
    out["BCu"], out["BCv"] = u, w_
    A = R["zg_coord"][:, None] > h
    k = A.copy(); k[:-1] |= A[1:]
    k2 = k.copy()
    for i in range(1, nx): k2[:, i] |= k2[:, i - 1] if False else k[:, i - 1]
    return out, air, rock, k

def judge_flags(v, run, R, scn, where):
    r = staircase(R)
    if r is None: v.count("flag tables left out: round-off decides"); return
    out, air, rock, _ = r
    n = {"BCp": R.n, "BCt": R.n, "BCu": R.u, "BCv": R.w}
    for f, e in out.items():
        g = n[f](f)
        # walls carry their own conditions wherever the node is not in the air
        bad = (g == 30) != (e == 30) if f in ("BCu", "BCv") else g != e
        v.count("nodes classified", g.size)
        if bad.any():
            k = np.argwhere(bad)[0]; v.fail("flag:" + f, "%s %s: %s at row %d column %d is %d, expected %d" % (scn.name, where, f, k[0], k[1], g[tuple(k)], e[tuple(k)]), scn, run); return
    bp = R.n("BCp")
    v.saw(("stairs", int(np.count_nonzero(np.diff((bp == 31).argmax(0)))) > 0)); v.count("surface cells", int((bp == 31).sum()))
    # a vertex is inside wherever the cells around it are, outside wherever a surface lies below it
    g = R.v("BCg"); nx, nz = R.Nx, R.Nz
    core = (bp == -1)
    ins = np.zeros((nz, nx), bool)
    pad = np.pad(core, ((0, 0), (1, 1)), mode="edge")
    ins[1:-1] = pad[:-1, :-1] & pad[:-1, 1:] & pad[1:, :-1] & pad[1:, 1:]
    A = R["zg_coord"][:, None] > R["t.height"]
    up = A.copy(); up[:-1] |= A[1:]
    H = lambda m: m
    lf = up.copy()
    for i in range(1, nx): lf[:, i] |= lf[:, i - 1] & ~up[:, i]
    # spreading sideways: one pass eastwards in place, one westwards in place
    e = up.copy()
    for i in range(1, nx): e[:, i] |= e[:, i - 1]
    w = e.copy()
    for i in range(nx - 1): w[:, i] |= e[:, i + 1]
    want = np.where(w & ~ins, 30, -1)
    bad = (g != want); v.count("nodes classified", g.size)
    if bad.any():
        k = np.argwhere(bad)[0]; v.fail("flag:BCg", "%s %s: BCg at row %d column %d is %d, expected %d" % (scn.name, where, k[0], k[1], g[tuple(k)], want[tuple(k)]), scn, run); return

def judge_density(v, run, R, scn):
    """the part of a cut cell that is rock carries its weight"""
    bp = R.n("BCp"); a, b = R["t.a"], R["t.b"]; nx, nz = R.Nx, R.Nz
    where = "%s step %d" % (scn.name, int(R["step"]))
    hc = b + a * R["xc_coord"]
    top = np.zeros_like(bp, bool); top[:-1] = (bp[:-1] == -1) & (bp[1:] == 31)
    W = np.where(top, abs(hc - R["zc_coord"][:, None]) / R.s["dz"], 1.0); W[np.isin(bp, mk.AIRT)] = 0
    if not same(v, "weight", R.n("FreeSurfW_n"), W, 1, 1e-9, where, scn, run, "filling of the cells"): return
    g = R.v("BCg"); tv = np.zeros_like(g, bool); tv[:-1] = (g[:-1] == -1) & (g[1:] == 30)
    hv = np.concatenate([hc[:1], .5 * (hc[1:] + hc[:-1]), hc[-1:]])
    Wv = np.where(tv, abs(hv - R["zg_coord"][:, None]) / R.s["dz"], 1.0); Wv[g == 30] = 0
    if not same(v, "weight-v", R.v("FreeSurfW_s"), Wv, 1, 1e-9, where, scn, run, "filling around the vertices"): return
    rhos = {p["rho"] for p in scn.phases}
    if len(rhos) == 1 and all(int(p.get("density_model", 1) or 0) in (0,) for p in scn.phases):
        pass
    v.count("densities of cut cells", int(top.sum()))
    un = 1.0 / R.s["sc.rho"]
    same(v, "rho-air", R.n("rho_n")[np.isin(bp, mk.AIRT)], np.full(int(np.isin(bp, mk.AIRT).sum()), un), un, 1e-12, where, scn, run, "density of the air")
    if len(rhos) == 1 and not int(scn.get("thermal") or 0):
        rho = rhos.pop() / R.s["sc.rho"]
        alp = any(float(p.get("alp", 0) or 0) for p in scn.phases)
        if not alp:
            same(v, "rho-n", R.n("rho_n")[bp == -1], (rho * W)[bp == -1], rho, 1e-9, where, scn, run, "density of a cell")
            same(v, "rho-s", R.v("rho_s")[g == -1], (rho * Wv)[g == -1], rho, 1e-9, where, scn, run, "density at a vertex")

def judge_velocity(v, run, R, scn):
    where = "%s step %d" % (scn.name, int(R["step"])); nx, nz = R.Nx, R.Nz
    U, Wz = R.u("u_in"), R.w("v_in"); bu, bv = R.u("BCu"), R.w("BCv")
    sc = max(abs(U).max(), abs(Wz).max()) or 1
    def first(b):
        m = (b[1:] == 30) & (b[:-1] != 30); j = m.argmax(0) + 1; return j, m.sum(0) == 1
    ju, ok = first(bu)
    if not same(v, "vx", R["t.vx"][ok], U[ju - 1, np.arange(nx)][ok], sc, 1e-12, where, scn, run, "horizontal velocity of the surface"): return
    jv, okv = first(bv)
    if not same(v, "vz", R["t.vz"][okv], Wz[jv - 2, np.arange(nx + 1)][okv], sc, 1e-12, where, scn, run, "vertical velocity of the surface"): return
    x = R["c.x"]; a = (R["c.phase"] != -1)
    e = np.interp(x, R["xg_coord"], R["t.vx"]); ez = np.interp(x, R["xvz_coord"], R["t.vz"])
    same(v, "chain-vx", R["c.Vx"][a], e[a], sc, 1e-9, where, scn, run, "horizontal velocity of the chain"); same(v, "chain-vz", R["c.Vz"][a], ez[a], sc, 1e-9, where, scn, run, "vertical velocity of the chain")

def judge_init(v, run, R, scn):
    s = R.s
    L = [c.split() for c in scn.cfg if c.startswith("fld surf")][0]; c0, cx, cz, A, kx, px = map(float, L[2:8])
    n = 23 * (R.Nx - 1)
    x = s["xmin"] + (np.arange(n) + .5) * s["dx"] / 23
    if not same(v, "init-x", R["c.x"], x, s["xmax"] - s["xmin"], 1e-12, scn.name, scn, run, "initial position of the chain"): return False
    lc = s["sc.L"]
    z = (c0 + cx * x * lc + A * math.cos(float(L[9]) if len(L) > 9 else 0) * np.cos(kx * x * lc + px)) / lc
    H = s["zmax"] - s["zmin"]
    same(v, "init-z", R["c.z"], z, H, 1e-10, scn.name, scn, run, "initial height of the chain")
    m = z.reshape(-1, 23); w = 1 - 2 * abs((np.arange(23) + .5) / 23 - .5)
    D = (m * w).sum(1) / w.sum(); h = np.concatenate([[0], .5 * (D[1:] + D[:-1]), [0]]); h[0], h[-1] = h[1], h[-2]
    same(v, "init-height", R["t.height"], h, H, 1e-9, scn.name, scn, run, "initial topography")
    a = np.diff(R["t.height"]) / s["dx"]
    same(v, "init-slope", R["t.a"], a, max(1e-3, abs(a).max()), 1e-8, scn.name, scn, run, "initial slope")
    return True

@prop("P20", "after every move of the free surface: heights, slopes, chain, sediments, eroded markers and every cell and node flag recomputed; surface velocities and the filling of the cut cells at every step",
      ["slopes that are only carried by topo_update=1 are not advected sideways (documented design)"], min_evals=1000)
def p20(v, tier, seed):
    exe = build()
    scns = [p20_case(seed, i) for i in range(n_of(tier, 120, 1200))]
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            B = M = last = None
            for q in run.recs("init", "step_begin", "presolve", "preadv", "substep_begin", "moved", "prereseed", "substep_end"):
                w = q.where
                if w == "init": judge_init(v, run, q, run.scn); judge_flags(v, run, q, run.scn, "at the start"); last = q
                elif w == "presolve": judge_density(v, run, q, run.scn)
                elif w == "preadv": judge_velocity(v, run, q, run.scn)
                elif w == "substep_begin":
                    B = q
                    if last is not None: v.check(np.array_equal(last["t.height"], q["t.height"]), "drift", "%s step %d: the topography changed between two moves" % (run.scn.name, int(q["step"])), run.scn, run)
                elif w == "moved": M = q
                elif w == "prereseed" and M is not None:
                    judge_substep(v, run, B, M, q, run.scn); judge_flags(v, run, q, run.scn, "step %d" % int(q["step"])); last = q; M = None
                elif w == "substep_end":
                    judge_flags(v, run, q, run.scn, "step %d" % int(q["step"]))
                    hx = at(q, (q["t.a"], q["t.b"]), q["p.x"]); up = (q["p.phase"] != -1) & (q["p.z"] > hx + 1e-9 * (q.s["zmax"] - q.s["zmin"]))
                    v.check(not up.any(), "above", "%s step %d: an active marker lies above the surface" % (run.scn.name, int(q["step"])), run.scn, run)
