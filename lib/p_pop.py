"""P18: the population of markers: reseeding and inflow."""
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import mk
from p_adv import rk4, substeps
from p_mark import runs_of

COPY = ["phase", "dual", "rho", "Vx", "Vz", "divth", "strain", "strain_el", "strain_pl", "strain_pwl", "strain_exp", "strain_lin", "strain_gbs",
        "Fxx", "Fxz", "Fzx", "Fzz", "T0", "P0", "x0", "z0", "Tmax", "Pmax", "nx", "nz"]
STATE = [("d", "d_n"), ("T", "T"), ("P", "p_in"), ("phi", "phi_n"), ("X", "X_n"), ("noise", "noise_n"), ("sxxd", "sxxd"), ("szzd", "szzd"), ("sxz", "sxz")]
GRID = "xg_coord zg_coord xc_coord zc_coord BCt BCp BCg " + " ".join(g for _, g in STATE)

def p18_case(seed, i):
    r = rng(seed, "p18", i)
    k = i % 8
    if k == 0: s = mech(r, "pop%d" % i, Nt=3, advection=1, bc=r.c(["lin", "linfs"]), rheo=("cst", "pwl"), gravity=True); s.fam = 0
    elif k == 1: s = mech(r, "pop%d" % i, Nt=3, advection=1, bc="simple"); s.fam = 1
    elif k in (2, 3): s = mech(r, "pop%d" % i, Nt=3, advection=1, bc="pure"); s.fam = 2; s.par["pure_shear_ALE"] = r.i(0, 1)
    elif k == 4:
        s = freesurf(r, "pop%d" % i, Nt=3); s.fam = 3; s.par["pure_shear_ALE"] = r.i(0, 1)
        if i % 16 == 12:          # a basin that fills: sediments pile up above the initial surface
            L, T = s.par["xmax"] - s.par["xmin"], s.par["dt"]
            s.par.update(Nt=5, surface_processes=r.c([2, 2, 1, 5]), surf_diff=(L / s.par["Nx"]) ** 2 / T * r.lu(.1, 4), surf_sedirate=L / s.par["Nz"] / T * r.u(.2, .8), surf_baselev=s.meta["zs"] + s.meta["A"] * r.u(0, 3),
                         surf_Vinc=0.0, surf_Winc=.1 * L, surf_ised1=r.i(0, len(s.phases) - 1), surf_ised2=r.i(0, len(s.phases) - 1)); s.fam = 13
    elif k == 5: s = mech(r, "pop%d" % i, Nt=3, advection=1, bc="pure"); s.fam = 4; s.par["pure_shear_ALE"] = -1
    else: s = full(r, "pop%d" % i, Nt=3, fam=(i // 8) % 6)
    if k in (0, 1, 2, 3, 5):
        s.par["dt"] = r.lu(.02, .1) / s.meta["e0"]
        s.par["constant_dt"] = r.c([1, 0, 0]); s.par["Courant"] = r.u(.2, .5); s.par["dt_max"] = 1e3 / s.meta["e0"]; s.par["dt_min"] = 1e-12 / s.meta["e0"]
    if k == 0 and s.par["constant_dt"] == 1: s.par["dt"] *= .3
    nx, nz = r.i(2, 5), r.i(2, 5)
    s.par.update(Nx_part=nx, Nz_part=nz, initial_noise=1, reseed_mode=r.c([0, 0, 1]), direct_neighbour=r.c([0, 0, 1]),
                 min_part_cell=r.c([4, 8, 12, 16, 16, min(nx * nz, 24), nx * nz // 2 + 1]))
    if r.p(.1): s.par["reseed_markers"] = 0
    if r.p(.4): s.par.update(track_T_P_x_z=1, finite_strain=1)
    if k in (1, 3, 5) and r.p(.6) and not s.par.get("Newton"):
        s.par.update(anisotropy=1, finite_strain=1, marker_aniso_angle=1)
        for p in s.phases: p.update(aniso_factor=r.u(1, 2), aniso_angle=r.u(0, 180))
        s.cfg = [c for c in s.cfg if not c.startswith("fld angle")]
        Lx = s.par["xmax"] - s.par["xmin"]
        s.cfg.append("fld angle %.6g 0 0 %.6g %.6g 0 %.6g 0" % (r.u(0, 360), r.u(0, 90), 5 / Lx, 3 / Lx))
        if r.p(.7): s.cfg.append("anglekeep %.6g" % r.c([0, r.u(-90, 90)]))
        else: s.par["marker_aniso_angle"] = 0
    s.dumps = ["prereseed p* t* " + GRID, "substep_end p* t*"]
    if s.par.get("pure_shear_ALE") == -1 and not s.par.get("periodic_x"):
        s.dumps += ["substep_begin u_in v_in BCu BCv p.x p.z p.phase", "moved p* u_in v_in BCu BCv xg_coord zg_coord xvz_coord zvx_coord"]
    return s

def quarter(P, x, z, e=0.):
    """indices of the quarter cell containing a point (shifted by e of its size)"""
    s = P.s
    ix = np.floor((x - P["xg_coord"][0]) / s["dx"] * 2 + e).astype(int)
    iz = np.floor((z - P["zg_coord"][0]) / s["dz"] * 2 + e).astype(int)
    return ix, iz

def judge_reseed(v, run, P, Q, scn):
    s = P.s
    par = scn.par
    st = int(P["step"])
    np0, nq = len(P["p.x"]), len(Q["p.x"])
    fs = bool(scn.get("free_surface"))
    mode = int(scn.get("reseed_mode") or 0)
    ph0, ph1 = P["p.phase"], Q["p.phase"]
    live = ph0 != -1
    if nq < np0: v.fail("shrunk", "%s step %d: the list of markers shrank from %d to %d" % (scn.name, st, np0, nq), scn, run); return
    names = [f for f in P.a if f.startswith("p.") and f not in ("p.intag",)]
    # surface: what lies above it is taken out afterwards
    dx, dz = s["dx"], s["dz"]
    ncx, ncz = P.Nx - 1, P.Nz - 1
    def surf(rec, x):
        c = np.clip(np.floor((x - P["xg_coord"][0]) / dx).astype(int), 0, ncx - 1)
        return rec["t.a"][c] * x + rec["t.b"][c]
    H = s["zmax"] - s["zmin"]
    above = np.zeros(nq, bool); under = np.ones(nq, bool)
    if fs:
        h = surf(P, Q["p.x"]); above = Q["p.z"] > h - 1e-9 * H; under = Q["p.z"] <= h + 1e-9 * H
    moved = np.zeros(np0, bool)
    for f in names:
        if f == "p.phase": continue
        moved |= ~((P[f] == Q[f][:np0]) | ((P[f] != P[f]) & (Q[f][:np0] != Q[f][:np0])))
    # 1. markers that exist stay as they are
    v.count("markers kept", int(live.sum()))
    bad = live & moved
    if bad.any():
        k = int(np.argmax(bad)); f = [g for g in names if P[g][k] != Q[g][k] and P[g][k] == P[g][k]][0]
        v.fail("touched", "%s step %d: reseeding changed %s of the existing marker %d from %.12g to %.12g" % (scn.name, st, f, k, P[f][k], Q[f][k]), scn, run)
    lost = live & (ph1[:np0] != ph0)
    wrong = lost & ~((ph1[:np0] == -1) & above[:np0])
    if wrong.any():
        k = int(np.argmax(wrong)); v.fail("phase", "%s step %d: marker %d changed from phase %d to %d during reseeding" % (scn.name, st, k, ph0[k], ph1[k]), scn, run)
    if fs:
        v.check(not (live & ~under[:np0] & (ph1[:np0] != -1)).any(), "above", "%s step %d: an active marker lies above the surface" % (scn.name, st), scn, run)
    # 2. new markers
    new = np.zeros(nq, bool); new[np0:] = True
    new[:np0] = ~live & (moved | (ph1[:np0] != -1))
    N = np.nonzero(new)[0]
    on = int(scn.get("reseed_markers") if scn.get("reseed_markers") is not None else 1) == 1
    v.saw((mode, on, fs, int(s["periodic_x"]), int(scn.get("direct_neighbour") or 0), bool(len(N)), scn.fam, scn.meta["scale"]))
    v.count("new markers", len(N))
    if not on:
        v.check(len(N) == 0, "off", "%s step %d: %d new markers although reseeding is off" % (scn.name, st, len(N)), scn, run); return
    nret = int((~live).sum())
    v.check(nq - np0 == max(0, len(N) - nret), "slots", "%s step %d: %d new markers, %d free places, but the list grew by %d" % (scn.name, st, len(N), nret, nq - np0), scn, run)
    v.check((Q["p.generation"][N] == 1).all(), "generation", "%s step %d: a new marker is not labelled as new" % (scn.name, st), scn, run)
    # 3. where they are needed: quarter cells with too few markers
    x, z = P["p.x"][live], P["p.z"][live]
    nqx, nqz = 2 * ncx, 2 * ncz
    ids = {}
    lo = np.zeros(nqx * nqz, int); hi = np.zeros(nqx * nqz, int)
    K = set()
    for ex in (-1e-9, 1e-9):
        for ez in (-1e-9, 1e-9):
            ix = np.clip(np.floor((x - P["xg_coord"][0]) / dx * 2 + ex).astype(int), 0, nqx - 1); iz = np.clip(np.floor((z - P["zg_coord"][0]) / dz * 2 + ez).astype(int), 0, nqz - 1)
            ids[ex, ez] = ix + iz * nqx
    c0 = ids[-1e-9, -1e-9]
    sure = np.ones(len(x), bool)
    for c in ids.values(): sure &= c == c0
    lo += np.bincount(c0[sure], minlength=nqx * nqz)
    hi += lo
    for c in ids.values(): hi += np.bincount(c[~sure], minlength=nqx * nqz)
    thr = 2 if mode == 1 else int(scn.get("min_part_cell")) // 4
    cell = np.arange(nqx * nqz); qi, qj = cell % nqx, cell // nqx
    air = P.n("BCt").ravel()[(qi // 2) + (qj // 2) * ncx] == 30
    cx, cz = P["xg_coord"][0] + (qi + .5) * dx / 2, P["zg_coord"][0] + (qj + .5) * dz / 2
    if fs and mode == 0:
        hc = surf(P, cx); need_in, may = cz < hc - 1e-9 * H, cz < hc + 1e-9 * H
    else: need_in = may = np.ones(len(cell), bool)
    need = (hi < thr) & ~air & need_in
    allowed = (lo < thr) & ~air & may
    nx_, nz_ = Q["p.x"][N], Q["p.z"][N]
    ix = np.clip(np.floor((nx_ - P["xg_coord"][0]) / dx * 2).astype(int), 0, nqx - 1); iz = np.clip(np.floor((nz_ - P["zg_coord"][0]) / dz * 2).astype(int), 0, nqz - 1)
    at = ix + iz * nqx
    got = np.bincount(at, minlength=nqx * nqz)
    v.count("quarter cells checked", int((~air).sum())); v.count("quarter cells short of markers", int(need.sum()))
    if (need & (got == 0)).any():
        c = int(np.argmax(need & (got == 0)))
        v.fail("missing", "%s step %d: quarter cell (%d, %d) holds %d markers of %d and got none" % (scn.name, st, qi[c], qj[c], hi[c], thr), scn, run)
    if (~allowed & (got > 0)).any():
        c = int(np.argmax(~allowed & (got > 0)))
        v.fail("surplus", "%s step %d: quarter cell (%d, %d) holds %d markers (%d wanted, air %s) and got a new one" % (scn.name, st, qi[c], qj[c], lo[c], thr, air[c]), scn, run)
    if (got > 1).any():
        c = int(np.argmax(got > 1)); v.fail("twice", "%s step %d: quarter cell (%d, %d) got %d new markers at once" % (scn.name, st, qi[c], qj[c], got[c]), scn, run)
    if len(N) and (abs(nx_ - cx[at]).max() > 1e-9 * (s["xmax"] - s["xmin"]) or abs(nz_ - cz[at]).max() > 1e-9 * H):
        v.fail("place", "%s step %d: a new marker is not at the centre of its quarter cell" % (scn.name, st), scn, run)
    # 4. what they are made of: the nearest marker of the neighbourhood
    A = np.nonzero(live)[0]
    aq = [(np.floor((P["p.x"][A] - P["xg_coord"][0]) / dx * 2 + e).astype(int), np.floor((P["p.z"][A] - P["zg_coord"][0]) / dz * 2 + e).astype(int)) for e in (-1e-9, 1e-9)]
    W = s["xmax"] - s["xmin"]
    per = int(s["periodic_x"]) == 1
    direct = int(scn.get("direct_neighbour") or 0) == 1
    copied = ["p." + f for f in COPY if "p." + f in P.a] + (["p." + f for f, _ in STATE] if direct else [])
    sed = int(scn.get("surface_processes") or 0) > 0 and fs and mode == 0
    for n, k in enumerate(N):
        i, j = ix[n], iz[n]
        blk = np.zeros(len(A), bool); strict = np.ones(len(A), bool)
        for a, b in aq:
            m = (abs(a - i) <= 2) & (abs(b - j) <= 2); blk |= m; strict &= m
        d = np.hypot(P["p.x"][A] - Q["p.x"][k], P["p.z"][A] - Q["p.z"][k])
        ok = strict
        if sed:
            above0 = Q["p.z"][k] - (P["t.ini_a"][i // 2] * Q["p.x"][k] + P["t.ini_b"][i // 2])
            if abs(above0) < 1e-9 * H: continue
            if above0 > 0:       # a new marker above the initial surface is made of sediments
                m = np.isin(P["p.phase"][A], [int(scn.get(k_) or 0) for k_ in ("surf_ised1", "surf_ised2")])
                blk &= m; ok = strict & m
                v.count("new markers in sediments" + ("" if ok.any() else " without sediments around (not judged)"))
                if not ok.any(): continue
        if not ok.any(): v.count("new markers without neighbours"); continue
        dm = d[ok].min()
        if dm >= W * (1 - 1e-9): continue
        C = blk & (d <= dm * (1 + 1e-9) + 1e-12 * W)
        if per:   # across the periodic wall
            dw = np.hypot(abs(abs(P["p.x"][A] - Q["p.x"][k]) - W), P["p.z"][A] - Q["p.z"][k])
            C |= dw <= dm
        C = A[C]
        fits = np.ones(len(C), bool)
        for f in copied:
            if f == "p.phase" and Q[f][k] == -1 and above[k]: continue
            fits &= (P[f][C] == Q[f][k]) | ((P[f][C] != P[f][C]) & (Q[f][k] != Q[f][k]))
        v.count("new markers traced to their source")
        if not fits.any():
            f = [g for g in copied if not any(P[g][C] == Q[g][k])] or copied[:1]
            v.fail("source:" + f[0], "%s step %d: the new marker at (%.6g, %.6g) has %s %.9g, its nearest neighbour %.9g" % (scn.name, st, Q["p.x"][k], Q["p.z"][k], f[0], Q[f[0]][k], P[f[0]][C[0]]), scn, run)
            break
    # 5. the state interpolated from the grid: bilinear, points in the air left out, flat beyond the outermost points
    if len(N) and not direct:
        for f, g in STATE:
            at_v = g == "sxz"
            F = (P.v if at_v else P.n)(g); A = np.isin((P.v if at_v else P.n)("BCg" if at_v else "BCp"), mk.AIRT)
            X, Z = (P["xg_coord"], P["zg_coord"]) if at_v else (P["xc_coord"], P["zc_coord"])
            mz, mx = F.shape
            a, b = (nx_ - X[0]) / dx, (nz_ - Z[0]) / dz
            i, j = np.floor(a).astype(int), np.floor(b).astype(int)
            num = 0.; den = 0.
            for jj, wz in ((j, 1 - (b - j)), (j + 1, b - j)):
                for ii, wx in ((i, 1 - (a - i)), (i + 1, a - i)):
                    ii = ii % mx if per and not at_v else np.clip(ii, 0, mx - 1)
                    w = np.where(A[np.clip(jj, 0, mz - 1), ii], 0, wx * wz)
                    num = num + w * F[np.clip(jj, 0, mz - 1), ii]; den = den + w
            ok = den > 1e-9
            e = num / np.where(ok, den, 1)
            size = np.nanmax(abs(P[g])) or 1.0
            if g in ("sxxd", "szzd", "sxz"): size = max(np.nanmax(abs(P[y])) for y in ("sxxd", "szzd", "sxz")) or 1.0
            err = np.where(ok, abs(Q["p." + f][N] - e) / size, 0); err = np.where(np.isfinite(err), err, np.inf)
            v.count("interpolated values", int(ok.sum()))
            k = int(np.argmax(err)); v.peak("worst interpolated value", float(err[k]))
            if err[k] > 1e-9: v.fail("state:" + f, "%s step %d: the new marker at (%.6g, %.6g) has %s %.9g, the grid %.9g" % (scn.name, st, nx_[k], nz_[k], f, Q["p." + f][N[k]], e[k]), scn, run)

def judge_inflow(v, run, a, b, scn):
    """markers that leave the half cell along an open wall leave a copy behind, half a cell outwards"""
    s = b.s; dx2 = s["dx"] / 2; st = int(a["step"])
    x0, z0, ph = a["p.x"], a["p.z"], a["p.phase"]
    n0 = len(x0)
    xf, zf, vx, vz, out, of, air, edge = rk4(b, x0, z0, b.s["dt"], int(scn.par.get("conserv_interp", 0)) == 1)
    act = ph != -1
    gone = act & of
    stay = act & ~of
    if (act & (edge | out) & ~of).any() or (act & edge).any(): v.count("substeps with markers on the edge left out"); return
    L = s["xmax"] - s["xmin"]
    tag = act & ((x0 <= s["xmin"] + dx2) | (x0 >= s["xmax"] - dx2))
    W = stay & tag & (xf >= s["xmin"] + dx2) & (xf <= s["xmin"] + 2 * dx2)
    E = stay & tag & (xf <= s["xmax"] - dx2) & (xf >= s["xmax"] - 2 * dx2)
    e = 1e-9 * L
    if (tag & ((abs(xf - s["xmin"] - dx2) < e) | (abs(xf - s["xmax"] + dx2) < e) | (abs(xf - s["xmin"] - 2 * dx2) < e) | (abs(xf - s["xmax"] + 2 * dx2) < e))).any() or (act & ((abs(x0 - s["xmin"] - dx2) < e) | (abs(x0 - s["xmax"] + dx2) < e))).any():
        v.count("substeps with markers on the edge left out"); return
    src = np.concatenate([np.nonzero(W)[0], np.nonzero(E)[0]]); off = np.concatenate([-np.ones(W.sum()), np.ones(E.sum())]) * dx2
    na = int((b["p.phase"] != -1).sum())
    v.saw(("inflow", bool(W.any()), bool(E.any()), scn.meta["scale"], bool(gone.any()))); v.count("markers copied in by inflow", len(src))
    v.check(na == int(stay.sum()) + len(src), "inflow-number", "%s step %d: %d markers remain and %d enter, but %d are active" % (scn.name, st, stay.sum(), len(src), na), scn, run)
    alive = np.nonzero(b["p.phase"] != -1)[0]
    names = [f for f in b.a if f.startswith("p.") and f not in ("p.x", "p.z", "p.intag", "p.generation", "p.progress", "p.aniso_angle")]   # the angle is used once, at the start
    turn = [float(c.split()[1]) for c in scn.cfg if c.startswith("anglekeep")] if scn.get("marker_aniso_angle") and "p.nx" in b.a else []
    if turn: names = [f for f in names if f not in ("p.nx", "p.nz")]
    for k, o in zip(src, off):
        X, Z = b["p.x"][k] + o, b["p.z"][k]
        c = alive[(abs(b["p.x"][alive] - X) < 1e-9 * L) & (b["p.z"][alive] == Z)]
        if not v.check(len(c) >= 1, "inflow-missing", "%s step %d: marker %d moved inwards to (%.6g, %.6g) and left no copy at x = %.6g" % (scn.name, st, k, b["p.x"][k], Z, X), scn, run): return
        if turn:             # the set-up is offered the angle of the followed marker, and turns it
            an = np.arctan2(b["p.nz"][k], b["p.nx"][k]) + np.radians(turn[0])
            v.count("entering markers whose director the set-up turned", int(turn[0] != 0)); v.count("entering markers that follow one with nz < 0", int(b["p.nz"][k] < -1e-3))
            if (abs(np.cos(an) * b["p.nz"][c] - np.sin(an) * b["p.nx"][c]) > 1e-9).all():
                v.fail("inflow-director", "%s step %d: the marker that follows marker %d with director (%.6g, %.6g) has (%.6g, %.6g) instead of being turned by %g degrees" % (scn.name, st, k, b["p.nx"][k], b["p.nz"][k], b["p.nx"][c[0]], b["p.nz"][c[0]], turn[0]), scn, run); return
        bad = [f for f in names if not any((b[f][c] == b[f][k]) | ((b[f][c] != b[f][c]) & (b[f][k] != b[f][k])))]
        if bad: v.fail("inflow-copy:" + bad[0], "%s step %d: the marker that follows marker %d has %s %.9g instead of %.9g" % (scn.name, st, k, bad[0], b[bad[0]][c[0]], b[bad[0]][k]), scn, run); return

@prop("P18", "the marker list before and after every reseeding: every existing marker, every quarter cell, every new marker traced to its nearest neighbour and the grid; and the copies made along inflow boundaries",
      ["new markers above the initial surface without a marker of a sedimentary phase around them not judged"], min_evals=400)
def p18(v, tier, seed):
    exe = build()
    scns = [p18_case(seed, i) for i in range(n_of(tier, 160, 1600))]
    with Scratch() as base:
        for run in runs_of(v, exe, scns, base):
            P = a = None
            for q in run.recs("substep_begin", "moved", "prereseed", "substep_end"):
                if q.where == "substep_begin": a = q
                elif q.where == "moved" and a is not None: judge_inflow(v, run, a, q, run.scn); a = None
                elif q.where == "prereseed": P = q
                elif q.where == "substep_end" and P is not None: judge_reseed(v, run, P, q, run.scn); P = None
