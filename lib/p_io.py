"""Output files against the state of the model; continuation from checkpoints."""
import glob
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import mk
from p_mark import near, runs_of

# ------------------------------------------------------------------ P25
CELL = [  # dataset, grid field, unit
    ("rho_n", "rho_n", "rho"), ("eta_n", "eta_phys_n", "eta"), ("P", "p_in", "S"), ("sxxd", "sxxd", "S"), ("szzd", "szzd", "S"), ("exxd", "exxd", "E"), ("ezzd", "ezzd", "E"),
    ("T", "T", "T"), ("d", "d_n", "L"), ("phi", "phi_n", None), ("OverS", "OverS_n", "S"), ("divu", "div_u", "E"), ("divu_el", "div_u_el", "E"), ("divu_pl", "div_u_pl", "E"),
    ("divu_th", "divth0_n", "E"), ("divu_r", "div_u_r", "E"), ("eII_el", "eII_el", "E"), ("eII_pl", "eII_pl", "E"), ("eII_pwl", "eII_pwl", "E"), ("eII_exp", "eII_exp", "E"),
    ("eII_lin", "eII_lin", "E"), ("eII_gbs", "eII_gbs", "E"), ("friction", "fric_n", None), ("cohesion", "C_n", "S")]
VERT = [("rho_s", "rho_s", "rho"), ("eta_s", "eta_phys_s", "eta"), ("sxz", "sxz", "S"), ("exz", "exz", "E")]
MARK = ["strain", "strain_el", "strain_pl", "strain_pwl", "strain_exp", "strain_lin", "strain_gbs"]
TS = "Time Short Work Uthermal Uelastic T_mean P_mean sxxd_mean szzd_mean sxz_mean Tii_mean exxd_mean ezzd_mean exz_mean Eii_mean".split()
IOF = ("xg_coord zg_coord xc_coord zc_coord xvz_coord zvx_coord BCp BCg BCu BCv BCt BCt_fine u_in v_in X_n p* t* phase* aniso_factor_n rx_abs rz_abs rp_abs isNewton "
       + " ".join(b for _, b, _ in CELL + VERT) + " " + " ".join(t + "_time" for t in TS))
RT = 4e-6       # single precision

def judge_ts(v, run, s):
    """time series against the states they summarise"""
    U = {}
    th = {}
    for q in run.recs("prethermal"): th[int(q["step"])] = q["T"].copy()
    acc = 0.0
    for q in run.recs("init") + run.recs("preadv"):
        k = int(q["step"])
        air = np.isin(q.n("BCp"), (30, 31)); ok = ~air
        sx, sz, ex, ez = (q.n(a)[ok] for a in ("sxxd", "szzd", "exxd", "ezzd"))
        m4 = lambda f: (.25 * (f[:-1, :-1] + f[1:, :-1] + f[:-1, 1:] + f[1:, 1:]))[ok]
        t, e = m4(q.v("sxz")), m4(q.v("exz"))
        S, E = q["sc.S"], q["sc.E"]
        exp = dict(Time=q["time"] * q["sc.t"], Short=(q["L0"] - (q["xmax"] - q["xmin"])) / q["L0"] * 100, T_mean=q.n("T")[ok].mean() * q["sc.T"], P_mean=q.n("p_in")[ok].mean() * S,
                   sxxd_mean=sx.mean() * S, szzd_mean=sz.mean() * S, sxz_mean=t.mean() * S, Tii_mean=np.sqrt(.5 * (sx ** 2 + sz ** 2) + t ** 2).mean() * S,
                   exxd_mean=ex.mean() * E, ezzd_mean=ez.mean() * E, exz_mean=e.mean() * E, Eii_mean=np.sqrt(.5 * (ex ** 2 + ez ** 2) + e ** 2).mean() * E)
        if k: exp["Time"] = exp["Time"]
        if q.where == "init": del exp["Short"]
        mag = dict(T_mean=abs(q.n("T")[ok]).mean() * q["sc.T"], P_mean=abs(q.n("p_in")[ok]).mean() * S, sxxd_mean=abs(sx).mean() * S, szzd_mean=abs(sz).mean() * S, sxz_mean=abs(t).mean() * S,
                   exxd_mean=abs(ex).mean() * E, ezzd_mean=abs(ez).mean() * E, exz_mean=abs(e).mean() * E)
        if k in th and s.get("thermal"):
            inst = np.isin(q.n("BCt"), (30, 31))
            exp["dU"] = None
        for n, x in exp.items():
            if n == "dU": continue
            g = q[n + "_time"][k]
            d = abs(g - x) / max(mag.get(n, abs(x)), abs(x), 1e-300)
            v.saw("time series: %s" % n)
            v.peak("time series, worst %s" % n, d)
            if not d < 1e-9:
                v.fail("timeseries:" + n, "%s step %d: the series %s holds %.9g, the state gives %.9g" % (s.name, k, n, g, x), s, run)
        if run.recs("init") and q.where == "preadv":
            prev = {n: U.get(n) for n in TS}
            for n in TS:      # earlier entries stay as recorded
                a = q[n + "_time"]
                if prev[n] is not None and not np.allclose(prev[n][:k], a[:k], rtol=1e-11, atol=0):
                    v.fail("timeseries:history", "%s step %d: earlier entries of the series %s changed" % (s.name, k, n), s, run)
        for n in TS: U[n] = q[n + "_time"].copy()
        v.saw("history of the series kept")

def heat(v, run, s):
    pre = {int(q["step"]): q for q in run.recs("prethermal")}
    post = {int(q["step"]): q for q in run.recs("thermal_grid")}
    for k in sorted(set(pre) & set(post)):
        a, b = pre[k], post[k]
        air = b.n("BCt") == 30
        dU = float((np.where(air, 0, b.n("rho_n") * b.n("Cp") * (b.n("T") - a.n("T")))).sum() * b["dx"] * b["dz"])
        mag = float((np.where(air, 0, abs(b.n("rho_n") * b.n("Cp") * (b.n("T") - a.n("T"))))).sum() * b["dx"] * b["dz"])
        g = b["Uthermal"] - a["Uthermal"]
        tot = abs(b["Uthermal"]) + abs(a["Uthermal"])
        d = abs(g - dU) / max(mag + 1e-7 * tot, 1e-300)
        v.saw("thermal energy of the step"); v.peak("thermal energy, worst", d)
        if not d < 1e-7: v.fail("uthermal", "%s step %d: the thermal energy account grew by %.9g, the temperature change amounts to %.9g" % (s.name, k, g, dU), s, run)

def vizmap(q, field, f):
    """allowed phases of every cell of the visualisation grid: the marker nearest in the bilinear sense; None where ambiguous"""
    nx, nz = (q.Nx - 1) * f, (q.Nz - 1) * f
    dx, dz = q.s["dx"] / f, q.s["dz"] / f
    a = mk.active(q)
    x, z, ph = q["p.x"][a], q["p.z"][a], q[field][a]
    X0, Z0 = q["xg_coord"][0], q["zg_coord"][0]
    fx, fz = (x - X0) / dx, (z - Z0) / dz
    i, j = np.clip(np.floor(fx).astype(int), 0, nx - 1), np.clip(np.floor(fz).astype(int), 0, nz - 1)
    edge = (abs(fx - np.rint(fx)) < 1e-7) | (abs(fz - np.rint(fz)) < 1e-7)
    w = (1 - abs(fx - i - .5)) * (1 - abs(fz - j - .5))
    ci, cj = np.clip((fx / f).astype(int), 0, q.Nx - 2), np.clip((fz / f).astype(int), 0, q.Nz - 2)
    air = np.isin(q.n("BCp")[cj, ci], (30, 31))
    k = i + j * nx
    best = np.full(nx * nz, -1.0); np.maximum.at(best, k[~air], w[~air])
    amb = np.zeros(nx * nz, bool)
    amb[k[edge]] = True
    for di in (-1, 0, 1):
        for dj in (-1, 0, 1):
            kk = np.clip(i + di, 0, nx - 1) + np.clip(j + dj, 0, nz - 1) * nx
            amb[kk[edge]] = True
    val = np.full(nx * nz, -1)
    top = ~air & (w >= best[k] - 1e-9)
    val[k[top]] = ph[top]
    # ties between different phases
    lo = np.full(nx * nz, 10 ** 6); hi = np.full(nx * nz, -1)
    np.minimum.at(lo, k[top], ph[top]); np.maximum.at(hi, k[top], ph[top])
    amb |= (hi >= 0) & (lo != hi)
    return val, ~amb

def cmp_h5(v, run, s, f, q, first):
    """one output file against the recorded state"""
    U = lambda u: 1.0 if u is None else q["sc." + u]
    bad = []
    def field(name, got, exp, ok=None, what="field", rt=RT, floor=1e-37):
        e = np.asarray(exp, float).ravel(); g = np.asarray(got, float).ravel() if got is not None else None
        v.saw(what + " datasets")
        if g is None or len(g) != len(e):
            bad.append((name, "missing or of the wrong length (%s instead of %d)" % (None if g is None else len(g), len(e)))); return
        ok = np.ones(len(e), bool) if ok is None else np.asarray(ok).ravel() & np.isfinite(e)
        with np.errstate(all="ignore"):
            d = abs(g - e) / np.maximum(abs(e), floor / rt)
        d = np.where(ok & (g != e), d, 0); d = np.where(np.isfinite(d), d, np.inf)
        d = np.where(ok & ~np.isfinite(e) & ~np.isfinite(g), 0, d)
        v.count("values compared with the state", int(ok.sum()))
        v.peak("worst relative deviation of a stored value", float(d.max()) if len(d) else 0)
        if len(d) and not d.max() < rt:
            k = int(np.argmax(d)); bad.append((name, "entry %d is %.9g, the state has %.9g" % (k, g[k], e[k])))
    D = lambda n: f[n] if f.has(n) else None
    for n, g, u in CELL:
        field("Centers/" + n, D("Centers/" + n), q[g] * U(u))
    for n, g, u in VERT:
        field("Vertices/" + n, D("Vertices/" + n), q[g] * U(u))
    field("VxNodes/Vx", D("VxNodes/Vx"), q["u_in"] * U("V")); field("VzNodes/Vz", D("VzNodes/Vz"), q["v_in"] * U("V"))
    for n in ("xg_coord", "zg_coord", "xc_coord", "zc_coord", "xvz_coord", "zvx_coord"):
        field("Model/" + n, D("Model/" + n), q[n] * U("L"), rt=1e-5, floor=1e-9 * abs(q["xmax"] - q["xmin"]) * U("L"))
    field("Model/Params", D("Model/Params"), [q["time"] * U("t"), (q["xmax"] - q["xmin"]) * U("L"), (q["zmax"] - q["zmin"]) * U("L"), q["Nx"], q["Nz"], q["dx"] * U("L"), q["dz"] * U("L"), q["dt"] * U("t")], what="parameter", rt=1e-12)
    for t in TS: field("TimeSeries/%s_time" % t, D("TimeSeries/%s_time" % t), q[t + "_time"], what="time series", rt=1e-12)
    for n, g in (("Centers/BCp", "BCp"), ("Flags/tag_s", "BCg"), ("Flags/tag_n", "BCp"), ("Flags/tag_u", "BCu"), ("Flags/tag_v", "BCv"), ("Flags/tag_t_fine", "BCt_fine")):
        field(n, D(n), q[g], what="flag")
    if not (first and False):
        if s.get("diffuse_X"):
            e, w = mk.m2g(q, q["p.X"], "c", s.get("interp_stencil") or 1)
            field("Centers/X", D("Centers/X"), e, ~np.isin(q.n("BCp"), (30, 31)) & (w > 1e-9), rt=1e-5)
        elif not first: field("Centers/X", D("Centers/X"), q["X_n"])
    if not first:
        n = int(q["nit_max"]) + 1
        for a in ("rx_abs", "rz_abs", "rp_abs"):
            got = D("Iterations/" + a)
            m = min(len(q[a]), int(q["nit"]) + 1)
            field("Iterations/" + a, None if got is None else got[:m], q[a][:m], what="iteration", rt=1e-12)
        got = D("Iterations/LogIsNewtonStep"); field("Iterations/LogIsNewtonStep", None if got is None else got[:m], q["isNewton"][:m], what="iteration")
        field("Iterations/NumberSteps", D("Iterations/NumberSteps"), [q["nit"]], what="iteration")
    # averages of the markers
    st = s.get("interp_stencil") or 1
    names = [(m, "p." + m, None) for m in MARK]
    if s.get("finite_strain") or s.get("anisotropy"): names += [(m, "p." + m, None) for m in ("Fxx", "Fxz", "Fzx", "Fzz")]
    if s.get("anisotropy"): names += [("nx", "p.nx", None), ("nz", "p.nz", None)]
    if s.get("track_T_P_x_z"): names += [("T0", "p.T0", "T"), ("P0", "p.P0", "S"), ("Tmax", "p.Tmax", "T"), ("Pmax", "p.Pmax", "S"), ("x0", "p.x0", "L"), ("z0", "p.z0", "L")]
    A = np.array([q[m] for _, m, _ in names])
    val, w = mk.m2g(q, A, "c", st)
    airp = np.isin(q.n("BCp"), (30, 31)); airt = q.n("BCt") == 30
    for (n, m, u), e in zip(names, val):
        got = D("Centers/" + n)
        sc = np.nanmax(abs(e[~airp])) if (~airp).any() else 0.0
        v.saw("marker average datasets")
        if got is None or got.size != e.size: bad.append(("Centers/" + n, "missing or of the wrong length")); continue
        d = np.where(~airp & (w > 1e-9), abs(got.reshape(e.shape) / U(u) - e), 0) / (sc or 1)
        v.count("values compared with the state", int((~airp).sum()))
        if not d.max() < 2e-6: bad.append(("Centers/" + n, "cell %s holds %.7g, the markers average to %.7g" % (np.unravel_index(int(d.argmax()), d.shape), got.ravel()[d.argmax()], (e * U(u)).ravel()[d.argmax()])))
        fill = {"T0": ZC0, "Tmax": ZC0, "P0": 0.0, "Pmax": 0.0}.get(n)
        if fill is not None and airt.any() and not np.allclose(got.reshape(e.shape)[airt], fill, rtol=1e-5): bad.append(("Centers/" + n, "air cells do not hold the filling value"))
    if s.get("anisotropy"): field("Centers/ani_fac", D("Centers/ani_fac"), q["aniso_factor_n"])
    # maps of materials
    for n, fld, fac in (("compo", "p.dual", 1), ("compo_dual_hr", "p.dual", 2), ("compo_hr", "p.phase", 2)):
        e, ok = vizmap(q, fld, fac)
        got = D("VizGrid/" + n); v.saw("material map datasets")
        if got is None or got.size != e.size: bad.append(("VizGrid/" + n, "missing or of the wrong length")); continue
        v.count("map cells compared", int(ok.sum()))
        w = ok & (got != e)
        if w.any(): bad.append(("VizGrid/" + n, "%d of %d cells differ; cell %d holds %d, the nearest marker has %d" % (w.sum(), ok.sum(), np.argmax(w), got[np.argmax(w)], e[np.argmax(w)])))
    for fac, t in ((1, ""), (2, "_hr")):
        for ax, x0, d, N in (("x", q["xg_coord"][0], q["dx"], q.Nx), ("z", q["zg_coord"][0], q["dz"], q.Nz)):
            field("VizGrid/%sviz%s" % (ax, t), D("VizGrid/%sviz%s" % (ax, t)), (x0 + np.arange((N - 1) * fac + 1) * d / fac) * U("L"), rt=1e-5, floor=1e-9 * abs(q["xmax"] - q["xmin"]) * U("L"))
    if s.get("free_surface"):
        for n, g, u in (("z_grid", "t.height", "L"), ("z_finer_cent", "t.hfine", "L"), ("Vx_grid", "t.vx", "V"), ("Vz_grid", "t.vz", "V"), ("x_mark", "c.x", "L"), ("z_mark", "c.z", "L"), ("Vx_mark", "c.Vx", "V"), ("Vz_mark", "c.Vz", "V"), ("phase_mark", "c.phase", None)):
            field("Topo/" + n, D("Topo/" + n), q[g] * U(u), what="surface")
    return bad

ZC0 = 273.15

def cmp_mark(v, run, s, f, q):
    bad = []
    U = lambda u: 1.0 if u is None else q["sc." + u]
    L = [("Particles/x", "p.x", "L"), ("Particles/z", "p.z", "L"), ("Particles/Vx", "p.Vx", "V"), ("Particles/Vz", "p.Vz", "V"), ("Particles/T", "p.T", "T"), ("Particles/P", "p.P", "S"), ("Particles/sxxd", "p.sxxd", "S"),
         ("Particles/sxz", "p.sxz", "S"), ("Particles/phase", "p.phase", None), ("Particles/generation", "p.generation", None)]
    if s.get("anisotropy"): L += [("Particles/nx", "p.nx", None), ("Particles/nz", "p.nz", None)]
    if s.get("free_surface"):
        for p in ("", "ini_"):
            g = "Topo/" if not p else "Topo_ini/"
            L += [(g + "height", "t.%sheight" % p, "L"), (g + "vxsurf", "t.%svx" % p, "V"), (g + "vzsurf", "t.%svz" % p, "V"), (g + "x", "c.%sx" % p, "L"), (g + "z", "c.%sz" % p, "L"), (g + "vx", "c.%sVx" % p, "V"), (g + "vz", "c.%sVz" % p, "V"), (g + "phase", "c.%sphase" % p, None)]
    for n, m, u in L:
        v.saw("marker file datasets")
        got = f[n].astype(float) if f.has(n) else None
        if got is None or not q.has(m) or len(got) != len(q[m]): bad.append((n, "missing or of the wrong length")); continue
        e = q[m] * U(u)
        live = q["p.phase"] >= 0 if n.startswith("Particles/") and n != "Particles/phase" else np.ones(len(e), bool)
        with np.errstate(all="ignore"): d = np.where(live & (got != e), abs(got - e) / np.maximum(abs(e), 1e-32), 0)
        d = np.where(np.isfinite(d), d, np.inf)
        v.count("values compared with the state", len(e))
        if not d.max() < RT: k = int(d.argmax()); bad.append((n, "entry %d is %.9g, the state has %.9g" % (k, got[k], e[k])))
    if not (f.has("Particles/index") and np.array_equal(f["Particles/index"], np.arange(len(q["p.x"])))): bad.append(("Particles/index", "not the marker numbers"))
    e = np.array([q["time"] * U("t"), (q["xmax"] - q["xmin"]) * U("L"), (q["zmax"] - q["zmin"]) * U("L"), q["Nx"], q["Nz"], q["dx"] * U("L"), q["dz"] * U("L"), q["dt"] * U("t")])
    if not (f.has("Model/Params") and np.allclose(f["Model/Params"], e, rtol=1e-12)): bad.append(("Model/Params", "%s instead of %s" % (f["Model/Params"] if f.has("Model/Params") else None, e)))
    return bad

def io_scenario(r, i):
    s = full(r, "out%d-fam%d" % (i, i % 6), Nt=r.i(2, 5), fam=i % 6)
    s.par["writer"] = 0 if i % 9 == 8 else 1
    s.par["writer_step"] = r.i(1, 3)
    s.par["writer_markers"] = r.i(0, 1)
    s.sub = r.c(["", "out", "res"])
    if s.sub: s.par["writer_subfolder"] = s.sub
    s.par["delete_breakpoints"] = r.c([-1, 0, 1])
    s.par["finite_strain"] = s.par.get("finite_strain", r.i(0, 1)) or (1 if s.par.get("anisotropy") else 0)
    if r.p(.6): s.par["track_T_P_x_z"] = 1
    if r.p(.3): s.cfg.append("dual")
    if s.fam == 5 and r.p(.5): s.par["diffuse_X"] = 1; s.par["diffusion_length"] = .1 * (s.par["xmax"] - s.par["xmin"])
    s.dumps = ["init " + IOF, "prewrite " + IOF, "preadv " + IOF, "prethermal T Uthermal BCt rho_n Cp", "thermal_grid T BCt rho_n Cp", "step_begin p.phase"]
    return s

@prop("P25", "output files hold the state of the model at the step they name", ["single-precision storage: 4e-6 relative"], min_evals=200)
def p25(v, tier, seed):
    exe = build("plain")
    with Scratch() as base:
        S = [io_scenario(rng(seed, "p25", i), i) for i in range(n_of(tier, 48, 480))]
        for run in runs_of(v, exe, S, base):
            if not run.recs("init"): continue
            s = run.scn
            judge_ts(v, run, s); heat(v, run, s)
            sub = s.sub
            ws = s.par["writer_step"]
            st = {0: run.recs("init")[0]}
            done = {int(q["step"]): q for q in run.recs("prewrite")}
            want = set()
            if s.par["writer"]:
                for k in [0] + [k for k in done if k % ws == 0]:
                    want.add("Output%05d.gzip.h5" % k)
                    if s.par["writer_markers"]: want.add("Particles%05d.gzip.h5" % k)
            st.update(done)
            have = set(os.path.basename(p) for p in glob.glob(os.path.join(run.dir, sub, "*.gzip.h5")))
            stray = set(os.path.basename(p) for d in ("", "out", "res") if d != sub for p in glob.glob(os.path.join(run.dir, d, "*.gzip.h5")))
            v.saw("set of files of a run")
            if have != want or stray:
                v.fail("files", "%s: output files missing %s, unexpected %s" % (s.name, sorted(want - have)[:4], sorted((have - want) | stray)[:4]), s, run); 
            F = read_h5(sorted(os.path.join(sub, f) for f in have & want), run.dir)
            for fn, f in F.items():
                b = os.path.basename(fn); k = int(b[-13:-8])
                if not f.s.get("opened"): v.fail("unreadable", "%s: %s is not a readable HDF5 file" % (s.name, b), s, run); continue
                bad = cmp_h5(v, run, s, f, st[k], k == 0) if b.startswith("Output") else cmp_mark(v, run, s, f, st[k])
                v.saw("files compared with the state")
                for n, what in bad[:3]: v.fail("content:" + n, "%s: %s %s: %s" % (s.name, b, n, what), s, run)

# ------------------------------------------------------------------ P26
STATE = "grid* p* t*"
RESULT = [f for f in IOF.split() if "*" not in f and not f.endswith("_time") and f not in ("rx_abs", "rz_abs", "rp_abs", "isNewton", "eta_s", "eta_n")]

def restart_scenario(r, i):
    fam = i % 8
    if fam < 6:
        s = full(r, "seg%d-fam%d" % (i, fam), Nt=1, fam=fam)
    elif fam == 6:      # elastic free surface
        s = freesurf(r, "seg%d-fam6" % i); thermalise(r, s); s.par["elastic"] = 1; s.fam = 6
        for p in s.phases: p["G"] = p["eta0"] / s.par["dt"] * r.u(1, 10)
        s.par["surface_processes"] = r.c([0, 1, 2, 5]); L = s.par["zmax"] - s.par["zmin"]
        s.par.update(surf_diff=.02 * L * L / (s.par["dt"] * 100), surf_sedirate=.002 * L / s.par["dt"], surf_baselev=s.meta["zs"], surf_Vinc=.001 * L / s.par["dt"], surf_Winc=.2 * L)
    else:               # deforming box
        s = mech(r, "seg%d-fam7" % i, rheo=("cst", "pwl"), bc="pure", gravity=False, advection=1); s.fam = 7
        s.par["pure_shear_ALE"] = r.c([1, -1])
        s.par["dt"] = r.u(.005, .02) / abs(s.par["bkg_strain_rate"])
    s.par["finite_strain"] = s.par.get("finite_strain", r.i(0, 1)) or (1 if s.par.get("anisotropy") else 0)
    if r.p(.5): s.par["track_T_P_x_z"] = 1
    if r.p(.3):
        s.par["constant_dt"] = 0; s.par["dt_max"] = 10 * s.par["dt"]; s.par["Courant"] = r.u(.1, .5)
        s.par["user1"] = s.par["dt"] * r.lu(.5, 5)      # reaction time scale of the runs with chemistry: 0 gives dt = 0
    if r.p(.3): s.par["Newton"] = 1
    if r.p(.3): s.par["reseed_mode"] = 1
    s.par["initial_noise"] = 1      # markers on a regular lattice sit on ties that round-off decides
    if r.p(.3): s.cfg.append("dual")
    s.par["writer_step"] = r.i(1, 2)
    s.par["writer_step"] = r.c([1, 1, 2])
    s.par["delete_breakpoints"] = r.c([-1, 0, 1])
    return s

def segments(r, ws, mode, last):
    """steps at which the run is stopped and continued; each is one for which a checkpoint exists"""
    cuts, k = [], 0
    for _ in range(r.i(1, 2)):
        c = [j for j in range(k + 1, last) if j % ws == 0]
        if not c: break
        k = r.c(c); cuts.append(k)
    return cuts

def run_segments(exe, s, base, cuts, last, r, spare=0):
    """the same model as a chain of runs in one directory; returns the runs"""
    out, start = [], 0
    d = re.sub(r"[^A-Za-z0-9_.-]", "_", s.name) + "-c"
    for j, k in enumerate(cuts + [last]):
        q = Scenario(s.name, s.par, s.phases, s.cfg, ["prewrite " + STATE, "init p.phase", "step_begin p.phase"])
        # an interrupted run may also have gone further than the checkpoint it is continued from
        over = 0 if k == last else spare
        q.par.update(writer=1, Nt=min(k + over, last))
        if start: q.par.update(irestart=1, istep=start)
        q.fam, q.meta = s.fam, s.meta
        R = run_scn(exe, q, base, sub=d)
        R.trace()
        out.append((start, k, R))
        if not R.ok: break
        start = k
    return out

GROUPS = [("exxd", "ezzd", "exz", "div_u", "div_u_el", "div_u_pl", "div_u_r", "divth0_n", "eII_el", "eII_pl", "eII_pwl", "eII_exp", "eII_lin", "eII_gbs"), ("sxxd", "szzd", "sxz", "p_in", "OverS_n", "p.P", "p.P0", "p.Pmax", "p.sxxd", "p.szzd", "p.sxz"), ("u_in", "v_in", "p.Vx", "p.Vz"),
          ("c.Vx", "c.Vz", "t.vx", "t.vz", "c.ini_Vx", "c.ini_Vz", "t.ini_vx", "t.ini_vz"), ("p.Fxx", "p.Fzz", "p.Fxz", "p.Fzx"), ("p.strain", "p.strain_el", "p.strain_pl", "p.strain_pwl", "p.strain_exp", "p.strain_lin", "p.strain_gbs"), ("p.nx", "p.nz")]
GRP = {f: g for g in GROUPS for f in g}

SER = dict(P_mean=("p_in", "S"), T_mean=("T", "T"), sxxd_mean=("sxxd", "S"), szzd_mean=("sxxd", "S"), sxz_mean=("sxxd", "S"), exxd_mean=("exxd", "E"), ezzd_mean=("exxd", "E"), exz_mean=("exxd", "E"))

def size(p, f):
    """the size deviations of a field are measured against: that of all fields of its kind"""
    return max([np.nanmax(abs(np.asarray(p[g], float))) for g in GRP.get(f, (f,)) if p.has(g) and len(p[g])] or [0])

def same(p, q, f):
    x, y = np.asarray(p[f], float), np.asarray(q[f], float)
    if x.shape != y.shape: return np.inf
    if np.array_equal(x, y, equal_nan=True): return 0.0
    m = size(p, f)
    d = abs(x - y)
    d = np.where(np.isnan(x) & np.isnan(y), 0, np.where(np.isfinite(d), d, np.inf))
    return float(d.max() / (m or 1))

@prop("P26", "every step of a run continued from a checkpoint against the same step of the uninterrupted run that writes no files: all output fields, all marker properties, surface, time series, model time and box",
      ["quantities kept only as scratch are not compared"], min_evals=60)
def p26(v, tier, seed):
    exe = build("plain")
    with Scratch() as base:
        def case(i):
            r = rng(seed, "p26", i)
            s = restart_scenario(r, i)
            last = r.i(3, 6)
            ref = Scenario(s.name, s.par, s.phases, s.cfg, ["prewrite " + STATE]); ref.par.update(writer=0, Nt=last); ref.fam, ref.meta = s.fam, s.meta
            mode = s.par["delete_breakpoints"]
            cuts = segments(r, s.par["writer_step"], mode, last)
            spare = 0 if mode == -1 else r.i(0, s.par["writer_step"])
            A = run_scn(exe, ref, base)
            A.trace()
            B = run_segments(exe, s, base, cuts, last, r, spare)
            ctl = Scenario(s.name + "-n", s.par, s.phases, s.cfg, ref.dumps); ctl.par.update(writer=0, Nt=last); ctl.fam, ctl.meta = s.fam, s.meta
            for k in ("bkg_strain_rate", "gz"): ctl.par[k] = ctl.get(k) * (1 + 1e-12)
            C = run_scn(exe, ctl, base, log=False)
            C.trace()
            shutil.rmtree(A.dir, ignore_errors=True); shutil.rmtree(C.dir, ignore_errors=True)
            files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(B[-1][2].dir, "Breakpoint*")))
            shutil.rmtree(B[-1][2].dir, ignore_errors=True)
            return s, last, cuts, A, B, C, files
        for lo in range(0, n_of(tier, 40, 400), 40):
            for s, last, cuts, A, B, C, files in pmap(case, range(lo, lo + 40)):
                judge_restart(v, s, last, cuts, A, B, C, files)

def judge_restart(v, s, last, cuts, A, B, C, files):
    ref = {int(q["step"]): q for q in A.recs("prewrite")}
    # how far the same model drifts when its forcing changes by 1e-12: an ill-conditioned solve does not count against the restart
    drift = {}
    for q in C.recs("prewrite"):
        p = ref.get(int(q["step"]))
        if p is not None:
            for f in q.a: drift[int(q["step"]), f] = same(p, q, f) if p.has(f) else np.inf
            drift[int(q["step"]), "*"] = max([drift[int(q["step"]), f] for f in ("u_in", "v_in", "p_in", "T", "sxxd") if f in q.a])
    for start, k, R in B:
        if R.rc != A.rc and (R.rc or not A.ok) and not (A.rc and R.rc == 0):
            v.fail("continue", "%s: continuing from step %d ends with status %s, the uninterrupted run with %s: %s" % (s.name, start, R.rc, A.rc, R.out[-200:]), R.scn, R)
        for q in R.recs("prewrite"):
            st = int(q["step"])
            if st not in ref: continue
            if not all(drift.get((k, "*"), 0) < 1e-7 for k in range(st + 1)): v.count("steps of ill-conditioned models left out"); continue
            p = ref[st]
            if st <= start: v.fail("steps", "%s: a run continued from step %d does step %d" % (s.name, start, st), R.scn, R)
            worst = (0, None)
            names = [f for f in RESULT if q.has(f) or p.has(f)]
            names += [f for f in q.a if f[:2] in ("p.", "t.", "c.") or f.startswith("phase_perc")]
            if not s.par.get("elastic"): names = [f for f in names if f not in ("p.sxxd", "p.szzd", "p.sxz")]
            for f in names:
                d = same(p, q, f) if p.has(f) and q.has(f) else np.inf
                v.count("arrays compared")
                if d > worst[0]: worst = (d, f)
                v.peak("worst relative deviation", d)
                if d >= 1e-6 and d < 10 * max(drift.get((st, f), 0), drift.get((st, "*"), 0)): v.count("deviations within the drift of an ill-conditioned model"); continue
                if not d < 1e-6:
                    v.fail("state:" + f, "%s: continued from step %d, %s of step %d deviates by %.3g of its size from the uninterrupted run" % (s.name, start, f, st, d), R.scn, R)
            for t in TS:
                a, b = p[t + "_time"][:st + 1], q[t + "_time"][:st + 1]
                g = SER.get(t)
                d = abs(a - b).max() / (max(abs(a).max(), size(p, g[0]) * p["sc." + g[1]] if g else 0) or 1) if len(a) == len(b) else np.inf
                v.peak("time series deviation", d)
                if not d < max(1e-6, 10 * drift.get((st, "*"), 0)): v.fail("series:" + t, "%s: continued from step %d, the series %s of step %d is %s, uninterrupted %s" % (s.name, start, t, st, b[-3:], a[-3:]), R.scn, R)
            for f in ("time", "dt", "dt0", "xmin", "xmax", "zmin", "zmax", "dx", "dz", "Nb_part", "L0"):
                if abs(p[f] - q[f]) > max(1e-8, drift.get((st, "*"), 0)) * max(abs(p[f]), 1e-3 * (p["xmax"] - p["xmin"]) if f[1:] in ("min", "max") else 0): v.fail("scalar:" + f, "%s: continued from step %d, %s at step %d is %.12g, uninterrupted %.12g" % (s.name, start, f, st, q[f], p[f]), R.scn, R)
            if start: v.saw((s.fam, s.meta["scale"], s.par.get("elastic"), s.par["delete_breakpoints"], len(cuts))); v.count("continued steps compared")
            else: v.count("steps of the writing run compared with the silent run")
    if not A.ok: return
    done = [int(q["step"]) for _, _, R in B for q in R.recs("prewrite")]
    if done and max(done) != last: v.fail("short", "%s: the chain of runs stops at step %d of %d" % (s.name, max(done), last), s, B[-1][2])
    # the checkpoints announced exist
    ws = s.par["writer_step"]
    w = [k for k in done if k % ws == 0]
    if s.par["delete_breakpoints"] == -1: want = {"BreakpointXXXXX.dat"} if w else set()
    else: want = {"Breakpoint%05d.dat" % k for k in sorted(set(w))[-2 if s.par["delete_breakpoints"] else 0:]}
    v.saw("checkpoint files present")
    if not want <= set(files): v.fail("files", "%s: checkpoints %s are missing (have %s)" % (s.name, sorted(want - set(files)), files), s, B[-1][2])
