"""P27: a model starts as its callbacks describe it."""
import os
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import mk

UNIT = dict(T="T", P="S", Txx="S", Tzz="S", Txz="S", d="L", surf="L", Vx="V", Vz="V", rho="rho")
MARK = dict(T="T", P="P", X="X", d="d", phi="phi", Txx="sxxd", Tzz="szzd", Txz="sxz", noise="noise", Vx="Vx", Vz="Vz", rho="rho")
TXT = dict(T="temperature", P="pressure", X="composition", d="grain size", phi="porosity", Txx="stress xx", Tzz="stress zz", Txz="stress xz", noise="noise",
           Vx="horizontal velocity", Vz="vertical velocity", rho="density", angle="anisotropy angle")

class Described:
    """the callbacks a cfg describes, read back from its text"""
    def __init__(self, scn):
        self.base, self.shapes, self.f, self.ph, self.kv = 0, [], {}, {}, {}
        self.nophase = False
        for line in scn.cfg:
            t = line.split()
            if t[0] == "base": self.base = int(t[1])
            elif t[0] == "shape": self.shapes.append((t[1], int(t[2]), [float(q) for q in t[3:]]))
            elif t[0] == "nophase": self.nophase = True
            elif t[0] == "fld": self.f[t[1]] = [float(q) for q in t[2:]] + [0.] * (12 - len(t[2:])); self.ph.setdefault(t[1], [])
            elif t[0] == "fldphase": self.f.setdefault(t[1], [0.] * 12); self.ph[t[1]] = [float(q) for q in t[2:]]
            else: self.kv[t[0]] = [float(q) for q in t[1:]]
    def phase(self, x, z):
        """phase and how far (relatively) the point is from changing it"""
        ph = np.full(x.shape, self.base); mar = np.full(x.shape, np.inf)
        for k, p, a in self.shapes:
            a = a + [0.] * (6 - len(a))
            if k in "eE":
                t = np.radians(a[4]); dx, dz = x - a[0], z - a[1]
                if k == "e": X, Z, A, B = dx * np.cos(t) + dz * np.sin(t), -dx * np.sin(t) + dz * np.cos(t), a[2], a[3]
                else: X, Z, A, B = dx * np.cos(t) - dz * np.sin(t), dx * np.sin(t) + dz * np.cos(t), a[2] / 2, a[3] / 2
                lev = [1 - (X / A) ** 2 - (Z / B) ** 2]
            elif k == "r":
                s = max(a[1] - a[0], a[3] - a[2]); lev = [(x - a[0]) / s, (a[1] - x) / s, (z - a[2]) / s, (a[3] - z) / s]
            elif k == "R":
                t = np.radians(a[4]); dx, dz = x - a[0], z - a[1]; s = max(a[2], a[3])
                lev = [(a[2] / 2 - abs(dx * np.cos(t) - dz * np.sin(t))) / s, (a[3] / 2 - abs(dx * np.sin(t) + dz * np.cos(t))) / s]
            elif k == "w":
                d = a[2] * np.cos(a[3] * x); s = a[1] - a[0]; lev = [(z - a[0] - d) / s, (a[1] + d - z) / s]
            elif k == "c":
                u, w = x / a[0], z / a[1]
                lev = [np.where((np.floor(u) + np.floor(w)) % 2 == 1, 1., -1.) * np.minimum(abs(u - np.round(u)), abs(w - np.round(w)))]
            elif k == "p": s = abs(x).max() + abs(z).max(); lev = [(x * a[0] + z * a[1] - a[2]) / s]
            lev = np.min(lev, axis=0)
            ph = np.where(lev > 0, p, ph); mar = np.minimum(mar, abs(lev))
        return ph, mar
    def val(self, f, x, z, ph):
        c0, cx, cz, A, kx, px, kz, pz, G, gx, gz, s = self.f[f]
        s = s or 1.
        v = c0 + cx * x + cz * z
        if A: v = v + A * np.cos(kx * x + px) * np.cos(kz * z + pz)
        if G: v = v + G * np.exp(-((x - gx) ** 2 + (z - gz) ** 2) / (2 * s * s))
        n = np.array(self.ph[f])
        if len(n) and ph is not None: v = v + np.where(ph < len(n), n[np.minimum(ph, len(n) - 1)], 0.)
        return v
    def size(self, f):
        c = self.f[f]
        return max(abs(c[0]), abs(c[3]), abs(c[8]), max([abs(q) for q in self.ph[f]], default=0.), 1e-300)

def p27_case(seed, i):
    r = rng(seed, "p27", i)
    k = i % 8
    if k in (0, 1): s = mech(r, "ini%d" % i, Nt=1)
    elif k == 2: s = freesurf(r, "ini%d" % i, Nt=2)
    elif k == 3: s = mech(r, "ini%d" % i, Nt=2, bc="simple", advection=1)
    elif k == 4: s = mech(r, "ini%d" % i, Nt=2, bc="pure", advection=1); s.par["pure_shear_ALE"] = r.c([0, 1])
    else: s = full(r, "ini%d" % i, Nt=1 + r.i(0, 1), fam=(i // 8 + k) % 6)
    par = s.par
    s.par["mechanical"] = 1
    X0, X1, Z0, Z1 = (float(par[q]) for q in ("xmin", "xmax", "zmin", "zmax"))
    L, H = X1 - X0, Z1 - Z0
    nph = len(s.phases); geo = s.meta["geo"]
    par.update(Nx_part=r.i(2, 5), Nz_part=r.i(2, 5), initial_noise=r.c([0, 1]))
    has = {t.split()[1] for t in s.cfg if t.startswith("fld")}
    # phases: the helpers of the library
    if r.p(.6):
        for _ in range(r.i(1, 2)):
            s.cfg.append("shape %s %d %.9g %.9g %.9g %.9g %.6g" % (r.c("ER"), r.i(0, nph - 1), r.u(X0 + .2 * L, X1 - .2 * L), r.u(Z0 + .2 * H, Z1 - .2 * H),
                                                               r.u(.1, .6) * L, r.u(.1, .5) * H, r.c([0, 0, 90, r.u(-180, 180)])))
    def wave(a): return "%.6g %.6g %.6g %.6g" % (2 * np.pi / L * r.i(0, 2), r.u(0, 6), 2 * np.pi / H * r.i(0, 2), r.u(0, 6))
    def fld(n, c, rel=.3, lin=True):
        if n in has or not r.p(.35): return
        s.cfg.append("fld %s %.9g %.6g %.6g %.6g %s %.6g %.6g %.6g %.6g" % (n, c, c * rel * .2 / L * r.c([0, 1]) if lin else 0, c * rel * .2 / H * r.c([0, -1]) if lin else 0, c * rel * r.c([0, 1]), wave(1), c * rel * r.c([0, .5]), r.u(X0, X1), r.u(Z0, Z1), .1 * L))
        if n not in ("T", "Vx", "Vz") and r.p(.4): s.cfg.append("fldphase %s %s" % (n, " ".join("%.6g" % (c * r.u(0, .2)) for _ in range(nph))))
    e0 = s.meta["e0"]
    fld("T", 700. if geo else 300.); fld("P", s.meta.get("tau_ref", 1.)); fld("X", .5, .3); fld("d", 1e-3 if geo else 1e-2); fld("phi", .02)
    small = .02 * 2 * s.meta["eta_ref"] * e0
    for n in ("Txx", "Tzz", "Txz"): fld(n, small)
    fld("noise", 1., .4); fld("Vx", e0 * L); fld("Vz", e0 * H); fld("rho", 3000. if geo else 1.)
    if r.p(.25) and nph > 1: s.cfg.append("dual %d" % r.i(0, nph - 1))
    if r.p(.25) and any(c.startswith("fld T") for c in s.cfg):
        T0 = [float(c.split()[2]) for c in s.cfg if c.startswith("fld T ")]
        if T0: s.cfg.append("adjust %.6g %d %d" % (T0[0] * r.u(.8, 1.1), r.i(0, nph - 1), r.i(0, nph - 1)))
    if r.p(.3): s.par["finite_strain"] = 1
    if s.get("finite_strain") and r.p(.7): s.cfg.append("defgrad %.6g %.6g %.6g %.6g" % (r.u(.8, 1.2), r.u(-.2, .2), r.u(-.2, .2), r.u(.8, 1.2)))
    if r.p(.3): s.cfg.append("mutate %.6g %.6g" % (r.u(0, 1e5), r.u(0, 1)))
    if r.p(.4): s.cfg.append("crazy %.6g %s" % (r.u(2, 1000), " ".join(str(p) for p in range(nph) if r.p(.6)) or "0"))
    if r.p(.1): s.cfg.append("nophase")
    if k in (0, 1) and r.p(.4): s.cfg.append("pinned 1")
    if not any(c.startswith("bct") for c in s.cfg) and r.p(.7): s.cfg.append("bct " + " ".join("%d %.6g" % (r.i(0, 1), r.u(300, 900) if geo else r.u(200, 400)) for _ in range(5)))
    if not any(c.startswith("bcc") for c in s.cfg) and r.p(.7): s.cfg.append("bcc " + " ".join("%d %.6g" % (r.i(0, 1), r.u(0, 1)) for _ in range(5)))
    if r.p(.12): s.par["fix_temperature"] = 1; s.cfg.append("fixT %.6g" % (r.u(400, 900)))
    if k == 0 and r.p(.6):
        s.par.update(anisotropy=1, marker_aniso_angle=r.c([0, 1, 1]), finite_strain=1)
        for p in s.phases: p["aniso_factor"] = r.u(1, 3); p["aniso_angle"] = r.u(0, 180)
        s.cfg = [c for c in s.cfg if not c.startswith("fld angle")]
        if r.p(.8): s.cfg.append("fld angle %.6g 0 0 %.6g %s" % (r.u(0, 180), r.u(0, 40), wave(1)))
    s.then = None
    if k in (0, 1, 2) and r.p(.3): s.then = 1; s.par["save_initial_markers"] = 1
    s.dumps = ["particles p* t* xg_coord zg_coord m.k m.k_eff m.rho", "init p* t* T BCt m.k m.k_eff kx kz xg_coord zg_coord xc_coord zc_coord xvz_coord zvx_coord BCu BCv",
               "postsolve m.k m.k_eff xg_coord zg_coord xc_coord zc_coord xvz_coord zvx_coord BCu BCv BCu_val BCv_val BCp BCp_val BCt BCc BCT_exp BCC_exp BCT_exp_val BCC_exp_val T"]
    return s

def close(a, b, tol, size):
    return abs(a - b) <= tol * (abs(b) + size)

def judge_layout(v, run, P, scn):
    """the regular lattice of markers"""
    s = P.s
    nx, nz = int(scn.get("Nx_part")), int(scn.get("Nz_part"))
    fs = bool(scn.get("free_surface"))
    x, z = P["p.x"], P["p.z"]
    ncx, ncz = P.Nx - 1, P.Nz - 1
    dx, dz = s["dx"] / nx, s["dz"] / nz
    noise = .1 if int(scn.get("initial_noise")) else 0.
    u, w = (x - P["xg_coord"][0]) / dx - .5, (z - P["zg_coord"][0]) / dz - .5
    iu, iw = np.round(u).astype(int), np.round(w).astype(int)
    v.check(np.isclose(P["xg_coord"][0], s["xmin"]) and np.isclose(s["dx"] * ncx, s["xmax"] - s["xmin"]) and np.isclose(s["dz"] * ncz, s["zmax"] - s["zmin"]), "grid", "%s: the grid does not span the domain" % scn.name, scn, run)
    v.count("markers placed", len(x))
    far = (abs(u - iu) > noise + 1e-7) | (abs(w - iw) > noise + 1e-7) | (iu < 0) | (iu >= ncx * nx) | (iw < 0) | (iw >= ncz * nz)
    if far.any():
        k = int(np.argmax(far)); v.fail("place", "%s: marker %d at (%.9g, %.9g) is not at a place of the regular %dx%d-per-cell lattice (offsets %.3g, %.3g spacings)" % (scn.name, k, x[k], z[k], nx, nz, u[k] - iu[k], w[k] - iw[k]), scn, run); return
    if noise: v.check(len(x) < 100 or (abs(u - iu).max() > .05 and abs(w - iw).max() > .05), "noise", "%s: initial_noise=1 moved no marker from its lattice place" % scn.name, scn, run)
    occ = np.zeros(ncx * nx * ncz * nz, int)
    np.add.at(occ, iu + iw * ncx * nx, 1)
    v.check(occ.max() <= 1, "twice", "%s: two markers at the same lattice place" % scn.name, scn, run)
    lx = P["xg_coord"][0] + (np.arange(ncx * nx) + .5) * dx; lz = P["zg_coord"][0] + (np.arange(ncz * nz) + .5) * dz
    want = np.ones((ncz * nz, ncx * nx), bool); unsure = ~want
    if fs:
        c = np.arange(ncx * nx) // nx
        h = P["t.a"][c] * lx + P["t.b"][c]
        want = lz[:, None] < h[None]; unsure = abs(lz[:, None] - h[None]) < 1e-9 * (s["zmax"] - s["zmin"])
    bad = (occ.reshape(want.shape) == 1) != want
    bad &= ~unsure
    if bad.any():
        j, i = np.argwhere(bad)[0]; v.fail("fill", "%s: lattice place (%.9g, %.9g) %s a marker" % (scn.name, lx[i], lz[j], "has" if occ.reshape(want.shape)[j, i] else "has not"), scn, run)

def judge_markers(v, run, P, D, scn, loaded):
    s = P.s
    x, z = P["p.x"], P["p.z"]
    if loaded is not None: x, z = loaded     # callbacks saw the places before the saved ones were read
    X, Z = x * s["sc.L"], z * s["sc.L"]
    n = len(x)
    if D.nophase: ph, mar = np.zeros(n, int), np.full(n, np.inf)
    else: ph, mar = D.phase(X, Z)
    T = D.val("T", X, Z, None) / s["sc.T"] if "T" in D.f else np.full(n, 273.15 / s["sc.T"])
    if "adjust" in D.kv:
        Ta, a, b = D.kv["adjust"]
        mar = np.where(ph == int(a), np.minimum(mar, abs(T * s["sc.T"] - Ta) / max(abs(Ta), 1e-300)), mar)
        ph = np.where((ph == int(a)) & (T * s["sc.T"] > Ta), int(b), ph)
    ok = mar > 1e-8
    v.count("markers compared", int(ok.sum()))
    got = P["p.phase"]
    bad = ok & (got != ph)
    if loaded is None and bad.any():
        k = int(np.argmax(bad)); v.fail("phase", "%s: marker at (%.9g, %.9g) m has phase %d where the set-up says %d" % (scn.name, X[k], Z[k], got[k], ph[k]), scn, run); return
    if loaded is None: v.saw(("phase", len(D.shapes), "".join(sorted({q[0] for q in D.shapes})), "adjust" in D.kv, D.nophase))
    dual = np.where(ph == 0, int(D.kv["dual"][0]), ph) if "dual" in D.kv else ph
    bad = ok & (P["p.dual"] != dual)
    if bad.any(): k = int(np.argmax(bad)); v.fail("dual", "%s: marker of phase %d has dual phase %d, not %d" % (scn.name, ph[k], P["p.dual"][k], dual[k]), scn, run)
    rho = np.array([p.get("rho", PHASE["rho"]) for p in scn.phases])
    dflt = dict(T=T, Vx=-x * s["bkg_strain_rate"], Vz=z * s["bkg_strain_rate"], rho=P["m.rho"][ph], X=0., P=0., d=0., phi=0., Txx=0., Tzz=0., Txz=0., noise=0.)
    v.check(np.allclose(P["m.rho"] * s["sc.rho"], rho[:len(P["m.rho"])], rtol=1e-9), "rho", "%s: densities of the phases are not those of the file" % scn.name, scn, run)
    for f, m in MARK.items():
        u = s["sc." + UNIT[f]] if f in UNIT else 1.
        if f in D.f: w = D.val(f, X, Z, ph if f not in ("T", "Vx", "Vz") else None) / u; size = D.size(f) / u
        else: w = dflt[f] + np.zeros(n); size = abs(w).max()
        bad = ok & ~close(P["p." + m], w, 1e-9, 1e-3 * size)
        v.saw((f, f in D.f, scn.meta["scale"]))
        if bad.any():
            k = int(np.argmax(bad)); v.fail("field-" + f, "%s: %s of the marker at (%.9g, %.9g) is %.12g, the set-up gives %.12g" % (scn.name, TXT[f], X[k], Z[k], P["p." + m][k], w[k]), scn, run)
    if P.has("p.Fxx"):
        F = D.kv.get("defgrad", [1., 0., 0., 1.])
        for m, w in zip(("Fxx", "Fxz", "Fzx", "Fzz"), F):
            v.check(bool((abs(P["p." + m] - w) <= 1e-9).all()), "defgrad", "%s: initial %s is not %g everywhere" % (scn.name, m, w), scn, run)
    if P.has("p.aniso_angle") and "angle" in D.f and int(scn.get("anisotropy") or 0):
        w = np.radians(D.val("angle", X, Z, ph))
        bad = ok & ~close(P["p.aniso_angle"], w, 1e-9, 1.)
        v.saw(("angle",))
        if bad.any(): k = int(np.argmax(bad)); v.fail("angle", "%s: a marker's director angle is %.9g rad, the set-up gives %.9g degrees" % (scn.name, P["p.aniso_angle"][k], np.degrees(w[k])), scn, run)

def judge_init(v, run, P, Q, D, scn):
    s = Q.s
    n = len(P["p.x"])
    if len(Q["p.x"]) != n: v.fail("count", "%s: %d markers were set up, %d are there when the run starts" % (scn.name, n, len(Q["p.x"])), scn, run); return
    live = Q["p.phase"] != -1
    ph = P["p.phase"]
    keep = ["x", "z", "phase", "dual", "noise", "X", "Fxx", "Fxz", "Fzx", "Fzz"]
    if not int(scn.get("preload") or 0): keep += ["sxxd", "szzd", "sxz"]
    if not int(scn.get("melting") or 0): keep += ["phi"]
    for f in keep:
        if not P.has("p." + f): continue
        a, b = P["p." + f], Q["p." + f]
        bad = live & (a != b)
        v.count("markers followed to the start", int(live.sum()))
        if bad.any(): k = int(np.argmax(bad)); v.fail("kept-" + f, "%s: %s of a marker was set to %.12g but starts as %.12g" % (scn.name, f, a[k], b[k]), scn, run)
    if int(scn.get("free_surface") or 0):
        c = np.clip(np.floor((P["p.x"] - s["xmin"]) / s["dx"]).astype(int), 0, P.Nx - 2)
        h = P["t.a"][c] * P["p.x"] + P["t.b"][c]; H = s["zmax"] - s["zmin"]
        v.check(not (~live & (P["p.z"] < h - 1e-9 * H)).any(), "lost", "%s: a marker below the surface is lost at the start" % scn.name, scn, run)
    else: v.check(bool(live.all()), "lost", "%s: a marker is lost at the start" % scn.name, scn, run)
    if not int(scn.get("initial_cooling") or 0) and not int(scn.get("therm_perturb") or 0) and not int(scn.get("fix_temperature") or 0):
        use = live
        if int(scn.get("free_surface") or 0): use = live & mk.g2m_c(Q, Q["T"], Q.n("BCt") == 30)[1]      # some column of its cell entirely in the air: not judged
        T0, T = P["p.T"][live], Q["p.T"][use]
        v.check(bool((T >= T0.min() * (1 - 1e-9)).all() and (T <= T0.max() * (1 + 1e-9)).all()), "T-range", "%s: temperatures start in [%.9g, %.9g], described in [%.9g, %.9g]" % (scn.name, T.min(), T.max(), T0.min(), T0.max()), scn, run)
    if Q.has("p.nx"):
        ang = P["p.aniso_angle"] if P.has("p.aniso_angle") and int(scn.get("marker_aniso_angle") or 0) else np.radians(np.array([p.get("aniso_angle", 90.) for p in scn.phases]))[ph]
        bad = live & ((abs(Q["p.nx"] - np.cos(ang)) > 1e-9) | (abs(Q["p.nz"] - np.sin(ang)) > 1e-9))
        v.saw(("director",))
        if bad.any(): k = int(np.argmax(bad)); v.fail("director", "%s: the director of a marker with angle %.9g starts as (%.9g, %.9g)" % (scn.name, np.degrees(ang[k]), Q["p.nx"][k], Q["p.nz"][k]), scn, run)

def judge_k(v, run, P, Q, R, D, scn):
    """the conductivities that build the initial geotherm and those of the run"""
    k = np.array([p.get("k", PHASE["k"]) for p in scn.phases]); s = P.s
    n = len(P["m.k"])
    want = k[:n] / s["sc.k"]
    cr = D.kv.get("crazy")
    eff = want.copy()
    if cr:
        for p in cr[1:]: eff[int(p)] = cr[0] * want[int(p)]
    v.saw(("conductivity", bool(cr)))
    v.check(np.allclose(P["m.k_eff"], eff, rtol=1e-9), "k-init", "%s: conductivities used for the initial temperature are %s, set up as %s" % (scn.name, P["m.k_eff"] * s["sc.k"], eff * s["sc.k"]), scn, run)
    if R is not None: v.check(np.allclose(R["m.k_eff"], want, rtol=1e-9), "k-run", "%s: conductivities of the run are %s, the file gives %s" % (scn.name, R["m.k_eff"] * s["sc.k"], k), scn, run)

def judge_bcs(v, run, Q, D, scn):
    s = Q.s; st = int(s["step"])
    Nx, Nz = Q.Nx, Q.Nz
    e = s["bkg_strain_rate"]; V, L = s["sc.V"], s["sc.L"]
    xg, zg, xvz, zvx = Q["xg_coord"], Q["zg_coord"], Q["xvz_coord"], Q["zvx_coord"]
    mode = int(D.kv.get("bcv", [0])[0])
    if mode == 0: mode = 2 if int(scn.get("shear_style") or 0) else 1
    def table(tab, val, nx, nz, X, Z, rule, name):
        """rule(side) -> (type, value); side of the outer ring as the callbacks see it"""
        T_, V_ = Q[tab].reshape(nz, nx), Q[val].reshape(nz, nx)
        wt = np.full((nz, nx), -1); wv = np.zeros((nz, nx))
        for l in range(nz):
            for k in ([0, nx - 1] if 0 < l < nz - 1 else range(nx)):
                side = ("N" if l == nz - 1 else "S" if l == 0 else "") + ("W" if k == 0 else "E" if k == nx - 1 else "")
                wt[l, k], wv[l, k] = rule(side, X[k], Z[l])
        live = T_ != 30
        size = abs(wv).max() + abs(e) * max(s["xmax"] - s["xmin"], s["zmax"] - s["zmin"])
        bad = live & ((T_ != wt) | (abs(V_ - wv) > 1e-9 * size))
        v.count("velocity boundary points", int(live.sum() - live[1:-1, 1:-1].sum())); v.saw((name, mode, bool((~live).any()), int(scn.get("pure_shear_ALE") or 0), st))
        if bad.any():
            j, i = np.argwhere(bad)[0]
            v.fail("bc-" + name, "%s step %d: %s at (%.6g, %.6g) is of type %d with value %.12g, the set-up gives type %d with %.12g" % (scn.name, st, name, X[i], Z[j], T_[j, i], V_[j, i], wt[j, i], wv[j, i]), scn, run)
        return live, wv
    lin = D.kv.get("lin", [0.] * 6)
    def lvx(x, z): return (lin[0] + lin[1] * x * L + lin[2] * z * L) / V
    def lvz(x, z): return (lin[3] + lin[4] * x * L + lin[5] * z * L) / V
    H = s["zmax"] - s["zmin"]
    def ux(side, x, z):
        if mode == 1: return (0, -x * e) if side in "WE" else (13, 0.)
        if mode == 2: return (-2, 0.) if side == "W" else (-12, 0.) if side == "E" else (11, 2 * e * H * (1 if "N" in side else -1))
        if side in "WE": return (0, lvx(x, z))
        if mode == 4: return (13, 0.)
        return (11, 2 * lvx(x, s["zmax"] if "N" in side else s["zmin"]))
    def uz(side, x, z):
        if mode == 1: return (0, z * e) if side in "NS" else (13, 0.)
        if mode == 2: return (0, 0.) if side in "NS" else (-12, 0.)
        if side in "NS": return (0, lvz(x, z))
        if mode == 4: return (13, 0.)
        return (11, 2 * lvz(s["xmax"] if "E" in side else s["xmin"], z))
    live, wv = table("BCu", "BCu_val", Nx, Nz + 1, xg, zvx, ux, "Vx")
    if mode in (1, 4) and int(scn.get("free_surface") or 0):
        for side, col in (("W", 0), ("E", -1)):
            w = (wv[:, col] * live[:, col])[1:-1].sum() * s["dz"]
            v.check(abs(s["surf_flux" + side] - w) <= 1e-9 * (abs(w) + abs(e) * H * H), "flux", "%s step %d: the flux through side %s is %.12g, its velocities add up to %.12g" % (scn.name, st, side, s["surf_flux" + side], w), scn, run)
    table("BCv", "BCv_val", Nx + 1, Nz, xvz, zg, uz, "Vz")
    ncx, ncz = Nx - 1, Nz - 1
    bt = Q["BCt"].reshape(ncz, ncx)
    wp = np.full((ncz, ncx), -1)
    if D.kv.get("pinned", [0])[0]: wp[-1, 0] = wp[-1, -1] = 0
    live = bt != 30
    v.saw(("pressure", bool(D.kv.get("pinned"))))
    v.check(bool((Q["BCp"].reshape(ncz, ncx)[live] == wp[live]).all() and (Q["BCp_val"].reshape(ncz, ncx)[live] == 0).all()), "bc-P", "%s step %d: types of the pressure points are not those of the set-up" % (scn.name, st), scn, run)
    for key, tab, base, unit in (("bct", "BCT_exp", "BCt", 1), ("bcc", "BCC_exp", "BCc", 0)):
        b = D.kv.get(key)
        if not b: continue
        T_, V_ = Q[tab].reshape(ncz + 2, ncx + 2), Q[tab + "_val"].reshape(ncz + 2, ncx + 2)
        ct = Q[base].reshape(ncz, ncx); live = ct != 30
        ty = [int(b[2 * q]) for q in range(5)]
        va = [b[2 * q + 1] for q in range(5)]
        if unit: va = [w / s["sc.T"] if t == 1 else w / s["sc.W"] * s["sc.L"] ** 2 for w, t in zip(va, ty)]
        wt = np.full((ncz + 2, ncx + 2), 99); wv = np.zeros_like(wt, float)
        def put(m, sl, q): wt[sl] = np.where(m, ty[q], 99); wv[sl] = va[q]
        put(live[-1], np.s_[-1, 1:-1], 0); put(live[0], np.s_[0, 1:-1], 1); put(live[:, 0], np.s_[1:-1, 0], 2); put(live[:, -1], np.s_[1:-1, -1], 3)
        surf = np.zeros_like(live); surf[:-1] = live[:-1] & (bt[1:] == 30)
        inner = np.where(surf, ty[4], ct); wt[1:-1, 1:-1] = inner; wv[1:-1, 1:-1] = np.where(surf, va[4], np.nan)
        bad = (wt != 99) & ((T_ != wt) | (~np.isnan(wv) & (abs(V_ - np.nan_to_num(wv)) > 1e-9 * abs(np.nan_to_num(wv)))))
        v.count("%s boundary points" % ("temperature" if unit else "composition"), int((wt != 99).sum() - (ct.size - surf.sum()))); v.saw((key, tuple(ty), bool(surf.any())))
        if bad.any():
            j, i = np.argwhere(bad)[0]
            v.fail("bc-" + key, "%s step %d: %s boundary point (%d, %d) is of type %d with value %.12g, the set-up gives type %d with %.12g" % (scn.name, st, "temperature" if unit else "composition", i, j, T_[j, i], V_[j, i], wt[j, i], wv[j, i]), scn, run)
    if int(scn.get("fix_temperature") or 0):
        w = D.kv["fixT"][0] / s["sc.T"]
        v.saw(("fixed temperature",))
        v.check(bool((abs(Q["T"] - w) <= 1e-9 * abs(w)).all()), "fixT", "%s step %d: the temperature is not the fixed one" % (scn.name, st), scn, run)

@prop("P27", "markers as they are set up, at the start and every boundary point of the first steps, against the callbacks",
      ["balance_boundaries excluded"], min_evals=900)
def p27(v, tier, seed):
    exe = build()
    scns = [p27_case(seed, i) for i in range(n_of(tier, 80, 800))]
    def one(s):
        sub = "init-%s" % s.name
        out = [run_scn(exe, s, base, 120, sub=sub)]
        if s.then and out[0].rc == 0:
            q = Scenario(s.name + "-again", dict(s.par), s.phases, list(s.cfg), s.dumps, s.files)
            q.fam, q.meta = getattr(s, "fam", 0), s.meta
            q.par.update(save_initial_markers=0, load_initial_markers=1, Nt=1)
            q.cfg = [c for c in q.cfg if not c.startswith(("shape", "adjust"))] + ["base 0"]
            fn = os.path.join(out[0].dir, str(s.get("initial_markers_file") or "markers.bin"))
            out[0].recs()      # read before the next run replaces it
            out.append(run_scn(exe, q, base, 120, sub=sub))
        for q in out: q.recs()
        return out
    with Scratch() as base: judge_all(v, pmap(one, scns))

def judge_all(v, runs):
    for rr in runs:
        first = None
        for run in rr:
            scn = run.scn
            if run.rc < 0 or run.timed_out: v.fail("stopped", "%s: the run ended abnormally (status %s)" % (scn.name, run.rc), scn, run)
            P = run.recs("particles")
            if not P:
                v.inconc("%s: rc=%d %s" % (scn.name, run.rc, run.out[-120:].replace("\n", " | "))); continue
            if not run.ok: v.inconc("%s: rc=%d %s" % (scn.name, run.rc, run.out[-120:].replace("\n", " | ")))
            P = P[0]; D = Described(scn)
            if first is None:
                judge_layout(v, run, P, scn); judge_markers(v, run, P, D, scn, None)
            else:
                v.saw(("loaded",)); v.count("markers loaded", len(P["p.x"]))
                same = len(P["p.x"]) == len(first["p.x"]) and (P["p.x"] == first["p.x"]).all() and (P["p.z"] == first["p.z"]).all() and (P["p.phase"] == first["p.phase"]).all()
                v.check(bool(same), "load", "%s: the markers are not those saved before" % scn.name, scn, run)
            if "mutate" in D.kv: v.saw(("mutate",)); v.check(close(P.s["user0"], D.kv["mutate"][0], 1e-12, 0) and close(P.s["user1"], D.kv["mutate"][1], 1e-12, 0), "mutate", "%s: MutateInput set user0, user1 to %s; the run has %.9g, %.9g" % (scn.name, D.kv["mutate"], P.s["user0"], P.s["user1"]), scn, run)
            if P.has("c.z"):
                w = D.val("surf", P["c.x"] * P.s["sc.L"], 0., None) / P.s["sc.L"] if "surf" in D.f else np.full(len(P["c.x"]), 1e3 / P.s["sc.L"])
                H = P.s["zmax"] - P.s["zmin"]
                v.saw(("surface",))
                for z, p, n in (("c.z", "c.phase", "surface"), ("c.ini_z", "c.ini_phase", "initial surface")):
                    v.check(bool((abs(P[z] - w) <= 1e-9 * H).all() and (P[p] == int(D.kv.get("surfphase", [0])[0])).all()), "surface", "%s: the chain of the %s is not the described topography" % (scn.name, n), scn, run)
            I = run.recs("init"); R = run.recs("postsolve")
            if I:
                judge_init(v, run, P, I[0], D, scn)
                v.check(I[0].s["time"] == 0 and I[0].s["step"] == 0, "time", "%s: the run starts at step %g, time %g" % (scn.name, I[0].s["step"], I[0].s["time"]), scn, run)
            judge_k(v, run, P, I[0] if I else None, R[0] if R else None, D, scn)
            for q in run.recs("postsolve"): judge_bcs(v, run, q, D, scn)
            if first is None: first = P
