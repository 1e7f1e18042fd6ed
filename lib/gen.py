"""Random but physically meaningful setups.  Every draw comes from one seeded
generator, so a case is reproducible from (seed, index)."""
import math
import numpy as np
from core import Scenario

class R:
    """thin convenience layer over numpy's generator"""
    def __init__(self, seed, *key):
        self.g = np.random.default_rng([int(seed)] + [abs(hash(k)) % (2**31) if not isinstance(k, int) else k for k in key])
    def u(self, a, b): return float(self.g.uniform(a, b))
    def lu(self, a, b): return float(10 ** self.g.uniform(math.log10(a), math.log10(b)))
    def i(self, a, b): return int(self.g.integers(a, b + 1))
    def c(self, seq): return seq[int(self.g.integers(0, len(seq)))]
    def p(self, prob): return bool(self.g.random() < prob)

def rng(seed, name, idx):
    # stable across processes: do not use hash() of strings
    h = 0
    for ch in name:
        h = (h * 131 + ord(ch)) % 2147483647
    r = R.__new__(R)
    r.g = np.random.default_rng([int(seed), h, int(idx)])
    return r

SCALES = {
    "nd":  dict(eta=1.0, L=1.0, V=1.0, T=1.0),
    "nd2": dict(eta=10.0, L=0.5, V=2.0, T=1.0),
    "geo": dict(eta=1e22, L=1e4, V=1e-9, T=1e2),
    "geo2": dict(eta=1e20, L=3e4, V=3e-10, T=500.0),
}

def shapes(r, xmin, xmax, zmin, zmax, nph):
    """inclusions, layers and checkerboards covering phases 1..nph-1"""
    Lx, Lz = xmax - xmin, zmax - zmin
    out = []
    for ph in range(1, nph):
        k = r.c("eerwcp") if ph == 1 else r.c("eerr")
        if k == "e":
            out.append("shape e %d %.9g %.9g %.9g %.9g %.6g" % (ph, r.u(xmin + .25 * Lx, xmax - .25 * Lx), r.u(zmin + .25 * Lz, zmax - .25 * Lz),
                                                            r.u(.08, .22) * Lx, r.u(.08, .22) * Lz, r.u(0, 180)))
        elif k == "r":
            a, b = sorted((r.u(xmin, xmax), r.u(xmin, xmax))); c, d = sorted((r.u(zmin, zmax), r.u(zmin, zmax)))
            out.append("shape r %d %.9g %.9g %.9g %.9g" % (ph, a, max(b, a + .15 * Lx), c, max(d, c + .15 * Lz)))
        elif k == "w":
            z0 = r.u(zmin + .2 * Lz, zmax - .4 * Lz)
            out.append("shape w %d %.9g %.9g %.9g %.9g" % (ph, z0, z0 + .2 * Lz, .05 * Lz, 2 * math.pi * r.i(1, 3) / Lx))
        elif k == "c":
            out.append("shape c %d %.9g %.9g" % (ph, Lx / r.i(2, 4), Lz / r.i(2, 4)))
        else:
            a = r.u(0, 2 * math.pi)
            out.append("shape p %d %.9g %.9g %.9g" % (ph, math.cos(a), math.sin(a), r.u(-.1, .1) * min(Lx, Lz)))
    return out

def domain(r, geo, nmin=15, nmax=33):
    Nx, Nz = r.i(nmin, nmax), r.i(nmin, nmax)
    asp = r.u(.6, 1.8)
    L = r.lu(1e4, 1e5) if geo else r.u(.5, 3.0)
    off = r.u(-.2, .2) * L if r.p(.3) else 0.0
    oz = r.u(-.4, .4) * L if r.p(.35) else 0.0
    return dict(Nx=Nx, Nz=Nz, xmin=-.5 * L * asp + off, xmax=.5 * L * asp + off, zmin=-.5 * L + oz, zmax=.5 * L + oz)

def mech(r, name, scale=None, nph=None, rheo=("cst",), bc=None, gravity=None, Nt=1, elastic=None, plastic=None, compressible=0, nmin=15, nmax=33,
         advection=0, thermal=0, contrast=3.0, dumps=()):
    """a mechanical setup: heterogeneous viscosities, pure/simple shear or linear BCs, optional elasticity/plasticity/gravity"""
    sc = scale or r.c(list(SCALES))
    geo = sc.startswith("geo")
    par = dict(SCALES[sc]); par.update(domain(r, geo, nmin, nmax))
    nph = nph or r.i(1, 4)
    e0 = r.lu(1e-16, 1e-14) if geo else r.u(.3, 2.0)
    sgn = r.c([1, 1, -1])
    par["bkg_strain_rate"] = sgn * e0
    eta_ref = r.lu(1e20, 1e22) if geo else r.u(.3, 3)
    if gravity is None:
        gravity = r.p(.5)
    rho_ref = 3000.0 if geo else 1.0
    if gravity:
        gs = -r.u(5, 10) if geo else -r.u(.2, 2)
        if Nt > 1:   # keep buoyant speeds comparable to the imposed ones so that markers stay inside the Courant limit
            gs = -r.u(.3, 4) * 2 * eta_ref * e0 / (rho_ref * (par["zmax"] - par["zmin"]))
        par["gz"] = gs
        if r.p(.3):
            par["gx"] = gs * r.u(-.5, .5)
    par["min_eta"] = eta_ref * 1e-7; par["max_eta"] = eta_ref * 1e7
    par["eta_average"] = r.c([0, 0, 1, 2])
    par["interp_stencil"] = r.c([1, 9])
    par["Nx_part"] = r.i(3, 5); par["Nz_part"] = r.i(3, 5)
    par["initial_noise"] = r.c([0, 1])
    par["Nt"] = Nt
    el = r.p(.4) if elastic is None else elastic
    par["elastic"] = int(el)
    t_ref = 1.0 / e0
    par["dt"] = r.lu(1e-3, 3e-2) * t_ref
    pl = False if plastic is None else plastic
    phases = []
    T0 = r.u(700, 1300) if geo else r.u(.8, 1.5)
    tau_ref = 2 * eta_ref * e0
    for k in range(nph):
        f = 10 ** r.u(-contrast / 2, contrast / 2)
        ph = dict(rho=rho_ref * r.u(.85, 1.15), eta0=eta_ref * f, G=(2 * eta_ref * f * e0 + tau_ref) * r.u(20, 80), plast=0,
                  bet=1.0 / (tau_ref * r.lu(50, 500)), Cp=1000.0 if geo else r.u(.5, 2), k=r.u(2, 4) if geo else r.u(.01, .1))
        law = r.c(rheo)
        if law == "pwl":
            n = r.u(1.5, 4.5)
            # eta = eta0 * exp(Q/nRT) * Eii^(1/n-1); choose prefactor to give ~f*eta_ref at the background rate
            ph.update(cstv=0, pwlv=1, npwl=n, Qpwl=0.0, eta0=eta_ref * f * e0 ** (1 - 1 / n))
        elif law == "mix":
            n = r.u(1.5, 4.5)
            ph.update(cstv=0, pwlv=1, npwl=n, Qpwl=0.0, eta0=eta_ref * f * e0 ** (1 - 1 / n))
        if pl:
            ph.update(plast=1, C=tau_ref * r.u(.2, .8), phi=r.u(0, 35), psi=0.0, eta_vp=eta_ref * r.u(.02, .1), Slim=1e90)
        phases.append(ph)
    cfg = shapes(r, par["xmin"], par["xmax"], par["zmin"], par["zmax"], nph)
    bc = bc or r.c(["pure", "simple", "lin", "linfs"])
    if bc == "simple":
        par["shear_style"] = 1; par["periodic_x"] = 1
    elif bc == "lin":
        cfg.append("bcv 3")
        a, b, c = (e0 * r.u(-1, 1) for _ in range(3))
        cfg.append("lin %.9g %.9g %.9g %.9g %.9g %.9g" % (r.u(-.1, .1) * e0 * (par["xmax"] - par["xmin"]), a, b, r.u(-.1, .1) * e0 * (par["zmax"] - par["zmin"]), c, -a))
    elif bc == "linfs":
        cfg.append("bcv 4")
        a = e0 * r.c([-1, 1])
        cfg.append("lin 0 %.9g 0 0 0 %.9g" % (a, -a))
    cfg.append("fld T %.9g" % T0)
    par["advection"] = advection; par["thermal"] = thermal
    par["compressible"] = compressible
    par["penalty"] = 1e5
    s = Scenario(name, par, phases, cfg, dumps)
    s.meta = dict(scale=sc, bc=bc, e0=e0, eta_ref=eta_ref, tau_ref=tau_ref, geo=geo, el=bool(el), pl=bool(pl), T0=T0, rheo=tuple(rheo))
    return s

def freesurf(r, name, Nt=1, advection=1, scale=None, topo=True, dumps=(), stab=None, nmin=21, nmax=35, sticky=False):
    """a free-surface setup (air above z=surf), gravity, pure-shear sides"""
    sc = scale or r.c(list(SCALES))
    geo = sc.startswith("geo")
    par = dict(SCALES[sc]); par.update(domain(r, geo, nmin, nmax))
    L = par["zmax"] - par["zmin"]
    par["zmax"] = par["zmin"] + L * 1.15
    zs = par["zmin"] + L * r.u(.80, .95)
    e0 = r.lu(1e-16, 1e-14) if geo else r.u(.05, .5)
    par["bkg_strain_rate"] = r.c([1, -1]) * e0
    eta_ref = r.lu(1e20, 1e22) if geo else r.u(.5, 2)
    rho = 3000.0 if geo else 1.0
    par["gz"] = -r.u(5, 10) if geo else -r.u(.5, 2)
    par["min_eta"] = eta_ref * 1e-6; par["max_eta"] = eta_ref * 1e6
    par.update(free_surface=1, advection=advection, Nt=Nt, elastic=0, interp_stencil=r.c([1, 9]), eta_average=r.c([0, 1, 2]))
    par["free_surface_stab"] = (r.c([0.0, 1.0]) if stab is None else stab)
    # relaxation time of the surface ~ 4 pi eta/(rho g L)
    par["dt"] = (r.u(.02, .1) if geo else r.u(.002, .01)) * 12 * eta_ref / (rho * abs(par["gz"]) * L)
    par["penalty"] = 1e5
    nph = r.i(1, 3)
    phases = []
    for k in range(nph):
        f = 10 ** r.u(-1, 1)
        phases.append(dict(rho=rho * r.u(.9, 1.1), eta0=eta_ref * f, G=1e10 if geo else 1e3, Cp=1000.0 if geo else 1.0, k=3.0 if geo else .05))
    cfg = shapes(r, par["xmin"], par["xmax"], par["zmin"], zs, nph)
    cfg.append("topo")
    A = r.u(.005, .03) * L if topo else 0.0
    lam = (par["xmax"] - par["xmin"]) / r.i(1, 3)
    cfg.append("fld surf %.12g 0 0 %.12g %.12g %.6g 0 0" % (zs, A, 2 * math.pi / lam, r.u(0, 6.28)))
    cfg.append("fld T %.9g" % (800.0 if geo else 1.0))
    s = Scenario(name, par, phases, cfg, dumps)
    s.meta = dict(scale=sc, bc="pure", e0=e0, eta_ref=eta_ref, geo=geo, zs=zs, A=A, lam=lam, el=False, pl=False)
    return s

def thermalise(r, s, Nt=None, sh=None):
    """turn a mechanical setup into a thermo-mechanical one"""
    geo = s.meta["geo"]
    Lx, Lz = s.par["xmax"] - s.par["xmin"], s.par["zmax"] - s.par["zmin"]
    Tt, Tb = (r.u(300, 500), r.u(900, 1400)) if geo else (r.u(.5, 1), r.u(1.2, 2))
    s.cfg = [c for c in s.cfg if not c.startswith("fld T ")]
    g = (Tt - Tb) / Lz
    s.cfg.append("fld T %.9g 0 %.9g %.9g %.9g %.6g %.9g %.6g" % (Tt - g * s.par["zmax"], g, .05 * (Tb - Tt), 2 * math.pi / Lx, r.u(0, 6), math.pi / Lz, r.u(0, 6)))
    ty = []
    for side, val in (("N", Tt), ("S", Tb), ("W", 0), ("E", 0), ("F", Tt)):
        if side in "NSF":
            ty.append((1, val) if r.p(.8) else (0, 0.0))
        else:
            ty.append((0, 0.0) if not s.par.get("periodic_x") else (-2, 0.0))
    s.cfg.append("bct " + " ".join("%d %.9g" % t for t in ty))
    s.par["thermal"] = 1
    s.par["shear_heating"] = r.i(0, 1) if sh is None else sh
    s.par["adiab_heating"] = r.c([0, 0, 1, 2])
    s.par["subgrid_diffusion"] = r.c([0, 1, 2])
    for p in s.phases:
        p["Qr"] = r.u(0, 2e-6) if geo else r.u(0, .1)
        p["alp"] = r.u(1e-5, 4e-5) if geo else r.u(0, .02)
    s.meta["Tt"], s.meta["Tb"] = Tt, Tb
    return s

def full(r, name, Nt=3, dumps=(), fam=None, **kw):
    """a run that touches many parts of the code at once"""
    fam = r.i(0, 5) if fam is None else fam
    if fam == 0:
        s = mech(r, name, rheo=("cst", "pwl"), elastic=True, Nt=Nt, advection=1, dumps=dumps, **kw); thermalise(r, s)
    elif fam == 1:
        s = mech(r, name, rheo=("cst", "pwl"), elastic=True, plastic=True, contrast=1.5, Nt=Nt, advection=1, dumps=dumps, **kw)
        thermalise(r, s); s.par["Newton"] = 1
        for p in s.phases:
            if p["C"] > 3: p.update(coh_soft=1, Ce=p["C"] * .5, plss=.001, plse=.2)   # differences below 1 Pa are refused
    elif fam == 2:
        s = freesurf(r, name, Nt=Nt, dumps=dumps, **{k: v for k, v in kw.items() if k != "bc"}); thermalise(r, s)
        s.par["surface_processes"] = r.i(0, 1); L = s.par["zmax"] - s.par["zmin"]
        s.par["surf_diff"] = .02 * L * L / (s.par["dt"] * 100)
    elif fam == 3:
        s = mech(r, name, rheo=("cst",), elastic=False, contrast=1.5, Nt=Nt, advection=1, dumps=dumps, **kw)
        s.par.update(anisotropy=1, finite_strain=1)
        for p in s.phases:
            p.update(aniso_factor=r.u(1.2, 4), aniso_angle=r.u(0, 180), ani_fstrain=r.i(0, 1))
    elif fam == 4:
        s = mech(r, name, rheo=("cst",), elastic=True, compressible=1, Nt=Nt, advection=1, dumps=dumps, **kw); thermalise(r, s)
        s.par["finite_strain"] = 1; s.par["track_T_P_x_z"] = 1
    else:
        s = mech(r, name, rheo=("cst", "pwl"), elastic=r.p(.5), Nt=Nt, advection=1, dumps=dumps, **kw)
        s.par["chemical_diffusion"] = 1
        Lx = s.par["xmax"] - s.par["xmin"]
        s.cfg.append("fld X .5 0 0 .3 %.9g 0 %.9g 0" % (6 / Lx, 5 / Lx))
        s.cfg.append("bcc 0 0 0 0 %s 0 0" % ("-2 0 -2 0" if s.par.get("periodic_x") else "0 0 0 0"))
        for p in s.phases:
            p["k_chem"] = r.u(.2, 1) * .01 * Lx * Lx / s.par["dt"]
    s.fam = fam
    return s
