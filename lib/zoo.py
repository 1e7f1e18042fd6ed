"""A zoo of set-ups: those of the behavioural checks with further options
switched on at random, so that every part of the program gets executed."""
from core import *
from gen import *
import p_comp, p_therm, p_adv, p_mark, p_rheo, p_io

GEN = [
    lambda seed, i, r: p_adv.p17_case(seed, i),
    lambda seed, i, r: p_comp.p16_case(seed, i),
    lambda seed, i, r: p_therm.p14_case(seed, i),
    lambda seed, i, r: p_mark.p13_case(seed, i),
    lambda seed, i, r: p_io.restart_scenario(r, i),
    lambda seed, i, r: p_rheo.creep_case(r, i, "cr%d" % i),
    lambda seed, i, r: p_therm.cool_case(seed, i),
    lambda seed, i, r: p_mark.p21_case(seed, i),
    lambda seed, i, r: p_adv.p22_case(seed, i),
    lambda seed, i, r: p_comp.p12_case(seed, i, "."),
    lambda seed, i, r: full(r, "full%d" % i, Nt=3),
    lambda seed, i, r: p_adv.safe_case(seed, i),
    lambda seed, i, r: p_mark.p10_case(seed, i),
]

def tables(d):
    """synthetic tables for the phase diagrams and kinetics"""
    p_comp.write_tables(d)
    (-1e3 * np.ones((2500, 675))).astype(np.float64).tofile(os.path.join(d, "dG_QuartzCoesite.dat"))

def zoo(seed, i, tag="zoo", pd=None):
    r = rng(seed, tag, i)
    k = i % len(GEN)
    s = GEN[k](seed + 1000, i // len(GEN) * 12 + i % 12 if k not in (9,) else i // len(GEN) * 4 + r.i(0, 2), r)
    s.name = "%s%d-g%d" % (tag, i, k)
    s.dumps = []
    s.kind = k
    m = s.meta; geo = m["geo"]
    S = [p for p in s.par]
    s.par["Nt"] = max(int(s.get("Nt") or 1), 2)
    if r.p(.5): s.par.update(writer=1, writer_step=r.i(1, 2), writer_markers=r.i(0, 1), delete_breakpoints=r.c([-1, 0, 1]))
    if r.p(.15): s.par["writer_subfolder"] = "sub"
    if r.p(.15): s.par["noisy"] = 0
    if r.p(.2): s.par["reseed_mode"] = 1
    if r.p(.2): s.par.update(Nx_part=r.i(2, 3), Nz_part=r.i(2, 3), min_part_cell=r.c([4, 16, 30]))
    if r.p(.2): s.par["direct_neighbour"] = 1
    if r.p(.2): s.par["marker_noise"] = 1
    if r.p(.2): s.par["track_T_P_x_z"] = 1
    if r.p(.2): s.par["finite_strain"] = 1
    if r.p(.2): s.par["RK"] = r.c([1, 2, 4])
    if r.p(.2): s.par["conserv_interp"] = 1
    if r.p(.1): s.par["zero_mean_topo"] = 1
    if r.p(.15) and s.get("thermal"): s.par.update(initial_cooling=1, cooling_duration=s.par["dt"] * 3)
    if r.p(.15) and s.get("thermal"): s.par.update(therm_perturb=1, therm_perturb_dT=.05 * (m.get("Tb", 1000 if geo else 1)), therm_perturb_rad_x=.1 * (s.par["xmax"] - s.par["xmin"]), therm_perturb_rad_z=.1 * (s.par["xmax"] - s.par["xmin"]))
    if r.p(.15) and s.get("elastic"): s.par.update(preload=1, preload_sxxd=r.u(-.1, .1) * m.get("tau_ref", 1), preload_sxz=r.u(-.1, .1) * m.get("tau_ref", 1))
    if r.p(.15): s.par.update(diffuse_X=1, diffuse_avg=r.i(0, 2), diffusion_length=.05 * (s.par["xmax"] - s.par["xmin"]))
    if r.p(.15):
        s.par["melting"] = 1
        for p in s.phases: p["melt"] = r.c([0, 1, 10, 40, 41] if not geo else [0, 1, 10, 11, 40, 41])
    if r.p(.15) and geo:
        for p in s.phases:
            if p.get("pwlv"): p["gs"] = r.c([0, 10, 11])
    if r.p(.15):
        for p in s.phases: p.update(transmutation=r.c([0, 1, -1]), transmutation_phase=r.i(0, len(s.phases) - 1), transmutation_temperature=m.get("Tb", 1000 if geo else 1) * r.u(.5, 1))
    if r.p(.1): s.par["gnuplot_log_res"] = 0
    if r.p(.15): s.par["Newton"] = 1; s.par["nit_max"] = r.i(2, 5)
    if r.p(.1): s.par["periodic_x"] = s.par.get("periodic_x", 0)
    if r.p(.15): s.par["lin_solver"] = r.c([0, 1, 2, -1])
    if r.p(.1) and not s.par.get("free_surface"): s.par["polar"] = 0
    if r.p(.1): s.par["out_of_plane"] = 1
    if r.p(.2): s.cfg.append("dual %d" % r.i(0, len(s.phases) - 1)) if not any(c.startswith("dual") for c in s.cfg) else None
    Tr = m.get("Tb", 1000 if geo else 1); Lx = s.par["xmax"] - s.par["xmin"]; np_ = len(s.phases)
    if r.p(.1): s.par["writer_debug"] = 1
    if r.p(.1): s.par.update(deformation_maps=1, nT=r.i(2, 4), nE=r.i(2, 5), nd=r.i(2, 3))
    if r.p(.25) and not s.par.get("chemical_diffusion") and pd and geo:
        s.par["import_files_dir"] = pd; s.files["PHASE_DIAGRAMS/QuartzCoesite600C.bin"] = p_comp.table1d().tobytes()
        for p in s.phases:
            p["density_model"] = r.c([0, 1, 2, 2, 3, 4, 5]); p["bet"] = r.lu(1e-12, 1e-11)
            if p["density_model"] in (2, 4): p["phase_diagram"] = r.i(0, 9)
    if r.p(.15):
        kd = pd and r.p(.5)
        if kd: s.par.update(kinetics=1, import_files_dir=pd)
        for p in s.phases: p.update(kin=r.c([0, 1, 9] if kd else [0, 1]), tau_kin=s.par["dt"] * r.lu(.1, 10))
    has = lambda n: any(c.startswith("fld " + n + " ") for c in s.cfg)
    if r.p(.1): s.cfg.append("mutate %.6g %.6g" % (r.u(0, 1), r.u(0, 1)))
    if r.p(.1): s.cfg.append("adjust %.6g %d %d" % (Tr * r.u(.3, 1), r.i(0, np_ - 1), r.i(0, np_ - 1)))
    if r.p(.1): s.cfg.append("defgrad 1 .1 0 1")
    if r.p(.1): s.cfg.append("fixT %.6g" % (Tr * r.u(.3, 1)))
    if r.p(.1) and not has("P"): s.cfg.append("fld P %.6g" % (1e8 if geo else 1))
    if r.p(.1) and not has("Vx"): s.cfg.append("fld Vx %.6g" % (1e-10 if geo else .1)); s.cfg.append("fld Vz %.6g" % (1e-10 if geo else .1))
    if r.p(.1) and not has("rho"): s.cfg.append("fld rho %.6g" % (2800 if geo else 1))
    if r.p(.1) and not has("d"): s.cfg.append("fld d %.6g" % (1e-3 if geo else 1))
    if r.p(.1) and not has("angle"): s.cfg.append("fld angle 30 %.6g 0" % (40 / Lx)); s.par["marker_aniso_angle"] = 1
    if r.p(.1) and not has("noise"): s.cfg.append("fld noise .2")
    if r.p(.1) and not has("phi"): s.cfg.append("fld phi .1")
    if s.par.get("free_surface") and r.p(.3):
        L = s.par["zmax"] - s.par["zmin"]
        s.par.update(surface_processes=r.c([1, 2, 5]), surf_diff=.02 * L * L / (s.par["dt"] * 100), surf_sedirate=.02 * L / s.par["dt"], surf_baselev=s.meta.get("zs", 0) + .1 * L * r.u(0, 1),
                     surf_Vinc=.001 * L / s.par["dt"], surf_Winc=.2 * L, surf_ised1=r.i(0, np_ - 1), surf_ised2=r.i(0, np_ - 1))
    if r.p(.25) and not any(c.startswith("pinned") for c in s.cfg): s.cfg.append("pinned 1")
    q = rng(seed, tag + "bcs", i)
    if any(c in ("bcv 3", "bcv 4") for c in s.cfg) and not s.par.get("free_surface") and not s.par.get("periodic_x") and q.p(.2):
        t = m.get("tau_ref", 1); s.par["Newton"] = 0
        s.cfg.append("bcs %d %s" % (q.c([1, 2, 4, 8, 5, 6, 10]), " ".join("%.9g" % (t * q.u(-2, 2)) for _ in range(4))))
    # what follows in the same directory: a continuation, a run that starts from saved markers
    s.then = None
    if s.par.get("writer") and r.p(.35): s.then = "restart"
    elif r.p(.06): s.then = "markers"; s.par["save_initial_markers"] = 1
    return s

def later(s):
    """what is run afterwards in the same directory"""
    if not s.then: return []
    q = Scenario(s.name + "-2", dict(s.par), s.phases, s.cfg, s.dumps, s.files)
    q.fam, q.meta = getattr(s, "fam", 0), s.meta
    if s.then == "restart":
        k = int(s.par["Nt"]) // int(s.par["writer_step"]) * int(s.par["writer_step"])
        q.par.update(irestart=1, istep=k, Nt=k + 1)
    else: q.par.update(save_initial_markers=0, load_initial_markers=1, Nt=1)
    return [q]

def runs(exe, s, base, env=None, timeout=300, **kw):
    """the run(s) of a zoo set-up"""
    sub = re.sub(r"[^A-Za-z0-9_.-]", "_", s.name) + "-z"
    out = [run_scn(exe, s, base, env=env, timeout=timeout, sub=sub, **kw)]
    for q in later(s):
        if out[0].rc == 0: out.append(run_scn(exe, q, base, env=env, timeout=timeout, sub=sub, **kw))
    return out
