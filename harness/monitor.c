// In-process monitor: at each observation point it appends the selected state
// to a binary trace read by the Python oracles.
#include "mdoodz-private.h"
#include "mdoodz-verif.h"
#include "monitor.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXH 32
void vm_defined(const char *, const char *, const void *, long, long) __attribute__((weak));
static FILE *T;
static struct { char name[24]; int all; char f[160][20]; int nf; } H[MAXH];
static int nH;
static long seq;

void vm_reset(void) { nH = 0; seq = 0; memset(vm_calls, 0, sizeof(long) * 32); if (T) fclose(T); T = NULL; }
static void rawtag(const char *s) { fprintf(T, "%s\n", s); }
void vm_close(void) {
  if (T) {
    fprintf(T, "CALLS");
    for (int i = 0; i < 32; i++) fprintf(T, " %ld", vm_calls[i]);
    rawtag("");
    rawtag("END");
    fclose(T);
  }
  T = NULL;
}
void vm_configure(int n, char **tok) {
  if (!strcmp(tok[0], "trace")) { T = fopen(tok[1], "wb"); return; }
  snprintf(H[nH].name, sizeof H[nH].name, "%s", tok[1]);
  H[nH].all = (n == 2);
  H[nH].nf = 0;
  for (int i = 2; i < n; i++) snprintf(H[nH].f[H[nH].nf++], 20, "%s", tok[i]);
  nH++;
}
static int want(int h, const char *name) {
  if (H[h].all) return 1;
  for (int i = 0; i < H[h].nf; i++) {
    if (!strcmp(H[h].f[i], name)) return 1;
    if (!strcmp(H[h].f[i], "phase*") && !strncmp(name, "phase_", 6)) return 1;
    if (!strcmp(H[h].f[i], "grid*") && strncmp(name, "p.", 2) && strncmp(name, "m.", 2) && strncmp(name, "t.", 2) && strncmp(name, "c.", 2)) return 1;
    if (!strcmp(H[h].f[i], "m*") && !strncmp(name, "m.", 2)) return 1;
    if (!strcmp(H[h].f[i], "p*") && !strncmp(name, "p.", 2)) return 1;
    if (!strcmp(H[h].f[i], "t*") && (!strncmp(name, "t.", 2) || !strncmp(name, "c.", 2))) return 1;
  }
  return 0;
}
static void arr(int h, const char *name, char ty, const void *p, long n) {
  if (!p || n <= 0 || !want(h, name)) return;
  if (vm_defined) { vm_defined(H[h].name, name, p, ty == 'd' ? sizeof(double) : ty == 'i' ? sizeof(int) : 1, n); return; }   // see defined.c
  fprintf(T, "A %s %c %ld\n", name, ty, n);
  fwrite(p, ty == 'd' ? sizeof(double) : ty == 'i' ? sizeof(int) : 1, n, T);
  fputc('\n', T);
}
#define S(name, v) do { if (vm_defined) { double q_ = (double) (v); vm_defined(where, name, &q_, 8, 1); } else fprintf(T, "S %s %.17g\n", name, (double) (v)); } while (0)

void MdoodzVerifHook(const char *where, const MdoodzVerifState *s) {
  if (!T) return;
  int h = -1;
  for (int i = 0; i < nH; i++) if (!strcmp(H[i].name, where)) h = i;
  const params *m = &s->input->model;
  if (h < 0) return;
  fprintf(T, "R %s %ld\n", where, seq++);
  S("step", m->step); S("time", m->time); S("dt", m->dt); S("dt0", m->dt0);
  S("xmin", m->xmin); S("xmax", m->xmax); S("zmin", m->zmin); S("zmax", m->zmax);
  S("dx", m->dx); S("dz", m->dz); S("Nx", m->Nx); S("Nz", m->Nz);
  S("gx", m->gx); S("gz", m->gz); S("Nb_phases", m->Nb_phases); S("L0", m->L0);
  S("bkg_strain_rate", m->bkg_strain_rate); S("bkg_div_rate", m->bkg_div_rate);
  S("min_eta", m->min_eta); S("max_eta", m->max_eta); S("Courant", m->Courant);
  S("periodic_x", m->periodic_x); S("elastic", m->elastic); S("compressible", m->compressible); S("out_of_plane", m->out_of_plane);
  S("dt_max", m->dt_max); S("dt_min", m->dt_min); S("dt_start", m->dt_start);
  S("user0", m->user0); S("user1", m->user1);
  const scale *sc = &s->input->scaling;
  S("sc.eta", sc->eta); S("sc.L", sc->L); S("sc.V", sc->V); S("sc.T", sc->T); S("sc.t", sc->t); S("sc.E", sc->E); S("sc.S", sc->S);
  S("sc.m", sc->m); S("sc.rho", sc->rho); S("sc.F", sc->F); S("sc.J", sc->J); S("sc.W", sc->W); S("sc.Cp", sc->Cp); S("sc.rhoE", sc->rhoE); S("sc.k", sc->k); S("sc.a", sc->a);
  const Nparams *n = s->Nmodel;
  S("nit", n->nit); S("nit_max", n->nit_max); S("stagnated", n->stagnated);
  S("resx", n->resx); S("resz", n->resz); S("resp", n->resp);
  S("abs_mom", n->nonlin_abs_mom); S("rel_mom", n->nonlin_rel_mom); S("abs_div", n->nonlin_abs_div); S("rel_div", n->nonlin_rel_div);
  const markers *p = s->particles;
  S("Nb_part", p->Nb_part); S("Nb_part_max", p->Nb_part_max); S("Nb_part_ini", p->Nb_part_ini); S("min_part_cell", p->min_part_cell);
  const grid *g = s->mesh;
  const long Nx = m->Nx, Nz = m->Nz, nc = (Nx - 1) * (Nz - 1), nv = Nx * Nz, nu = Nx * (Nz + 1), nw = (Nx + 1) * Nz, ne = (Nx + 1) * (Nz + 1);
  S("P_mean", g->P_mean); S("T_mean", g->T_mean); S("Work", g->Work); S("Uelastic", g->Uelastic); S("Uthermal", g->Uthermal);
  S("sxxd_mean", g->sxxd_mean); S("szzd_mean", g->szzd_mean); S("sxz_mean", g->sxz_mean); S("Tii_mean", g->Tii_mean);
  S("exxd_mean", g->exxd_mean); S("ezzd_mean", g->ezzd_mean); S("exz_mean", g->exz_mean); S("Eii_mean", g->Eii_mean);
  S("surf_fluxW", s->input->flux ? s->input->flux->west : 0); S("surf_fluxE", s->input->flux ? s->input->flux->east : 0);
#define G(f, n) arr(h, #f, 'd', g->f, n)
  G(xg_coord, Nx); G(zg_coord, Nz); G(xc_coord, Nx - 1); G(zc_coord, Nz - 1); G(xvz_coord, Nx + 1); G(zvx_coord, Nz + 1);
  G(xg_coord0, Nx); G(zg_coord0, Nz);
  arr(h, "BCu", 'c', g->BCu.type, nu); arr(h, "BCv", 'c', g->BCv.type, nw); arr(h, "BCp", 'c', g->BCp.type, nc); arr(h, "BCg", 'c', g->BCg.type, nv);
  arr(h, "BCt", 'c', g->BCt.type, nc); arr(h, "BCc", 'c', g->BCc.type, nc); arr(h, "BCT_exp", 'c', g->BCT_exp.type, ne); arr(h, "BCC_exp", 'c', g->BCC_exp.type, ne);
  arr(h, "BCu_val", 'd', g->BCu.val, nu); arr(h, "BCv_val", 'd', g->BCv.val, nw); arr(h, "BCp_val", 'd', g->BCp.val, nc);
  arr(h, "BCT_exp_val", 'd', g->BCT_exp.val, ne); arr(h, "BCC_exp_val", 'd', g->BCC_exp.val, ne);
  arr(h, "BCt_fine", 'c', g->BCt_fine.type, 4 * (Nx - 1) * (Nz - 1));
  G(u_in, nu); G(v_in, nw); G(p_in, nc); G(p_corr, nc); G(u_adv, nu); G(v_adv, nw);
  G(rhs_u, nu); G(rhs_v, nw); G(rhs_p, nc); G(gx, nu); G(gz, nw); G(roger_x, nu); G(roger_z, nw);
  G(ru, nu); G(rv, nw); G(rp, nc);
  G(sxxd, nc); G(szzd, nc); G(sxz, nv); G(sxz_n, nc); G(sxxd_s, nv); G(szzd_s, nv);
  G(sxxd0, nc); G(szzd0, nc); G(sxz0, nv); G(sxxd0_s, nv); G(szzd0_s, nv); G(sxz0_n, nc);
  G(exxd, nc); G(ezzd, nc); G(exz, nv); G(exz_n, nc); G(exxd_s, nv); G(ezzd_s, nv); G(wxz, nv); G(wxz_n, nc);
  G(div_u, nc); G(div_u_s, nv); G(div_u_el, nc); G(div_u_pl, nc); G(div_u_r, nc); G(Qrho, nc); G(divth_n, nc); G(divth0_n, nc);
  G(eta_n, nc); G(eta_s, nv); G(eta_phys_n, nc); G(eta_phys_s, nv); G(VE_n, nc); G(VE_s, nv); G(mu_n, nc); G(mu_s, nv);
  G(rho_n, nc); G(rho_s, nv); G(rho0_n, nc); G(drhodp_n, nc); G(alp, nc); G(bet_n, nc); G(bet_s, nv);
  G(p_lith, nc); G(p_lith0, nc); G(p0_n, nc); G(p0_s, nv); G(dp, nc);
  G(T, nc); G(T0_n, nc); G(T_s, nv); G(P_s, nv); G(Cp, nc); G(Qr, nc); G(kx, nu); G(kz, nw); G(kc_x, nu); G(kc_z, nw); G(rhs_t, nc);
  G(d_n, nc); G(d0_n, nc); G(d0_s, nv); G(phi_n, nc); G(phi0_n, nc); G(phi0_s, nv); G(X_n, nc); G(X0_n, nc); G(X_s, nv); G(X0_s, nv); G(OverS_n, nc);
  G(strain_n, nc); G(strain_s, nv); G(C_n, nc); G(C_s, nv); G(fric_n, nc); G(fric_s, nv); G(dil_n, nc); G(dil_s, nv);
  G(eII_el, nc); G(eII_pl, nc); G(eII_pl_s, nv); G(eII_pwl, nc); G(eII_pwl_s, nv); G(eII_exp, nc); G(eII_lin, nc); G(eII_gbs, nc); G(eII_cst, nc);
  G(Wtot, nc); G(Wel, nc); G(Wdiss, nc); G(exz_n_el, nc); G(exz_n_diss, nc); G(exz_n_pl, nc);
  G(D11_n, nc); G(D12_n, nc); G(D13_n, nc); G(D14_n, nc); G(D21_n, nc); G(D22_n, nc); G(D23_n, nc); G(D24_n, nc);
  G(D31_s, nv); G(D32_s, nv); G(D33_s, nv); G(D34_s, nv);
  G(noise_n, nc); G(noise_s, nv);
  G(sxx_W, Nz - 1); G(sxx_E, Nz - 1); G(szz_S, Nx - 1); G(szz_N, Nx - 1);
  if (m->free_surface == 1) { G(FreeSurfW_n, nc); G(FreeSurfW_s, nv); }
  arr(h, "nb_part_cell", 'i', g->nb_part_cell, nc); arr(h, "nb_part_vert", 'i', g->nb_part_vert, nv);
  arr(h, "comp_cells", 'i', g->comp_cells, nc);
  if (m->anisotropy == 1) { G(FS_AR_n, nc); G(FS_AR_s, nv); G(aniso_factor_n, nc); G(aniso_factor_s, nv); G(d1_n, nc); G(d2_n, nc); G(d1_s, nv); G(d2_s, nv); G(angle_n, nc); G(angle_s, nv); }
  for (int k = 0; k < m->Nb_phases; k++) {
    char b[32];
    snprintf(b, sizeof b, "phase_perc_n%d", k); arr(h, b, 'd', g->phase_perc_n[k], nc);
    snprintf(b, sizeof b, "phase_perc_s%d", k); arr(h, b, 'd', g->phase_perc_s[k], nv);
    snprintf(b, sizeof b, "phase_eta_n%d", k); arr(h, b, 'd', g->phase_eta_n[k], nc);
    snprintf(b, sizeof b, "phase_eta_s%d", k); arr(h, b, 'd', g->phase_eta_s[k], nv);
  }
  if (m->step <= m->Nt) { // time series, one slot per step
    long nt = m->Nt + 1;
    G(Work_time, nt); G(Uelastic_time, nt); G(Uthermal_time, nt); G(Time_time, nt); G(Short_time, nt); G(P_mean_time, nt); G(T_mean_time, nt);
    G(sxxd_mean_time, nt); G(szzd_mean_time, nt); G(sxz_mean_time, nt); G(Tii_mean_time, nt); G(exxd_mean_time, nt); G(ezzd_mean_time, nt); G(exz_mean_time, nt); G(Eii_mean_time, nt);
  }
  {
    long k = n->nit + 1 > n->nit_max + 1 ? n->nit_max + 1 : n->nit + 1;
    arr(h, "rx_abs", 'd', n->rx_abs, k); arr(h, "rz_abs", 'd', n->rz_abs, k); arr(h, "rp_abs", 'd', n->rp_abs, k);
    arr(h, "rx_rel", 'd', n->rx_rel, k); arr(h, "rz_rel", 'd', n->rz_rel, k); arr(h, "rp_rel", 'd', n->rp_rel, k);
    arr(h, "isNewton", 'i', n->LogIsNewtonStep, k);
  }
  {
    const mat_prop *M = &s->input->materials; const long K = m->Nb_phases;
    arr(h, "m.eps0", 'd', M->eps0, K);
    arr(h, "m.tau0", 'd', M->tau0, K);
    arr(h, "m.eta0", 'd', M->eta0, K);
    arr(h, "m.rho", 'd', M->rho, K);
    arr(h, "m.G", 'd', M->G, K);
    arr(h, "m.Cp", 'd', M->Cp, K);
    arr(h, "m.k", 'd', M->k, K);
    arr(h, "m.Qr", 'd', M->Qr, K);
    arr(h, "m.C", 'd', M->C, K);
    arr(h, "m.phi", 'd', M->phi, K);
    arr(h, "m.psi", 'd', M->psi, K);
    arr(h, "m.Slim", 'd', M->Slim, K);
    arr(h, "m.alp", 'd', M->alp, K);
    arr(h, "m.bet", 'd', M->bet, K);
    arr(h, "m.T0", 'd', M->T0, K);
    arr(h, "m.P0", 'd', M->P0, K);
    arr(h, "m.drho", 'd', M->drho, K);
    arr(h, "m.k_eff", 'd', M->k_eff, K);
    arr(h, "m.tpwl", 'd', M->tpwl, K);
    arr(h, "m.Qpwl", 'd', M->Qpwl, K);
    arr(h, "m.Vpwl", 'd', M->Vpwl, K);
    arr(h, "m.npwl", 'd', M->npwl, K);
    arr(h, "m.mpwl", 'd', M->mpwl, K);
    arr(h, "m.Apwl", 'd', M->Apwl, K);
    arr(h, "m.apwl", 'd', M->apwl, K);
    arr(h, "m.fpwl", 'd', M->fpwl, K);
    arr(h, "m.rpwl", 'd', M->rpwl, K);
    arr(h, "m.Fpwl", 'd', M->Fpwl, K);
    arr(h, "m.pref_pwl", 'd', M->pref_pwl, K);
    arr(h, "m.texp", 'd', M->texp, K);
    arr(h, "m.Qexp", 'd', M->Qexp, K);
    arr(h, "m.Vexp", 'd', M->Vexp, K);
    arr(h, "m.Sexp", 'd', M->Sexp, K);
    arr(h, "m.Eexp", 'd', M->Eexp, K);
    arr(h, "m.Gexp", 'd', M->Gexp, K);
    arr(h, "m.aexp", 'd', M->aexp, K);
    arr(h, "m.fexp", 'd', M->fexp, K);
    arr(h, "m.rexp", 'd', M->rexp, K);
    arr(h, "m.qexp", 'd', M->qexp, K);
    arr(h, "m.nexp", 'd', M->nexp, K);
    arr(h, "m.tlin", 'd', M->tlin, K);
    arr(h, "m.Qlin", 'd', M->Qlin, K);
    arr(h, "m.Vlin", 'd', M->Vlin, K);
    arr(h, "m.nlin", 'd', M->nlin, K);
    arr(h, "m.mlin", 'd', M->mlin, K);
    arr(h, "m.Alin", 'd', M->Alin, K);
    arr(h, "m.alin", 'd', M->alin, K);
    arr(h, "m.flin", 'd', M->flin, K);
    arr(h, "m.rlin", 'd', M->rlin, K);
    arr(h, "m.Flin", 'd', M->Flin, K);
    arr(h, "m.tgbs", 'd', M->tgbs, K);
    arr(h, "m.Qgbs", 'd', M->Qgbs, K);
    arr(h, "m.Vgbs", 'd', M->Vgbs, K);
    arr(h, "m.ngbs", 'd', M->ngbs, K);
    arr(h, "m.mgbs", 'd', M->mgbs, K);
    arr(h, "m.Agbs", 'd', M->Agbs, K);
    arr(h, "m.agbs", 'd', M->agbs, K);
    arr(h, "m.fgbs", 'd', M->fgbs, K);
    arr(h, "m.rgbs", 'd', M->rgbs, K);
    arr(h, "m.Fgbs", 'd', M->Fgbs, K);
    arr(h, "m.ppzm", 'd', M->ppzm, K);
    arr(h, "m.Kpzm", 'd', M->Kpzm, K);
    arr(h, "m.Qpzm", 'd', M->Qpzm, K);
    arr(h, "m.Vpzm", 'd', M->Vpzm, K);
    arr(h, "m.Gpzm", 'd', M->Gpzm, K);
    arr(h, "m.cpzm", 'd', M->cpzm, K);
    arr(h, "m.Lpzm", 'd', M->Lpzm, K);
    arr(h, "m.gs_ref", 'd', M->gs_ref, K);
    arr(h, "m.Skin", 'd', M->Skin, K);
    arr(h, "m.kkin", 'd', M->kkin, K);
    arr(h, "m.Qkin", 'd', M->Qkin, K);
    arr(h, "m.C_end", 'd', M->C_end, K);
    arr(h, "m.phi_end", 'd', M->phi_end, K);
    arr(h, "m.psi_end", 'd', M->psi_end, K);
    arr(h, "m.pls_start", 'd', M->pls_start, K);
    arr(h, "m.pls_end", 'd', M->pls_end, K);
    arr(h, "m.eta_vp", 'd', M->eta_vp, K);
    arr(h, "m.n_vp", 'd', M->n_vp, K);
    arr(h, "m.sig_tens", 'd', M->sig_tens, K);
    arr(h, "m.sig1", 'd', M->sig1, K);
    arr(h, "m.dsig1", 'd', M->dsig1, K);
    arr(h, "m.Pr", 'd', M->Pr, K);
    arr(h, "m.tau_kin", 'd', M->tau_kin, K);
    arr(h, "m.dPr", 'd', M->dPr, K);
    arr(h, "m.k_chem", 'd', M->k_chem, K);
    arr(h, "m.aniso_angle", 'd', M->aniso_angle, K);
    arr(h, "m.ani_fac_max", 'd', M->ani_fac_max, K);
    arr(h, "m.aniso_factor", 'd', M->aniso_factor, K);
    arr(h, "m.axx", 'd', M->axx, K);
    arr(h, "m.azz", 'd', M->azz, K);
    arr(h, "m.ayy", 'd', M->ayy, K);
    arr(h, "m.transmutation_temperature", 'd', M->transmutation_temperature, K);
    arr(h, "m.kin", 'i', M->kin, K);
    arr(h, "m.gs", 'i', M->gs, K);
    arr(h, "m.cstv", 'i', M->cstv, K);
    arr(h, "m.pwlv", 'i', M->pwlv, K);
    arr(h, "m.linv", 'i', M->linv, K);
    arr(h, "m.expv", 'i', M->expv, K);
    arr(h, "m.gbsv", 'i', M->gbsv, K);
    arr(h, "m.phase_diagram", 'i', M->phase_diagram, K);
    arr(h, "m.density_model", 'i', M->density_model, K);
    arr(h, "m.plast", 'i', M->plast, K);
    arr(h, "m.phi_soft", 'i', M->phi_soft, K);
    arr(h, "m.psi_soft", 'i', M->psi_soft, K);
    arr(h, "m.coh_soft", 'i', M->coh_soft, K);
    arr(h, "m.yield", 'i', M->yield, K);
    arr(h, "m.reac_soft", 'i', M->reac_soft, K);
    arr(h, "m.reac_phase", 'i', M->reac_phase, K);
    arr(h, "m.phase_mix", 'i', M->phase_mix, K);
    arr(h, "m.phase_two", 'i', M->phase_two, K);
    arr(h, "m.melt", 'i', M->melt, K);
    arr(h, "m.ani_fstrain", 'i', M->ani_fstrain, K);
    arr(h, "m.transmutation", 'i', M->transmutation, K);
    arr(h, "m.transmutation_phase", 'i', M->transmutation_phase, K);
  }
  const long np = p->Nb_part;
#define P(f) arr(h, "p." #f, 'd', p->f, np)
  P(x); P(z); P(Vx); P(Vz); P(P); P(sxxd); P(szzd); P(sxz); P(progress); P(T); P(d); P(phi); P(X); P(rho); P(noise); P(divth);
  P(strain); P(strain_el); P(strain_pl); P(strain_pwl); P(strain_exp); P(strain_lin); P(strain_gbs);
  arr(h, "p.phase", 'i', p->phase, np); arr(h, "p.dual", 'i', p->dual, np); arr(h, "p.generation", 'i', p->generation, np); arr(h, "p.intag", 'i', p->intag, np);
  if (m->finite_strain == 1) { P(Fxx); P(Fxz); P(Fzx); P(Fzz); }
  if (m->anisotropy == 1) { P(nx); P(nz); }
  if (m->marker_aniso_angle) P(aniso_angle);
  if (m->track_T_P_x_z == 1) { P(T0); P(P0); P(x0); P(z0); P(Tmax); P(Pmax); }
  if (m->free_surface == 1) {
    arr(h, "t.height", 'd', s->topo->height, Nx); arr(h, "t.height0", 'd', s->topo->height0, Nx);
    arr(h, "t.a", 'd', s->topo->a, Nx - 1); arr(h, "t.b", 'd', s->topo->b, Nx - 1);
    arr(h, "t.vx", 'd', s->topo->vx, Nx); arr(h, "t.vz", 'd', s->topo->vz, Nx + 1);
    arr(h, "t.ini_height", 'd', s->topo_ini->height, Nx); arr(h, "t.ini_a", 'd', s->topo_ini->a, Nx - 1); arr(h, "t.ini_b", 'd', s->topo_ini->b, Nx - 1);
    arr(h, "t.a0", 'd', s->topo->a0, Nx - 1); arr(h, "t.b0", 'd', s->topo->b0, Nx - 1);
    arr(h, "c.x", 'd', s->topo_chain->x, s->topo_chain->Nb_part); arr(h, "c.z", 'd', s->topo_chain->z, s->topo_chain->Nb_part);
    arr(h, "c.phase", 'i', s->topo_chain->phase, s->topo_chain->Nb_part); arr(h, "c.ini_phase", 'i', s->topo_chain_ini->phase, s->topo_chain_ini->Nb_part);
    arr(h, "t.hfine", 'd', s->topo->height_finer_c, 2 * Nx - 2); arr(h, "t.ini_vx", 'd', s->topo_ini->vx, Nx); arr(h, "t.ini_vz", 'd', s->topo_ini->vz, Nx + 1);
    arr(h, "c.Vx", 'd', s->topo_chain->Vx, s->topo_chain->Nb_part); arr(h, "c.Vz", 'd', s->topo_chain->Vz, s->topo_chain->Nb_part);
    arr(h, "c.ini_Vx", 'd', s->topo_chain_ini->Vx, s->topo_chain_ini->Nb_part); arr(h, "c.ini_Vz", 'd', s->topo_chain_ini->Vz, s->topo_chain_ini->Nb_part);
    arr(h, "c.z0", 'd', s->topo_chain->z0, s->topo_chain->Nb_part);
    arr(h, "c.ini_z0", 'd', s->topo_chain_ini->z0, s->topo_chain_ini->Nb_part);
    arr(h, "c.ini_x", 'd', s->topo_chain_ini->x, s->topo_chain_ini->Nb_part); arr(h, "c.ini_z", 'd', s->topo_chain_ini->z, s->topo_chain_ini->Nb_part);
  }
  rawtag("E");
}
