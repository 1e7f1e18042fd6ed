From 7d2b12816a577b55bbbc0ee76eb920be9f4171dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:24 +0000
Subject: [PATCH 01/97] Add MDOODZ_VERIF observation points to the time loop
 (no-op unless defined)

---
 MDLIB/Main_DOODZ.c   | 20 ++++++++++++++++++++
 MDLIB/mdoodz-verif.h | 28 ++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)
 create mode 100644 MDLIB/mdoodz-verif.h

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 43d9c60..03fdb87 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -28,6 +28,7 @@
 #include "cholmod.h"
 #include "mdoodz-private.h"
 #include "mdoodz.h"
+#include "mdoodz-verif.h"
 
 #ifdef _OMP_
 #include "omp.h"
@@ -415,6 +416,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
     }
     Initialise1DArrayDouble( mesh.X_n,     (input.model.Nx-1)*(input.model.Nz-1), 0.0 );
     Initialise1DArrayDouble( mesh.X_s,     (input.model.Nx-0)*(input.model.Nz-0), 0.0 );
+    VERIF_HOOK("init");
 
 
     //------------------------------------------------------------------------------------------------------------------------------//
@@ -440,6 +442,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
         //------------------------------------------------------------------------------------------------------------------------------//
 
+        VERIF_HOOK("step_begin");
         TransmutateMarkers(&particles, &input.materials, input.scaling.T);
 
         clock_t t_omp_step = (double)omp_get_wtime();
@@ -456,6 +459,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
         // Save initial dt
         input.model.dt0 = input.model.dt;
+        VERIF_HOOK("dt");
 
         // Track particule generation index
         Initialise1DArrayInt( particles.generation,   particles.Nb_part  , 0 );
@@ -611,6 +615,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         }
 
         printf("** Time for particles interpolations I = %lf sec\n",  (omp_get_wtime() - t_omp) );
+        VERIF_HOOK("presolve");
 
         if (input.model.mechanical == 1 ) {
 
@@ -788,6 +793,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                 Nmodel.resz_f = Nmodel.resz; Nmodel.rz_abs[Nmodel.nit] = Nmodel.resz; Nmodel.rz_rel[Nmodel.nit] = Nmodel.resz/Nmodel.resz0;
                 Nmodel.resp_f = Nmodel.resp; Nmodel.rp_abs[Nmodel.nit] = Nmodel.resp; Nmodel.rp_rel[Nmodel.nit] = Nmodel.resp/Nmodel.resp0;
 
+                VERIF_HOOK("residual");
                 if (input.model.writer_debug == 1 ) WriteResiduals( mesh, input.model, Nmodel, input.scaling );
 
                 // if pass --> clear matrix break
@@ -893,6 +899,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
         //------------------------------------------------------------------------------------------------------------------------------//
 
+        VERIF_HOOK("postsolve");
         // THIS IS ACTIVATED JUST FOR TOPO.VX IN OUTPUT FILE --- Free surface - interpolate velocity components on the free surface
         if (input.model.free_surface == 1 ) {
             SurfaceVelocity( &mesh, input.model, &topo, &topo_chain, input.scaling );
@@ -930,6 +937,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
         //------------------------------------------------------------------------------------------------------------------------------//
 
+        VERIF_HOOK("prethermal");
         // Apply BC's prior to thermal solve
         // SetBCs(*setup->SetBCs, &input, &mesh);
 
@@ -947,8 +955,10 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             printf("** Time for Thermal solver = %lf sec\n", (omp_get_wtime() - t_omp));
         }
 
+        VERIF_HOOK("thermal_grid");
         // Update energy on particles
         UpdateParticleEnergy( &mesh, input.scaling, input.model, &particles, &input.materials );
+        VERIF_HOOK("postthermal");
 
         // Grain size evolution
         UpdateParticleGrainSize( &mesh, input.scaling, input.model, &particles, &input.materials );
@@ -983,7 +993,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             ChemicalDirectSolve( &mesh, input.model, &particles, &input.materials, input.model.dt, input.scaling );
         }
      
+        VERIF_HOOK("chem_grid");
         UpdateParticleX( &mesh, input.scaling, input.model, &particles, &input.materials );
+        VERIF_HOOK("postchem");
 
         //--------------------------------------------------------------------------------------------------------------------------------//
 
@@ -1009,6 +1021,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         //------------------------------------------------------------------------------------------------------------------------------//
 
         int error=0;
+        VERIF_HOOK("preadv");
 
         if (input.model.advection == 1 ) {
 
@@ -1042,6 +1055,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
                 printf("************** Advection step %03d of %03d: dtsub = %2.2e **************\n", isub, nsub, input.model.dt* input.scaling.t );
 
+                VERIF_HOOK("substep_begin");
                 // Advect domain boundaries
                 if (input.model.pure_shear_ALE > 0 ) {
                     PureShearALE( &input.model, &mesh, &topo_chain, input.scaling );
@@ -1065,6 +1079,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                 // Correction for particle inflow 1
                 if (input.model.pure_shear_ALE == -1 && input.model.periodic_x == 0) ParticleInflowCheck( &particles, &mesh,  &input, topo, 1, *setup->SetParticles );
 
+                VERIF_HOOK("moved");
                 // Update accumulated strain
                 AccumulatedStrainII( &mesh, input.scaling, input.model, &particles,  mesh.xc_coord,  mesh.zc_coord, mesh.Nx-1, mesh.Nz-1, mesh.BCp.type );
 
@@ -1148,6 +1163,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                 // WriteOutputHDF5( &mesh, &particles, &topo, &topo_chain, input.model, Nmodel, "Output", input.materials, input.scaling );
                 // WriteOutputHDF5Particles( &mesh, &particles, &topo, &topo_chain, &topo_ini, &topo_chain_ini, input.model, "Particles", input.materials, input.scaling );
 
+                VERIF_HOOK("prereseed");
                 // Count the number of particle per cell
                 t_omp = (double)omp_get_wtime();
                 int NumPartOld  = particles.Nb_part;
@@ -1172,9 +1188,11 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     CleanUpSurfaceParticles( &particles, &mesh, topo, input.scaling );
                     CellFlagging( &mesh, input.model, topo, input.scaling );
                 }
+                VERIF_HOOK("substep_end");
             }
             input.model.dt = dt_solve;
         }
+        VERIF_HOOK("prewrite");
 
         // Free solution arrays
         SFree( &Stokes );
@@ -1223,6 +1241,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 #endif
         }
 
+        VERIF_HOOK("step_end");
         printf("** Total timestep calculation time = %lf sec\n", (double)((double)omp_get_wtime() - t_omp_step) );
         printf("** Model time = %2.2e sec\n", input.model.time* input.scaling.t );
         printf("** Current dt = %2.2e sec, Old dt = %2.2e sec\n", input.model.dt* input.scaling.t, input.model.dt0* input.scaling.t );
@@ -1237,6 +1256,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
     //------------------------------------------------------------------------------------------------------------------------------//
     //------------------------------------------------------------------------------------------------------------------------------//
 
+    VERIF_HOOK("run_end");
     if (input.model.gnuplot_log_res == 1) pclose(GNUplotPipe);
 
     //    // Free markers chains
diff --git a/MDLIB/mdoodz-verif.h b/MDLIB/mdoodz-verif.h
new file mode 100644
index 0000000..9399949
--- /dev/null
+++ b/MDLIB/mdoodz-verif.h
@@ -0,0 +1,28 @@
+// Observation points for external run-time monitors.
+// Compiled to nothing unless MDOODZ_VERIF is defined; when it is, the monitor
+// provides MdoodzVerifHook() and must not modify the state it is shown.
+#ifndef MDOODZ_VERIF_H
+#define MDOODZ_VERIF_H
+
+#ifdef MDOODZ_VERIF
+typedef struct {
+  MdoodzInput *input;
+  grid        *mesh;
+  markers     *particles;
+  surface     *topo, *topo_ini;             // only meaningful with a free surface
+  markers     *topo_chain, *topo_chain_ini; // only meaningful with a free surface
+  Nparams     *Nmodel;
+} MdoodzVerifState;
+
+void MdoodzVerifHook(const char *where, const MdoodzVerifState *state);
+
+#define VERIF_HOOK(where)                                                       \
+  MdoodzVerifHook(where, &(MdoodzVerifState){                                   \
+          .input = &input, .mesh = &mesh, .particles = &particles,              \
+          .topo = &topo, .topo_ini = &topo_ini, .topo_chain = &topo_chain,      \
+          .topo_chain_ini = &topo_chain_ini, .Nmodel = &Nmodel})
+#else
+#define VERIF_HOOK(where) ((void) 0)
+#endif
+
+#endif
-- 
2.43.0


From a1201b493c9194f6486d84daa59c39878357b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:41 +0000
Subject: [PATCH 02/97] fix: subgrid pressure diffusion used eta/bet (not a
 time) as its relaxation time, so results depended on the chosen units

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 34790b1..233f7ae 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1325,7 +1325,7 @@ void UpdateParticlePressure( grid* mesh, scale scaling, params model, markers* p
         for ( k=0; k<particles->Nb_part; k++ ) {
             if (particles->phase[k] != -1) {
                 p         = particles->phase[k];
-                dtm       = etam[k]/ (materials->bet[p]);
+                dtm       = etam[k] * materials->bet[p]; // bulk relaxation time eta/K, with K = 1/bet
                 dPms[k]   = -( particles->P[k] - Pm0[k]) * (1.0 - exp(-d*model.dt/dtm));
             }
         }
-- 
2.43.0


From 2cb7757b679a6dd00effae2c7eba1120d882a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 03/97] fix: grain boundary sliding creep was switched on but
 never contributed (its rate constant was never set)

---
 MDLIB/RheologyDensity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 25405df..aac00c7 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -112,6 +112,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     if (params.constant)    dfdeta += -params.Eii / params.eta_cst;
     // Update viscosity
     eta_ve -= r_eta_ve / dfdeta;
@@ -285,6 +286,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     // only activate Newton after a couple of steps
     if (it>1) dfdeta += params.m_lin*Eii_lin*dddeta/d_ve;
     // Update viscosity
@@ -384,7 +386,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   double Ea_pwl = materials->Qpwl[phase], Va_pwl = materials->Vpwl[phase], n_pwl = materials->npwl[phase], m_pwl = materials->mpwl[phase], r_pwl = materials->rpwl[phase], A_pwl = materials->Apwl[phase], f_pwl = materials->fpwl[phase], a_pwl = materials->apwl[phase], F_pwl = materials->Fpwl[phase], pre_factor = materials->pref_pwl[phase], t_pwl = materials->tpwl[phase];
   double Ea_lin = materials->Qlin[phase], Va_lin = materials->Vlin[phase], n_lin = materials->nlin[phase], m_lin = materials->mlin[phase], r_lin = materials->rlin[phase], A_lin = materials->Alin[phase], f_lin = materials->flin[phase], a_lin = materials->alin[phase], F_lin = materials->Flin[phase];
   double Ea_gbs = materials->Qgbs[phase], Va_gbs = materials->Vgbs[phase], n_gbs = materials->ngbs[phase], m_gbs = materials->mgbs[phase], r_gbs = materials->rgbs[phase], A_gbs = materials->Agbs[phase], f_gbs = materials->fgbs[phase], a_gbs = materials->agbs[phase], F_gbs = materials->Fgbs[phase];
-  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0;
+  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0, C_gbs = 0.0;
   double Ea_exp = materials->Qexp[phase], S_exp = materials->Sexp[phase], E_exp = materials->Eexp[phase], F_exp = 0.0;
   double gamma = materials->Gexp[phase], ST=0.0, n_exp = materials->nexp[phase];
   double Exx_lin = 0.0, Ezz_lin = 0.0, Exz_lin = 0.0, Exx_exp = 0.0, Ezz_exp = 0.0, Exz_exp = 0.0, Exx_gbs = 0.0, Ezz_gbs = 0.0, Exz_gbs = 0.0, Exx_cst = 0.0, Ezz_cst = 0.0, Exz_cst = 0.0;
@@ -484,6 +486,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   }
   if ( gbs == 1 ) {
     B_gbs = F_gbs * pow(A_gbs,-1.0/n_gbs) * exp( (Ea_gbs + P*Va_gbs)/R/n_gbs/T ) * pow(d, m_gbs/n_gbs) * pow(f_gbs, -r_gbs/n_gbs) * exp(-a_gbs*phi/n_gbs);
+    C_gbs = pow(2.0*B_gbs, -n_gbs);
   }
   if ( peierls   == 1 ) {
     ST                           = Ea_exp/R/T * 2.0*gamma*(1-gamma);
@@ -608,6 +611,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
           .gbs         = gbs,
           .d           = d,
           .n_gbs       = n_gbs,
+          .C_gbs       = C_gbs,
           .eta_up      = eta_up,
           .eta_lo      = eta_lo};
   if (gs) {
@@ -754,6 +758,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (peierls    == 1)  inv_eta_diss += (1.0/eta_exp);
     if (dislocation== 1)  inv_eta_diss += (1.0/eta_pwl);
     if (diffusion  == 1)  inv_eta_diss += (1.0/eta_lin);
+    if (gbs        == 1)  inv_eta_diss += (1.0/eta_gbs);
     if (constant   == 1)  inv_eta_diss += (1.0/eta_cst);
     if (is_pl      == 1)  inv_eta_diss += (1.0/eta_pl ); 
     eta  = 1.0/(inv_eta_diss);
-- 
2.43.0


From 2908fb0b0188b955b477dd41899f6a8e0babfe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 04/97] fix: plastic return mapping accumulated the overstress
 into the yield stress at each iteration and ignored the pressure correction

---
 MDLIB/RheologyDensity.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index aac00c7..a1e856b 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -509,6 +509,8 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (materials->Slim[phase] < Tyield) {
       C          = materials->Slim[phase];
       Tyield     = materials->Slim[phase];
+      cos_fric   = 1.0;
+      sin_fric   = 0.0;
     }
   }
 
@@ -650,7 +652,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         divp    = -gdot*dQdP;
         Pc      = P + K*dt*divp; // P0 - k*dt*(div-divp) = P + k*dt*divp
         eta_vp  = eta_vp0 * pow(fabs(gdot), 1.0/n_vp - 1.0);
-        Tyield  = Tyield + gdot*eta_vp;
+        Tyield  = C*cos_fric + Pc*sin_fric + gdot*eta_vp;
         Tiic    = Tii - eta_ve*gdot;
         F_trial = Tiic - Tyield;
 
-- 
2.43.0


From cdaa27b2b9a2edbc87c3fd58c754ac0cab6e125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 05/97] fix: piecewise linear strain softening measured the
 strain from zero instead of the start of the softening interval

---
 MDLIB/RheologyDensity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index a1e856b..1315681 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1169,9 +1169,9 @@ void Softening(int c0, double** phase_perc, double* dil_arr, double* fric_arr, d
       }
       // If we are in the softening strain range
       if (strain_acc >= materials.pls_start[p] && strain_acc < materials.pls_end[p] ) {
-        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
+        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
+        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
+        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
       }
 
     }
-- 
2.43.0


From 9f4728fab98fa7250b316e5bcdba2fed5e035e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:25 +0000
Subject: [PATCH 06/97] fix: tension fallback of the return mapping raised the
 stress above the trial stress (negative plastic rate) and kept the dilation
 of the rejected state

---
 MDLIB/RheologyDensity.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 1315681..1f22a44 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -669,10 +669,9 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
       // In case return mapping has failed (because of tension), return to a von Mises minimum stress 
       if (Tiic<0.0) {
         //printf("Aie, tension!\n"); exit(1);
-        F_trial = Tii - Tiimin;
-        gdot    = F_trial /  (eta_ve);
-        Tiic    = Tii - eta_ve*gdot;
-        Tiic    = Tiimin;
+        Tiic    = MINV(Tii, Tiimin); // never above the trial stress (gdot >= 0)
+        gdot    = (Tii - Tiic) / eta_ve;
+        divp    = 0.0;               // no dilation: pressure is not corrected
         Pc      = P;
       }
 
-- 
2.43.0


From 8e36d0b5f2f7385255003ff50aeb364763d22a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:39 +0000
Subject: [PATCH 07/97] fix: elastic stresses were never rotated: the vorticity
 was overwritten by zeros instead of being interpolated to the markers

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 233f7ae..9db9ba1 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1623,7 +1623,7 @@ firstprivate( model )
         if (model->elastic==1) { 
 
             double *wxzm   = DoodzCalloc(particles->Nb_part, sizeof(DoodzFP));
-            P2Mastah( model, *particles, wxzm,     mesh, mesh->wxz,   mesh->BCg.type,  1, 0, interp, vert, model->interp_stencil);
+            Interp_Grid2P( *particles, wxzm, mesh, mesh->wxz, mesh->xg_coord, mesh->zg_coord, mesh->Nx, mesh->Nz, mesh->BCg.type );
 
 #pragma omp parallel for shared( particles, wxzm ) firstprivate( dt, model ) private( k, angle, txx, tzz, txz )
             for ( k=0; k<particles->Nb_part; k++ ) {
-- 
2.43.0


From 97bbff27bd87512a267560bcd6c0455c1db1bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:39 +0000
Subject: [PATCH 08/97] fix: analytical stress rotation turned the stresses
 against the rotation of the material

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 9db9ba1..65ece59 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1637,7 +1637,7 @@ firstprivate( model )
                         particles->sxz[k]  -=  dt*(tzz-txx)*wxzm[k];
                     }
                     if (model->stress_rotation==2) { // Analytical rotation
-                        double angle = dt*wxzm[k];
+                        double angle = -dt*wxzm[k]; // components of a stress carried by a rotation of +dt*wxz
                         particles->sxxd[k] =  ( txx*cos(angle) + txz*sin(angle))*cos(angle) + ( txz*cos(angle) + tzz*sin(angle))*sin(angle);
                         particles->szzd[k] = -(-txx*sin(angle) + txz*cos(angle))*sin(angle) + (-txz*sin(angle) + tzz*cos(angle))*cos(angle);
                         particles->sxz[k]  = -( txx*cos(angle) + txz*sin(angle))*sin(angle) + ( txz*cos(angle) + tzz*sin(angle))*cos(angle);
-- 
2.43.0


From 706d38e3c1b440092d5b2afd969af4ae1432db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:51 +0000
Subject: [PATCH 09/97] fix: convergence test includes the momentum balance
 next to the walls

The residual norms of both momentum equations skipped the velocity rows next
to the walls, so a step whose forces are balanced in the interior only (for
example the initial guess of a uniform box under off-centre simple shear, or a
free-slip box with gravity along the wall) was announced as converged without
being solved.
---
 MDLIB/StokesRoutines.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/MDLIB/StokesRoutines.c b/MDLIB/StokesRoutines.c
index 32df1f2..59317cc 100755
--- a/MDLIB/StokesRoutines.c
+++ b/MDLIB/StokesRoutines.c
@@ -853,13 +853,10 @@ void EvaluateStokesResidualDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spa
 #pragma omp parallel for shared( mesh, Stokes, StokesA ) private( cc ) firstprivate( nx, nzvx ) reduction(+:resx,ndofx)
     for( cc=0; cc<nzvx*nx; cc++) {
         if ( mesh->BCu.type[cc] != 0 && mesh->BCu.type[cc] != 30 && mesh->BCu.type[cc] != 11 && mesh->BCu.type[cc] != 13 && mesh->BCu.type[cc] != -12) {
-            int l   = mesh->lvx[cc];
             mesh->ru[cc]                   = StokesA->F[Stokes->eqn_u[cc]];
             StokesA->F[Stokes->eqn_u[cc]] *= StokesA->d[Stokes->eqn_u[cc]]; // Need to scale the residual here for Defect Correction formulation (F is the RHS)
-            if (l>2 && l<nzvx-2) {
-                ndofx++;
-                resx                          += StokesA->F[Stokes->eqn_u[cc]]*StokesA->F[Stokes->eqn_u[cc]];
-            }
+            ndofx++;
+            resx                          += StokesA->F[Stokes->eqn_u[cc]]*StokesA->F[Stokes->eqn_u[cc]];
         }
     }
     Nmodel->resx = resx;
@@ -867,13 +864,10 @@ void EvaluateStokesResidualDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spa
 #pragma omp parallel for shared( mesh, Stokes, StokesA ) private( cc ) firstprivate( nz, nxvz ) reduction(+:resz,ndofz)
     for( cc=0; cc<nz*nxvz; cc++) {
         if ( mesh->BCv.type[cc] != 0 && mesh->BCv.type[cc] != 30 && mesh->BCv.type[cc] != 11 && mesh->BCv.type[cc] != 13 && mesh->BCv.type[cc] != -12) {
-            int k   = mesh->kvz[cc];
             mesh->rv[cc]                   = StokesA->F[Stokes->eqn_v[cc]];
             StokesA->F[Stokes->eqn_v[cc]] *= StokesA->d[Stokes->eqn_v[cc]]; // Need to scale the residual here for Defect Correction formulation (F is the RHS)
-            if (k>2 && k<nxvz-2) {
-                ndofz++;
-                resz                          += StokesA->F[Stokes->eqn_v[cc]]*StokesA->F[Stokes->eqn_v[cc]];
-            }
+            ndofz++;
+            resz                          += StokesA->F[Stokes->eqn_v[cc]]*StokesA->F[Stokes->eqn_v[cc]];
         }
     }
     Nmodel->resz = resz;
-- 
2.43.0


From 9be7f603bf974f29c229c1e37f12085b2f0c45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:12 +0000
Subject: [PATCH 10/97] fix: deactivated markers index the material tables with
 -1 in TransmutateMarkers

---
 MDLIB/ParticleRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 1aabd8c..b8dab89 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3572,6 +3572,7 @@ void TransmutateMarkers(markers *particles, mat_prop *materials, double scaling_
 #pragma omp parallel for reduction(+:transmutated_particles) shared(particles)
   for (int k=0; k<particles->Nb_part-1; k++) {
     const int phase = particles->phase[k];
+    if (phase == -1) continue; // deactivated marker: it has no material properties
     const double temperature = particles->T[k];
     const double transmutation = materials->transmutation[phase];
 
-- 
2.43.0


From 402802dba59738968591235bbb929999d5d0292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:03 +0000
Subject: [PATCH 11/97] fix: warning about an empty vertex reads the second
 phase of a one-phase model

---
 MDLIB/RheologyDensity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 1f22a44..4b21b6e 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1399,7 +1399,7 @@ void ShearModCompExpGrid( grid* mesh, mat_prop *materials, params *model, scale
         }
 
         if ( isinf(1.0/mesh->mu_s[c1]) ) {
-          printf("Aaaaargh...!! %2.2e %2.2e ----> ShearModulusCompressibilityExpansivityGrid\n", mesh->phase_perc_s[0][c1], mesh->phase_perc_s[1][c1]);
+          printf("Aaaaargh...!! %2.2e %2.2e ----> ShearModulusCompressibilityExpansivityGrid\n", mesh->phase_perc_s[0][c1], model->Nb_phases > 1 ? mesh->phase_perc_s[1][c1] : 0.0);
         }
 
         // Post-process for geometric/harmonic averages
-- 
2.43.0


From 1cec60e615aef3868ac28cdcda03e34d111f77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:03 +0000
Subject: [PATCH 12/97] fix: the last marker was never transmutated

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index b8dab89..87367a1 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3570,7 +3570,7 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
 void TransmutateMarkers(markers *particles, mat_prop *materials, double scaling_T) {
   int transmutated_particles = 0;
 #pragma omp parallel for reduction(+:transmutated_particles) shared(particles)
-  for (int k=0; k<particles->Nb_part-1; k++) {
+  for (int k=0; k<particles->Nb_part; k++) {
     const int phase = particles->phase[k];
     if (phase == -1) continue; // deactivated marker: it has no material properties
     const double temperature = particles->T[k];
-- 
2.43.0


From 95fdbdcaa775d1ca67cca3e8c3f4bf92ce34083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:29 +0000
Subject: [PATCH 13/97] fix: bottom heat flux is divided by the vertical cell
 size

---
 MDLIB/ThermalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 71bf0fd..3f886b7 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -298,7 +298,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
 
                         // Bottom flux
                         if (l==0 && mesh->BCT_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                            bbc[eqn] += -1.0/mesh->dx * mesh->BCT_exp.val[c0-(ncx+2)];
+                            bbc[eqn] += -1.0/mesh->dz * mesh->BCT_exp.val[c0-(ncx+2)];
                         }
 
                         if (k==0 && mesh->BCT_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From e333b51fb93eb50a7450a36859a9b09984beaaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:29 +0000
Subject: [PATCH 14/97] fix: bottom composition flux is divided by the vertical
 cell size

---
 MDLIB/ChemicalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index cdd0b04..a56a467 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -268,7 +268,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 }
                 
                 if (l==0 && mesh->BCC_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                    bbc[eqn] += -1.0/mesh->dx * mesh->BCC_exp.val[c0-(ncx+2)];
+                    bbc[eqn] += -1.0/mesh->dz * mesh->BCC_exp.val[c0-(ncx+2)];
                 }
                 
                 if (k==0 && mesh->BCC_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From 2901efd72aca2b45b8e9aaca3da430d6509307f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 15/97] fix: same conductivity on both sides of a periodic box

---
 MDLIB/ParticleRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 87367a1..490f2b0 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2302,8 +2302,8 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
         }
     }
 
-    // Make periodic
-    if (centroid==0 && prop==0 && model->periodic_x==1) {
+    // Make periodic (vertices and Vx nodes have one column on each side of the box)
+    if ( (centroid==0 || centroid==-1) && prop==0 && model->periodic_x==1) {
         double av;
         for( int l=0; l<Nz; l++) {
             int c1 = l*Nx + Nx-1;
-- 
2.43.0


From 067a575f0af3238306a1da7a3f87e3cb51a92b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 16/97] fix: density at the start of a step uses the
 composition carried by the markers (it was zero in the first step and lagged
 behind afterwards)

---
 MDLIB/Main_DOODZ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 03fdb87..b27ffac 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -532,6 +532,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
         P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_s , mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
 
+        // Make sure composition is up to date for density evaluation
+        ArrayEqualArray( mesh.X_n, mesh.X0_n, Ncx*Ncz );
+
         P2Mastah( &input.model, particles, particles.noise, &mesh, mesh.noise_s, mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
         P2Mastah( &input.model, particles, particles.noise, &mesh, mesh.noise_n, mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
 
-- 
2.43.0


From 8104d50fc5a4c7bfe6a5e8e9026be6106b8ec4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 17/97] fix: the initial porosity was erased in the first step
 of models without melting

---
 MDLIB/Main_DOODZ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index b27ffac..9970ee5 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -502,6 +502,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         // Interpolate Melt fraction
         P2Mastah( &input.model, particles, particles.phi,   &mesh, mesh.phi0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
 
+        // Make sure melt fraction is up to date for density evaluation (and does not vanish if melting is off)
+        ArrayEqualArray( mesh.phi_n, mesh.phi0_n, Ncx*Ncz );
+
         // Elasticity - interpolate advected/rotated stresses
         if  (input.model.elastic == 1 ) {
 
-- 
2.43.0


From 29f6411f58b45b77924e24435a7ac1d8cdc96855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 18/97] fix: initial density and lithostatic pressure ignored
 the initial composition and porosity

---
 MDLIB/Main_DOODZ.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 9970ee5..6fcc7a7 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -256,6 +256,17 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         MinMaxArrayTag( mesh.szzd0, input.scaling.S,   (mesh.Nx-1)*(mesh.Nz-1), "Szz initial ", mesh.BCp.type );
 
 
+        printf("*************************************\n");
+        printf("****** Initialize composition *******\n");
+        printf("*************************************\n");
+        P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
+        P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_s , mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
+        ArrayEqualArray( mesh.X_n, mesh.X0_n,  (mesh.Nx-1)*(mesh.Nz-1) );
+
+        // Initial melt fraction
+        P2Mastah( &input.model, particles, particles.phi,   &mesh, mesh.phi0_n, mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
+        ArrayEqualArray( mesh.phi_n, mesh.phi0_n,  (mesh.Nx-1)*(mesh.Nz-1) );
+
         printf("*************************************\n");
         printf("******** Initialize pressure ********\n");
         printf("*************************************\n");
@@ -305,13 +316,6 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         if (input.model.free_surface == 1 ) SurfaceDensityCorrection( &mesh, input.model, topo, input.scaling  );
         Interp_Grid2P_centroids2( particles, particles.rho,    &mesh, mesh.rho_n, mesh.xvz_coord,  mesh.zvx_coord,  mesh.Nx-1, mesh.Nz-1, mesh.BCp.type, &input.model );
 
-        printf("*************************************\n");
-        printf("****** Initialize composition *******\n");
-        printf("*************************************\n");
-        P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
-        P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_s , mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
-        ArrayEqualArray( mesh.X_n, mesh.X0_n,  (mesh.Nx-1)*(mesh.Nz-1) );
-
         if (input.model.anisotropy == 1 ) {
             InitialiseDirectorVector ( &mesh, &particles, &input.model, &input.materials, input.scaling.L);
             P2Mastah( &input.model, particles, NULL, &mesh, mesh.d1_n,    mesh.BCp.type, -1, 0, interp, cent, input.model.interp_stencil);
-- 
2.43.0


From 2fcc2f850e5b71b830f17bc6c86cc37426e970b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 19/97] fix: table look-up at the lower bound of a table read
 the entry before the first one

---
 MDLIB/RheologyDensity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 4b21b6e..9e0145e 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1609,6 +1609,7 @@ double ItpRho1D( double Pgrid, params* model, int k ) {
   // Find index of minimum/west pressure node
   double dstP = Pgrid - model->PD1Dmin[k];
   int    iP   = ceil( dstP/dP ) - 1;
+  if ( iP < 0 ) iP = 0; // value at the lower bound
   // Calculate weighting coefficients for linear interpolant
   double PW   = model->PD1Dmin[k] + iP*dP;
   double wW   = 1.0 - (Pgrid - PW)/dP;
@@ -1637,9 +1638,11 @@ double Interpolate2Ddata( double Tgrid, double Pgrid, double Tmin, double Tmax,
   // Find index of minimum/west temperature node
   dstT  = Tgrid - Tmin ;
   iT    = ceil( dstT/dT ) - 1;
+  if ( iT < 0 ) iT = 0; // value at the lower bound
   // Find index of minimum/west pressure node
   dstP  = Pgrid - Pmin;
   iP    = ceil( dstP/dP ) - 1;
+  if ( iP < 0 ) iP = 0; // value at the lower bound
   // Calculate weights for bilinear interpolant
   TW    = Tmin + iT*dT;
   PW    = Pmin + iP*dP;
-- 
2.43.0


From d1ca566497fc2306294b19e171963e2ebfdbda6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:05 +0000
Subject: [PATCH 20/97] fix: marker density next to the free surface was mixed
 up with the filled fraction of the cell

---
 MDLIB/Main_DOODZ.c        | 2 +-
 MDLIB/RheologyParticles.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 6fcc7a7..fb00ad4 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -313,8 +313,8 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         printf("******** Initialize density *********\n");
         printf("*************************************\n");
         UpdateDensity( &mesh, &particles, &input.materials, &input.model, &input.scaling );
-        if (input.model.free_surface == 1 ) SurfaceDensityCorrection( &mesh, input.model, topo, input.scaling  );
         Interp_Grid2P_centroids2( particles, particles.rho,    &mesh, mesh.rho_n, mesh.xvz_coord,  mesh.zvx_coord,  mesh.Nx-1, mesh.Nz-1, mesh.BCp.type, &input.model );
+        if (input.model.free_surface == 1 ) SurfaceDensityCorrection( &mesh, input.model, topo, input.scaling  );
 
         if (input.model.anisotropy == 1 ) {
             InitialiseDirectorVector ( &mesh, &particles, &input.model, &input.materials, input.scaling.L);
diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 65ece59..2214e97 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -785,7 +785,9 @@ void UpdateParticleDensity( grid* mesh, scale scaling, params model, markers* pa
 
     for (k=0;k<Ncx*Ncz;k++) {
         rho_inc_grid[k] = 0.0;
-        if (mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31) rho_inc_grid[k] = mesh->rho_n[k] - mesh->rho0_n[k];
+        double w = 1.0; // rho0_n was multiplied by this factor in surface cells, rho_n was not
+        if (model.free_surface == 1 && mesh->FreeSurfW_n[k] > 0.0) w = mesh->FreeSurfW_n[k];
+        if (mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31) rho_inc_grid[k] = mesh->rho_n[k] - mesh->rho0_n[k]/w;
     }
     
     // Interp increments to particles
-- 
2.43.0


From c9207f09a35d473de4b31ab7cd8f36addb5d3979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:32 +0000
Subject: [PATCH 21/97] fix: lower bound of the composition diffusivity at the
 free surface was never set

---
 MDLIB/ChemicalRoutines.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index a56a467..7f0b26f 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -89,7 +89,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     double Pr,  Pr_phase;
     double dPr, dPr_phase;
     double ks;//   = k_chem;
-    double mink;// = k_chem;
+    double mink, maxk;
     
     // Pre-calculate FD coefs
     double one_dx_dx = 1.0/mesh->dx/mesh->dx;
@@ -102,6 +102,9 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     nxvz = nx+1;
     nzvx = nz+1;
     
+    // Get minimum value of k - safety: will be used a a lower limit if interpolated surface diffusivity is too low
+    MinMaxArrayVal( mesh->kc_x, nx*(nz+1), &mink, &maxk );
+
     // Solve system using CHOLMOD
     cholmod_common c;
     cholmod_start( &c );
-- 
2.43.0


From aa64a923ec279513794bd65788f5e91af4b763dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:32 +0000
Subject: [PATCH 22/97] fix: report of the chemical right-hand side reads past
 its end

---
 MDLIB/ChemicalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index 7f0b26f..ab3494d 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -148,7 +148,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
             b[eqn]  = transient * mesh->X_n[c2]/ dt;
         }
     }
-    MinMaxArray(b, scaling.E, ncz*ncx, "b chemical_diffusion");
+    MinMaxArray(b, scaling.E, neq, "b chemical_diffusion");
     
     //----------------------------------------------------//
 
-- 
2.43.0


From 91afc59fa5f9515667cb18a846c90e9d0b3846b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:32 +0000
Subject: [PATCH 23/97] fix: phase_two was read from the value of phase_mix

---
 MDLIB/InputOutput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 80d518f..18b690b 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1339,7 +1339,7 @@ Input ReadInputFile( char *fileName ) {
         materials.phase_diagram[k]     = (int)ReadMatProps( fin, "phase_diagram",     k,   -1  );
         // Diffused rheological contrasts
         materials.phase_mix[k]  = (int)ReadMatProps( fin, "phase_mix",k,          0.0  );
-        materials.phase_two[k]  = (int)ReadMatProps( fin, "phase_mix",k,    (double)k  );
+        materials.phase_two[k]  = (int)ReadMatProps( fin, "phase_two",k,    (double)k  );
         // Anisotropy
         materials.aniso_angle[k]    =  ReadMatProps( fin, "aniso_angle",     k,   90.0  )  * M_PI/ 180.0;
         materials.aniso_factor[k]   =  ReadMatProps( fin, "aniso_factor",    k,    1.0  ); 
-- 
2.43.0


From e5bd31fa047890b83282f6b79de3c40f48e699df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:47 +0000
Subject: [PATCH 24/97] fix: neighbour search of the reseeding (mode 1) reads
 freed counters

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 490f2b0..b5d25cc 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2503,7 +2503,7 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
                     for (int i=imin; i<=imax; i++) {
                         for (int j=jmin; j<=jmax; j++) {
                             kc = i + j*ncx;
-                            for (int n=0; n<part_count[kc]; n++) {
+                            for (int n=0; n<nb_part_cell[kc]; n++) {
                                 neighbours[nb_neigh] = part_cell[kc][n];
                                 nb_neigh++;
                             }
-- 
2.43.0


From 2d80c0188a360369f29913567fb98ae6a460c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:47 +0000
Subject: [PATCH 25/97] fix: reseeding (mode 0) wrote past its list of new
 markers when few markers are left, and past the marker arrays when they are
 full

---
 MDLIB/ParticleRoutines.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index b5d25cc..da0c725 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3017,9 +3017,10 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
         // Re-seeding on a double resolution grid
         if (reseed_markers==1) {
 
-            newi[ith]   = DoodzCalloc( npart[ith]  , sizeof(int));
-            newx[ith]   = DoodzCalloc( npart[ith]  , sizeof(double));
-            newz[ith]   = DoodzCalloc( npart[ith]  , sizeof(double));
+            // At most one new marker per quarter of a cell
+            newi[ith]   = DoodzCalloc( 4*ncx[ith]*Ncz, sizeof(int));
+            newx[ith]   = DoodzCalloc( 4*ncx[ith]*Ncz, sizeof(double));
+            newz[ith]   = DoodzCalloc( 4*ncx[ith]*Ncz, sizeof(double));
 
             // Count number of particle per re-seeding volume
             for (ip=0; ip<npart[ith]; ip++) {
@@ -3411,7 +3412,7 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
                     nb_new[ith]++;
                 }
                 // Security check
-                if (k>particles->Nb_part_max) {
+                if (k>=particles->Nb_part_max) {
                     printf ("Maximum number of particles exceeded!\n Exiting!\n");
                     exit(1);
                 }
-- 
2.43.0


From 0e4d80c76b3179c4f303cb880cb701909a26acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:47 +0000
Subject: [PATCH 26/97] fix: inflow of markers past the end of the marker
 arrays

---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index da0c725..0743bbd 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -633,6 +633,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(190);
                     }
 
                     // Add particles
@@ -660,6 +661,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(190);
                     }
                     
                     // Add particles
-- 
2.43.0


From 3b89bbdb7028fb5e5220234eeda28c05ddee228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:47 +0000
Subject: [PATCH 27/97] fix: new markers had no density

---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 0743bbd..8ff845b 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -691,6 +691,7 @@ void AssignMarkerProperties (markers* particles, int new_ind, int min_index, par
     
     particles->phase[new_ind]         = particles->phase[min_index];
     particles->dual[new_ind]          = particles->dual[min_index];
+    particles->rho[new_ind]           = particles->rho[min_index];
     if (particles->phase[min_index]==-1) {printf("New particle is has phase -1, error! (AssignMarkerProperties)\n" ); exit(99);}
     particles->Vx[new_ind]            = particles->Vx[min_index];
     particles->Vz[new_ind]            = particles->Vz[min_index];
@@ -762,6 +763,7 @@ void AssignMarkerPropertiesInflow (markers* particles, int new_ind, int min_inde
     params *model = &(input->model);  
     particles->phase[new_ind]         = particles->phase[min_index];
     particles->dual[new_ind]          = particles->dual[min_index];
+    particles->rho[new_ind]           = particles->rho[min_index];
     if (particles->phase[min_index]==-1) {printf("New particle is has phase -1, error! (AssignMarkerProperties)\n" ); exit(99);}
     particles->Vx[new_ind]            = particles->Vx[min_index];
     particles->Vz[new_ind]            = particles->Vz[min_index];
-- 
2.43.0


From 519e0d58a864ef1da1c5368790892be90dc88cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:47 +0000
Subject: [PATCH 28/97] fix: temperature increment in the time step control
 read past the end of the arrays

---
 MDLIB/AdvectionRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index 9651b58..b0c2ee3 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -588,8 +588,8 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
     }
 
     if (model->thermal==1) {
-        for (k=0; k<model->Nx+1; k++) {
-            for (l=0; l<model->Nz; l++) {
+        for (k=0; k<Ncx; k++) {
+            for (l=0; l<model->Nz-1; l++) {
                 c  = k   + l*Ncx;
                 dT = mesh->T[c] - mesh->T0_n[c];
                 if (fabs(dT) > dTmax) dTmax = dT;
-- 
2.43.0


From 926d01b56912ad8c648753e20a28f6373636e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:47 +0000
Subject: [PATCH 29/97] fix: model time ran ahead when the safe mode divided
 the time step

---
 MDLIB/Main_DOODZ.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index fb00ad4..b604e72 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -832,7 +832,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     printf( "\e[1;31mReducing the timestep, and restart the iterations cycle...\e[m\n");
                     printf( "Before reduction: input.model.dt =, %2.2e\n", input.model.dt* input.scaling.t);
                     // ----------------------
-                    input.model.dt /= input.model.safe_dt_div;
+                    input.model.time -= input.model.dt;
+                    input.model.dt   /= input.model.safe_dt_div;
+                    input.model.time += input.model.dt;
                     printf( "Timestep divided by %2.2f => NEW CURRENT input.model.dt =, %2.2e\n", input.model.safe_dt_div, input.model.dt* input.scaling.t);
                     Nmodel.stagnated = 0;
                     // ----------------------
-- 
2.43.0


From 3cd6b45080a94acc2add20634de2929b392449db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:48 +0000
Subject: [PATCH 30/97] fix: topography was diffused with half of the requested
 diffusivity

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d5593da..2314785 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -952,7 +952,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             for (i=1; i<size-1; i++) {
                 correct[i]  = 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
-            for (i=size-2; i==1; i--) {
+            for (i=size-2; i>=1; i--) {
                 correct[i] += 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
             for (i=1; i<size-1; i++) {
-- 
2.43.0


From 99980ed09caf1fb8aed451cd1282c494ea4043f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:48 +0000
Subject: [PATCH 31/97] fix: uplift of all but the last advection substep was
 lost

---
 MDLIB/Main_DOODZ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index b604e72..7c25694 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1074,6 +1074,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                 }
 
                 if (input.model.free_surface == 1 ) {
+                    // Displacements of the marker chains are measured from the start of the substep
+                    ArrayEqualArray(     topo.height0,     topo.height, mesh.Nx );
+                    ArrayEqualArray( topo_ini.height0, topo_ini.height, mesh.Nx );
                     // Advect free surface with RK2
                     RogerGuntherII( &topo_chain, input.model, mesh, 1, input.scaling );
                     RogerGuntherII( &topo_chain_ini, input.model, mesh, 1, input.scaling );
-- 
2.43.0


From a4e69028c27c18558747c9a9c032bd0bebdc3963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:48 +0000
Subject: [PATCH 32/97] fix: initial topography of the basement surface was
 never set

---
 MDLIB/Main_DOODZ.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 7c25694..130f99e 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -156,9 +156,11 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
             // Project topography on vertices
             InterpTopoPart2Grid( &topo, &topo_chain, input.model, mesh, input.scaling, mesh.xg_coord, 0 );
+            InterpTopoPart2Grid( &topo_ini, &topo_chain_ini, input.model, mesh, input.scaling, mesh.xg_coord, 0 );
 
             // Marker chain polynomial fit
             MarkerChainPolyFit( &topo, &topo_chain, input.model, mesh );
+            MarkerChainPolyFit( &topo_ini, &topo_chain_ini, input.model, mesh );
 
             // Call cell flagging routine for free surface calculations
             CellFlagging( &mesh, input.model, topo, input.scaling );
@@ -477,7 +479,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             ArrayEqualArray(     topo.height0,     topo.height, mesh.Nx );
             ArrayEqualArray( topo_ini.height0, topo_ini.height, mesh.Nx );
             ArrayEqualArray( topo_chain.z0, topo_chain.z, topo_chain.Nb_part ); // save old z
-            ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain.Nb_part ); // save old z
+            ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain_ini.Nb_part ); // save old z
         }
 
         // Interpolate material properties from particles to nodes
-- 
2.43.0


From 8f35ef10e6a5f7a9a79e2a2281aa3d67ddf8ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:48 +0000
Subject: [PATCH 33/97] fix: zero mean topography included unused markers and
 was undone by the remeshing

---
 MDLIB/FreeSurface.c | 4 ++--
 MDLIB/Main_DOODZ.c  | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 2314785..999127c 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -1078,14 +1078,14 @@ void KeepZeroMeanTopo(params *model, surface *topo, markers *topo_chain ) {
     }
     mean_z = 0.0;
     int nmark = 0;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         if (topo_chain->phase[i] > -1) {
         mean_z += topo_chain->z[i];
         nmark  ++;
         }
     }
     mean_z /= nmark;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         topo_chain->z[i] -= mean_z;
     }
 }
\ No newline at end of file
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 130f99e..6b19eef 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1137,7 +1137,10 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     CorrectTopoIni( &particles, input.materials, &topo_chain_ini, &topo, input.model, input.scaling, &mesh);
                     MarkerChainPolyFit( &topo_ini, &topo_chain_ini, input.model, mesh );
 
-                    if ( input.model.zero_mean_topo == 1 ) KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
+                    if ( input.model.zero_mean_topo == 1 ) {
+                        KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
+                        MarkerChainPolyFit( &topo,     &topo_chain, input.model, mesh );
+                    }
 
                     // Sedimentation
                     if ( input.model.surface_processes == 2 ) {
-- 
2.43.0


From c5cf39998d22e9df85b89ff5bedbc49aeb0c34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:48 +0000
Subject: [PATCH 34/97] fix: recycled markers of the topography chain stayed
 inactive for a step

---
 MDLIB/FreeSurface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 999127c..6b53aae 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -246,6 +246,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     if (recycle==1) ii++;
                     if (  ii>=nout) recycle=0;
                     // Local x coordinate:  1.0*dx/4.0/res
+                    topo_chain->phase[NewInd] = 0;
                     topo_chain->x[NewInd] = model.xmin + k*dx/res + dx/4.0/res;
                     // Index of the coarse grid column
                     distance        = (topo_chain->x[NewInd]-model.xmin-dx/2.0);
@@ -265,6 +266,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     if (recycle==1) ii++;
                     if (  ii>=nout) recycle=0;
                     // Local x coordinate:  3.0*dx/4.0/res
+                    topo_chain->phase[NewInd] = 0;
                     topo_chain->x[NewInd] = model.xmin + k*dx/res + 3.0*dx/4.0/res;
                     // Index of the coarse grid column
                     distance        = (topo_chain->x[NewInd]-model.xmin-dx/2.0);
-- 
2.43.0


From 0039d66902a45e617b8a2461534486851d2cc2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:48 +0000
Subject: [PATCH 35/97] fix: surface density correction read past the top row
 of cells

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 6b53aae..6f6ac8b 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -856,7 +856,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(ncx);
             mesh->FreeSurfW_n[c1] = 1.0;
             
-            if (mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
+            if (j<ncz-1 && mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
                 h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 h0               = fabs(h - mesh->zc_coord[j]);
                 // double rho_ini = mesh->rho_n[c1];
@@ -879,7 +879,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(nx);
             mesh->FreeSurfW_s[c1] = 1.0;
 
-            if (mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
+            if (j<nz-1 && mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
                 if (i==0)    h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 if (i==nx-1) h  = topo.b[nx-2] + topo.a[nx-2]*mesh->xc_coord[nx-2];
                 if (i>0 && i<nx-1) {
-- 
2.43.0


From a9555bc022b1825da62e5ae9320558b92eded4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:48 +0000
Subject: [PATCH 36/97] fix: sediment markers started with a singular
 deformation gradient and without density, director and noise

---
 MDLIB/FreeSurface.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 6f6ac8b..9bcf710 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -133,9 +133,23 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 
                 // Compute new altitude of the marker right in between the new and old position of the free surface
                 znew                      = 0.5*(hm+hm0);
+                if (new_ind >= particles->Nb_part_max) {
+                    printf("Max number of particles reached, Exiting...");
+                    exit(190);
+                }
                 particles->x[new_ind]     = xnew;
                 particles->z[new_ind]     = znew;
                 particles->phase[new_ind] = sed_phase;
+                particles->dual[new_ind]  = sed_phase;
+                particles->rho[new_ind]   = materials.rho[sed_phase];
+                particles->divth[new_ind] = 0.0;
+                particles->noise[new_ind] = 0.0;
+                particles->szzd[new_ind]  = 0.0;
+                particles->generation[new_ind] = 0;
+                if (model.anisotropy==1) {
+                    particles->nx[new_ind] = cos(materials.aniso_angle[sed_phase]);
+                    particles->nz[new_ind] = sin(materials.aniso_angle[sed_phase]);
+                }
                 
                 particles->sxxd[new_ind]          =  0.0;
                 particles->sxz[new_ind]           =  0.0;
@@ -160,8 +174,8 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 if (finite_strain==1) {
                     particles->Fxx[new_ind]           = 1.0;
                     particles->Fxz[new_ind]           = 0.0;
-                    particles->Fzx[new_ind]           = 1.0;
-                    particles->Fzz[new_ind]           = 0.0;
+                    particles->Fzx[new_ind]           = 0.0;
+                    particles->Fzz[new_ind]           = 1.0;
                 }
                 
                 if (track_T_P_x_z==1) {
-- 
2.43.0


From 4111d6d46db727af1a4375bc145dec290e9e9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:03 +0000
Subject: [PATCH 37/97] fix: refresh compressibility and thermal expansivity
 every step, not only with elasticity

---
 MDLIB/Main_DOODZ.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 6b19eef..74bc720 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -523,10 +523,11 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             InterpCentroidsToVerticesDouble( mesh.szzd0, mesh.szzd0_s, &mesh, &input.model );
             InterpVerticesToCentroidsDouble( mesh.sxz0_n,  mesh.sxz0,  &mesh, &input.model );
 
-            // Interpolate shear modulus
-            ShearModCompExpGrid( &mesh, &input.materials, &input.model, input.scaling );
         }
 
+        // Interpolate shear modulus, compressibility and expansivity
+        ShearModCompExpGrid( &mesh, &input.materials, &input.model, input.scaling );
+
         // Director vector
         if (input.model.anisotropy == 1 ) {
             P2Mastah( &input.model, particles, NULL, &mesh, mesh.d1_n,    mesh.BCp.type, -1, 0, interp, cent, input.model.interp_stencil);
-- 
2.43.0


From 13a408b665b351181a35729a1465af4a2ca6eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:03 +0000
Subject: [PATCH 38/97] fix: store the phase flags of the surface marker chains
 in the breakpoint

---
 MDLIB/InputOutput.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 18b690b..28725ec 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -182,12 +182,14 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         fread( topo_chain->z,         s3, topo_chain->Nb_part, file );
         fread( topo_chain->Vx,        s3, topo_chain->Nb_part, file );
         fread( topo_chain->Vz,        s3, topo_chain->Nb_part, file );
+        fread( topo_chain->phase,     s1, topo_chain->Nb_part, file );
 
         fread(&topo_chain_ini->Nb_part,   s1,                       1, file );
         fread( topo_chain_ini->x,         s3, topo_chain_ini->Nb_part, file );
         fread( topo_chain_ini->z,         s3, topo_chain_ini->Nb_part, file );
         fread( topo_chain_ini->Vx,        s3, topo_chain_ini->Nb_part, file );
         fread( topo_chain_ini->Vz,        s3, topo_chain_ini->Nb_part, file );
+        fread( topo_chain_ini->phase,     s1, topo_chain_ini->Nb_part, file );
     }
 
     fread( &particles->Nb_part,  s1, 1, file);
@@ -692,12 +694,14 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
         fwrite( topo_chain->z,         s3, topo_chain->Nb_part, file );
         fwrite( topo_chain->Vx,        s3, topo_chain->Nb_part, file );
         fwrite( topo_chain->Vz,        s3, topo_chain->Nb_part, file );
+        fwrite( topo_chain->phase,     s1, topo_chain->Nb_part, file );
 
         fwrite( &topo_chain_ini->Nb_part,  s1,                       1, file );
         fwrite( topo_chain_ini->x,         s3, topo_chain_ini->Nb_part, file );
         fwrite( topo_chain_ini->z,         s3, topo_chain_ini->Nb_part, file );
         fwrite( topo_chain_ini->Vx,        s3, topo_chain_ini->Nb_part, file );
         fwrite( topo_chain_ini->Vz,        s3, topo_chain_ini->Nb_part, file );
+        fwrite( topo_chain_ini->phase,     s1, topo_chain_ini->Nb_part, file );
     }
 
     fwrite( &particles->Nb_part,  s1, 1, file);
-- 
2.43.0


From 35497beb0c9e04c95f8d06c1eb257563ccc4edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:03 +0000
Subject: [PATCH 39/97] fix: read the time series of a breakpoint written by a
 run with another Nt

---
 MDLIB/InputOutput.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 28725ec..9b6ca78 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -319,22 +319,18 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         fread( mesh->nb_part_cell, s1,  Ncx*Ncz,   file );
         fread( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
-        // Timeseries
-        fread( mesh->Time_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Short_time     , s3,   model->Nt+1 ,   file );
-        fread( mesh->Work_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uthermal_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uelastic_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->T_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->P_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->szzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Tii_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->exxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->ezzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->exz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Eii_mean_time  , s3,   model->Nt+1 ,   file );
+        // Timeseries: the run that wrote the file may have had another number of steps
+        long pos = ftell(file);
+        fseek( file, 0, SEEK_END );
+        int nstored = (int)((ftell(file) - pos) / (15*s3));
+        int nread   = nstored < model->Nt+1 ? nstored : model->Nt+1;
+        DoodzFP *series[15] = { mesh->Time_time, mesh->Short_time, mesh->Work_time, mesh->Uthermal_time, mesh->Uelastic_time,
+                                mesh->T_mean_time, mesh->P_mean_time, mesh->sxxd_mean_time, mesh->szzd_mean_time, mesh->sxz_mean_time,
+                                mesh->Tii_mean_time, mesh->exxd_mean_time, mesh->ezzd_mean_time, mesh->exz_mean_time, mesh->Eii_mean_time };
+        for ( k=0; k<15; k++ ) {
+            fseek( file, pos + (long)k*nstored*s3, SEEK_SET );
+            fread( series[k], s3, nread, file );
+        }
 
 
     fclose(file);
-- 
2.43.0


From 6da362b29aacb44fd368df4fdb914ae378f2390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:17 +0000
Subject: [PATCH 40/97] fix: do not close a file that could not be opened

---
 MDLIB/InputOutput.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 9b6ca78..40ba45f 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -70,7 +70,6 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
     file = fopen(name, "rb");
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-        fclose(file);
         free(name);
         exit(1);
     }
@@ -159,7 +158,6 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     file = fopen(name, "rb");
     if ( file == NULL ) {
        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-       fclose(file);
        free(name);
        exit(1);
     }
@@ -669,7 +667,6 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
         free(name);
-        fclose(file);
         exit(1);
     }
     fwrite( &s1, 1, 1, file);
@@ -1021,7 +1018,6 @@ Input ReadInputFile( char *fileName ) {
     fin = fopen(fileName,"rt");
     if (fin == NULL) {
         printf("Setup file '%s' does not exist\nExiting...\n", fileName);
-        fclose(fin);
         exit(1);
     }
 
@@ -2203,7 +2199,6 @@ void UpdateInputFile( char fin_name[], int NewNumber ) {
     fin = fopen(fin_name,"r+");
 	if ( fin == NULL) {
 		printf("Setup file '%s' does not exist\nExiting...\n", fin_name);
-        fclose(fin);
 		exit(1);
 	}
     // Seach for sign 'equal' in the lines
-- 
2.43.0


From da88bb41d52d27c21a4a31c81ceb2ae5ed7af1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:17 +0000
Subject: [PATCH 41/97] fix: write checkpoints to a temporary file and rename
 it into place

---
 MDLIB/InputOutput.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 40ba45f..da252aa 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -27,6 +27,7 @@
 #include "string.h"
 #include "math.h"
 #include "ctype.h"
+#include "unistd.h"
 #include "mdoodz-private.h"
 
 #ifdef _OMP_
@@ -121,19 +122,14 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void DeletePreviousBreakpoint( int step, int writer_step ) {
-    char *name, *command, *new_name;
+    char *name;
     int success;
     if ((step- 2*writer_step)>1) {
-        asprintf(&new_name, "Breakpoint%05d.dat", step- 0*writer_step);
         asprintf(&name,     "Breakpoint%05d.dat", step- 2*writer_step);
-        asprintf(&command, "mv %s %s", name, new_name );
-        success = system( command );
-        printf("File %s replaced by %s\n", name, new_name);
-        if ( success!=-1 ) printf("File %s was successfully renamed\n", name);
-        else printf("File %s was not successfully renamed\n", name);
+        success = remove( name );
+        if ( success!=-1 ) printf("File %s was successfully removed\n", name);
+        else printf("File %s was not successfully removed\n", name);
         free(name);
-        free(new_name);
-        free(command);
     }
 }
 
@@ -497,7 +493,7 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
 
 void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_chain, markers *topo_chain_ini, params model, surface *topo, surface* topo_ini, scale scaling ) {
 
-    char *name;
+    char *name, *tmp_name;
     int s1=sizeof(int), s2=sizeof(double), s3=sizeof(DoodzFP), s4=sizeof(char);
     int k, l, Nx=model.Nx, Nz=model.Nz, c;
     int Ncx = Nx-1, Ncz = Nz-1;
@@ -663,10 +659,13 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     if( model.delete_breakpoints == -1 ) asprintf(&name, "BreakpointXXXXX.dat");
     else asprintf(&name, "Breakpoint%05d.dat", model.step);
 
-    file = fopen(name, "wb");
+    // Write to a temporary file first: a file with the final name is always complete
+    asprintf(&tmp_name, "%s.tmp", name);
+    file = fopen(tmp_name, "wb");
     if ( file == NULL ) {
-        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
+        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", tmp_name);
         free(name);
+        free(tmp_name);
         exit(1);
     }
     fwrite( &s1, 1, 1, file);
@@ -840,8 +839,17 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     fwrite( mesh->exz_mean_time  , s3,   model.Nt+1 ,   file );
     fwrite( mesh->Eii_mean_time  , s3,   model.Nt+1 ,   file );
 
-    fclose(file);
+    int failed = ferror(file);
+    failed    |= fflush(file);
+    failed    |= fsync(fileno(file));
+    failed    |= fclose(file);
+    if ( failed != 0 || rename(tmp_name, name) != 0 ) {
+        printf("Error writing %s\nExiting...\n", name);
+        remove(tmp_name);
+        exit(1);
+    }
     free(name);
+    free(tmp_name);
 
     //---------------------------------------------------------------------------------------------------------//
 
-- 
2.43.0


From f01e741bb145758ee2802b5f2c82dffc605124fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:35 +0000
Subject: [PATCH 42/97] fix: refuse truncated or foreign checkpoints

---
 MDLIB/InputOutput.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index da252aa..15f110d 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -161,6 +161,10 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     fread( &s2, 1, 1, file);
     fread( &s3, 1, 1, file);
     fread( &s4, 1, 1, file);
+    if ( s1 != sizeof(int) || s2 != sizeof(double) || s3 != sizeof(DoodzFP) || s4 != sizeof(char) ) {
+        printf("File %s is not a breakpoint file\nExiting...\n", name);
+        exit(1);
+    }
     fread( &model->dt,   s2, 1, file);
     fread( &model->dt0,  s2, 1, file);
     fread( &model->time, s2, 1, file);
@@ -187,6 +191,10 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     }
 
     fread( &particles->Nb_part,  s1, 1, file);
+    if ( particles->Nb_part < 0 || particles->Nb_part > particles->Nb_part_max ) {
+        printf("File %s does not fit this setup: %d markers\nExiting...\n", name, particles->Nb_part);
+        exit(1);
+    }
     fread( particles->x,    s3, particles->Nb_part, file);
     fread( particles->z,    s3, particles->Nb_part, file);
     fread( particles->P,    s3, particles->Nb_part, file);
@@ -316,7 +324,8 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         // Timeseries: the run that wrote the file may have had another number of steps
         long pos = ftell(file);
         fseek( file, 0, SEEK_END );
-        int nstored = (int)((ftell(file) - pos) / (15*s3));
+        const long size = ftell(file) - pos;
+        int nstored = (int)(size / (15*s3));
         int nread   = nstored < model->Nt+1 ? nstored : model->Nt+1;
         DoodzFP *series[15] = { mesh->Time_time, mesh->Short_time, mesh->Work_time, mesh->Uthermal_time, mesh->Uelastic_time,
                                 mesh->T_mean_time, mesh->P_mean_time, mesh->sxxd_mean_time, mesh->szzd_mean_time, mesh->sxz_mean_time,
@@ -325,6 +334,10 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
             fseek( file, pos + (long)k*nstored*s3, SEEK_SET );
             fread( series[k], s3, nread, file );
         }
+        if ( size % (15*s3) != 0 || nstored < model->step+1 || feof(file) || ferror(file) ) {
+            printf("File %s is truncated\nExiting...\n", name);
+            exit(1);
+        }
 
 
     fclose(file);
-- 
2.43.0


From d424d9c324baae05b1a6a966f034f870b0fdcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:27 +0000
Subject: [PATCH 43/97] fix: reset the vorticity of vertices in the air

---
 MDLIB/RheologyDensity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 9e0145e..881c1e0 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1719,6 +1719,7 @@ void StrainRateComponents( grid* mesh, scale scaling, params* model ) {
     c2 = k  + l*(Nx+1);
 
     mesh->exz[c1] = 0.0;
+    mesh->wxz[c1] = 0.0;
 
     if ( mesh->BCg.type[c1] != 30 ) {
       //            // Original implementation from Duretz et al., 2016
-- 
2.43.0


From 7d0b81bf9f52d6b69dcbff6ac0161de5fcb390cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:27 +0000
Subject: [PATCH 44/97] fix: material properties of nodes without markers came
 from an earlier step

---
 MDLIB/ParticleRoutines.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 8ff845b..a0d4a6e 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2306,6 +2306,23 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
         }
     }
 
+    // Material properties of nodes without any marker: average of the neighbours (not the value of an earlier step)
+    if ( prop==0 && flag==0 ) {
+        for (i=0; i<Nx*Nz; i++) {
+            if ( fabs(WM[i])<1e-30 && NodeType[i]!=30 && NodeType[i]!=31 ) {
+                const int ic = i%Nx, jc = i/Nx;
+                const int nb[4] = { i-1, i+1, i-Nx, i+Nx };
+                const int ex[4] = { ic>0, ic<Nx-1, jc>0, jc<Nz-1 };
+                double sum = 0.0;
+                int    num = 0;
+                for (k=0; k<4; k++) {
+                    if ( ex[k] && fabs(WM[nb[k]])>=1e-30 && NodeType[nb[k]]!=30 && NodeType[nb[k]]!=31 ) { sum += NodeField[nb[k]]; num++; }
+                }
+                if (num>0) NodeField[i] = sum/num;
+            }
+        }
+    }
+
     // Make periodic (vertices and Vx nodes have one column on each side of the box)
     if ( (centroid==0 || centroid==-1) && prop==0 && model->periodic_x==1) {
         double av;
-- 
2.43.0


From 76b70913e2023945bb5b8db030e9d381b8c519bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:56 +0000
Subject: [PATCH 45/97] fix: old stresses of the air came from an earlier step

---
 MDLIB/Main_DOODZ.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 74bc720..bf9c97c 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -514,7 +514,10 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         // Elasticity - interpolate advected/rotated stresses
         if  (input.model.elastic == 1 ) {
 
-            // Get old stresses from particles
+            // Get old stresses from particles (no stress where there is no material)
+            Initialise1DArrayDouble( mesh.sxxd0, Ncx*Ncz, 0.0 );
+            Initialise1DArrayDouble( mesh.szzd0, Ncx*Ncz, 0.0 );
+            Initialise1DArrayDouble( mesh.sxz0,  input.model.Nx*input.model.Nz, 0.0 );
             P2Mastah( &input.model, particles, particles.sxxd,    &mesh, mesh.sxxd0, mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
             P2Mastah( &input.model, particles, particles.szzd,    &mesh, mesh.szzd0, mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
             P2Mastah( &input.model, particles, particles.sxz,     &mesh, mesh.sxz0,  mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
-- 
2.43.0


From 7a563b442bc4e4987e340088d3bfe02bfe602168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:47 +0000
Subject: [PATCH 46/97] fix: record the length of the time series in the
 breakpoint

---
 MDLIB/InputOutput.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 15f110d..4692a8b 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -322,10 +322,15 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         fread( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
         // Timeseries: the run that wrote the file may have had another number of steps
+        int nstored = 0;
+        fread( &nstored, s1, 1, file );
         long pos = ftell(file);
         fseek( file, 0, SEEK_END );
         const long size = ftell(file) - pos;
-        int nstored = (int)(size / (15*s3));
+        if ( nstored < model->step+1 || size != 15L*s3*nstored ) {
+            printf("File %s is truncated or does not fit this setup\nExiting...\n", name);
+            exit(1);
+        }
         int nread   = nstored < model->Nt+1 ? nstored : model->Nt+1;
         DoodzFP *series[15] = { mesh->Time_time, mesh->Short_time, mesh->Work_time, mesh->Uthermal_time, mesh->Uelastic_time,
                                 mesh->T_mean_time, mesh->P_mean_time, mesh->sxxd_mean_time, mesh->szzd_mean_time, mesh->sxz_mean_time,
@@ -334,8 +339,8 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
             fseek( file, pos + (long)k*nstored*s3, SEEK_SET );
             fread( series[k], s3, nread, file );
         }
-        if ( size % (15*s3) != 0 || nstored < model->step+1 || feof(file) || ferror(file) ) {
-            printf("File %s is truncated\nExiting...\n", name);
+        if ( feof(file) || ferror(file) ) {
+            printf("Error reading %s\nExiting...\n", name);
             exit(1);
         }
 
@@ -836,6 +841,8 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     fwrite( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
     // Timeseries
+    int nseries = model.Nt+1;
+    fwrite( &nseries             , s1,            1 ,   file );
     fwrite( mesh->Time_time      , s3,   model.Nt+1 ,   file );
     fwrite( mesh->Short_time     , s3,   model.Nt+1 ,   file );
     fwrite( mesh->Work_time      , s3,   model.Nt+1 ,   file );
-- 
2.43.0


From 17df20a876eaa306350ca00764fd484c64e30512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:47 +0000
Subject: [PATCH 47/97] fix: stop when an output file cannot be written

---
 MDLIB/HDF5Output.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/MDLIB/HDF5Output.c b/MDLIB/HDF5Output.c
index 0907c90..f670d2c 100755
--- a/MDLIB/HDF5Output.c
+++ b/MDLIB/HDF5Output.c
@@ -94,6 +94,11 @@ void DoubleToFloat(double* FieldD, float* FieldF, int size) {
 /*------------------------------------------------------ M-Doodz -----------------------------------------------------*/
 /*--------------------------------------------------------------------------------------------------------------------*/
 
+static void StopHDF5( const char FileName[] ) {
+    printf("Error writing %s\nExiting...\n", FileName);
+    exit(1);
+}
+
 // The following routines were originally writen by D. A. May, and used in I2VIS //
 void CreateOutputHDF5( const char FileName[] )
 {
@@ -103,7 +108,7 @@ void CreateOutputHDF5( const char FileName[] )
 	file_id = H5Fcreate( FileName, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
 
 	/* Terminate access to the file. */
-	H5Fclose(file_id);
+	if ( file_id < 0 || H5Fclose(file_id) < 0 ) StopHDF5( FileName );
 }
 
 /*--------------------------------------------------------------------------------------------------------------------*/
@@ -127,7 +132,7 @@ void AddGroupToHDF5( const char filename[], const char group[] )
 	H5Gclose(group_id);
 
 	/* Close the file. */
-	H5Fclose(file_id);
+	if ( group_id < 0 || H5Fclose(file_id) < 0 ) StopHDF5( filename );
 
 	free( group_name );
 }
@@ -147,6 +152,7 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 	double percentage_chunk;
 	double chunk_size;
 	int deflation_level, quiet=1;
+	herr_t  status = 0;
     int compress=_TRUE_;
 
 	asprintf( &group_name, "/%s", group );
@@ -196,23 +202,23 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_NATIVE_DOUBLE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
 
 		/* Write the particle dataset. */
-		H5Dwrite(coord_dataset_id, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+		status = H5Dwrite(coord_dataset_id, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
 	}
 
 	else if( d_type == 'c' ) {
 		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_NATIVE_CHAR, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
-        H5Dwrite(coord_dataset_id, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+        status = H5Dwrite(coord_dataset_id, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
 
 	}
 
 	else if( d_type == 'i' ) {
 		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_STD_I32BE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
-        H5Dwrite(coord_dataset_id, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+        status = H5Dwrite(coord_dataset_id, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
 
 	}
 	else if( d_type == 'f' ) {
 		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_NATIVE_FLOAT, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
-        H5Dwrite(coord_dataset_id, H5T_NATIVE_FLOAT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+        status = H5Dwrite(coord_dataset_id, H5T_NATIVE_FLOAT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
 
 	}
 
@@ -227,7 +233,7 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 	//status = H5Sclose(attr_dataspace_id);
 
 	/* Close the particle coord dataset. */
-	H5Dclose(coord_dataset_id);
+	if ( H5Dclose(coord_dataset_id) < 0 ) status = -1;
 
 	/* free(dataset_nameP); */
 	/* } */
@@ -242,7 +248,7 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 	H5Gclose(particle_group_id);
 
 	/* Close the file. */
-	H5Fclose(file_id);
+	if ( status < 0 || H5Fclose(file_id) < 0 ) StopHDF5( filename );
 
 	free(group_name);
 	free(dataset_name);
-- 
2.43.0


From a53363b27afd30f147e3f0183b31f95f841194b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:47 +0000
Subject: [PATCH 48/97] fix: write the output files of a step before its
 checkpoint

---
 MDLIB/Main_DOODZ.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index bf9c97c..0037974 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1249,13 +1249,6 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             printf("********* Write output files ********\n");
             printf("*************************************\n");
 
-            // Breakpoint file
-            t_omp = (double)omp_get_wtime();
-            if (input.model.delete_breakpoints == 1 ) DeletePreviousBreakpoint(input.model.step, input.model.writer_step  );
-            MakeBreakpointParticles( &particles, &mesh, &topo_chain, &topo_chain_ini, input.model, &topo, &topo_ini, input.scaling );
-            // UpdateInputFile( inputFileName, input.model.step);
-            printf("** Time for Breakpoint file write = %lf sec\n", (omp_get_wtime() - t_omp));
-
             // Visualisation file
 #ifndef _VG_
             t_omp = (double)omp_get_wtime();
@@ -1263,6 +1256,13 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             if (input.model.writer_markers == 1 ) WriteOutputHDF5Particles( &mesh, &particles, &topo, &topo_chain, &topo_ini, &topo_chain_ini, input.model, BaseParticleFileName, input.materials, input.scaling );
             printf("** Time for Output file write = %lf sec\n", (omp_get_wtime() - t_omp));
 #endif
+
+            // Breakpoint file
+            t_omp = (double)omp_get_wtime();
+            if (input.model.delete_breakpoints == 1 ) DeletePreviousBreakpoint(input.model.step, input.model.writer_step  );
+            MakeBreakpointParticles( &particles, &mesh, &topo_chain, &topo_chain_ini, input.model, &topo, &topo_ini, input.scaling );
+            // UpdateInputFile( inputFileName, input.model.step);
+            printf("** Time for Breakpoint file write = %lf sec\n", (omp_get_wtime() - t_omp));
         }
 
         VERIF_HOOK("step_end");
-- 
2.43.0


From 63a857b5051439fc2dab6dd95e7d323880e3e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:47 +0000
Subject: [PATCH 49/97] fix: refuse checkpoints whose surface chain does not
 fit

---
 MDLIB/InputOutput.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 4692a8b..709cf7a 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -176,6 +176,10 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
 
     if (model->free_surface == 1) {
         fread(&topo_chain->Nb_part,   s1,                   1, file );
+        if ( topo_chain->Nb_part < 0 || topo_chain->Nb_part > topo_chain->Nb_part_max ) {
+            printf("File %s does not fit this setup: %d surface markers\nExiting...\n", name, topo_chain->Nb_part);
+            exit(1);
+        }
         fread( topo_chain->x,         s3, topo_chain->Nb_part, file );
         fread( topo_chain->z,         s3, topo_chain->Nb_part, file );
         fread( topo_chain->Vx,        s3, topo_chain->Nb_part, file );
@@ -183,6 +187,10 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         fread( topo_chain->phase,     s1, topo_chain->Nb_part, file );
 
         fread(&topo_chain_ini->Nb_part,   s1,                       1, file );
+        if ( topo_chain_ini->Nb_part < 0 || topo_chain_ini->Nb_part > topo_chain_ini->Nb_part_max ) {
+            printf("File %s does not fit this setup: %d surface markers\nExiting...\n", name, topo_chain_ini->Nb_part);
+            exit(1);
+        }
         fread( topo_chain_ini->x,         s3, topo_chain_ini->Nb_part, file );
         fread( topo_chain_ini->z,         s3, topo_chain_ini->Nb_part, file );
         fread( topo_chain_ini->Vx,        s3, topo_chain_ini->Nb_part, file );
-- 
2.43.0


From b16d305cbed209740c80061d25aa256ae79ff01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:31 +0000
Subject: [PATCH 50/97] fix: stop without the exit handler of the HDF5 library
 when an output file cannot be written

---
 MDLIB/HDF5Output.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MDLIB/HDF5Output.c b/MDLIB/HDF5Output.c
index f670d2c..7a5497a 100755
--- a/MDLIB/HDF5Output.c
+++ b/MDLIB/HDF5Output.c
@@ -96,7 +96,8 @@ void DoubleToFloat(double* FieldD, float* FieldF, int size) {
 
 static void StopHDF5( const char FileName[] ) {
     printf("Error writing %s\nExiting...\n", FileName);
-    exit(1);
+    fflush( NULL );
+    _exit(1); // the exit handler of the HDF5 library does not survive files that could not be flushed
 }
 
 // The following routines were originally writen by D. A. May, and used in I2VIS //
-- 
2.43.0


From 44e518ee49c3e8054b67d3a9057052115ab09b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 51/97] fix: markers moved by more than the width of a periodic
 box or to undefined positions

---
 MDLIB/AdvectionRoutines.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index b0c2ee3..f04d75c 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -326,14 +326,15 @@ void isoutPart( markers *particles, params *model, int k ) {
             // Correct position in x
             particles->x[k] = model->xmin + ABSV(model->xmax - particles->x[k]);
         }
-        if ( particles->z[k] < model->zmin || particles->z[k] > model->zmax ) {
-            particles->phase[k] = -1;
+        // Displacement larger than the width of the box
+        if ( particles->x[k] < model->xmin || particles->x[k] > model->xmax ) {
+            const double Lx = model->xmax - model->xmin;
+            particles->x[k] -= Lx*floor( (particles->x[k] - model->xmin)/Lx );
         }
     }
-    else {
-        if (particles->x[k] < model->xmin || particles->x[k] > model->xmax || particles->z[k] < model->zmin || particles->z[k] > model->zmax) {
-            particles->phase[k] = -1;
-        }
+    // Written such that undefined positions are outside
+    if ( !(particles->x[k] >= model->xmin && particles->x[k] <= model->xmax && particles->z[k] >= model->zmin && particles->z[k] <= model->zmax) ) {
+        particles->phase[k] = -1;
     }
 
 }
-- 
2.43.0


From a13e45ce3c39fc37c26b31dddb1ec86f1293587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:23 +0000
Subject: [PATCH 52/97] fix: marker_aniso_angle without anisotropy

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 70f1bf2..84585ab 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -132,7 +132,7 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
       particles->Fzx[np] = F.zx;
       particles->Fzz[np] = F.zz;
     }
-    if (instance->model.marker_aniso_angle && setParticles.SetAnisoAngle) {
+    if (instance->model.anisotropy == 1 && instance->model.marker_aniso_angle && setParticles.SetAnisoAngle) {
       double predefined_angle = 0.;
       particles->aniso_angle[np] = setParticles.SetAnisoAngle(instance, coordinates, particles->phase[np], predefined_angle);
     }
-- 
2.43.0


From 2655d9a4e702b0b0a8ed974c24651a96228da533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:23 +0000
Subject: [PATCH 53/97] fix: refuse kin = 9 without the kinetic data

---
 MDLIB/FlowLaws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/FlowLaws.c b/MDLIB/FlowLaws.c
index 34090c3..31e99c6 100755
--- a/MDLIB/FlowLaws.c
+++ b/MDLIB/FlowLaws.c
@@ -954,6 +954,7 @@ void ReadDataKinetics( mat_prop* mat, params* model, int k, int number, scale* s
             
         case 9 :
             printf("Quartz-Coesite - Mosenfelder & Bohlen (1997);");
+            if ( model->kinetics != 1 ) { printf("kin = 9 relies on kinetic data: set kinetics = 1\n"); exit(12);}
             mat->Skin[k] = 3.35/1e-4 / (1.0/scaling->L);
             mat->kkin[k] = 0.185     / (scaling->L/scaling->t/scaling->T);
             mat->Qkin[k] = 243e3     / scaling->J;
-- 
2.43.0


From 1d8d1bff7480cee2083ee7399c2dd3b304d0e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 54/97] fix: line search uses an undefined index when no step
 lowers the pressure residual

---
 MDLIB/StokesRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/StokesRoutines.c b/MDLIB/StokesRoutines.c
index 59317cc..7e3f565 100755
--- a/MDLIB/StokesRoutines.c
+++ b/MDLIB/StokesRoutines.c
@@ -672,6 +672,7 @@ double LineSearchDecoupled( SparseMat *Stokes, SparseMat *StokesA, SparseMat *St
         ixz    = 0;
         ix     = 0;
         iz     = 0;
+        ip     = 0;
         ixzp   = 0;
         for( k=1; k<ntry; k++ ) {
             fxzp = sqrt( pow( rx[k],2 ) + pow( rz[k],2 ) + pow( rp[k],2 ) );
-- 
2.43.0


From eca939eb0a44bea7b4520495621cecc519d27448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 55/97] fix: first Newton step of a time step that starts with
 Picard iterations

---
 MDLIB/Main_DOODZ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 0037974..1910f61 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -683,7 +683,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             if ( Nmodel.nit==0 ) CholmodSolver.Analyze = 1;
             printf("Run CHOLMOD analysis yes/no: %d \n", CholmodSolver.Analyze);
             int Nmax_picard = Nmodel.nit_max;
-            int IsFirstNewtonStep;
+            int IsFirstNewtonStep = 1;
             // If Picard 2 Newton is activated: force initial Newton step
             if ( IsNewtonStep == 1 && Nmodel.Picard2Newton == 1 ) {
               input.model.Newton = 0;
-- 
2.43.0


From 8b3633183c49450297e5c04fdeb29f65e2cfcf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 56/97] fix: model description written to output files is
 undefined

---
 MDLIB/InputOutput.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 709cf7a..ecd734b 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1051,6 +1051,8 @@ Input ReadInputFile( char *fileName ) {
     FILE *fin;
     int k, gsel;
 
+    memset(model.description, 0, sizeof(model.description));
+
     fin = fopen(fileName,"rt");
     if (fin == NULL) {
         printf("Setup file '%s' does not exist\nExiting...\n", fileName);
-- 
2.43.0


From bc3d9c02c776b26628549bbd356aa053d8fc0862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 57/97] fix: release the stress of the lateral boundaries

---
 MDLIB/Main_DOODZ.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 1910f61..ee90753 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -59,6 +59,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             .materials         = inputFile.materials,
             .crazyConductivity = NULL,
             .flux              = NULL,
+            .stress            = NULL,
     };
 
     if (input.model.free_surface) {
@@ -1299,6 +1300,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
     if (input.flux) {
       free(input.flux);
     }
+    if (input.stress) {
+      free(input.stress);
+    }
 
     if (input.crazyConductivity) {
         free(input.crazyConductivity->phases);
-- 
2.43.0


From a9ccbdcf83e657fd96bf879326254a8b80ad137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 58/97] fix: release the file name of marker output

---
 MDLIB/HDF5Output.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/MDLIB/HDF5Output.c b/MDLIB/HDF5Output.c
index 7a5497a..272b5ad 100755
--- a/MDLIB/HDF5Output.c
+++ b/MDLIB/HDF5Output.c
@@ -1124,8 +1124,6 @@ void WriteOutputHDF5Particles( grid *mesh, markers *particles, surface *topo, ma
     }
 
     // Generate file name
-    asprintf( &FileName, "%s%05d%s",txtout, model.step, ".gzip.h5");
-
     if (model.writer_subfolder && strcmp(model.writer_subfolder, "")) {
       CreateDir(model.writer_subfolder);
       char *temp_fname;
-- 
2.43.0


From c3f3dd9faf6eaaa51ded8e71eba8cd5a8a3ae0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 59/97] fix: close the files of initial markers and 1D tables

---
 MDLIB/InputOutput.c | 4 ++--
 MDLIB/Setup.c       | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index ecd734b..4d177d0 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1449,8 +1449,8 @@ Input ReadInputFile( char *fileName ) {
             model.PD1Dmax[k]        = 1e10/scaling.S;
             model.PD1Drho[k] = DoodzCalloc( model.PD1DnP[k], sizeof(double));
             char *fname = "PHASE_DIAGRAMS/QuartzCoesite600C.bin";
-            if ( fopen(fname, "rb") != NULL ) {
-                FILE* read = fopen(fname, "rb");
+            FILE* read = fopen(fname, "rb");
+            if ( read != NULL ) {
                 fread ( model.PD1Drho[k],     sizeof(double), model.PD1DnP[k] , read);
                 fclose(read);
 
diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 84585ab..8fdd991 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -142,8 +142,8 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
   FILE *file;
   if (instance->model.save_initial_markers == 1) {
         printf("Write initial particle distribution\n");
-        if (fopen(instance->model.initial_markers_file, "wb")!=NULL){
-            file = fopen(instance->model.initial_markers_file, "wb");
+        file = fopen(instance->model.initial_markers_file, "wb");
+        if (file!=NULL){
             printf("Writing %d particles from file %s...\n", particles->Nb_part, instance->model.initial_markers_file);
         }
         else {
@@ -159,8 +159,8 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
     if (instance->model.load_initial_markers == 1) {
 
         printf("Read initial particle distribution\n");
-        if (fopen(instance->model.initial_markers_file, "rb")!=NULL){
-            file = fopen(instance->model.initial_markers_file, "rb");
+        file = fopen(instance->model.initial_markers_file, "rb");
+        if (file!=NULL){
             printf("Loading %d particles from file %s...\n", particles->Nb_part, instance->model.initial_markers_file);
         }
         else {
-- 
2.43.0


From aa9eecd357beee7c8207b89d67f771caeb695f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:14 +0000
Subject: [PATCH 60/97] fix: start from zeroed material parameters

---
 MDLIB/InputOutput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 4d177d0..fe11f06 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1046,7 +1046,7 @@ Input ReadInputFile( char *fileName ) {
     //------------------------------------------------------------------------------------------------------------------------------//
 
     params model;
-    mat_prop materials;
+    mat_prop materials = {0};
     Nparams Nmodel;
     FILE *fin;
     int k, gsel;
-- 
2.43.0


From e68f302f8b852281b10edff6b7ef4b8d388f8014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 61/97] fix: lines of the setup file without a space

---
 MDLIB/InputOutput.c | 49 +++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index fe11f06..e812a5d 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1930,6 +1930,11 @@ char* ReadPhaseDiagram( FILE *fin, char FieldName[] ) {
 /*------------------------------------------------------ M-Doodz -----------------------------------------------------*/
 /*--------------------------------------------------------------------------------------------------------------------*/
 
+// Length of the parameter name at the beginning of a line
+static int NameLength( const char *line ) {
+    return (int)strcspn( line, " \t=\r\n" );
+}
+
 int ReadInt2( FILE *fin, char FieldName[], int Default )
 {
     // Declarations
@@ -1958,12 +1963,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         }
 
         // Determine the length of the parameter string in the current line.
-        int InPar_length = 0;
-
-        while(line[InPar_length] != ' ')
-        {
-            InPar_length = InPar_length + 1;
-        }
+        int InPar_length = NameLength( line );
 
         // Allocate memory to save the current parameter string.
         char *param2;
@@ -1980,9 +1980,9 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         if( (strcmp(param1, param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; line[h] != '\0'; h++)
             {
-                if(strlen(line)> 0 && line[h]=='=')
+                if(line[h]=='=')
                 {
                     value = atoi(&line[h+1]);
                     free(param1);
@@ -2031,11 +2031,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
         }
 
         // Determine the length of the parameter string in the current line.
-        int InPar_length = 0;
-        while(line[InPar_length] != ' ')
-        {
-            InPar_length = InPar_length + 1;
-        }
+        int InPar_length = NameLength( line );
 
         // Allocate memory to save the current parameter string.
         char *param2;
@@ -2052,9 +2048,9 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
         if( (strcmp(param1, param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; line[h] != '\0'; h++)
             {
-                if(strlen(line)> 0 && line[h]=='=')
+                if(line[h]=='=')
                 {
                     value = atof(&line[h+1]);
                     free(param1);
@@ -2104,12 +2100,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         }
 
         // Determine the length of the parameter string in the current line.
-        int InPar_length = 0;
-
-        while(line[InPar_length] != ' ')
-        {
-            InPar_length = InPar_length + 1;
-        }
+        int InPar_length = NameLength( line );
 
         // Allocate memory to save the current parameter string.
         char *param2;
@@ -2126,9 +2117,10 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         if( (strcmp("ID", param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            ID_value = -1;
+            for (h = 0; line[h] != '\0'; h++)
             {
-                if(strlen(line)> 0 && line[h] == '=')
+                if(line[h] == '=')
                 {
                     ID_value = atoi(&line[h+1]);
                     break;
@@ -2144,11 +2136,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     // Read new line
                     fgets ( phase_line, sizeof(phase_line), fin );
                     // Determine the length of the parameter string in the current line.
-                    InPar_length = 0;
-                    while(phase_line[InPar_length] != ' ')
-                    {
-                        InPar_length = InPar_length + 1;
-                    }
+                    InPar_length = NameLength( phase_line );
 
                     // Allocate memory to save the current parameter string.
                     char *param3;
@@ -2176,10 +2164,10 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     if( (strcmp(param1, param3)) == 0 )
                     {
                         // Search for equal sign
-                        for (h = 0; h < bufmax ;h++)
+                        for (h = 0; phase_line[h] != '\0'; h++)
                         {
 
-                            if(strlen(line)> 0 && phase_line[h]=='=')
+                            if(phase_line[h]=='=')
                             {
                                 value = atof(&phase_line[h+1]);
                                 free(param1);
@@ -2188,7 +2176,6 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                                 return value;
                             }
                         }
-                        subfind = 1;
                     }
 
                     // Break in case the parameter has not been defined until the end of the file.
-- 
2.43.0


From 132fce975e095fbe56762bfc487392a62a9ca566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 62/97] fix: last line of the setup file without newline

---
 MDLIB/InputOutput.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index e812a5d..1d791cf 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1954,8 +1954,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
     while(value == 0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if ( fgets ( line, sizeof(line), fin ) == NULL ) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %d\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -2022,8 +2021,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
     while(value == 0.0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if ( fgets ( line, sizeof(line), fin ) == NULL ) {
             // printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -2090,8 +2088,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
     while(find == 0)
     {
         // Read new line and check for existence of phases. If not exit.
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin))
+        if ( fgets ( line, sizeof(line), fin ) == NULL )
         {
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
@@ -2134,7 +2131,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                 while(subfind == 0)
                 {
                     // Read new line
-                    fgets ( phase_line, sizeof(phase_line), fin );
+                    if ( fgets ( phase_line, sizeof(phase_line), fin ) == NULL ) phase_line[0] = '\0';
                     // Determine the length of the parameter string in the current line.
                     InPar_length = NameLength( phase_line );
 
-- 
2.43.0


From 51a05a2b8a910e65c8f9021f12da0f78a5118385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 63/97] fix: names of files and folders in the setup file

---
 MDLIB/InputOutput.c | 104 +++++++++-----------------------------------
 1 file changed, 20 insertions(+), 84 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 1d791cf..6dc685f 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1751,94 +1751,30 @@ double* ReadBin(char importDir[], char A_name[], int nx, int ny, double scale ){
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
-    int h, find=0, bufmax=50, length;
-    char *string1, *string2;
-    char line[bufmax];
-
-    string1 = malloc(sizeof(char)*bufmax);
+    int  length = strlen( FieldName );
+    char line[1000], *value;
 
-    // Get the length of the demanded string
-    length = strlen( FieldName );
-
-    // Buffer array to contain the string to compare with
-    char *param1, *param2;
-    param2 = malloc( (length+1)*sizeof(char));
-    asprintf(&param1, "%s", FieldName);
+    // Start from beginning of the file.
+    rewind(fin);
 
-    // Initialise line
-    for (h=0;h<bufmax;h++) {
-        line[h]='\0';
+    // Loop over all lines in input file
+    while ( fgets ( line, sizeof(line), fin ) != NULL ) {
+
+        // The name on this line has to be the demanded one, and followed by an equal sign
+        if ( strncmp( line, FieldName, length ) != 0 || strcspn( line, " \t=\r\n" ) != length ) continue;
+        value = strchr( line, '=' );
+        if ( value == NULL ) continue;
+
+        // The value is the next word on the line
+        value += 1 + strspn( value+1, " \t" );
+        value[strcspn( value, " \t\r\n" )] = '\0';
+        rewind(fin);
+        return strdup( value );
     }
 
-    // Seach for sign 'equal' in the lines
-    while ( find == 0 ) {
-
-        // Read new line
-        fgets ( line, sizeof(line), fin );
-
-        if (feof(fin)) {
-            printf("Warning : Parameter '%s' not found in the setup file, running with default value %s\n", FieldName, Default);
-            rewind(fin);
-            free(string1);
-            free(param1);
-            free(param2);
-            // return Default;
-            asprintf(&string2, "%s", Default);
-            // int str_size = strlen(Default);
-            // int h1;
-            // string2 = malloc((str_size+1)*sizeof(char));
-            // for (h1=0; h1<str_size; h1++) {
-            //     string2[h1] = Default[h1];
-            // }
-            // free(string1);
-            // free(param1);
-            // free(param2);
-            return string2;
-        }
-
-        // Get the first 'length' characters of the line
-        for (h=0;h<length;h++) {
-            param2[h] = line[h];
-        }
-        param2[length] = '\0';
-
-        // Check if we found the right parameter name
-        if ( strcmp(param1, param2) == 0 ) {
-            find = 1;
-            int str_size = 0;
-            int h1;
-            // Search for equal sign
-            for (h=0;h<bufmax;h++) {
-                if(strlen(line)> 0 && line[h]=='=') {
-
-                    for (h1=0; h1<30; h1++) {
-                        if ( isspace(line[h+2+h1]) ) {
-                            string1[h1] = '\0';
-                            str_size++;
-                            break;
-                        }
-                        else {
-                            string1[h1] = (line[h+2+h1]);
-                            str_size++;
-                        }
-                    }
-
-                    string2 = malloc((str_size+1)*sizeof(char));
-                    for (h1=0; h1<str_size+1; h1++) {
-                        string2[h1] = string1[h1];
-                    }
-
-                    free(param1);
-                    free(param2);
-                    free(string1);
-                    return string2;
-                }
-            }
-        }
-    }
-    free(param1);
-    free(param2);
-    return Default;
+    printf("Warning : Parameter '%s' not found in the setup file, running with default value %s\n", FieldName, Default);
+    rewind(fin);
+    return strdup( Default );
 }
 
 /*--------------------------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 42059ba7935b8d3e2ce4b056bff5456787ca94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 64/97] fix: missing phase section ends with a non-zero status

---
 MDLIB/InputOutput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 6dc685f..04a4447 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -2029,7 +2029,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
             rewind (fin);
-            exit(0);
+            exit(1);
         }
 
         // Determine the length of the parameter string in the current line.
-- 
2.43.0


From 38d4ef583980e4663845d67a2839c28811c59740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:09 +0000
Subject: [PATCH 65/97] fix: failures end with a non-zero status

---
 MDLIB/AnisotropyRoutines.c | 4 ++--
 MDLIB/Main_DOODZ.c         | 2 +-
 MDLIB/RheologyDensity.c    | 6 +++---
 MDLIB/RheologyParticles.c  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 1611e01..a7a88eb 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -243,10 +243,10 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
           break;
         } else if (it == nitmax - 1 && (fabs(r/Eii) > tol) ) {
           printf("Visco-Elastic iterations failed!\n");
-          exit(0);
+          exit(1);
         }
     }
-        if (isnan(r))exit(0);
+        if (isnan(r))exit(1);
 
     // if (centroid==0 && index==65) printf("ani 1 - eta_ve = %2.4e Eii_pwl = %2.4e Eii=%2.4e C_pwl=%2.4e tol=%2.2e\n", eta_ve, *Eii_pwl, Eii, C_pwl, model->eta_tol);
 
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index ee90753..1ef26ff 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -855,7 +855,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     printf( "nstag value = %02d - max_num_stag = %02d\n", nstag, input.model.max_num_stag);
                     if (nstag== input.model.max_num_stag) {
                         printf( "CheckDoudzOut!!\n");
-                        exit(0);
+                        exit(1);
                     //-----------------------
                     }
                 }
diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 881c1e0..8359f5a 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -104,7 +104,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
       break;
     } else if (it == nitmax - 1 && res_eta > tol) {
       printf("Visco-Elastic iterations failed!\n");
-      exit(0);
+      exit(1);
     }
     // Analytical derivative of function
     double dfdeta = 0.0;
@@ -277,7 +277,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
       break;
     } else if (it == nitmax - 1 && res_eta > tol) {
       printf("Visco-Elastic iterations failed!\n");
-      exit(0);
+      exit(1);
     }
     // Analytical derivative of function
     double dfdeta = 0.0;
@@ -664,7 +664,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         gdot    -= F_trial / dFdgdot;
 
       }
-      if ( noisy>0 && it==nitmax-1 && (res_pl > tol || res_pl/F_trial0 > tol)  ) { printf("Visco-Plastic iterations failed!\n"); exit(0);}
+      if ( noisy>0 && it==nitmax-1 && (res_pl > tol || res_pl/F_trial0 > tol)  ) { printf("Visco-Plastic iterations failed!\n"); exit(1);}
 
       // In case return mapping has failed (because of tension), return to a von Mises minimum stress 
       if (Tiic<0.0) {
diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 2214e97..4afdc70 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -211,7 +211,7 @@ void AccumulatedStrainII( grid* mesh, scale scaling, params model, markers* part
         if (strain_inc[c1]<0) {
             printf("negative strain increment\n");
             printf("%2.2e %2.2e %2.2e %2.2e %2.2e %2.2e\n" ,mesh->eII_pl[c1],mesh->eII_pwl[c1],mesh->eII_exp[c1],mesh->eII_lin[c1],mesh->eII_gbs[c1],mesh->eII_el[c1]);
-            exit(0);
+            exit(1);
         }
         
         strain_inc_el[c1]  = model.dt*mesh->eII_el[c1];
@@ -697,7 +697,7 @@ void AccumulatedStrain( grid* mesh, scale scaling, params model, markers* partic
             if (strain_inc[c1]<0) {
                 printf("negative strain increment\n");
                 printf("%2.2e %2.2e %2.2e %2.2e %2.2e %2.2e\n" ,mesh->eII_pl[c1],mesh->eII_pwl[c1],mesh->eII_exp[c1],mesh->eII_lin[c1],mesh->eII_gbs[c1],mesh->eII_el[c1]);
-                exit(0);
+                exit(1);
             }
             
             strain_inc_el[c1]  = model.dt*mesh->eII_el[c1];
-- 
2.43.0


From af94d5091e27edbf6312ba79ed7701caf7e52466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:09 +0000
Subject: [PATCH 66/97] fix: refuse phases that do not exist

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 8fdd991..1a23199 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -32,7 +32,7 @@ void BuildInitialTopography(BuildInitialTopography_ff buildInitialTopography, Md
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void ValidatePhase(int phaseId, int phasesCount) {
-  if (phaseId > phasesCount) {
+  if (phaseId >= phasesCount || phaseId < -1) {
     printf("Lazy bastard! Fix your particle phase ID! \n");
     exit(144);
   }
-- 
2.43.0


From b3e34b9d943ddb61e96e601bfaefc94d80c84762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:09 +0000
Subject: [PATCH 67/97] fix: default name of the setup file

---
 MDLIB/InputOutput.c | 4 +++-
 MDLIB/Setup.c       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 04a4447..87ffd2e 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -50,7 +50,9 @@ char* GetSetupFileName(int nargs, char *args[]) {
   if (nargs == 2 && strstr(args[1], fileExtension)) {
     return args[1];
   } else {
-    return strcat(args[0], fileExtension);
+    char *name;
+    asprintf(&name, "%s%s", args[0], fileExtension);
+    return name;
   }
 }
 
diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 1a23199..ef42465 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1060,7 +1060,7 @@ char* DefaultTextFilename( char filename[] ) {
   
   int len_basename = n_basename;
   // char basename[len_basename];
-  char *basename = calloc(len_basename, sizeof(char));
+  char *basename = calloc(len_basename + strlen(".txt") + 1, sizeof(char));
   start=false, end=false;
   n_basename = 0;
 
-- 
2.43.0


From 6d5c8ac112a873e7be44e5ddbf1e00eda58c652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:06 +0000
Subject: [PATCH 68/97] fix: check marker phases before they are used

---
 MDLIB/Setup.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index ef42465..3dcb593 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -61,6 +61,7 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
     if (setParticles.AdjustPhaseToTemperature) {
       particles->phase[np] = setParticles.AdjustPhaseToTemperature(instance, coordinates, particles->T[np], particles->phase[np]);
     }
+    ValidatePhase(particles->phase[np], instance->model.Nb_phases);
     if (setParticles.SetDualPhase) {
       particles->dual[np] = setParticles.SetDualPhase(instance, coordinates, particles->phase[np]);
     } else {
@@ -136,7 +137,6 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
       double predefined_angle = 0.;
       particles->aniso_angle[np] = setParticles.SetAnisoAngle(instance, coordinates, particles->phase[np], predefined_angle);
     }
-    ValidatePhase(particles->phase[np], instance->model.Nb_phases);
   }
 
   FILE *file;
@@ -167,10 +167,16 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
             printf("Cannot open file %s, check if the file exists in the current location !\n Exiting", instance->model.initial_markers_file);
             exit(1);
         }
-        fread( particles->x, sizeof(double), particles->Nb_part, file);
-        fread( particles->z, sizeof(double), particles->Nb_part, file);
-        fread( particles->phase, sizeof(int), particles->Nb_part, file);
+        size_t nread = 0;
+        nread += fread( particles->x, sizeof(double), particles->Nb_part, file);
+        nread += fread( particles->z, sizeof(double), particles->Nb_part, file);
+        nread += fread( particles->phase, sizeof(int), particles->Nb_part, file);
         fclose(file);
+        if (nread != 3 * (size_t) particles->Nb_part) {
+            printf("File %s does not hold %d particles !\n Exiting", instance->model.initial_markers_file, particles->Nb_part);
+            exit(1);
+        }
+        for (int np = 0; np < particles->Nb_part; np++) ValidatePhase(particles->phase[np], instance->model.Nb_phases);
     }
 
     // Important fix: one needs to deallocate data structure used to store model geometry (if used) 
-- 
2.43.0


From a6297f2de08a4d8b9638a18d9783a789f9acbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:07 +0000
Subject: [PATCH 69/97] fix: refuse impossible grids and numbers of phases

---
 MDLIB/InputOutput.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 87ffd2e..5e0c766 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1241,6 +1241,9 @@ Input ReadInputFile( char *fileName ) {
     model.user7              = ReadDou2( fin, "user7",           0.0 );
     model.user8              = ReadDou2( fin, "user8",           0.0 );
     model.user9              = ReadDou2( fin, "user9",           0.0 );
+    if (model.Nx<3 || model.Nz<3) { printf("Wrong resolution: Nx and Nz should be at least 3.\n"); exit(1); }
+    if (!(model.xmax>model.xmin) || !(model.zmax>model.zmin)) { printf("Wrong model extent: xmax and zmax should exceed xmin and zmin.\n"); exit(1); }
+    if (particles.Nx_part<1 || particles.Nz_part<1) { printf("Wrong number of markers: Nx_part and Nz_part should be at least 1.\n"); exit(1); }
     // Derived quantities
     model.dx                 = (model.xmax - model.xmin) / (model.Nx - 1);
     model.dz                 = (model.zmax - model.zmin) / (model.Nz - 1);
@@ -1291,6 +1294,10 @@ Input ReadInputFile( char *fileName ) {
     // MATERIAL PROPERTIES
     //------------------------------------------------------------------------------------------------------------------------------//
     model.Nb_phases = materials.Nb_phases =  ReadInt2( fin, "Nb_phases", 0 );
+    if ( model.Nb_phases<1 || model.Nb_phases>(int)(sizeof(materials.rho)/sizeof(materials.rho[0])) ) {
+        printf("Wrong value of Nb_phases: should be between 1 and %d.\n", (int)(sizeof(materials.rho)/sizeof(materials.rho[0])));
+        exit(1);
+    }
     for ( k=0; k<materials.Nb_phases; k++) {
         // Read general parameters
         materials.rho[k]  = ReadMatProps( fin, "rho", k,   2700.0 )  / scaling.rho;
-- 
2.43.0


From e9d93840e2cfef1769102e9d9b8fe5539cc6772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:07 +0000
Subject: [PATCH 70/97] fix: refuse target phases that do not exist

---
 MDLIB/InputOutput.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 5e0c766..4151b8a 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1372,7 +1372,7 @@ Input ReadInputFile( char *fileName ) {
         // Reaction stuff
         materials.reac_soft[k]  = (int)ReadMatProps( fin, "reac_soft",   k,    0.0  );
         materials.reac_phase[k] = (int)ReadMatProps( fin, "reac_phase",   k,    0.0  );
-        if (materials.reac_phase[k]>=model.Nb_phases && materials.reac_soft[k]==1) {printf("The target phase for reaction softening of phase %d is not set up. Edit the .txt file!\n", k  ); exit(13);}
+        if ((materials.reac_phase[k]<0 || materials.reac_phase[k]>=model.Nb_phases) && materials.reac_soft[k]==1) {printf("The target phase for reaction softening of phase %d is not set up. Edit the .txt file!\n", k  ); exit(13);}
         materials.Pr[k]         = ReadMatProps( fin, "Pr",      k,    0.0  ) / scaling.S;
         materials.dPr[k]        = ReadMatProps( fin, "dPr",     k,    0.0  ) / scaling.S;
         materials.tau_kin[k]    = ReadMatProps( fin, "tau_kin", k,    0.0  ) / scaling.t;
@@ -1383,6 +1383,7 @@ Input ReadInputFile( char *fileName ) {
         // Diffused rheological contrasts
         materials.phase_mix[k]  = (int)ReadMatProps( fin, "phase_mix",k,          0.0  );
         materials.phase_two[k]  = (int)ReadMatProps( fin, "phase_two",k,    (double)k  );
+        if (materials.phase_mix[k]==1 && (materials.phase_two[k]<0 || materials.phase_two[k]>=model.Nb_phases)) {printf("The second phase for mixing of phase %d is not set up. Edit the .txt file!\n", k); exit(13);}
         // Anisotropy
         materials.aniso_angle[k]    =  ReadMatProps( fin, "aniso_angle",     k,   90.0  )  * M_PI/ 180.0;
         materials.aniso_factor[k]   =  ReadMatProps( fin, "aniso_factor",    k,    1.0  ); 
@@ -1397,6 +1398,7 @@ Input ReadInputFile( char *fileName ) {
         // temperature driven transition between phases
         materials.transmutation[k]             = (int)ReadMatProps( fin, "transmutation",    k,    0  ); // switcher: 0 - no transition; -1 transition happens when below transition_temperature; 1 transition happens when above transition_temperature;
         materials.transmutation_phase[k]       = (int)ReadMatProps( fin, "transmutation_phase",    k,    1  ); // phase to set
+        if (materials.transmutation[k]!=0 && (materials.transmutation_phase[k]<0 || materials.transmutation_phase[k]>=model.Nb_phases)) {printf("The target phase for transmutation of phase %d is not set up. Edit the .txt file!\n", k); exit(13);}
         materials.transmutation_temperature[k] = ReadMatProps( fin, "transmutation_temperature",    k,    1300.0  ) / scaling.T; // temperature boundary
         // Check if any flow law is active
         int sum = abs(materials.cstv[k]) + abs(materials.pwlv[k]) + abs(materials.linv[k]) + abs(materials.gbsv[k]) + abs(materials.expv[k]);
@@ -1435,6 +1437,12 @@ Input ReadInputFile( char *fileName ) {
         if ( abs(materials.kin[k]) >0 ) ReadDataKinetics   ( &materials, &model, k, materials.kin[k],  &scaling );
     }
 
+    // Check if sediments are made of existing phases
+    if ( model.surface_processes==2 && ( model.surf_ised1<0 || model.surf_ised1>=model.Nb_phases || model.surf_ised2<0 || model.surf_ised2>=model.Nb_phases ) ) {
+        printf("The phases of sediments are not set up. Edit the .txt file!\n");
+        exit(13);
+    }
+
     materials.R = Rg / (scaling.J/scaling.T);
 
     //------------------------------------------------------------------------------------------------------------------------------//
-- 
2.43.0


From 253c24508c2f224b0c1ef7b40df3493ebdc6e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:07 +0000
Subject: [PATCH 71/97] fix: refuse incomplete tables

---
 MDLIB/InputOutput.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 4151b8a..e66ec2d 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1468,7 +1468,10 @@ Input ReadInputFile( char *fileName ) {
             char *fname = "PHASE_DIAGRAMS/QuartzCoesite600C.bin";
             FILE* read = fopen(fname, "rb");
             if ( read != NULL ) {
-                fread ( model.PD1Drho[k],     sizeof(double), model.PD1DnP[k] , read);
+                if ( fread ( model.PD1Drho[k],     sizeof(double), model.PD1DnP[k] , read) != model.PD1DnP[k] ) {
+                    printf("File %s is incomplete !\n Exiting", fname);
+                    exit(1);
+                }
                 fclose(read);
 
                 double p[model.PD1DnP[k]];
@@ -1549,6 +1552,12 @@ Input ReadInputFile( char *fileName ) {
         printf("Loading phase diagrams...\n");
         int pid;
         model.num_PD = 10;
+        for ( k=0; k<materials.Nb_phases; k++) {
+            if ( materials.density_model[k] == 2 && (materials.phase_diagram[k] < 0 || materials.phase_diagram[k] >= model.num_PD) ) {
+                printf("The phase diagram %d of phase %02d does not exist\n", materials.phase_diagram[k], k);
+                exit(5);
+            }
+        }
 
         // Allocate
         AllocatePhaseDiagrams( &model );
@@ -1758,7 +1767,10 @@ double* ReadBin(char importDir[], char A_name[], int nx, int ny, double scale ){
     if (!fid){
         fprintf(stderr, "\nUnable to open file %s. I will exit here ... \n", bname); exit(2);
     }
-    fread(A, sizeof(double), nb_elems, fid); fclose(fid); free(bname);
+    if (fread(A, sizeof(double), nb_elems, fid) != nb_elems) {
+        fprintf(stderr, "\nFile %s is incomplete. I will exit here ... \n", bname); exit(2);
+    }
+    fclose(fid); free(bname);
     ArrayTimesScalar( A, 1.0/scale, nb_elems );
     return A;
 }
-- 
2.43.0


From aa3a800ca808e8e692fe9102a708c388b2f49037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:03 +0000
Subject: [PATCH 72/97] fix: refuse scales that are not positive

---
 MDLIB/InputOutput.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index e66ec2d..64fa63a 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1092,6 +1092,7 @@ Input ReadInputFile( char *fileName ) {
                         .V   = ReadDou2(fin, "V", 1.0),
                         .T   = ReadDou2(fin, "T", 1.0),
     };
+    if ( !(scaling.eta>0.0 && scaling.L>0.0 && scaling.V>0.0 && scaling.T>0.0) ) { printf("Wrong scales: eta, L, V and T should be positive.\n"); exit(1); }
     ScaleMe( &scaling );
     double Ga = 1e9*365.25*3600*24;
 
-- 
2.43.0


From 7032dee485e7c1ad1a16ce0187d1e624e85f9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:39 +0000
Subject: [PATCH 73/97] fix: compare the extrema of the threads inside the
 critical section only

---
 MDLIB/MiscFunctions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/MDLIB/MiscFunctions.c b/MDLIB/MiscFunctions.c
index 535ec69..11e5272 100755
--- a/MDLIB/MiscFunctions.c
+++ b/MDLIB/MiscFunctions.c
@@ -198,7 +198,7 @@ void MinMaxArray( double * array, double scale, int size, char* text ) {
 
         }
 #pragma omp flush (max)
-        if (pmax>max) {
+        {
 #pragma omp critical
             {
                 if (pmax>max) max = pmax;
@@ -206,7 +206,7 @@ void MinMaxArray( double * array, double scale, int size, char* text ) {
         }
 
 #pragma omp flush (min)
-        if (pmin<min) {
+        {
 #pragma omp critical
             {
                 if (pmin<min) min = pmin;
@@ -237,7 +237,7 @@ void MinMaxArrayTag( DoodzFP* array, double scale, int size, char* text, char* t
             }
         }
 #pragma omp flush (max)
-        if (pmax>max) {
+        {
 #pragma omp critical
             {
                 if (pmax>max) max = pmax;
@@ -245,7 +245,7 @@ void MinMaxArrayTag( DoodzFP* array, double scale, int size, char* text, char* t
         }
 
 #pragma omp flush (min)
-        if (pmin<min) {
+        {
 #pragma omp critical
             {
                 if (pmin<min) min = pmin;
@@ -276,7 +276,7 @@ void MinMaxArrayTagInt( int* array, double scale, int size, char* text, char* ta
             }
         }
 #pragma omp flush (max)
-        if (pmax>max) {
+        {
 #pragma omp critical
             {
                 if (pmax>max) max = pmax;
@@ -284,7 +284,7 @@ void MinMaxArrayTagInt( int* array, double scale, int size, char* text, char* ta
         }
 
 #pragma omp flush (min)
-        if (pmin<min) {
+        {
 #pragma omp critical
             {
                 if (pmin<min) min = pmin;
@@ -315,7 +315,7 @@ void MinMaxArrayTagChar( char* array, double scale, int size, char* text, char*
             }
         }
 #pragma omp flush (max)
-        if (pmax>max) {
+        {
 #pragma omp critical
             {
                 if (pmax>max) max = pmax;
@@ -323,7 +323,7 @@ void MinMaxArrayTagChar( char* array, double scale, int size, char* text, char*
         }
 
 #pragma omp flush (min)
-        if (pmin<min) {
+        {
 #pragma omp critical
             {
                 if (pmin<min) min = pmin;
@@ -353,7 +353,7 @@ void MinMaxArrayVal( DoodzFP* array, int size, double* min, double* max ) {
             if (array[k]<pmin) pmin = array[k];
         }
 #pragma omp flush (max)
-        if (pmax>*max) {
+        {
 #pragma omp critical
             {
                 if (pmax>*max) *max = pmax;
@@ -361,7 +361,7 @@ void MinMaxArrayVal( DoodzFP* array, int size, double* min, double* max ) {
         }
 
 #pragma omp flush (min)
-        if (pmin<*min) {
+        {
 #pragma omp critical
             {
                 if (pmin<*min) *min = pmin;
@@ -508,7 +508,7 @@ void MinMaxArrayPart( DoodzFP* array, double scale, int size, char* text, int* p
             if (array[k]<pmin && phase[k]!=-1 ) pmin = array[k];
         }
 #pragma omp flush (max)
-        if (pmax>max) {
+        {
 #pragma omp critical
             {
                 if (pmax>max) max = pmax;
@@ -516,7 +516,7 @@ void MinMaxArrayPart( DoodzFP* array, double scale, int size, char* text, int* p
         }
 
 #pragma omp flush (min)
-        if (pmin<min) {
+        {
 #pragma omp critical
             {
                 if (pmin<min) min = pmin;
-- 
2.43.0


From 616c1592e328b110dbf77edf8e2ffd85ca287b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:39 +0000
Subject: [PATCH 74/97] fix: let one thread record the number of threads

---
 MDLIB/Main_DOODZ.c              | 1 +
 MDLIB/ParticleReseeding.c       | 1 +
 MDLIB/ParticleRoutines.c        | 1 +
 MDLIB/StokesAssemblyDecoupled.c | 2 ++
 4 files changed, 5 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 1ef26ff..6dc79af 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -106,6 +106,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
     int num_threads = 1;
     #pragma omp parallel
     {
+        #pragma omp single
         num_threads = omp_get_num_threads();
     }
     printf("Num threads = %03d\n", omp_get_num_threads());
diff --git a/MDLIB/ParticleReseeding.c b/MDLIB/ParticleReseeding.c
index d5d5d8b..7356190 100755
--- a/MDLIB/ParticleReseeding.c
+++ b/MDLIB/ParticleReseeding.c
@@ -66,6 +66,7 @@ void CountPartCell2 ( markers* particles, grid *mesh, params model, surface topo
 
 #pragma omp parallel
     {
+        #pragma omp single
         nthreads = omp_get_num_threads();
     }
 
diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index a0d4a6e..705b19e 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2047,6 +2047,7 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
     
 #pragma omp parallel
     {
+        #pragma omp single
         nthreads = omp_get_num_threads();
     }
     
diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 71913e2..9a90528 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -1331,6 +1331,7 @@ void BuildStokesOperatorDecoupled( grid *mesh, params model, int lev, double *p_
     
 #pragma omp parallel shared(n_th)
     {
+        #pragma omp single
         n_th = omp_get_num_threads();
     }
 #pragma omp barrier
@@ -1841,6 +1842,7 @@ void BuildJacobianOperatorDecoupled( grid *mesh, params model, int lev, double *
     
 #pragma omp parallel shared(n_th)
     {
+        #pragma omp single
         n_th = omp_get_num_threads();
     }
 #pragma omp barrier
-- 
2.43.0


From ae7f02201e092d4099c6ebfe11db39acb5f8d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 75/97] fix: compute the incision rate without the diffusion
 time step

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 9bcf710..ac1289b 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -950,7 +950,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             }
 
             // Recompute erosion rate to satisfy mass
-            Vinc_num = Wvalley*dt*Vinc / (ncell*dx*dt);
+            Vinc_num = Wvalley*Vinc / (ncell*dx);
 
             printf("We currently have %0d cell(s) within the valley region\n", ncell);
             printf("Real surface of eroded material should be: %2.2e\n", Wvalley*dt*Vinc);
-- 
2.43.0


From 6447c83bcf23588714da99bd384cf17d635ba0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 76/97] verif: observe the markers as they are set up (no code
 unless MDOODZ_VERIF)

---
 MDLIB/Main_DOODZ.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 6dc79af..a3d9752 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -173,6 +173,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
         // Set phases on particles
         SetParticles(*setup->SetParticles, &input, &particles);
+        VERIF_HOOK("particles");
 
         MinMaxArray(particles.Vx, input.scaling.V, particles.Nb_part, "Vxp init" );
         MinMaxArray(particles.Vz, input.scaling.V, particles.Nb_part, "Vzp init" );
-- 
2.43.0


From df4498e5ec31c885c3ef904dd991c90351d5b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 77/97] fix: rotate an ellipse of the setup helper about its
 own centre

---
 MDLIB/Setup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 3dcb593..54ac17c 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1020,8 +1020,8 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
   const double theta   = ellipse.angle * M_PI / 180.0;
   const double radiusX = (ellipse.radiusX / 2) / scalingL;
   const double radiusZ = (ellipse.radiusZ / 2) / scalingL;
-  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z + ellipse.centreZ / scalingL) * sin(theta);
-  const double Zn      = (coordinates.x + ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
+  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z - ellipse.centreZ / scalingL) * sin(theta);
+  const double Zn      = (coordinates.x - ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
   if (pow(Xn / radiusX, 2) + pow(Zn / radiusZ, 2) - 1 < 0) {
     return true;
   } else {
-- 
2.43.0


From 1b16aa254a0fff1feaccb2c4f2e5af4ac9f706a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 78/97] fix: rotate a rectangle of the setup helper about its
 own centre, by degrees

---
 MDLIB/Setup.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 54ac17c..8e87434 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1034,9 +1034,10 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 bool IsRectangleCoordinates(Coordinates coordinates, Rectangle rectangle, double scalingL) {
-  const double wX = coordinates.x * cos(rectangle.angle) - coordinates.z * sin(rectangle.angle);
-  const double wZ = coordinates.x * sin(rectangle.angle) + coordinates.z * cos(rectangle.angle);
-  if (wX >= (rectangle.centreX / scalingL - (rectangle.sizeX / 2) / scalingL) && wX <= (rectangle.centreX / scalingL + (rectangle.sizeX / 2) / scalingL) && wZ >= (rectangle.centreZ / scalingL - (rectangle.sizeZ / 2) / scalingL) && wZ <= (rectangle.centreZ / scalingL + (rectangle.sizeZ / 2) / scalingL)) {
+  const double theta = rectangle.angle * M_PI / 180.0;
+  const double wX    = (coordinates.x - rectangle.centreX / scalingL) * cos(theta) - (coordinates.z - rectangle.centreZ / scalingL) * sin(theta);
+  const double wZ    = (coordinates.x - rectangle.centreX / scalingL) * sin(theta) + (coordinates.z - rectangle.centreZ / scalingL) * cos(theta);
+  if (fabs(wX) <= (rectangle.sizeX / 2) / scalingL && fabs(wZ) <= (rectangle.sizeZ / 2) / scalingL) {
     return true;
   } else {
     return false;
-- 
2.43.0


From 059f15501a662943bd485d7428be36da36c98307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 79/97] fix: take the angle of SetAnisoAngle in degrees, as
 every setup gives it

---
 MDLIB/ParticleRoutines.c | 4 ++--
 MDLIB/Setup.c            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 705b19e..1dd2bd6 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -824,8 +824,8 @@ void AssignMarkerPropertiesInflow (markers* particles, int new_ind, int min_inde
             .x = particles->x[new_ind],
             .z = particles->z[new_ind]};
         if (input->model.marker_aniso_angle && setParticles.SetAnisoAngle) {
-            double predefined_angle = acos(particles->nx[min_index]);
-            double angle = setParticles.SetAnisoAngle(input, coordinates, particles->phase[new_ind], predefined_angle);
+            double predefined_angle = acos(particles->nx[min_index]) * 180.0 / M_PI;
+            double angle = setParticles.SetAnisoAngle(input, coordinates, particles->phase[new_ind], predefined_angle) * M_PI / 180.0;
             particles->nx[new_ind]           = cos(angle);
             particles->nz[new_ind]           = sin(angle);
         }
diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 8e87434..93ecc7d 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -135,7 +135,7 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
     }
     if (instance->model.anisotropy == 1 && instance->model.marker_aniso_angle && setParticles.SetAnisoAngle) {
       double predefined_angle = 0.;
-      particles->aniso_angle[np] = setParticles.SetAnisoAngle(instance, coordinates, particles->phase[np], predefined_angle);
+      particles->aniso_angle[np] = setParticles.SetAnisoAngle(instance, coordinates, particles->phase[np], predefined_angle) * M_PI / 180.0;
     }
   }
 
-- 
2.43.0


From c1b91864f28b25e698379266ee1eb591011e8443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 80/97] fix: keep the diffusion of composition out of the air

---
 MDLIB/FreeSurface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index ac1289b..3fe3988 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -644,6 +644,9 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
                 mesh->BCp_exp.type[c2] = -1;
                 
             }
+            
+            // Composition diffuses in the same cells as temperature
+            mesh->BCc.type[c1] = mesh->BCt.type[c1];
         }
     }
     
-- 
2.43.0


From 122e087616fb0aed396d00fc4fc8d13fbddf5e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 81/97] fix: leave cells of prescribed pressure out of the
 pressure block

---
 MDLIB/Solvers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index ff70cfe..51e5fdd 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -723,7 +723,7 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
     
 #pragma omp parallel for shared(D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] == -1 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
@@ -1084,7 +1084,7 @@ void KillerSolver( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  SparseM
 
 #pragma omp parallel for shared( whos_incompressible, D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol, vol_change )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] == -1 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block - This relates to physics (0 is incompressible, Beta/dt is compressible)
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
@@ -1481,7 +1481,7 @@ void KSPStokesDecoupled( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  S
     
 #pragma omp parallel for shared(D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol, vol_change )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] == -1 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             
             //            cPC    = drhodPc ./ (rhoc.*dt); %% new diagonal coefficient (= 1/(K*dt) for standard EOS)
-- 
2.43.0


From c78b116d668625c13779ad0045aee8de7d8285c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:49 +0000
Subject: [PATCH 82/97] fix: keep the stress of cells of prescribed pressure in
 the Stokes matrices

---
 MDLIB/StokesAssemblyDecoupled.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 9a90528..72d5eae 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -104,8 +104,8 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
     
     // Flags
     double inE=0.0, inW=0.0;
-    if (BCp_t[iPrW] == -1) inW = 1.0;
-    if (BCp_t[iPrE] == -1) inE = 1.0;
+    if (BCp_t[iPrW] == -1 || BCp_t[iPrW] == 0) inW = 1.0;
+    if (BCp_t[iPrE] == -1 || BCp_t[iPrE] == 0) inE = 1.0;
     
     double inS=1.0, inN = 1.0, RegS = 1.0, RegN = 1.0, NeuS = 0.0, NeuN = 0.0, DirS = 0.0, DirN = 0.0;
     if (BCg_t[ixyS] == 30) inS = 0.0;
@@ -322,8 +322,8 @@ void Xjacobian_InnerNodesDecoupled3( SparseMat *Stokes, SparseMat *StokesA, Spar
     
     double inE=0.0, inW=0.0, inS=0.0, inN = 0.0, inSv = 0.0, inNv = 0.0;
   
-    if (BCp_t[iPrW] == -1) inW = 1.0;
-    if (BCp_t[iPrE] == -1) inE = 1.0;
+    if (BCp_t[iPrW] == -1 || BCp_t[iPrW] == 0) inW = 1.0;
+    if (BCp_t[iPrE] == -1 || BCp_t[iPrE] == 0) inE = 1.0;
     
     //        if (mesh->BCg.type[ixyS] != 30 && BCu_t[iVxS] != 13) inS = 1.0; // !!!!!!!!!!!!
     //        if (mesh->BCg.type[ixyN] != 30 && BCu_t[iVxN] != 13) inN = 1.0;
@@ -338,13 +338,13 @@ void Xjacobian_InnerNodesDecoupled3( SparseMat *Stokes, SparseMat *StokesA, Spar
     double inSWv=0.0,inSEv=0.0,inNWv=0.0,inNEv=0.0;
     
     if ( l>1 ){// || (l==1 && BCu_t[iVxS] == 11 ) ) {  //  !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! Apparently incorrect
-        if (BCp_t[iPrSW] == -1) inSWc = 1.0;
-        if (BCp_t[iPrSE] == -1) inSEc = 1.0;
+        if (BCp_t[iPrSW] == -1 || BCp_t[iPrSW] == 0) inSWc = 1.0;
+        if (BCp_t[iPrSE] == -1 || BCp_t[iPrSE] == 0) inSEc = 1.0;
     }
     
     if ( l<nzvx-2 ){// || (l==nzvx-2 && BCu_t[iVxN] == 11 )) { //  !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! Apparently incorrect
-        if (BCp_t[iPrNW] == -1) inNWc = 1.0;
-        if (BCp_t[iPrNE] == -1) inNEc = 1.0;
+        if (BCp_t[iPrNW] == -1 || BCp_t[iPrNW] == 0) inNWc = 1.0;
+        if (BCp_t[iPrNE] == -1 || BCp_t[iPrNE] == 0) inNEc = 1.0;
     }
 
     if ( (k>0)  || (k==0 && (BCv_t[iVzSW] == -1 || BCv_t[iVzSW] == 0)) ) {
@@ -601,8 +601,8 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Flags
     double inN=0.0, inS=0.0;
-    if (BCp_t[iPrS] == -1) inS = 1.0;
-    if (BCp_t[iPrN] == -1) inN = 1.0;
+    if (BCp_t[iPrS] == -1 || BCp_t[iPrS] == 0) inS = 1.0;
+    if (BCp_t[iPrN] == -1 || BCp_t[iPrN] == 0) inN = 1.0;
     
     double inW=1.0, inE = 1.0, RegW = 1., RegE = 1., NeuW = 0., NeuE = 0, DirW = 0., DirE = 0.;
     if (BCg_t[ixyW] == 30) inW = 0.0;
@@ -836,8 +836,8 @@ void Zjacobian_InnerNodesDecoupled3( SparseMat *Stokes, SparseMat *StokesA, Spar
     
     double inS=0.0, inN=0.0, inW=0.0, inE = 0.0, inWv = 0.0, inEv = 0.0;
     
-    if (BCp_t[iPrS] == -1) inS = 1.0;
-    if (BCp_t[iPrN] == -1) inN = 1.0;
+    if (BCp_t[iPrS] == -1 || BCp_t[iPrS] == 0) inS = 1.0;
+    if (BCp_t[iPrN] == -1 || BCp_t[iPrN] == 0) inN = 1.0;
     
     //    if (BCg_t[ixyW] != 30 && BCv_t[iVzW] != 13 ) inW = 1.0; // !!!!!!!!!!!!!!!!!!!!
     //    if (BCg_t[ixyE] != 30 && BCv_t[iVzE] != 13 ) inE = 1.0;
@@ -852,13 +852,13 @@ void Zjacobian_InnerNodesDecoupled3( SparseMat *Stokes, SparseMat *StokesA, Spar
     double inSWv=0.0,inSEv=0.0,inNWv=0.0,inNEv=0.0;
   
     if ( (k>1) || (k==1 && BCv_t[iVzW]==-1) ) {
-        if (BCp_t[iPrSW] == -1) inSWc = 1.0;
-        if (BCp_t[iPrNW] == -1) inNWc = 1.0;
+        if (BCp_t[iPrSW] == -1 || BCp_t[iPrSW] == 0) inSWc = 1.0;
+        if (BCp_t[iPrNW] == -1 || BCp_t[iPrNW] == 0) inNWc = 1.0;
     }
     
     if ( (k<nxvz-2) || (k==nxvz-2 && BCv_t[iVzE]==-1 ) ) {
-        if (BCp_t[iPrSE] == -1) inSEc = 1.0;
-        if (BCp_t[iPrNE] == -1) inNEc = 1.0;
+        if (BCp_t[iPrSE] == -1 || BCp_t[iPrSE] == 0) inSEc = 1.0;
+        if (BCp_t[iPrNE] == -1 || BCp_t[iPrNE] == 0) inNEc = 1.0;
     }
     
     if (l>0) {
-- 
2.43.0


From 97c83e15234639be525b6b05c3bccdc79d9f8990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:49 +0000
Subject: [PATCH 83/97] fix: no compressible terms in the Newton matrix of an
 incompressible model

---
 MDLIB/StokesAssemblyDecoupled.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 72d5eae..88c7994 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -1818,7 +1818,7 @@ void BuildJacobianOperatorDecoupled( grid *mesh, params model, int lev, double *
     double one_dx_dz = 1.0/mesh->dx/mesh->dz;
     
     // Switches
-    int eqn,  sign = 1, comp = 1, stab = 0;
+    int eqn,  sign = 1, comp = 0, stab = 0;
     if (model.free_surface_stab>0) stab = 1;
     if (model.compressible==1  ) comp = 1;
     double theta = model.free_surface_stab;
@@ -2079,7 +2079,7 @@ void BuildJacobianOperatorDecoupled( grid *mesh, params model, int lev, double *
             //--------------------- INNER NODES ---------------------//
             if ( mesh->BCp.type[c2] == -1) {
                 
-                comp = mesh->comp_cells[c1];
+                comp = mesh->comp_cells[c2];
                 
                 eqn = Stokes->eqn_p[c2]  - Stokes->neq_mom;
                 last_eqn[ith]   = eqn ;
-- 
2.43.0


From 7575ed9ee6a80be1b91c6af92271c726bb90640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 84/97] fix: index the compressible pressure block by equation,
 not by cell

---
 MDLIB/Solvers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index 51e5fdd..5308b3f 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -727,10 +727,10 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
-            if (mesh->comp_cells[k]==1) ((double*)D1cm0->x)[i]  = mesh->bet_n[k] / model.dt * celvol * matD->d[k]*matD->d[k];
+            if (mesh->comp_cells[k]==1) ((double*)D1cm0->x)[i]  = mesh->bet_n[k] / model.dt * celvol * matD->d[i]*matD->d[i];
             // Here Dcm0 is the inverse of the pressure block
             if (mesh->comp_cells[k]==0) ((double*)Dcm0->x)[i] *= penalty; // Should be /celvol
-            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[k]; // Should be /celvol
+            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[i]; // Should be /celvol
         }
     }
     
@@ -1494,7 +1494,7 @@ void KSPStokesDecoupled( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  S
 
             // Here Dcm0 is the inverse of the pressure block
             if (mesh->comp_cells[k]==0) ((double*)Dcm0->x)[i] *= penalty; // Should be /celvol
-            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[k]; // Should be /celvol
+            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[i]; // Should be /celvol
             //          printf("%2.2e %2.2e %2.2e %2.2e\n", mesh->bet[k]/model.dt, penalty, mesh->bet[k]*(1/scaling.S), model.dt*scaling.t);
         }
     }
-- 
2.43.0


From 4cf4c78352ad36ce4d859953e112867c385b7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 85/97] fix: melt fraction depended on the temperature scale
 (curvature of the melting law taken in scaled units with a temperature in K)

---
 MDLIB/MeltingRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 65aff91..263b4b8 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -49,7 +49,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
     const double P_MPa = P/1e6*scaling->S; // convert P to MPa
     const double T_K   = T*scaling->T;     // convert T to K
     double Ts = T_K, Tl = T_K, Ql;
-    double alpha = 1e-7/(1/scaling->T); // very small number -> linear melting
+    double alpha = 1e-7;                // 1/K (T is in K here), very small number -> linear melting
 
     if (melt_model>0 && T>1e-13 && P>1e-13) {
 
-- 
2.43.0


From 865e272a196e59de956abfd74f0e52224517525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 86/97] fix: solidus of melting model 11: comma instead of
 decimal digits dropped the last term and the sign of the second made the wet
 solidus rise with pressure

---
 MDLIB/MeltingRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 263b4b8..1c6c06d 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -79,7 +79,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 831. + 0.06*P_MPa;
             }
             else {
-                Ts = 889. - 17900/(P_MPa + 54) + 20,200/pow((P_MPa + 54),2);
+                Ts = 889. + 17900/(P_MPa + 54) + 20200/pow((P_MPa + 54),2);
             }
             Tl = 1262 + 0.09*P_MPa;
             Ql = 300000.;
-- 
2.43.0


From 38a71828b956d9d597e800792c37e2f968c01ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 87/97] fix: solidus of melting model 41 divided by the squared
 pressure instead of multiplying with it

---
 MDLIB/MeltingRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 1c6c06d..b49be07 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -103,7 +103,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 2212. + 0.030819*(P_MPa-10000.);
             }
             else {
-                Ts = 1394 + 0.132899*P_MPa - 0.000005014/pow(P_MPa,2);
+                Ts = 1394 + 0.132899*P_MPa - 0.000005014*pow(P_MPa,2);
             }
             Tl = 2073 + 0.114*P_MPa;
             Ql = 300000.;
-- 
2.43.0


From 75ca0a509a185d8a377975d2f49f80462776cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 88/97] fix: unknown melting models are refused

---
 MDLIB/InputOutput.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 64fa63a..3a7502b 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1314,6 +1314,7 @@ Input ReadInputFile( char *fileName ) {
         materials.P0[k]   = 1e5 / (scaling.S);
         // Read melting model
         materials.melt[k]     = (int)ReadMatProps( fin, "melt",     k,    0.0   );     // 0: No plasticity --- >1: Yes, the type should be selected accordingly 
+        if (model.melting == 1 && materials.melt[k] != 0 && materials.melt[k] != 1 && materials.melt[k] != 10 && materials.melt[k] != 11 && materials.melt[k] != 40 && materials.melt[k] != 41) { printf("Melting model %d of phase %d does not exist!\n", materials.melt[k], k); exit(12); }
         // Read plasticity switches
         materials.plast[k]    = (int)ReadMatProps( fin, "plast",    k,    1.0   );     // 0: No plasticity --- 1: Yes 
         materials.yield[k]    = (int)ReadMatProps( fin, "yield",    k,    1.0   );     // 1: Drucker-Prager
-- 
2.43.0


From 7206ae0694b7712cb695cc08b2422af382cb79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 89/97] fix: start the local iterations for grain size and
 viscosity from an upper bound, so that runs with diffusion creep no longer
 stop at initialisation

---
 MDLIB/RheologyDensity.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 8359f5a..560fe8e 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -287,8 +287,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
     if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
-    // only activate Newton after a couple of steps
-    if (it>1) dfdeta += params.m_lin*Eii_lin*dddeta/d_ve;
+    if (params.diffusion)   dfdeta += params.m_lin*Eii_lin*dddeta/d_ve;
     // Update viscosity
     eta_ve -= r_eta_ve / dfdeta;
   }
@@ -546,12 +545,12 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     const double lam         = materials->Lpzm[phase];
     const double cg          = materials->cpzm[phase];
     const double pg          = materials->ppzm[phase];
-    Tii          = 2.*eta_el*Eii;
-    *Eii_pwl     = Tii/2.0/eta_pwl;
-    d        = exp(log(Ag * gam / (lam * (1.0 / cg) * Tii * (*Eii_pwl) *pg)) / (1.0 + pg));
+    // Diffusion creep alone with the grain size it would be in equilibrium with: the guess does not depend on the other mechanisms
+    const double log_D       = log(Ag * gam * cg / (lam * pg * C_pwl)) / (1.0 + pg);      // d = D * Tii^(-(1+n_pwl)/(1+pg))
+    const double n_lin_gs    = n_lin + m_lin * (1.0 + n_pwl) / (1.0 + pg);
+    if ( diffusion == 1 )              eta_lin  = exp( (log(Eii/C_lin) + m_lin*log_D) / n_lin_gs ) / (2.0*Eii);
   }
-
-  if ( diffusion   == 1 )              eta_lin  = B_lin * pow( Eii, 1.0/n_lin - 1.0 ) * pow(d, m_lin/n_lin);
+  else if ( diffusion == 1 )           eta_lin  = B_lin * pow( Eii, 1.0/n_lin - 1.0 ) * pow(d, m_lin/n_lin);
   if ( gbs         == 1 )              eta_gbs  = B_gbs * pow( Eii, 1.0/n_gbs - 1.0 ); 
   if ( peierls     == 1 )              eta_exp  = B_exp * pow( Eii, 1.0 / (ST + n_exp) - 1.0); 
   //------------------------------------------------------------------------//
-- 
2.43.0


From 07651014bf5a6e1a79bb472c466bceec7435d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 90/97] fix: no reads of pressure nodes beyond walls of imposed
 normal stress

---
 MDLIB/StokesAssemblyDecoupled.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 88c7994..72ae1b5 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -96,6 +96,10 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
         iVzNW = c3+nxvz-2;
     }
 
+    // Stress boundary: there is no pressure node beyond the wall
+    if (SxxBCW == 1.0) iPrW = iPrE;
+    if (SxxBCE == 1.0) iPrE = iPrW;
+
     // Variable PDE coefficient
     const double D11E = mesh->D11_n[iPrE];
     const double D11W = mesh->D11_n[iPrW];
@@ -137,7 +141,7 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodx  = (mesh->rho_n[c2+1] - mesh->rho_n[c2])*one_dx;
+        double drhodx  = (mesh->rho_n[iPrE] - mesh->rho_n[iPrW])*one_dx;
         uC_corr = 1.00 * om * model.dt * mesh->gx[c1] * drhodx;
         // Importante trique, voire meme gigantesque!
         if (uC+uC_corr<0.0) uC_corr = 0.0;
@@ -590,6 +594,10 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
     if ( BCv_t[iVzW] == -12 && ix==1      ) iVzW = c3+nxvz-3;
     if ( BCv_t[iVzE] == -12 && ix==nxvz-2 ) iVzE = c3-nxvz+3;
 
+    // Stress boundary: there is no pressure node beyond the wall, and no velocity node either
+    if (SzzBCS == 1.0) { iPrS = iPrN; iVzS = iVzC; }
+    if (SzzBCN == 1.0) { iPrN = iPrS; iVzN = iVzC; }
+
     // Linear equation coefficient
     double vS=0.0, vN=0.0, vW=0.0, vE=0.0, vC=0.0, uSW=0.0, uSE=0.0, uNW=0.0, uNE=0.0, pN=0.0, pS=0.0;
 
@@ -642,7 +650,7 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodz  = (mesh->rho_n[c2+ncx] - mesh->rho_n[c2])*one_dz;
+        double drhodz  = (mesh->rho_n[iPrN] - mesh->rho_n[iPrS])*one_dz;
         vC_corr = 1.00 * om * model.dt * mesh->gz[c3] * drhodz;
         // Importante trique, voire meme gigantesque!
         if ((vC+vC_corr)<0.0 || (vC+vC_corr)<vW || (vC+vC_corr)<vE) vC_corr = 0.0;
-- 
2.43.0


From 1a0f692c0d60e98730b9118d8d97b5daa40a4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 91/97] fix: initial guess of the Krylov solver takes vertical
 velocities from the vertical velocity field

---
 MDLIB/SparseTools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/SparseTools.c b/MDLIB/SparseTools.c
index d024fcb..57ae156 100755
--- a/MDLIB/SparseTools.c
+++ b/MDLIB/SparseTools.c
@@ -167,7 +167,7 @@ void BuildInitialSolutions( double* u0, double* p0, grid* mesh ) {
         for( k=0; k<mesh->Nx+1; k++) {
             kk = k + l*(mesh->Nx+1);
             if ( mesh->BCv.type[kk] != 0  && mesh->BCv.type[kk] != 30 && mesh->BCv.type[kk] != 13  && mesh->BCv.type[kk] != 11 && mesh->BCv.type[kk] != -12 ) {
-                u0[inc] = mesh->u_in[kk];
+                u0[inc] = mesh->v_in[kk];
                 inc++;
             }
         }
-- 
2.43.0


From a4ae412d053c08f319a60e9f50c41923696c5c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 92/97] fix: stop when a diverged flow needs more advection
 substeps than can be counted

---
 MDLIB/Main_DOODZ.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index a3d9752..a6e53ac 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1056,6 +1056,11 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             double dt_sub;
             EvaluateCourantCriterion( mesh.u_in, mesh.v_in, &input.model, input.scaling, &mesh, 0 );
 
+            if ( dt_solve/input.model.dt > 2147483647.0 ) {
+                printf("Velocities are too large: advection needs %2.2e substeps... Exiting...\n", dt_solve/input.model.dt);
+                exit(190);
+            }
+
             if (input.model.dt < 0.95*dt_solve ) { // if dt advection is lower than dt used for thermo-mechanical solve then split dt
                 nsub   = ceil(dt_solve/ input.model.dt);
                 dt_sub = dt_solve / nsub;
-- 
2.43.0


From a9c81a2207c503230064a7f91a158b1c6aee3253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:32 +0000
Subject: [PATCH 93/97] fix: aspect ratio of a circular strain ellipse was NaN
 by round-off

---
 MDLIB/RheologyParticles.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 4afdc70..e741c2f 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -649,8 +649,9 @@ void FiniteStrainAspectRatio ( grid *mesh, scale scaling, params model, markers
         // eigs(U0)
         Tr   = U0xx + U0zz;
         Det  = U0xx*U0zz - U0xz*U0zx;
-        e1   = Tr/2.0 + sqrt( Tr*Tr/4.0 - Det );
-        e2   = Tr/2.0 - sqrt( Tr*Tr/4.0 - Det );
+        s    = sqrt( MAXV(0.0, Tr*Tr/4.0 - Det) ); // negative by round-off for a circular strain ellipse
+        e1   = Tr/2.0 + s;
+        e2   = Tr/2.0 - s;
         
         // aspect ratio
         FS_AR[k] = e1/e2;
-- 
2.43.0


From ca0663b7f9ce41f20d25b2afc5b8a98598aaed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:32 +0000
Subject: [PATCH 94/97] fix: stress limiter of anisotropic materials kept the
 friction angle in the return mapping

---
 MDLIB/AnisotropyRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index a7a88eb..c012b34 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -166,6 +166,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       if (materials->Slim[phase] < Tyield) {
         Coh        = materials->Slim[phase];
         Tyield     = materials->Slim[phase];
+        fric       = 0.0; // yield stress no longer depends on pressure
       }
     }
 
-- 
2.43.0


From a84ccced10fae4b9b79edd8e23751ed93ccc7324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:25 +0000
Subject: [PATCH 95/97] fix: geometric average of the anisotropy factor stopped
 on isotropic materials

---
 MDLIB/AnisotropyRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index c012b34..0e2a7a5 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -394,7 +394,7 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
         }
 
 
-        if ( isinf(1.0/mesh->aniso_factor_n[c0]) ) {
+        if ( average != 2 && isinf(1.0/mesh->aniso_factor_n[c0]) ) { // geometric: the logarithm of an isotropic mixture is 0
           printf("Cell %d has no neighbouring particles: average=%d, value = %2.2e, 1/value=%2.2e \n", c0, average, mesh->aniso_factor_n[c0], 1.0/mesh->aniso_factor_n[c0]);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_n[p][c0]);
@@ -444,7 +444,7 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
 
         }
 
-        if ( isinf(1.0/mesh->aniso_factor_s[c1]) ) {
+        if ( average != 2 && isinf(1.0/mesh->aniso_factor_s[c1]) ) { // geometric: the logarithm of an isotropic mixture is 0
           printf("Node %d has no neighbouring particles\n", c1);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_s[p][c1]);
-- 
2.43.0


From d4da0823725524f6f3cea386cf96384ed624db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:58 +0000
Subject: [PATCH 96/97] fix: tension gave anisotropic materials a negative
 viscosity

---
 MDLIB/AnisotropyRoutines.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 0e2a7a5..ff2ee08 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -282,6 +282,14 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       Fc   = Tiic - Coh*cos(fric) - Pc*sin(fric) - eta_vp0*gdot; // + soon*sin(fric)/3.0*( a1*txx + a2*tzz + a3*tyy )
       if (noisy) printf("Ft = %2.2e --- Fc = %2.2e\n", Ft, Fc);
 
+      // In case return mapping has failed (because of tension), return to a von Mises minimum stress
+      if (Tiic<0.0) {
+        Tiic = MINV(Tii, 1e5/scaling->S);
+        gdot = (Tii - Tiic) / eta_ve;
+        dil  = 0.0;                  // no dilation: pressure is not corrected
+        Pc   = P;
+      }
+
       // Evaluate stress components
       *eta_vep = Tiic/2.0/Eii;
       T_rot.xx = 2.0 * (*eta_vep) * E_rot.xx;
-- 
2.43.0


From d02848ff31f17b6dbf9ef70ed2ac0cfeaae9d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 97/97] fix: angle offered for entering markers was mirrored
 for directors that point down

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 1dd2bd6..2385454 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -824,7 +824,7 @@ void AssignMarkerPropertiesInflow (markers* particles, int new_ind, int min_inde
             .x = particles->x[new_ind],
             .z = particles->z[new_ind]};
         if (input->model.marker_aniso_angle && setParticles.SetAnisoAngle) {
-            double predefined_angle = acos(particles->nx[min_index]) * 180.0 / M_PI;
+            double predefined_angle = atan2(particles->nz[min_index], particles->nx[min_index]) * 180.0 / M_PI;
             double angle = setParticles.SetAnisoAngle(input, coordinates, particles->phase[new_ind], predefined_angle) * M_PI / 180.0;
             particles->nx[new_ind]           = cos(angle);
             particles->nz[new_ind]           = sin(angle);
-- 
2.43.0

