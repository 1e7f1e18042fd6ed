// written by docs/mk_params.py
FI(model, istep)
FI(model, irestart)
FI(model, writer)
FI(model, writer_step)
FI(model, writer_markers)
FI(model, writer_debug)
FS(model, writer_subfolder)
FI(model, noisy)
FI(model, track_T_P_x_z)
FI(model, delete_breakpoints)
FI(model, gnuplot_log_res)
FS(model, import_files_dir)
FS(model, import_file)
FI(model, save_initial_markers)
FI(model, load_initial_markers)
FS(model, initial_markers_file)
FI(model, Nx)
FI(model, Nz)
FD(model, xmin)
FD(model, xmax)
FD(model, zmin)
FD(model, zmax)
FI(model, balance_boundaries)
FI(model, zero_mean_topo)
FI(model, Nt)
FD(model, dt)
FD(model, Courant)
FI(model, RK)
FI(model, constant_dt)
FI(model, stress_rotation)
FD(model, dt_max)
FD(model, dt_min)
FD(model, dt_reduction_factor)
FI(model, mechanical)
FI(model, advection)
FI(model, elastic)
FI(model, thermal)
FI(model, anisotropy)
FI(model, polar)
FI(model, finite_strain)
FI(model, compressible)
FI(model, density_variations)
FI(model, kinetics)
FI(model, out_of_plane)
FI(model, melting)
FD(model, penalty)
FD(model, auto_penalty)
FI(model, diag_scaling)
FI(model, preconditioner)
FD(model, lin_abs_div)
FD(model, lin_rel_div)
FD(model, lin_abs_mom)
FD(model, lin_rel_mom)
FI(model, lin_solver)
FI(model, max_its_PH)
FI(Nmodel, nit_max)
FI(model, Newton)
FI(Nmodel, Picard2Newton)
FD(Nmodel, Picard2Newton_tol)
FI(Nmodel, max_its_Pic)
FI(Nmodel, let_res_grow)
FI(model, max_its_KSP)
FD(model, rel_tol_KSP)
FD(Nmodel, nonlin_abs_mom)
FD(Nmodel, nonlin_abs_div)
FD(Nmodel, nonlin_rel_mom)
FD(Nmodel, nonlin_rel_div)
FD(model, min_eta)
FD(model, max_eta)
FD(model, eta_tol)
FI(model, safe_mode)
FD(model, safe_dt_div)
FI(model, max_num_stag)
FI(model, line_search)
FD(model, line_search_min)
FI(model, residual_form)
FI(model, ani_average)
FI(model, eta_average)
FI(model, interp_stencil)
FI(model, subgrid_diffusion)
FI(model, conserv_interp)
FI(model, direct_neighbour)
FI(model, initial_noise)
FI(model, marker_noise)
FI(model, reseed_markers)
FI(model, reseed_mode)
FI(particles, Nx_part)
FI(particles, Nz_part)
FI(particles, min_part_cell)
FI(model, shear_style)
FI(model, periodic_x)
FI(model, pure_shear_ALE)
FI(model, free_surface)
FD(model, free_surface_stab)
FI(model, topo_update)
FI(model, initial_cooling)
FD(model, cooling_duration)
FI(model, shear_heating)
FI(model, adiab_heating)
FI(model, surface_processes)
FI(model, marker_aniso_angle)
FI(model, layering)
FI(model, chemical_diffusion)
FI(model, chemical_production)
FI(model, smooth_softening)
FD(model, bkg_strain_rate)
FD(model, bkg_div_rate)
FD(model, bkg_pressure)
FD(model, bkg_temperature)
FI(model, fix_temperature)
FD(model, surf_diff)
FI(model, surf_ised1)
FI(model, surf_ised2)
FD(model, surf_sedirate)
FD(model, surf_baselev)
FD(model, surf_Winc)
FD(model, surf_Vinc)
FI(model, preload)
FD(model, preload_sxxd)
FD(model, preload_szzd)
FD(model, preload_sxz)
FI(model, therm_perturb)
FD(model, therm_perturb_x0)
FD(model, therm_perturb_z0)
FD(model, therm_perturb_rad_x)
FD(model, therm_perturb_rad_z)
FD(model, therm_perturb_dT)
FI(model, force_act_vol_ast)
FD(model, act_vol_dis_ast)
FD(model, act_vol_dif_ast)
FI(model, force_melt_weak)
FD(model, melt_weak)
FD(model, user0)
FD(model, user1)
FD(model, user2)
FD(model, user3)
FD(model, user4)
FD(model, user5)
FD(model, user6)
FD(model, user7)
FD(model, user8)
FD(model, user9)
FI(model, diffuse_X)
FI(model, diffuse_avg)
FD(model, diffusion_length)
FD(model, gx)
FD(model, gz)
FI(model, deformation_maps)
FI(model, nT)
FI(model, nE)
FI(model, nd)
FD(model, Tmin)
FD(model, Tmax)
FD(model, Emin)
FD(model, Emax)
FD(model, dmin)
FD(model, dmax)
FD(model, Pn)
FI(materials, Nb_phases)
FDP(materials, rho)
FDP(materials, G)
FDP(materials, Cp)
FDP(materials, k)
FDP(materials, Qr)
FDP(materials, alp)
FDP(materials, bet)
FDP(materials, drho)
FIP(materials, melt)
FIP(materials, plast)
FIP(materials, yield)
FDP(materials, sig_tens)
FDP(materials, sig1)
FDP(materials, dsig1)
FDP(materials, C)
FDP(materials, phi)
FDP(materials, psi)
FDP(materials, Slim)
FDP(materials, n_vp)
FDP(materials, eta_vp)
FIP(materials, coh_soft)
FIP(materials, phi_soft)
FIP(materials, psi_soft)
FDP(materials, C_end)
FDP(materials, phi_end)
FDP(materials, psi_end)
FDP(materials, pls_start)
FDP(materials, pls_end)
FDP(materials, cstv)
FDP(materials, pwlv)
FDP(materials, linv)
FDP(materials, gbsv)
FDP(materials, expv)
FDP(materials, eps0)
FDP(materials, tau0)
FDP(materials, eta0)
FDP(materials, npwl)
FDP(materials, Qpwl)
FDP(materials, pref_pwl)
FDP(materials, gs)
FDP(materials, gs_ref)
FDP(materials, kin)
FIP(materials, reac_soft)
FIP(materials, reac_phase)
FDP(materials, Pr)
FDP(materials, dPr)
FDP(materials, tau_kin)
FDP(materials, k_chem)
FIP(materials, density_model)
FIP(materials, phase_diagram)
FIP(materials, phase_mix)
FIP(materials, phase_two)
FDP(materials, aniso_angle)
FDP(materials, aniso_factor)
FDP(materials, ani_fac_max)
FIP(materials, ani_fstrain)
FDP(materials, axx)
FDP(materials, azz)
FDP(materials, ayy)
FIP(materials, transmutation)
FIP(materials, transmutation_phase)
FDP(materials, transmutation_temperature)
