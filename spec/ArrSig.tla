------------------------------- MODULE ArrSig -------------------------------
(* the parameters that may be arrays, by module and function *)

ArrTable == <<
  <<"core_physics", "calculate_Dn50_from_M50", {"M50"}>>,
  <<"core_physics", "calculate_Iribarren_number_ksi", {"H", "T", "cot_alpha"}>>,
  <<"core_physics", "calculate_M50_from_Dn50", {"Dn50"}>>,
  <<"core_physics", "calculate_Nod_from_S", {"S", "G", "nv"}>>,
  <<"core_physics", "calculate_S_from_Nod", {"Nod", "G", "nv"}>>,
  <<"core_physics", "calculate_buoyant_density_Delta", {"rho_rock", "rho_water"}>>,
  <<"core_physics", "calculate_critical_Iribarren_number_ksi_mc", {"c_pl", "c_s", "P", "cot_alpha"}>>,
  <<"core_physics", "calculate_local_wavelength", {"T", "h", "g"}>>,
  <<"core_physics", "calculate_stability_number_Ns", {"H", "D", "rho_rock", "rho_water"}>>,
  <<"core_physics", "calculate_wave_steepness_s", {"H", "T"}>>,
  <<"core_physics", "check_usage_Dn50_or_M50", {"Dn50", "M50", "rho_rock"}>>,
  <<"core_physics", "check_usage_stabilitynumber", {"Hs", "Dn", "Delta", "Ns"}>>,
  <<"ov_denbieman2021", "write_input_file_XGB_Overtopping", {"beta", "h", "Hm0", "Tmm10", "Bt", "ht", "B_berm", "db", "Rc", "Ac", "Gc", "cot_alpha_down", "cot_alpha_up", "gamma_f_down", "gamma_f_up", "tan_alpha_f"}>>,
  <<"ov_deridder2024", "calculate_crest_freeboard_discharge_q_eq24", {"Hm0", "smm10_HF", "gamma_f", "q"}>>,
  <<"ov_deridder2024", "calculate_crest_freeboard_discharge_q_eq26", {"Hm0", "smm10_HF", "Hm0_LF", "gamma_f", "q"}>>,
  <<"ov_deridder2024", "calculate_dimensionless_crest_freeboard_discharge_q_eq24", {"Hm0", "smm10_HF", "gamma_f", "q"}>>,
  <<"ov_deridder2024", "calculate_dimensionless_overtopping_discharge_eq24", {"Hm0", "smm10_HF", "gamma_f", "Rc"}>>,
  <<"ov_deridder2024", "calculate_dimensionless_overtopping_discharge_eq26", {"Hm0", "smm10_HF", "Hm0_LF", "gamma_f", "Rc"}>>,
  <<"ov_deridder2024", "calculate_overtopping_discharge_q_eq24", {"Hm0", "smm10_HF", "gamma_f", "Rc"}>>,
  <<"ov_deridder2024", "calculate_overtopping_discharge_q_eq26", {"Hm0", "smm10_HF", "Hm0_LF", "gamma_f", "Rc"}>>,
  <<"ov_deridder2024", "check_validity_range", {"h", "Hm0", "Hm0_HF", "Hm0_LF", "Tmm10", "Tmm10_HF", "Rc", "cot_alpha", "m_foreshore_slope", "Dn50"}>>,
  <<"ov_deridder2026", "calculate_crest_freeboard_discharge_q_eq28", {"Hm0", "smm10_HF", "gamma_f", "q", "theta"}>>,
  <<"ov_deridder2026", "calculate_crest_freeboard_discharge_q_eq32", {"Hm0_HF", "smm10_HF", "Hm0_LF", "gamma_f", "q", "theta"}>>,
  <<"ov_deridder2026", "calculate_dimensionless_crest_freeboard_discharge_q_eq28", {"Hm0", "smm10_HF", "gamma_f", "q", "gamma_beta"}>>,
  <<"ov_deridder2026", "calculate_dimensionless_overtopping_discharge_eq28", {"Hm0", "smm10_HF", "gamma_f", "Rc", "theta"}>>,
  <<"ov_deridder2026", "calculate_dimensionless_overtopping_discharge_eq32", {"Hm0_HF", "smm10_HF", "Hm0_LF", "gamma_f", "Rc", "theta"}>>,
  <<"ov_deridder2026", "calculate_gamma_beta", {"theta"}>>,
  <<"ov_deridder2026", "calculate_overtopping_discharge_q_eq28", {"Hm0", "smm10_HF", "gamma_f", "Rc", "theta"}>>,
  <<"ov_deridder2026", "calculate_overtopping_discharge_q_eq32", {"Hm0_HF", "smm10_HF", "Hm0_LF", "gamma_f", "Rc", "theta"}>>,
  <<"ov_deridder2026", "check_validity_range", {"h", "Hm0", "Hm0_HF", "Hm0_LF", "Tmm10", "Tmm10_HF", "Rc", "Dn50", "theta"}>>,
  <<"ov_eurotop2007", "calculate_crest_freeboard_Rc_rubble_mound", {"Hm0", "Tmm10", "q", "beta", "gamma_beta", "gamma_f", "cot_alpha"}>>,
  <<"ov_eurotop2007", "calculate_dimensionless_crest_freeboard_rubble_mound", {"Hm0", "Tmm10", "q", "beta", "gamma_beta", "gamma_f", "cot_alpha"}>>,
  <<"ov_eurotop2007", "calculate_dimensionless_overtopping_discharge_q_rubble_mound", {"Hm0", "Tmm10", "Rc", "beta", "gamma_beta", "gamma_f", "cot_alpha"}>>,
  <<"ov_eurotop2007", "calculate_overtopping_discharge_q_rubble_mound", {"Hm0", "Tmm10", "Rc", "beta", "gamma_beta", "gamma_f", "cot_alpha"}>>,
  <<"ov_eurotop2018", "Rc_diml_max_equation", {"Hm0", "q", "gamma_beta", "gamma_f", "gamma_star"}>>,
  <<"ov_eurotop2018", "calculate_crest_freeboard_Rc", {"Hm0", "Tmm10", "q", "beta", "gamma_beta", "gamma_b", "gamma_f", "gamma_v", "gamma_star", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ov_eurotop2018", "calculate_crest_freeboard_Rc_rubble_mound", {"Hm0", "Tmm10", "q", "beta", "gamma_beta", "gamma_f", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ov_eurotop2018", "calculate_dimensionless_crest_freeboard", {"Hm0", "Tmm10", "q", "beta", "gamma_beta", "gamma_b", "gamma_f", "gamma_v", "gamma_star", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ov_eurotop2018", "calculate_dimensionless_crest_freeboard_rubble_mound", {"Hm0", "Tmm10", "q", "beta", "gamma_beta", "gamma_f", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ov_eurotop2018", "calculate_dimensionless_overtopping_discharge_q", {"Hm0", "Tmm10", "Rc", "beta", "gamma_beta", "gamma_b", "gamma_f", "gamma_v", "gamma_star", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ov_eurotop2018", "calculate_dimensionless_overtopping_discharge_q_rubble_mound", {"Hm0", "Tmm10", "Rc", "beta", "gamma_beta", "gamma_f", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ov_eurotop2018", "calculate_influence_oblique_waves_gamma_beta", {"beta", "gamma_f"}>>,
  <<"ov_eurotop2018", "calculate_overtopping_discharge_q", {"Hm0", "Tmm10", "Rc", "beta", "gamma_beta", "gamma_b", "gamma_f", "gamma_v", "gamma_star", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ov_eurotop2018", "calculate_overtopping_discharge_q_rubble_mound", {"Hm0", "Tmm10", "Rc", "beta", "gamma_beta", "gamma_f", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ov_eurotop2018", "check_validity_range_rubble_mound", {"cot_alpha"}>>,
  <<"ov_eurotop2018", "q_diml_max_equation", {"Hm0", "Rc", "gamma_beta", "gamma_f", "gamma_star"}>>,
  <<"ov_taw2002", "Rc_diml_max_equation", {"Hm0", "q", "gamma_beta", "gamma_f"}>>,
  <<"ov_taw2002", "calculate_crest_freeboard_Rc", {"Hm0", "Tmm10", "q", "cot_alpha", "cot_alpha_down", "cot_alpha_up", "beta", "B_berm", "db", "gamma_beta", "gamma_b", "gamma_f", "gamma_v", "sigma"}>>,
  <<"ov_taw2002", "calculate_dimensionless_crest_freeboard", {"Hm0", "Tmm10", "q", "cot_alpha", "cot_alpha_down", "cot_alpha_up", "beta", "B_berm", "db", "gamma_beta", "gamma_b", "gamma_f", "gamma_v", "sigma"}>>,
  <<"ov_taw2002", "calculate_dimensionless_overtopping_discharge_q", {"Hm0", "Tmm10", "Rc", "cot_alpha", "cot_alpha_down", "cot_alpha_up", "beta", "B_berm", "db", "gamma_beta", "gamma_b", "gamma_f", "gamma_v", "sigma"}>>,
  <<"ov_taw2002", "calculate_influence_crest_wall_gamma_v", {"alpha_wall_deg"}>>,
  <<"ov_taw2002", "calculate_influence_oblique_waves_gamma_beta", {"beta"}>>,
  <<"ov_taw2002", "calculate_overtopping_discharge_q", {"Hm0", "Tmm10", "Rc", "cot_alpha", "cot_alpha_down", "cot_alpha_up", "beta", "B_berm", "db", "gamma_beta", "gamma_b", "gamma_f", "gamma_v", "sigma"}>>,
  <<"ov_taw2002", "check_validity_range", {"Hm0", "Tmm10", "beta", "cot_alpha", "cot_alpha_down", "cot_alpha_up", "gamma_f", "gamma_b", "gamma_beta", "gamma_v"}>>,
  <<"ov_taw2002", "q_diml_max_equation", {"Hm0", "Rc", "gamma_beta", "gamma_f"}>>,
  <<"ov_vangent2002_velocity", "_invert_for_zXp", {"Hs", "uXp", "Rc", "Bc", "gamma_f", "gamma_f_Crest"}>>,
  <<"ov_vangent2002_velocity", "calculate_maximum_wave_overtopping_velocity_uXp", {"Hs", "zXp", "Rc", "Bc", "gamma_f", "gamma_f_Crest"}>>,
  <<"ov_vangent2007", "write_input_file_NN_Overtopping", {"beta", "h", "Hm0", "Tmm10", "Bt", "ht", "B_berm", "db", "Rc", "Ac", "Gc", "cot_alpha_down", "cot_alpha_up", "gamma_f", "tan_alpha_B"}>>,
  <<"ov_vangent2021_caisson", "calculate_crest_freeboard_Rc", {"Hm0", "q", "beta", "gamma_beta", "Hm0_swell"}>>,
  <<"ov_vangent2021_caisson", "calculate_dimensionless_crest_freeboard", {"Hm0", "q", "beta", "gamma_beta", "Hm0_swell"}>>,
  <<"ov_vangent2021_caisson", "calculate_dimensionless_overtopping_discharge_q", {"Hm0", "Rc", "beta", "gamma_beta", "Hm0_swell"}>>,
  <<"ov_vangent2021_caisson", "calculate_influence_oblique_waves_gamma_beta", {"beta"}>>,
  <<"ov_vangent2021_caisson", "calculate_overtopping_discharge_q", {"Hm0", "Rc", "beta", "gamma_beta", "Hm0_swell"}>>,
  <<"ov_vangent2021_caisson", "check_validity_range", {"Hm0", "Tmm10", "beta", "Rc", "q_diml"}>>,
  <<"ov_vangent2025", "Rc_diml_max_equation", {"Hm0", "Hm0_swell", "q", "cot_alpha", "ksi_mm10", "gamma_f", "gamma_b", "gamma_v", "gamma_beta"}>>,
  <<"ov_vangent2025", "calculate_crest_freeboard_Rc", {"Hm0", "Hm0_swell", "Tmm10", "q", "Ac", "cot_alpha", "beta", "B_berm", "db", "Dn50", "gamma_f", "gamma_b", "gamma_v", "gamma_beta"}>>,
  <<"ov_vangent2025", "calculate_dimensionless_crest_freeboard", {"Hm0", "Hm0_swell", "Tmm10", "q", "Ac", "cot_alpha", "beta", "B_berm", "db", "Dn50", "gamma_f", "gamma_b", "gamma_v", "gamma_beta"}>>,
  <<"ov_vangent2025", "calculate_dimensionless_overtopping_discharge_q", {"Hm0", "Hm0_swell", "Tmm10", "Rc", "Ac", "cot_alpha", "beta", "B_berm", "db", "Dn50", "gamma_f", "gamma_b", "gamma_v", "gamma_beta"}>>,
  <<"ov_vangent2025", "calculate_influence_berm_gamma_b", {"Hm0", "smm10", "Ac", "B_berm", "BL"}>>,
  <<"ov_vangent2025", "calculate_influence_crest_wall_gamma_v", {"cot_alpha", "Rc", "Ac"}>>,
  <<"ov_vangent2025", "calculate_influence_friction_gamma_f", {"Dn50", "Hm0", "smm10"}>>,
  <<"ov_vangent2025", "calculate_influence_oblique_waves_gamma_beta", {"beta"}>>,
  <<"ov_vangent2025", "calculate_influence_wind_gamma_w", {"Rc", "Ac", "Hm0", "q_diml"}>>,
  <<"ov_vangent2025", "calculate_overtopping_discharge_q", {"Hm0", "Hm0_swell", "Tmm10", "Rc", "Ac", "cot_alpha", "beta", "B_berm", "db", "Dn50", "gamma_f", "gamma_b", "gamma_v", "gamma_beta"}>>,
  <<"ov_vangent2025", "check_validity_range", {"Hm0", "Hm0_deep", "Tmm10", "beta", "h", "cot_alpha", "Dn50", "Rc", "Ac", "Gc", "B_berm", "db"}>>,
  <<"ov_vangent2025", "q_diml_max_equation", {"Hm0", "Hm0_swell", "ksi_mm10", "cot_alpha", "Rc", "gamma_f", "gamma_b", "gamma_v", "gamma_beta"}>>,
  <<"ru_eurotop2018", "calculate_dimensionless_wave_runup_height_z2p", {"Hm0", "Tmm10", "beta", "gamma_beta", "gamma_b", "gamma_f", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ru_eurotop2018", "calculate_influence_oblique_waves_gamma_beta", {"beta", "gamma_f"}>>,
  <<"ru_eurotop2018", "calculate_wave_runup_height_z2p", {"Hm0", "Tmm10", "beta", "gamma_beta", "gamma_b", "gamma_f", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ru_eurotop2018", "iteration_procedure_gamma_b", {"Hm0", "Tmm10", "cot_alpha_average", "B_berm", "L_berm", "db", "gamma_beta", "gamma_f"}>>,
  <<"ru_eurotop2018", "iteration_procedure_z2p", {"Hm0", "Tmm10", "cot_alpha_down", "cot_alpha_up", "B_berm", "db", "gamma_f", "gamma_beta"}>>,
  <<"ru_taw2002", "calculate_adjusted_influence_roughness_gamma_f", {"gamma_f", "gamma_b", "ksi_mm10"}>>,
  <<"ru_taw2002", "calculate_berm_length", {"Hm0", "B_berm", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ru_taw2002", "calculate_dimensionless_wave_runup_height_z2p", {"Hm0", "Tmm10", "beta", "gamma_beta", "gamma_b", "gamma_f", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ru_taw2002", "calculate_influence_berm_gamma_b", {"Hm0", "z2p", "db", "B_berm", "L_berm"}>>,
  <<"ru_taw2002", "calculate_influence_oblique_waves_gamma_beta", {"beta"}>>,
  <<"ru_taw2002", "calculate_wave_runup_height_z2p", {"Hm0", "Tmm10", "beta", "gamma_beta", "gamma_b", "gamma_f", "B_berm", "db", "cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ru_taw2002", "check_calculate_gamma_beta", {"beta", "gamma_beta"}>>,
  <<"ru_taw2002", "check_composite_slope", {"cot_alpha", "cot_alpha_down", "cot_alpha_up"}>>,
  <<"ru_taw2002", "check_validity_range", {"Hm0", "Tmm10", "gamma_f", "gamma_b", "gamma_beta", "cot_alpha"}>>,
  <<"ru_taw2002", "determine_average_slope", {"Hm0", "z2p", "cot_alpha_down", "cot_alpha_up", "B_berm", "db"}>>,
  <<"ru_taw2002", "iteration_procedure_gamma_b", {"Hm0", "Tmm10", "cot_alpha_average", "B_berm", "L_berm", "db", "gamma_beta", "gamma_f"}>>,
  <<"ru_taw2002", "iteration_procedure_z2p", {"Hm0", "Tmm10", "cot_alpha_down", "cot_alpha_up", "B_berm", "db", "gamma_f", "gamma_beta"}>>,
  <<"ru_vangent2001", "_invert_for_Hs", {"Hs_i0", "z1p", "Tmm10", "gamma", "cot_alpha"}>>,
  <<"ru_vangent2001", "calculate_wave_runup_height_z10p", {"Hs", "Tmm10", "gamma", "cot_alpha"}>>,
  <<"ru_vangent2001", "calculate_wave_runup_height_z1p", {"Hs", "Tmm10", "gamma", "cot_alpha"}>>,
  <<"ru_vangent2001", "calculate_wave_runup_height_z2p", {"Tmm10", "gamma", "cot_alpha", "Hm0", "Hs"}>>,
  <<"ru_vangent2001", "calculate_wave_runup_height_zXp", {"H", "Tmm10", "gamma", "cot_alpha"}>>,
  <<"tr_briganti2003", "calculate_wave_transmission_Kt", {"Hsi", "Tpi", "Rc", "B", "cot_alpha"}>>,
  <<"tr_briganti2003", "check_validity", {"s0p", "ksi_0p"}>>,
  <<"tr_dangremond1996", "calculate_wave_transmission_Kt_impermeable", {"Hsi", "Tpi", "h", "Rc", "B", "cot_alpha", "C1"}>>,
  <<"tr_dangremond1996", "calculate_wave_transmission_Kt_permeable", {"Hsi", "Tpi", "h", "Rc", "B", "cot_alpha", "C1"}>>,
  <<"tr_dangremond1996", "check_validity", {"Kt", "s0p", "Hsi_over_h", "Rc_over_Hsi"}>>,
  <<"tr_goda1967_caisson", "calculate_wave_transmission_Kt", {"Hsi", "Rc", "alpha_1", "beta_1"}>>,
  <<"tr_vangent2023", "calculate_wave_transmission_Kt", {"Hm0", "Tmm10", "Rc", "B"}>>,
  <<"tr_vangent2023", "check_validity_range", {"Hm0", "Tmm10", "Rc", "B"}>>,
  <<"tr_vangent2024_setup", "calculate_dimensionless_structure_induced_setup_impermeable", {"Hm0", "Tmm10", "Rc"}>>,
  <<"tr_vangent2024_setup", "calculate_dimensionless_structure_induced_setup_permeable", {"Hm0", "Tmm10", "Rc", "hc"}>>,
  <<"tr_vangent2024_setup", "calculate_structure_induced_setup_delta_impermeable", {"Hm0", "Tmm10", "Rc"}>>,
  <<"tr_vangent2024_setup", "calculate_structure_induced_setup_delta_permeable", {"Hm0", "Tmm10", "Rc", "hc"}>>,
  <<"tr_vangent2024_setup", "check_validity_range", {"Hm0", "Tmm10", "Rc", "B", "hc", "Dn50"}>>,
  <<"fc_goda1985", "calculate_Wup", {"hacc", "Rc", "Bup", "rho_fill_below_SWL", "rho_water", "rho_fill_above_SWL", "g"}>>,
  <<"fc_goda1985", "calculate_bearing_pressures", {"Wup", "tup", "MH", "MU", "FU", "Bup"}>>,
  <<"fc_goda1985", "calculate_forces_and_reactions", {"HD", "Hsi", "Tmax", "beta", "h_s", "d", "B1", "cota_seabed", "rho_water", "hacc", "Rc", "Bup", "rho_fill_above_SWL", "rho_fill_below_SWL", "offshore_wave_steepness", "muf", "tup_over_Bup", "g"}>>,
  <<"fc_goda1985", "calculate_pressures_and_forces", {"HD", "Hsi", "Tmax", "beta", "h_s", "d", "B1", "cota_seabed", "rho_water", "hacc", "Rc", "Bup", "offshore_wave_steepness", "g"}>>,
  <<"fc_goda1985", "calculate_safety_factors", {"FU", "FH", "Wup", "muf", "tup", "MH", "MU"}>>,
  <<"fc_goda1985", "check_impulsive_breaking", {"beta", "B1", "L", "cota_seabed", "offshore_wave_steepness", "Rc", "Hsi", "d", "h_s"}>>,
  <<"fc_goda1985", "check_validity_range", {"beta", "cota_seabed", "Tmax", "tup", "Bup", "h_s", "B1"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_FH01p_perpendicular", {"FH2p"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_FH2p_oblique", {"Hm0", "Tmm10", "beta", "cot_alpha", "Ac", "Rc", "Hwall", "gamma_beta", "gamma_f", "c0", "c1", "cFH", "rho_water", "g"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_FH2p_perpendicular", {"Hm0", "Tmm10", "cot_alpha", "Ac", "Rc", "Hwall", "gamma_beta", "gamma_f", "c0", "c1", "rho_water", "g", "cFH"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_FH2p_perpendicular_from_z2p", {"Hm0", "z2p", "Ac", "Rc", "Hwall", "rho_water", "g", "cFH"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_FV01p_perpendicular", {"FV2p", "s0p"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_FV2p_oblique", {"Hm0", "Tmm10", "beta", "cot_alpha", "Ac", "Bwall", "Fb", "gamma_beta", "gamma_f", "c0", "c1", "cFV", "cFb", "rho_water", "g"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_FV2p_perpendicular", {"Hm0", "Tmm10", "cot_alpha", "Ac", "Bwall", "Fb", "gamma_beta", "gamma_f", "c0", "c1", "cFV", "cFb", "rho_water", "g"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_FV2p_perpendicular_from_z2p", {"z2p", "Ac", "Bwall", "Fb", "cFV", "cFb", "rho_water", "g"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_influence_oblique_waves_force_gamma_F_beta", {"z2p", "Ac", "beta", "gamma_A"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_influence_oblique_waves_gamma_beta", {"beta", "c_beta"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta", {"z2p", "Ac", "beta", "gamma_A"}>>,
  <<"fw_vangentvanderwerf2019", "calculate_influence_oblique_waves_vertical_force_gamma_FV_beta", {"z2p", "Ac", "beta", "gamma_A"}>>,
  <<"fw_vangentvanderwerf2019", "check_validity", {"Rc", "Ac", "Hm0", "Fb", "beta"}>>,
  <<"ca_accropode2_hudson1959", "calculate_KD_breaking_trunk_from_seabed_slope", {"seabed_slope_perc"}>>,
  <<"ca_accropode2_hudson1959", "calculate_significant_wave_height_Hs", {"M", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_accropode2_hudson1959", "calculate_unit_mass_M", {"Hs", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_accropode2_hudson1959", "check_validity_range", {"cot_alpha", "seabed_slope_perc"}>>,
  <<"ca_accropode_hudson1959", "calculate_KD_breaking_trunk_from_seabed_slope", {"seabed_slope_perc"}>>,
  <<"ca_accropode_hudson1959", "calculate_significant_wave_height_Hs", {"M", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_accropode_hudson1959", "calculate_unit_mass_M", {"Hs", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_accropode_hudson1959", "check_validity_range", {"cot_alpha", "seabed_slope_perc"}>>,
  <<"ca_core_loc_hudson1959", "calculate_KD_breaking_trunk_from_seabed_slope", {"seabed_slope_perc"}>>,
  <<"ca_core_loc_hudson1959", "calculate_significant_wave_height_Hs", {"M", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_core_loc_hudson1959", "calculate_unit_mass_M", {"Hs", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_core_loc_hudson1959", "check_validity_range", {"cot_alpha", "seabed_slope_perc"}>>,
  <<"ca_cubes_double_layer_hudson1959", "calculate_significant_wave_height_Hs", {"M", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_cubes_double_layer_hudson1959", "calculate_unit_mass_M", {"Hs", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_cubes_double_layer_vandermeer1988", "calculate_damage_Nod_vanDerMeer1988", {"Hs", "Dn", "s0m", "rho_water", "rho_armour", "N_waves", "cot_alpha"}>>,
  <<"ca_cubes_double_layer_vandermeer1988", "calculate_nominal_diameter_Dn_vanDerMeer1988", {"Hs", "Tm", "rho_water", "rho_armour", "N_waves", "cot_alpha", "Nod"}>>,
  <<"ca_cubes_double_layer_vandermeer1988", "calculate_wave_height_Hs_vanDerMeer1988", {"Dn", "s0m", "rho_water", "rho_armour", "N_waves", "cot_alpha", "Nod"}>>,
  <<"ca_cubes_double_layer_vandermeer1988", "check_validity_range", {"Hs", "Tm", "rho_armour", "N_waves", "cot_alpha"}>>,
  <<"ca_cubes_single_layer_vangent2002", "calculate_significant_wave_height_Hs_failure", {"M", "rho_water", "rho_armour", "Ns"}>>,
  <<"ca_cubes_single_layer_vangent2002", "calculate_significant_wave_height_Hs_start_of_damage", {"M", "rho_water", "rho_armour", "Ns"}>>,
  <<"ca_cubes_single_layer_vangent2002", "calculate_unit_mass_M_failure", {"Hs", "rho_water", "rho_armour", "Ns"}>>,
  <<"ca_cubes_single_layer_vangent2002", "calculate_unit_mass_M_start_of_damage", {"Hs", "rho_water", "rho_armour", "Ns"}>>,
  <<"ca_cubipod_hudson1959", "calculate_significant_wave_height_Hs", {"M", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_cubipod_hudson1959", "calculate_unit_mass_M", {"Hs", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_tetrapod_hudson1959", "calculate_significant_wave_height_Hs", {"M", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_tetrapod_hudson1959", "calculate_unit_mass_M", {"Hs", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ca_xbloc", "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", {"cot_alpha"}>>,
  <<"ca_xbloc", "calculate_correctionfactor_unit_mass_M_by_percslope_seabed", {"perc_slope"}>>,
  <<"ca_xbloc", "calculate_correctionfactor_unit_mass_M_by_rel_depth", {"rel_depth"}>>,
  <<"ca_xbloc", "calculate_correctionfactor_unit_mass_M_by_relative_freeboard", {"rel_freeboard"}>>,
  <<"ca_xbloc", "calculate_correctionfactor_unit_mass_M_by_structure_slope", {"cot_alpha"}>>,
  <<"ca_xbloc", "calculate_unit_mass_M", {"Hs", "rho_water", "rho_armour", "total_correction_factor"}>>,
  <<"ca_xbloc", "calculate_unit_volume_V", {"Hs", "rho_water", "rho_armour", "total_correction_factor"}>>,
  <<"ca_xbloc", "calculate_wave_height_Hs_from_M", {"M", "rho_water", "rho_armour", "total_correction_factor"}>>,
  <<"ca_xbloc", "calculate_wave_height_Hs_from_V", {"V", "rho_water", "rho_armour", "total_correction_factor"}>>,
  <<"ca_xblocplus", "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", {"cot_alpha"}>>,
  <<"ca_xblocplus", "calculate_correctionfactor_unit_mass_M_by_percslope_seabed", {"perc_slope"}>>,
  <<"ca_xblocplus", "calculate_correctionfactor_unit_mass_M_by_relative_freeboard", {"rel_freeboard"}>>,
  <<"ca_xblocplus", "calculate_unit_mass_M", {"Hs", "rho_water", "rho_armour", "total_correction_factor"}>>,
  <<"ca_xblocplus", "calculate_unit_volume_V", {"Hs", "rho_water", "rho_armour", "total_correction_factor"}>>,
  <<"ca_xblocplus", "calculate_wave_height_Hs_from_M", {"M", "rho_water", "rho_armour", "total_correction_factor"}>>,
  <<"ca_xblocplus", "calculate_wave_height_Hs_from_V", {"V", "rho_water", "rho_armour", "total_correction_factor"}>>,
  <<"ra_etemadshahidi2020", "calculate_damage_number_S", {"Hs", "Tmm10", "N_waves", "cot_alpha", "rho_armour", "Dn50", "M50", "Dn50_core", "M50_core", "rho_core", "m"}>>,
  <<"ra_etemadshahidi2020", "calculate_nominal_rock_diameter_Dn50", {"Hs", "Tmm10", "N_waves", "cot_alpha", "rho_armour", "S", "Dn50_core", "M50_core", "rho_core", "m"}>>,
  <<"ra_etemadshahidi2020", "calculate_permeability_coefficient_Cp", {"Dn50", "Dn50_core"}>>,
  <<"ra_etemadshahidi2020", "calculate_significant_wave_height_Hs", {"Tmm10", "N_waves", "cot_alpha", "rho_armour", "S", "Dn50", "M50", "Dn50_core", "M50_core", "rho_core", "m"}>>,
  <<"ra_etemadshahidi2020", "check_validity_range", {"Hs", "Tmm10", "N_waves", "cot_alpha", "P", "S", "Dn50", "Dn50_core", "rho_armour"}>>,
  <<"ra_hudson1959", "calculate_median_rock_mass_M50", {"Hs", "rho_water", "rho_armour", "KD", "cot_alpha", "damage_percentage", "alpha_Hs"}>>,
  <<"ra_hudson1959", "calculate_median_rock_mass_M50_no_damage", {"Hs", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ra_hudson1959", "calculate_significant_wave_height_Hs", {"M50", "rho_water", "rho_armour", "KD", "cot_alpha", "damage_percentage", "alpha_Hs"}>>,
  <<"ra_hudson1959", "calculate_significant_wave_height_Hs_no_damage", {"M50", "rho_water", "rho_armour", "KD", "cot_alpha", "alpha_Hs"}>>,
  <<"ra_hudson1959", "lookup_table_damage_factors", {"damage_percentage"}>>,
  <<"ra_jumelet2024", "calculate_damage_number_S", {"Hs", "Tmm10", "N_waves", "cot_alpha", "rho_armour", "Dn50", "M50"}>>,
  <<"ra_jumelet2024", "calculate_fraction_plunging_waves_Fp", {"ksi_mm10"}>>,
  <<"ra_jumelet2024", "calculate_nominal_rock_diameter_Dn50", {"Hs", "Tmm10", "N_waves", "cot_alpha", "rho_armour", "S"}>>,
  <<"ra_jumelet2024", "calculate_significant_wave_height_Hs", {"Tmm10", "N_waves", "cot_alpha", "rho_armour", "S", "Dn50", "M50"}>>,
  <<"ra_jumelet2024", "check_validity_range", {"Hs", "Tmm10", "N_waves", "cot_alpha"}>>,
  <<"ra_kramerburcharth2004_lowcrested", "calculate_crest_freeboard_Rc", {"Hs", "rho_armour", "Dn50", "M50"}>>,
  <<"ra_kramerburcharth2004_lowcrested", "calculate_nominal_rock_diameter_Dn50", {"Hs", "Rc", "rho_armour"}>>,
  <<"ra_kramerburcharth2004_lowcrested", "calculate_significant_wave_height_Hs", {"Rc", "rho_armour", "Dn50", "M50"}>>,
  <<"ra_kramerburcharth2004_lowcrested", "check_validity_range", {"Rc", "Dn50"}>>,
  <<"ra_scaravaglione2025", "calculate_damage_number_S", {"Hm0", "Tmm10", "N_waves", "cot_alpha", "rho_armour", "rho_core", "Dn50", "Dn50_core", "M50", "M50_core"}>>,
  <<"ra_scaravaglione2025", "calculate_nominal_rock_diameter_Dn50", {"Hm0", "Tmm10", "N_waves", "cot_alpha", "rho_armour", "rho_core", "S", "Dn50_core", "M50_core"}>>,
  <<"ra_scaravaglione2025", "calculate_significant_wave_height_Hm0", {"Tmm10", "N_waves", "cot_alpha", "rho_armour", "rho_core", "S", "Dn50", "Dn50_core", "M50", "M50_core"}>>,
  <<"ra_scaravaglione2025", "check_validity_range", {"Hm0", "Tmm10", "N_waves", "cot_alpha", "P", "Dn50", "Dn50_core", "rho_armour"}>>,
  <<"ra_vandermeer1988", "calculate_correction_term_gamma_N", {"N_waves"}>>,
  <<"ra_vandermeer1988", "calculate_damage_number_S", {"Hs", "H2p", "Tm", "N_waves", "cot_alpha", "P", "rho_armour", "Dn50", "M50"}>>,
  <<"ra_vandermeer1988", "calculate_nominal_rock_diameter_Dn50", {"Hs", "H2p", "Tm", "N_waves", "cot_alpha", "P", "rho_armour", "S"}>>,
  <<"ra_vandermeer1988", "calculate_significant_wave_height_Hs", {"ratio_H2p_Hs", "Tm", "N_waves", "cot_alpha", "P", "rho_armour", "S", "Dn50", "M50"}>>,
  <<"ra_vandermeer1988", "check_validity_range", {"Hs", "H2p", "Tp", "N_waves", "cot_alpha", "P", "rho_armour"}>>,
  <<"ra_vandermeer1988_modified", "calculate_damage_number_S", {"Hs", "H2p", "Tmm10", "N_waves", "cot_alpha", "P", "rho_armour", "Dn50", "M50"}>>,
  <<"ra_vandermeer1988_modified", "calculate_nominal_rock_diameter_Dn50", {"Hs", "H2p", "Tmm10", "N_waves", "cot_alpha", "P", "rho_armour", "S"}>>,
  <<"ra_vandermeer1988_modified", "calculate_significant_wave_height_Hs", {"ratio_H2p_Hs", "Tmm10", "N_waves", "cot_alpha", "P", "rho_armour", "S", "Dn50", "M50"}>>,
  <<"ra_vandermeer1988_modified", "check_validity_range", {"Hs", "H2p", "Tmm10", "N_waves", "cot_alpha", "P", "Dn50", "rho_armour"}>>,
  <<"ra_vandermeer2021", "calculate_damage_number_S", {"Hs", "Tmm10", "N_waves", "cot_alpha", "P", "rho_armour", "Dn50", "M50"}>>,
  <<"ra_vandermeer2021", "calculate_nominal_rock_diameter_Dn50", {"Hs", "Tmm10", "N_waves", "cot_alpha", "P", "rho_armour", "S"}>>,
  <<"ra_vandermeer2021", "calculate_significant_wave_height_Hs", {"Tmm10", "N_waves", "cot_alpha", "P", "rho_armour", "S", "Dn50", "M50"}>>,
  <<"rr_vangent2007", "_invert_for_z1p", {"cot_phi", "S", "Dn50", "Hs", "Rc", "Rc2_front", "Rc2_rear", "N_waves"}>>,
  <<"rr_vangent2007", "calculate_damage_number_S", {"cot_alpha", "cot_phi", "gamma", "Hs", "Tmm10", "Rc", "Rc2_front", "Rc2_rear", "N_waves", "Dn50", "M50", "rho_rock"}>>,
  <<"rr_vangent2007", "calculate_maximum_significant_wave_height_Hs", {"cot_alpha", "cot_phi", "gamma", "S", "Tmm10", "Rc", "Rc2_front", "Rc2_rear", "N_waves", "Dn50", "M50", "rho_rock"}>>,
  <<"rr_vangent2007", "calculate_nominal_rock_diameter_Dn50", {"cot_alpha", "cot_phi", "gamma", "S", "Hs", "Tmm10", "Rc", "Rc2_front", "Rc2_rear", "N_waves"}>>,
  <<"rr_vangent2007", "check_validity_range", {"Rc", "Rc2_front", "Rc2_rear", "Gc", "Dn50", "B_element", "h", "Hs", "Tmm10", "z1p", "S", "N_waves"}>>,
  <<"rr_vangentpozueta2004", "_invert_for_u1p", {"cot_phi", "S", "Hs", "Tmm10", "Rc_rear", "N_waves", "Dn50", "Delta"}>>,
  <<"rr_vangentpozueta2004", "calculate_damage_number_S", {"cot_alpha", "cot_phi", "gamma_f", "gamma_f_Crest", "Hs", "Tmm10", "Rc", "Rc_rear", "Bc", "N_waves", "Dn50", "M50", "rho_rock"}>>,
  <<"rr_vangentpozueta2004", "calculate_maximum_significant_wave_height_Hs", {"cot_alpha", "cot_phi", "gamma_f", "gamma_f_Crest", "S", "Tmm10", "Rc", "Rc_rear", "Bc", "N_waves", "Dn50", "M50", "rho_rock"}>>,
  <<"rr_vangentpozueta2004", "calculate_nominal_rock_diameter_Dn50", {"cot_alpha", "cot_phi", "gamma_f", "gamma_f_Crest", "S", "Hs", "Tmm10", "Rc", "Rc_rear", "Bc", "rho_rock", "N_waves"}>>,
  <<"rr_vangentpozueta2004", "check_validity_range", {"Rc", "Rc_rear", "cot_phi", "gamma_f", "Dn50", "rho_rock", "rho_water", "Bc", "Hs", "Tmm10", "z1p", "S", "N_waves"}>>,
  <<"tb_etemadshahidi2021", "calculate_damage_Nod", {"Hs", "Tmm10", "h", "ht", "Bt", "m", "Dn50", "rho_rock"}>>,
  <<"tb_etemadshahidi2021", "calculate_nominal_diameter_Dn50", {"Hs", "Tmm10", "h", "ht", "Bt", "Nod", "m", "rho_rock"}>>,
  <<"tb_etemadshahidi2021", "calculate_significant_wave_height_Hs", {"Tmm10", "h", "ht", "Bt", "Nod", "m", "Dn50", "rho_rock"}>>,
  <<"tb_etemadshahidi2021", "check_validity", {"Hs", "Tmm10", "h", "ht", "Bt", "Dn50", "m", "Nod", "cot_alpha_armour_slope", "rho_armour"}>>,
  <<"tb_gerding1993", "calculate_damage_Nod", {"Hs", "ht", "h", "Dn50", "rho_rock", "rho_water"}>>,
  <<"tb_gerding1993", "calculate_depth_above_toe_ht", {"Hs", "Dn50", "h", "Nod", "rho_rock", "rho_water"}>>,
  <<"tb_gerding1993", "calculate_nominal_diameter_Dn50", {"Hs", "ht", "h", "Nod", "rho_rock", "rho_water"}>>,
  <<"tb_gerding1993", "calculate_wave_height_Hs", {"Dn50", "ht", "h", "Nod", "rho_rock", "rho_water"}>>,
  <<"tb_gerding1993", "check_validity", {"ht", "h", "Dn50"}>>,
  <<"tb_takahashi1990_caisson", "calculate_nominal_diameter_Dn50", {"Hs", "Tp", "hacc", "Bt", "rho_rock", "rho_water", "beta", "g"}>>,
  <<"tb_takahashi1990_caisson", "calculate_significant_depth_above_toe_hacc", {"Dn50", "Tp", "Hs", "Bt", "rho_rock", "rho_water", "beta", "g"}>>,
  <<"tb_takahashi1990_caisson", "calculate_significant_wave_height_Hs", {"Dn50", "Tp", "hacc", "Bt", "rho_rock", "rho_water", "beta", "g"}>>,
  <<"tb_takahashi1990_caisson", "calculate_stability_number_Ns", {"Hs", "Tp", "hacc", "Bt", "beta", "g"}>>,
  <<"tb_takahashi1990_caisson", "check_validity", {"Ns", "Bt"}>>,
  <<"tb_vandermeer1998", "calculate_damage_Nod", {"Hs", "ht", "h", "Dn50", "rho_rock", "rho_water"}>>,
  <<"tb_vandermeer1998", "calculate_depth_above_toe_ht", {"Hs", "Dn50", "h", "Nod", "rho_rock", "rho_water"}>>,
  <<"tb_vandermeer1998", "calculate_nominal_diameter_Dn50", {"Hs", "ht", "h", "Nod", "rho_rock", "rho_water"}>>,
  <<"tb_vandermeer1998", "calculate_wave_height_Hs", {"Dn50", "ht", "h", "Nod", "rho_rock", "rho_water"}>>,
  <<"tb_vandermeer1998", "check_validity", {"Hs", "ht", "h", "Dn50", "Nod", "Delta"}>>,
  <<"tb_vangentvanderwerf2014", "calculate_damage_Nod", {"Hm0", "Tmm10", "ht", "Bt", "tt", "Dn50", "rho_rock", "rho_water", "cot_alpha_armour_slope"}>>,
  <<"tb_vangentvanderwerf2014", "calculate_nominal_diameter_Dn50", {"Hm0", "Tmm10", "ht", "Bt", "tt", "Nod", "rho_rock", "rho_water", "cot_alpha_armour_slope"}>>,
  <<"tb_vangentvanderwerf2014", "calculate_velocity_u_delta", {"Hs", "Tmm10", "ht"}>>,
  <<"tb_vangentvanderwerf2014", "check_validity", {"Hs", "tt", "ht", "cot_alpha_armour_slope"}>> >>
=============================================================================
