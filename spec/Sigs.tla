-------------------------------- MODULE Sigs --------------------------------
(* The public interface: every calculation function of the toolbox, its
   parameters in positional order and their published default values.
   "req" = required, "NaN" = optional, "None" = optional object. *)
EXTENDS TLC

Modules == <<
  <<"core_physics", "deltares_coastal_structures_toolbox.functions.core_physics">>,
  <<"core_utility", "deltares_coastal_structures_toolbox.functions.core_utility">>,
  <<"ov_denbieman2021", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.denbieman2021">>,
  <<"ov_deridder2024", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.deridder2024">>,
  <<"ov_deridder2026", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.deridder2026">>,
  <<"ov_eurotop2007", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.eurotop2007">>,
  <<"ov_eurotop2018", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.eurotop2018">>,
  <<"ov_taw2002", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.taw2002">>,
  <<"ov_vangent2002_velocity", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.vangent2002_velocity">>,
  <<"ov_vangent2007", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.vangent2007">>,
  <<"ov_vangent2021_caisson", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.vangent2021_caisson">>,
  <<"ov_vangent2025", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.vangent2025">>,
  <<"ru_eurotop2018", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup.eurotop2018">>,
  <<"ru_taw2002", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup.taw2002">>,
  <<"ru_vangent2001", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup.vangent2001">>,
  <<"tr_briganti2003", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_transmission.briganti2003">>,
  <<"tr_dangremond1996", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_transmission.dangremond1996">>,
  <<"tr_goda1967_caisson", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_transmission.goda1967_caisson">>,
  <<"tr_vangent2023", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_transmission.vangent2023">>,
  <<"tr_vangent2024_setup", "deltares_coastal_structures_toolbox.functions.hydraulic.wave_transmission.vangent2024_setup">>,
  <<"fc_goda1985", "deltares_coastal_structures_toolbox.functions.structural.forces_caisson.goda1985">>,
  <<"fw_vangentvanderwerf2019", "deltares_coastal_structures_toolbox.functions.structural.forces_crestwall.vangentvanderwerf2019">>,
  <<"ca_accropode2_hudson1959", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.accropode2_hudson1959">>,
  <<"ca_accropode_hudson1959", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.accropode_hudson1959">>,
  <<"ca_core_loc_hudson1959", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.core_loc_hudson1959">>,
  <<"ca_cubes_double_layer_hudson1959", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.cubes_double_layer_hudson1959">>,
  <<"ca_cubes_double_layer_vandermeer1988", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.cubes_double_layer_vandermeer1988">>,
  <<"ca_cubes_single_layer_vangent2002", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.cubes_single_layer_vangent2002">>,
  <<"ca_cubipod_hudson1959", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.cubipod_hudson1959">>,
  <<"ca_tetrapod_hudson1959", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.tetrapod_hudson1959">>,
  <<"ca_xbloc", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.xbloc">>,
  <<"ca_xblocplus", "deltares_coastal_structures_toolbox.functions.structural.stability_concrete_armour.xblocplus">>,
  <<"ra_etemadshahidi2020", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.etemadshahidi2020">>,
  <<"ra_hudson1959", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.hudson1959">>,
  <<"ra_jumelet2024", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.jumelet2024">>,
  <<"ra_kramerburcharth2004_lowcrested", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.kramerburcharth2004_lowcrested">>,
  <<"ra_scaravaglione2025", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.scaravaglione2025">>,
  <<"ra_vandermeer1988", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.vandermeer1988">>,
  <<"ra_vandermeer1988_modified", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.vandermeer1988_modified">>,
  <<"ra_vandermeer2021", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.vandermeer2021">>,
  <<"rr_vangent2007", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_rear.vangent2007">>,
  <<"rr_vangentpozueta2004", "deltares_coastal_structures_toolbox.functions.structural.stability_rock_rear.vangentpozueta2004">>,
  <<"tb_etemadshahidi2021", "deltares_coastal_structures_toolbox.functions.structural.stability_toe_berm.etemadshahidi2021">>,
  <<"tb_gerding1993", "deltares_coastal_structures_toolbox.functions.structural.stability_toe_berm.gerding1993">>,
  <<"tb_takahashi1990_caisson", "deltares_coastal_structures_toolbox.functions.structural.stability_toe_berm.takahashi1990_caisson">>,
  <<"tb_vandermeer1998", "deltares_coastal_structures_toolbox.functions.structural.stability_toe_berm.vandermeer1998">>,
  <<"tb_vangentvanderwerf2014", "deltares_coastal_structures_toolbox.functions.structural.stability_toe_berm.vangentvanderwerf2014">>
>>

Sig_core_physics == <<
  <<"calculate_wave_steepness_s", << <<"H", "req">>, <<"T", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_Iribarren_number_ksi", << <<"H", "req">>, <<"T", "req">>, <<"cot_alpha", "req">> >> >>
,  <<"calculate_critical_Iribarren_number_ksi_mc", << <<"c_pl", "req">>, <<"c_s", "req">>, <<"P", "req">>, <<"cot_alpha", "req">> >> >>
,  <<"calculate_stability_number_Ns", << <<"H", "req">>, <<"D", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
,  <<"calculate_buoyant_density_Delta", << <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
,  <<"calculate_M50_from_Dn50", << <<"Dn50", "req">>, <<"rho_rock", 2650>> >> >>
,  <<"calculate_Dn50_from_M50", << <<"M50", "req">>, <<"rho_rock", 2650>> >> >>
,  <<"check_usage_Dn50_or_M50", << <<"Dn50", "req">>, <<"M50", "req">>, <<"rho_rock", "req">> >> >>
,  <<"calculate_S_from_Nod", << <<"Nod", "req">>, <<"G", "req">>, <<"nv", "req">> >> >>
,  <<"calculate_Nod_from_S", << <<"S", "req">>, <<"G", "req">>, <<"nv", "req">> >> >>
,  <<"check_usage_stabilitynumber", << <<"Hs", "None">>, <<"Dn", "None">>, <<"Delta", "None">>, <<"Ns", "None">> >> >>
,  <<"calculate_local_wavelength", << <<"T", "req">>, <<"h", "req">>, <<"g", "9.81">> >> >>
>>

Sig_core_utility == <<
  <<"check_variable_validity_range", << <<"variable_name", "req">>, <<"formula_name", "req">>, <<"values", "req">>, <<"min_value", "req">>, <<"max_value", "req">> >> >>
>>

Sig_ov_denbieman2021 == <<
  <<"write_input_file_XGB_Overtopping", << <<"beta", "req">>, <<"h", "req">>, <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Bt", "req">>, <<"ht", "req">>, <<"B_berm", "req">>, <<"db", "req">>, <<"Rc", "req">>, <<"Ac", "req">>, <<"Gc", "req">>, <<"cot_alpha_down", "req">>, <<"cot_alpha_up", "req">>, <<"gamma_f_down", "req">>, <<"gamma_f_up", "req">>, <<"tan_alpha_f", "req">>, <<"output_dir", "req">>, <<"file_name", "input_XGB_Overtopping">> >> >>
>>

Sig_ov_deridder2024 == <<
  <<"check_validity_range", << <<"h", "NaN">>, <<"Hm0", "NaN">>, <<"Hm0_HF", "NaN">>, <<"Hm0_LF", "NaN">>, <<"Tmm10", "NaN">>, <<"Tmm10_HF", "NaN">>, <<"Rc", "NaN">>, <<"cot_alpha", "NaN">>, <<"m_foreshore_slope", "NaN">>, <<"Dn50", "NaN">> >> >>
,  <<"calculate_crest_freeboard_discharge_q_eq24", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"gamma_f", "req">>, <<"q", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_crest_freeboard_discharge_q_eq26", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"Hm0_LF", "req">>, <<"gamma_f", "req">>, <<"q", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_dimensionless_crest_freeboard_discharge_q_eq24", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"gamma_f", "req">>, <<"q", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_overtopping_discharge_q_eq24", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"gamma_f", "req">>, <<"Rc", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_overtopping_discharge_q_eq26", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"Hm0_LF", "req">>, <<"gamma_f", "req">>, <<"Rc", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_eq24", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"gamma_f", "req">>, <<"Rc", "req">> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_eq26", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"Hm0_LF", "req">>, <<"gamma_f", "req">>, <<"Rc", "req">> >> >>
>>

Sig_ov_deridder2026 == <<
  <<"check_validity_range", << <<"h", "NaN">>, <<"Hm0", "NaN">>, <<"Hm0_HF", "NaN">>, <<"Hm0_LF", "NaN">>, <<"Tmm10", "NaN">>, <<"Tmm10_HF", "NaN">>, <<"Rc", "NaN">>, <<"Dn50", "NaN">>, <<"theta", "NaN">> >> >>
,  <<"calculate_crest_freeboard_discharge_q_eq28", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"gamma_f", "req">>, <<"q", "req">>, <<"g", "9.81">>, <<"theta", "0.0">> >> >>
,  <<"calculate_crest_freeboard_discharge_q_eq32", << <<"Hm0_HF", "req">>, <<"smm10_HF", "req">>, <<"Hm0_LF", "req">>, <<"gamma_f", "req">>, <<"q", "req">>, <<"g", "9.81">>, <<"theta", "0.0">> >> >>
,  <<"calculate_dimensionless_crest_freeboard_discharge_q_eq28", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"gamma_f", "req">>, <<"q", "req">>, <<"g", "9.81">>, <<"gamma_beta", "1.0">> >> >>
,  <<"calculate_overtopping_discharge_q_eq28", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"gamma_f", "req">>, <<"Rc", "req">>, <<"g", "9.81">>, <<"theta", "0.0">> >> >>
,  <<"calculate_overtopping_discharge_q_eq32", << <<"Hm0_HF", "req">>, <<"smm10_HF", "req">>, <<"Hm0_LF", "req">>, <<"gamma_f", "req">>, <<"Rc", "req">>, <<"g", "9.81">>, <<"theta", "0.0">> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_eq28", << <<"Hm0", "req">>, <<"smm10_HF", "req">>, <<"gamma_f", "req">>, <<"Rc", "req">>, <<"theta", "0.0">> >> >>
,  <<"calculate_gamma_beta", << <<"theta", "req">> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_eq32", << <<"Hm0_HF", "req">>, <<"smm10_HF", "req">>, <<"Hm0_LF", "req">>, <<"gamma_f", "req">>, <<"Rc", "req">>, <<"theta", "0.0">> >> >>
>>

Sig_ov_eurotop2007 == <<
  <<"calculate_overtopping_discharge_q_rubble_mound", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"cot_alpha", "NaN">>, <<"c2", "0.2">>, <<"c3", "2.3">>, <<"use_best_fit", FALSE>>, <<"g", "9.81">> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_q_rubble_mound", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"cot_alpha", "NaN">>, <<"c2", "0.2">>, <<"c3", "2.3">>, <<"use_best_fit", FALSE>> >> >>
,  <<"check_best_fit", << <<"c2", "req">>, <<"c3", "req">>, <<"use_best_fit", "req">> >> >>
,  <<"calculate_crest_freeboard_Rc_rubble_mound", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"cot_alpha", "NaN">>, <<"c2", "0.2">>, <<"c3", "2.3">>, <<"use_best_fit", FALSE>> >> >>
,  <<"calculate_dimensionless_crest_freeboard_rubble_mound", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"cot_alpha", "NaN">>, <<"c2", "0.2">>, <<"c3", "2.3">>, <<"use_best_fit", FALSE>> >> >>
>>

Sig_ov_eurotop2018 == <<
  <<"check_validity_range_rubble_mound", << <<"cot_alpha", "NaN">> >> >>
,  <<"calculate_overtopping_discharge_q", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_v", "1.0">>, <<"gamma_star", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c1", "2.5">>, <<"c2", "0.1035">>, <<"c3", "1.35">>, <<"c4", "0.026">>, <<"use_best_fit", FALSE>>, <<"g", "9.81">> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_q", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_v", "1.0">>, <<"gamma_star", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c1", "2.5">>, <<"c2", "0.1035">>, <<"c3", "1.35">>, <<"c4", "0.026">>, <<"use_best_fit", FALSE>> >> >>
,  <<"q_diml_max_equation", << <<"Hm0", "req">>, <<"Rc", "req">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_star", "1.0">>, <<"c2", "0.1035">>, <<"c3", "1.35">> >> >>
,  <<"check_best_fit", << <<"c1", "req">>, <<"c2", "req">>, <<"c3", "req">>, <<"c4", "req">>, <<"use_best_fit", "req">> >> >>
,  <<"calculate_influence_oblique_waves_gamma_beta", << <<"beta", "req">>, <<"gamma_f", "req">>, <<"gamma_f_crit", "0.6">>, <<"c_gamma_beta_smooth", "0.0033">>, <<"c_gamma_beta_rough", "0.0063">>, <<"max_angle", "80.0">> >> >>
,  <<"calculate_crest_freeboard_Rc", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_v", "1.0">>, <<"gamma_star", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c1", "2.5">>, <<"c2", "0.1035">>, <<"c3", "1.35">>, <<"c4", "0.026">>, <<"use_best_fit", FALSE>>, <<"g", "9.81">> >> >>
,  <<"calculate_dimensionless_crest_freeboard", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_v", "1.0">>, <<"gamma_star", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c1", "2.5">>, <<"c2", "0.1035">>, <<"c3", "1.35">>, <<"c4", "0.026">>, <<"use_best_fit", FALSE>>, <<"g", "9.81">> >> >>
,  <<"Rc_diml_max_equation", << <<"Hm0", "req">>, <<"q", "req">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_star", "1.0">>, <<"c2", "0.1035">>, <<"c3", "1.35">>, <<"g", "9.81">> >> >>
,  <<"calculate_overtopping_discharge_q_rubble_mound", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c2", "0.1035">>, <<"c3", "1.35">>, <<"use_best_fit", FALSE>>, <<"g", "9.81">> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_q_rubble_mound", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c2", "0.1035">>, <<"c3", "1.35">>, <<"use_best_fit", FALSE>> >> >>
,  <<"calculate_crest_freeboard_Rc_rubble_mound", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c2", "0.1035">>, <<"c3", "1.35">>, <<"use_best_fit", FALSE>>, <<"g", "9.81">> >> >>
,  <<"calculate_dimensionless_crest_freeboard_rubble_mound", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_f", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c2", "0.1035">>, <<"c3", "1.35">>, <<"use_best_fit", FALSE>>, <<"g", "9.81">> >> >>
>>

Sig_ov_taw2002 == <<
  <<"check_validity_range", << <<"Hm0", "NaN">>, <<"Tmm10", "NaN">>, <<"beta", "NaN">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"gamma_f", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_v", "NaN">> >> >>
,  <<"calculate_overtopping_discharge_q", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"beta", "NaN">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_v", "1.0">>, <<"sigma", 0>>, <<"g", "9.81">>, <<"use_best_fit", FALSE>> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_q", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"beta", "NaN">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_v", "1.0">>, <<"sigma", 0>>, <<"use_best_fit", FALSE>> >> >>
,  <<"q_diml_max_equation", << <<"Hm0", "req">>, <<"Rc", "req">>, <<"gamma_beta", "req">>, <<"gamma_f", "req">>, <<"c3", "req">>, <<"cor3", "0.0">>, <<"c2", "0.2">> >> >>
,  <<"calculate_influence_oblique_waves_gamma_beta", << <<"beta", "req">>, <<"c_gamma_beta", "0.0033">>, <<"max_angle", "80.0">> >> >>
,  <<"calculate_influence_crest_wall_gamma_v", << <<"alpha_wall_deg", "req">> >> >>
,  <<"calculate_crest_freeboard_Rc", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"beta", "NaN">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_v", "1.0">>, <<"sigma", 0>>, <<"g", "9.81">>, <<"use_best_fit", FALSE>> >> >>
,  <<"calculate_dimensionless_crest_freeboard", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"beta", "NaN">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"gamma_v", "1.0">>, <<"sigma", 0>>, <<"g", "9.81">>, <<"use_best_fit", FALSE>> >> >>
,  <<"Rc_diml_max_equation", << <<"Hm0", "req">>, <<"q", "req">>, <<"gamma_beta", "req">>, <<"gamma_f", "req">>, <<"c3", "req">>, <<"cor3", "0.0">>, <<"c2", "0.2">>, <<"g", "9.81">> >> >>
>>

Sig_ov_vangent2002_velocity == <<
  <<"calculate_maximum_wave_overtopping_velocity_uXp", << <<"Hs", "req">>, <<"zXp", "req">>, <<"Rc", "req">>, <<"Bc", "req">>, <<"gamma_f", "req">>, <<"gamma_f_Crest", "req">>, <<"cu1", "1.7">>, <<"cu2", "0.1">>, <<"g", "9.81">> >> >>
>>

Sig_ov_vangent2007 == <<
  <<"write_input_file_NN_Overtopping", << <<"beta", "req">>, <<"h", "req">>, <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Bt", "req">>, <<"ht", "req">>, <<"B_berm", "req">>, <<"db", "req">>, <<"Rc", "req">>, <<"Ac", "req">>, <<"Gc", "req">>, <<"cot_alpha_down", "req">>, <<"cot_alpha_up", "req">>, <<"gamma_f", "req">>, <<"tan_alpha_B", "req">>, <<"output_dir", "req">>, <<"file_name", "input_NN_Overtopping">> >> >>
>>

Sig_ov_vangent2021_caisson == <<
  <<"check_validity_range", << <<"Hm0", "NaN">>, <<"Tmm10", "NaN">>, <<"beta", "NaN">>, <<"Rc", "NaN">>, <<"q_diml", "NaN">> >> >>
,  <<"calculate_overtopping_discharge_q", << <<"Hm0", "req">>, <<"Rc", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"Hm0_swell", "NaN">>, <<"c", "1.0">>, <<"c_swell", "0.4">>, <<"short_crested_waves", TRUE>>, <<"crossing_seas", FALSE>>, <<"parapet", FALSE>>, <<"g", "9.81">> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_q", << <<"Hm0", "req">>, <<"Rc", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"Hm0_swell", "NaN">>, <<"c", "1.0">>, <<"c_swell", "0.4">>, <<"short_crested_waves", TRUE>>, <<"crossing_seas", FALSE>>, <<"parapet", FALSE>> >> >>
,  <<"calculate_influence_oblique_waves_gamma_beta", << <<"beta", "req">>, <<"gamma_p", "req">>, <<"c_beta", "req">> >> >>
,  <<"calculate_crest_freeboard_Rc", << <<"Hm0", "req">>, <<"q", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"Hm0_swell", "NaN">>, <<"c", "1.0">>, <<"c_swell", "0.4">>, <<"short_crested_waves", TRUE>>, <<"crossing_seas", FALSE>>, <<"parapet", FALSE>>, <<"g", "9.81">> >> >>
,  <<"calculate_dimensionless_crest_freeboard", << <<"Hm0", "req">>, <<"q", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"Hm0_swell", "NaN">>, <<"c", "1.0">>, <<"c_swell", "0.4">>, <<"short_crested_waves", TRUE>>, <<"crossing_seas", FALSE>>, <<"parapet", FALSE>>, <<"g", "9.81">> >> >>
>>

Sig_ov_vangent2025 == <<
  <<"check_validity_range", << <<"Hm0", "NaN">>, <<"Hm0_deep", "NaN">>, <<"Tmm10", "NaN">>, <<"beta", "NaN">>, <<"h", "NaN">>, <<"cot_alpha", "NaN">>, <<"Dn50", "NaN">>, <<"Rc", "NaN">>, <<"Ac", "NaN">>, <<"Gc", "NaN">>, <<"B_berm", "NaN">>, <<"db", "NaN">> >> >>
,  <<"calculate_overtopping_discharge_q", << <<"Hm0", "req">>, <<"Hm0_swell", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"Ac", "req">>, <<"cot_alpha", "NaN">>, <<"beta", "NaN">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"Dn50", "NaN">>, <<"gamma_f", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_v", "NaN">>, <<"gamma_beta", "NaN">>, <<"g", "9.81">>, <<"design_calculation", TRUE>>, <<"include_influence_wind", FALSE>> >> >>
,  <<"calculate_dimensionless_overtopping_discharge_q", << <<"Hm0", "req">>, <<"Hm0_swell", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"Ac", "req">>, <<"cot_alpha", "NaN">>, <<"beta", "NaN">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"Dn50", "NaN">>, <<"gamma_f", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_v", "NaN">>, <<"gamma_beta", "NaN">>, <<"design_calculation", TRUE>>, <<"include_influence_wind", FALSE>> >> >>
,  <<"q_diml_max_equation", << <<"Hm0", "req">>, <<"Hm0_swell", "req">>, <<"ksi_mm10", "req">>, <<"cot_alpha", "req">>, <<"Rc", "req">>, <<"gamma_f", "req">>, <<"gamma_b", "req">>, <<"gamma_v", "req">>, <<"gamma_beta", "req">>, <<"c2", "0.8">>, <<"c3", "-2.5">> >> >>
,  <<"calculate_influence_friction_gamma_f", << <<"Dn50", "req">>, <<"Hm0", "req">>, <<"smm10", "req">>, <<"c_f1", "0.7">>, <<"c_f2", "0.05">>, <<"smm10_lim", "0.012">> >> >>
,  <<"calculate_influence_berm_gamma_b", << <<"Hm0", "req">>, <<"smm10", "req">>, <<"Ac", "req">>, <<"B_berm", "req">>, <<"BL", "req">>, <<"c_b1", "18.0">>, <<"c_b2", "1.3">>, <<"c_b3", "0.34">>, <<"c_b4", "0.2">> >> >>
,  <<"calculate_influence_oblique_waves_gamma_beta", << <<"beta", "req">>, <<"c_beta", "0.35">> >> >>
,  <<"calculate_influence_crest_wall_gamma_v", << <<"cot_alpha", "req">>, <<"Rc", "req">>, <<"Ac", "req">>, <<"c_v", "0.45">> >> >>
,  <<"calculate_influence_wind_gamma_w", << <<"Rc", "req">>, <<"Ac", "req">>, <<"Hm0", "req">>, <<"q_diml", "req">>, <<"c_w1", "0.075">>, <<"c_w2", "-0.3">> >> >>
,  <<"calculate_crest_freeboard_Rc", << <<"Hm0", "req">>, <<"Hm0_swell", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"Ac", "req">>, <<"cot_alpha", "NaN">>, <<"beta", "NaN">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"Dn50", "NaN">>, <<"gamma_f", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_v", "NaN">>, <<"gamma_beta", "NaN">>, <<"design_calculation", TRUE>>, <<"include_influence_wind", FALSE>> >> >>
,  <<"calculate_dimensionless_crest_freeboard", << <<"Hm0", "req">>, <<"Hm0_swell", "req">>, <<"Tmm10", "req">>, <<"q", "req">>, <<"Ac", "req">>, <<"cot_alpha", "NaN">>, <<"beta", "NaN">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"Dn50", "NaN">>, <<"gamma_f", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_v", "NaN">>, <<"gamma_beta", "NaN">>, <<"g", "9.81">>, <<"design_calculation", TRUE>>, <<"include_influence_wind", FALSE>>, <<"max_iter", 1000>>, <<"tolerance", "1e-05">> >> >>
,  <<"Rc_diml_max_equation", << <<"Hm0", "req">>, <<"Hm0_swell", "req">>, <<"q", "req">>, <<"cot_alpha", "req">>, <<"ksi_mm10", "req">>, <<"gamma_f", "req">>, <<"gamma_b", "req">>, <<"gamma_v", "req">>, <<"gamma_beta", "req">>, <<"c2", "0.8">>, <<"c3", "-2.5">>, <<"g", "9.81">> >> >>
>>

Sig_ru_eurotop2018 == <<
  <<"calculate_wave_runup_height_z2p", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c1", "1.75">>, <<"c2", "4.3">>, <<"c3", "1.5">>, <<"c4", "1.07">>, <<"use_best_fit", FALSE>> >> >>
,  <<"calculate_dimensionless_wave_runup_height_z2p", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c1", "1.75">>, <<"c2", "4.3">>, <<"c3", "1.5">>, <<"c4", "1.07">>, <<"use_best_fit", FALSE>> >> >>
,  <<"check_best_fit", << <<"c1", "req">>, <<"c2", "req">>, <<"c3", "req">>, <<"c4", "req">>, <<"use_best_fit", "req">> >> >>
,  <<"calculate_influence_oblique_waves_gamma_beta", << <<"beta", "req">>, <<"gamma_f", "req">>, <<"gamma_f_crit", "0.6">>, <<"c_gamma_beta_smooth", "0.0022">>, <<"c_gamma_beta_rough", "0.0063">>, <<"max_angle", "80.0">> >> >>
,  <<"iteration_procedure_z2p", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"cot_alpha_down", "req">>, <<"cot_alpha_up", "req">>, <<"B_berm", "req">>, <<"db", "req">>, <<"gamma_f", "req">>, <<"gamma_beta", "req">>, <<"c1", "1.75">>, <<"c2", "4.3">>, <<"c3", "1.5">>, <<"c4", "1.07">>, <<"use_best_fit", FALSE>>, <<"tolerance", "0.0001">>, <<"max_iter", 1000>> >> >>
,  <<"iteration_procedure_gamma_b", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"cot_alpha_average", "req">>, <<"B_berm", "req">>, <<"L_berm", "req">>, <<"db", "req">>, <<"gamma_beta", "req">>, <<"c1", "1.75">>, <<"c2", "4.3">>, <<"c3", "1.5">>, <<"c4", "1.07">>, <<"use_best_fit", FALSE>>, <<"gamma_f", "1.0">> >> >>
>>

Sig_ru_taw2002 == <<
  <<"check_validity_range", << <<"Hm0", "NaN">>, <<"Tmm10", "NaN">>, <<"gamma_f", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_beta", "NaN">>, <<"cot_alpha", "NaN">> >> >>
,  <<"calculate_wave_runup_height_z2p", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c1", "1.75">>, <<"c2", "4.3">>, <<"c3", "1.6">>, <<"c4", "1.0">>, <<"use_best_fit", FALSE>> >> >>
,  <<"calculate_dimensionless_wave_runup_height_z2p", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"beta", "NaN">>, <<"gamma_beta", "NaN">>, <<"gamma_b", "NaN">>, <<"gamma_f", "1.0">>, <<"B_berm", "0.0">>, <<"db", "0.0">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">>, <<"c1", "1.75">>, <<"c2", "4.3">>, <<"c3", "1.6">>, <<"c4", "1.0">>, <<"use_best_fit", FALSE>> >> >>
,  <<"determine_average_slope", << <<"Hm0", "req">>, <<"z2p", "req">>, <<"cot_alpha_down", "req">>, <<"cot_alpha_up", "req">>, <<"B_berm", "req">>, <<"db", "req">> >> >>
,  <<"iteration_procedure_z2p", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"cot_alpha_down", "req">>, <<"cot_alpha_up", "req">>, <<"B_berm", "req">>, <<"db", "req">>, <<"gamma_f", "req">>, <<"gamma_beta", "req">>, <<"c1", "1.75">>, <<"c2", "4.3">>, <<"c3", "1.6">>, <<"c4", "1.0">>, <<"use_best_fit", FALSE>>, <<"tolerance", "0.0001">>, <<"max_iter", 1000>> >> >>
,  <<"calculate_berm_length", << <<"Hm0", "req">>, <<"B_berm", "req">>, <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">> >> >>
,  <<"check_composite_slope", << <<"cot_alpha", "NaN">>, <<"cot_alpha_down", "NaN">>, <<"cot_alpha_up", "NaN">> >> >>
,  <<"check_calculate_gamma_beta", << <<"beta", "req">>, <<"gamma_beta", "req">> >> >>
,  <<"iteration_procedure_gamma_b", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"cot_alpha_average", "req">>, <<"B_berm", "req">>, <<"L_berm", "req">>, <<"db", "req">>, <<"gamma_beta", "req">>, <<"c1", "1.75">>, <<"c2", "4.3">>, <<"c3", "1.6">>, <<"c4", "1.0">>, <<"use_best_fit", FALSE>>, <<"gamma_f", "1.0">> >> >>
,  <<"calculate_influence_berm_gamma_b", << <<"Hm0", "req">>, <<"z2p", "req">>, <<"db", "req">>, <<"B_berm", "req">>, <<"L_berm", "req">> >> >>
,  <<"calculate_influence_oblique_waves_gamma_beta", << <<"beta", "req">>, <<"c_gamma_beta", "0.0022">>, <<"max_angle", "80.0">> >> >>
,  <<"calculate_adjusted_influence_roughness_gamma_f", << <<"gamma_f", "req">>, <<"gamma_b", "req">>, <<"ksi_mm10", "req">> >> >>
>>

Sig_ru_vangent2001 == <<
  <<"calculate_wave_runup_height_z1p", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"gamma", "req">>, <<"cot_alpha", "req">>, <<"c0", "1.45">>, <<"c1", "5.1">> >> >>
,  <<"calculate_wave_runup_height_z2p", << <<"Tmm10", "req">>, <<"gamma", "req">>, <<"cot_alpha", "req">>, <<"Hm0", "NaN">>, <<"Hs", "NaN">>, <<"c0", "NaN">>, <<"c1", "NaN">> >> >>
,  <<"calculate_wave_runup_height_z10p", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"gamma", "req">>, <<"cot_alpha", "req">>, <<"c0", "1.1">>, <<"c1", "4.0">> >> >>
,  <<"calculate_wave_runup_height_zXp", << <<"H", "req">>, <<"Tmm10", "req">>, <<"gamma", "req">>, <<"cot_alpha", "req">>, <<"c0", "req">>, <<"c1", "req">> >> >>
>>

Sig_tr_briganti2003 == <<
  <<"check_validity", << <<"s0p", "NaN">>, <<"ksi_0p", "NaN">> >> >>
,  <<"calculate_wave_transmission_Kt", << <<"Hsi", "req">>, <<"Tpi", "req">>, <<"Rc", "req">>, <<"B", "req">>, <<"cot_alpha", "req">> >> >>
>>

Sig_tr_dangremond1996 == <<
  <<"check_validity", << <<"Kt", "NaN">>, <<"s0p", "NaN">>, <<"Hsi_over_h", "NaN">>, <<"Rc_over_Hsi", "NaN">> >> >>
,  <<"calculate_wave_transmission_Kt_permeable", << <<"Hsi", "req">>, <<"Tpi", "req">>, <<"h", "req">>, <<"Rc", "req">>, <<"B", "req">>, <<"cot_alpha", "req">>, <<"C1", "0.64">>, <<"do_validity_check", TRUE>> >> >>
,  <<"calculate_wave_transmission_Kt_impermeable", << <<"Hsi", "req">>, <<"Tpi", "req">>, <<"h", "req">>, <<"Rc", "req">>, <<"B", "req">>, <<"cot_alpha", "req">>, <<"C1", "0.8">> >> >>
>>

Sig_tr_goda1967_caisson == <<
  <<"check_validity", <<  >> >>
,  <<"calculate_wave_transmission_Kt", << <<"Hsi", "req">>, <<"Rc", "req">>, <<"alpha_1", "2.2">>, <<"beta_1", "0.4">> >> >>
>>

Sig_tr_vangent2023 == <<
  <<"check_validity_range", << <<"Hm0", "NaN">>, <<"Tmm10", "NaN">>, <<"Rc", "NaN">>, <<"B", "NaN">>, <<"structure_type", "NaN">> >> >>
,  <<"calculate_wave_transmission_Kt", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"B", "req">>, <<"structure_type", "permeable">> >> >>
>>

Sig_tr_vangent2024_setup == <<
  <<"check_validity_range", << <<"Hm0", "NaN">>, <<"Tmm10", "NaN">>, <<"Rc", "NaN">>, <<"B", "NaN">>, <<"hc", "NaN">>, <<"Dn50", "NaN">>, <<"structure_type", "impermeable">> >> >>
,  <<"calculate_structure_induced_setup_delta_impermeable", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">> >> >>
,  <<"calculate_dimensionless_structure_induced_setup_impermeable", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">> >> >>
,  <<"calculate_structure_induced_setup_delta_permeable", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"hc", "req">> >> >>
,  <<"calculate_dimensionless_structure_induced_setup_permeable", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"hc", "req">> >> >>
>>

Sig_fc_goda1985 == <<
  <<"check_validity_range", << <<"beta", "NaN">>, <<"cota_seabed", "NaN">>, <<"Tmax", "NaN">>, <<"tup", "NaN">>, <<"Bup", "NaN">>, <<"h_s", "NaN">>, <<"B1", "NaN">> >> >>
,  <<"check_impulsive_breaking", << <<"beta", "NaN">>, <<"B1", "NaN">>, <<"L", "NaN">>, <<"cota_seabed", "NaN">>, <<"offshore_wave_steepness", "NaN">>, <<"Rc", "NaN">>, <<"Hsi", "NaN">>, <<"d", "NaN">>, <<"h_s", "NaN">> >> >>
,  <<"calculate_forces_and_reactions", << <<"HD", "req">>, <<"Hsi", "req">>, <<"Tmax", "req">>, <<"beta", "req">>, <<"h_s", "req">>, <<"d", "req">>, <<"B1", "req">>, <<"cota_seabed", "req">>, <<"rho_water", "req">>, <<"hacc", "req">>, <<"Rc", "req">>, <<"Bup", "req">>, <<"rho_fill_above_SWL", 2400>>, <<"rho_fill_below_SWL", 2100>>, <<"offshore_wave_steepness", "NaN">>, <<"muf", "0.6">>, <<"tup_over_Bup", "0.5">>, <<"g", "9.81">>, <<"return_dict", FALSE>> >> >>
,  <<"calculate_pressures_and_forces", << <<"HD", "req">>, <<"Hsi", "req">>, <<"Tmax", "req">>, <<"beta", "req">>, <<"h_s", "req">>, <<"d", "req">>, <<"B1", "req">>, <<"cota_seabed", "req">>, <<"rho_water", "req">>, <<"hacc", "req">>, <<"Rc", "req">>, <<"Bup", "req">>, <<"offshore_wave_steepness", "NaN">>, <<"g", "9.81">>, <<"return_dict", FALSE>> >> >>
,  <<"calculate_Wup", << <<"hacc", "req">>, <<"Rc", "req">>, <<"Bup", "req">>, <<"rho_fill_below_SWL", "req">>, <<"rho_water", "req">>, <<"rho_fill_above_SWL", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_safety_factors", << <<"FU", "req">>, <<"FH", "req">>, <<"Wup", "req">>, <<"muf", "req">>, <<"tup", "req">>, <<"MH", "req">>, <<"MU", "req">> >> >>
,  <<"calculate_bearing_pressures", << <<"Wup", "req">>, <<"tup", "req">>, <<"MH", "req">>, <<"MU", "req">>, <<"FU", "req">>, <<"Bup", "req">> >> >>
>>

Sig_fw_vangentvanderwerf2019 == <<
  <<"check_validity", << <<"Rc", "NaN">>, <<"Ac", "NaN">>, <<"Hm0", "NaN">>, <<"Fb", "NaN">>, <<"beta", "NaN">> >> >>
,  <<"calculate_influence_oblique_waves_force_gamma_F_beta", << <<"z2p", "req">>, <<"Ac", "req">>, <<"beta", "req">>, <<"gamma_A", "req">> >> >>
,  <<"calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta", << <<"z2p", "req">>, <<"Ac", "req">>, <<"beta", "req">>, <<"gamma_A", "1.0">> >> >>
,  <<"calculate_influence_oblique_waves_vertical_force_gamma_FV_beta", << <<"z2p", "req">>, <<"Ac", "req">>, <<"beta", "req">>, <<"gamma_A", "0.75">> >> >>
,  <<"calculate_influence_oblique_waves_gamma_beta", << <<"beta", "req">>, <<"c_beta", "0.5">> >> >>
,  <<"calculate_FH2p_perpendicular", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"cot_alpha", "req">>, <<"Ac", "req">>, <<"Rc", "req">>, <<"Hwall", "req">>, <<"gamma_beta", "1.0">>, <<"gamma_f", "0.45">>, <<"c0", "1.45">>, <<"c1", "5.0">>, <<"rho_water", "1025.0">>, <<"g", "9.81">>, <<"cFH", "1.0">> >> >>
,  <<"calculate_FH2p_perpendicular_from_z2p", << <<"Hm0", "req">>, <<"z2p", "req">>, <<"Ac", "req">>, <<"Rc", "req">>, <<"Hwall", "req">>, <<"rho_water", "1025.0">>, <<"g", "9.81">>, <<"cFH", "1.0">> >> >>
,  <<"calculate_FH2p_oblique", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"beta", "req">>, <<"cot_alpha", "req">>, <<"Ac", "req">>, <<"Rc", "req">>, <<"Hwall", "req">>, <<"gamma_beta", "1.0">>, <<"gamma_f", "0.45">>, <<"c0", "1.45">>, <<"c1", "5.0">>, <<"cFH", "1.0">>, <<"rho_water", "1025.0">>, <<"g", "9.81">> >> >>
,  <<"calculate_FV2p_perpendicular", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"cot_alpha", "req">>, <<"Ac", "req">>, <<"Bwall", "req">>, <<"Fb", "req">>, <<"gamma_beta", "1.0">>, <<"gamma_f", "0.45">>, <<"c0", "1.45">>, <<"c1", "5.0">>, <<"cFV", "0.4">>, <<"cFb", "0.5">>, <<"rho_water", "1025.0">>, <<"g", "9.81">> >> >>
,  <<"calculate_FV2p_perpendicular_from_z2p", << <<"z2p", "req">>, <<"Ac", "req">>, <<"Bwall", "req">>, <<"Fb", "req">>, <<"cFV", "0.4">>, <<"cFb", "0.5">>, <<"rho_water", "1025.0">>, <<"g", "9.81">> >> >>
,  <<"calculate_FV2p_oblique", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"beta", "req">>, <<"cot_alpha", "req">>, <<"Ac", "req">>, <<"Bwall", "req">>, <<"Fb", "req">>, <<"gamma_beta", "1.0">>, <<"gamma_f", "0.45">>, <<"c0", "1.45">>, <<"c1", "5.0">>, <<"cFV", "0.4">>, <<"cFb", "0.5">>, <<"rho_water", "1025.0">>, <<"g", "9.81">> >> >>
,  <<"calculate_FH01p_perpendicular", << <<"FH2p", "req">> >> >>
,  <<"calculate_FV01p_perpendicular", << <<"FV2p", "req">>, <<"s0p", "req">> >> >>
>>

Sig_ca_accropode2_hudson1959 == <<
  <<"check_validity_range", << <<"cot_alpha", "NaN">>, <<"seabed_slope_perc", "NaN">> >> >>
,  <<"calculate_unit_mass_M", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "1.33">>, <<"alpha_Hs", "1.0">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "1.33">>, <<"alpha_Hs", "1.0">> >> >>
,  <<"calculate_KD_breaking_trunk_from_seabed_slope", << <<"seabed_slope_perc", "req">> >> >>
,  <<"calculate_KD_nonbreaking_trunk_from_seabed_slope", <<  >> >>
>>

Sig_ca_accropode_hudson1959 == <<
  <<"check_validity_range", << <<"cot_alpha", "NaN">>, <<"seabed_slope_perc", "NaN">> >> >>
,  <<"calculate_unit_mass_M", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "1.33">>, <<"alpha_Hs", "1.0">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "1.33">>, <<"alpha_Hs", "1.0">> >> >>
,  <<"calculate_KD_breaking_trunk_from_seabed_slope", << <<"seabed_slope_perc", "req">> >> >>
,  <<"calculate_KD_nonbreaking_trunk_from_seabed_slope", <<  >> >>
>>

Sig_ca_core_loc_hudson1959 == <<
  <<"check_validity_range", << <<"cot_alpha", "NaN">>, <<"seabed_slope_perc", "NaN">> >> >>
,  <<"calculate_unit_mass_M", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "1.33">>, <<"alpha_Hs", "1.0">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "1.33">>, <<"alpha_Hs", "1.0">> >> >>
,  <<"calculate_KD_breaking_trunk_from_seabed_slope", << <<"seabed_slope_perc", "req">> >> >>
,  <<"calculate_KD_nonbreaking_trunk_from_seabed_slope", <<  >> >>
>>

Sig_ca_cubes_double_layer_hudson1959 == <<
  <<"check_validity_range", <<  >> >>
,  <<"calculate_unit_mass_M", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "req">>, <<"alpha_Hs", "1.0">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "req">>, <<"alpha_Hs", "1.0">> >> >>
>>

Sig_ca_cubes_double_layer_vandermeer1988 == <<
  <<"check_validity_range", << <<"Hs", "NaN">>, <<"Tm", "NaN">>, <<"rho_armour", "NaN">>, <<"N_waves", "NaN">>, <<"cot_alpha", "NaN">> >> >>
,  <<"calculate_nominal_diameter_Dn_vanDerMeer1988", << <<"Hs", "req">>, <<"Tm", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"Nod", "req">> >> >>
,  <<"calculate_wave_height_Hs_vanDerMeer1988", << <<"Dn", "req">>, <<"s0m", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"Nod", "req">> >> >>
,  <<"calculate_damage_Nod_vanDerMeer1988", << <<"Hs", "req">>, <<"Dn", "req">>, <<"s0m", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">> >> >>
>>

Sig_ca_cubes_single_layer_vangent2002 == <<
  <<"check_validity_range", <<  >> >>
,  <<"calculate_unit_mass_M_start_of_damage", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"Ns", "2.9">> >> >>
,  <<"calculate_unit_mass_M_failure", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"Ns", "3.5">> >> >>
,  <<"calculate_significant_wave_height_Hs_start_of_damage", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"Ns", "2.9">> >> >>
,  <<"calculate_significant_wave_height_Hs_failure", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"Ns", "3.5">> >> >>
>>

Sig_ca_cubipod_hudson1959 == <<
  <<"check_validity_range", <<  >> >>
,  <<"calculate_unit_mass_M", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "1.33">>, <<"alpha_Hs", "1.0">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "1.33">>, <<"alpha_Hs", "1.0">> >> >>
>>

Sig_ca_tetrapod_hudson1959 == <<
  <<"check_validity_range", <<  >> >>
,  <<"calculate_unit_mass_M", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "req">>, <<"alpha_Hs", "1.0">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "req">>, <<"alpha_Hs", "1.0">> >> >>
>>

Sig_ca_xbloc == <<
  <<"check_validity_range", <<  >> >>
,  <<"calculate_wave_height_Hs_from_V", << <<"V", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"total_correction_factor", "1.0">> >> >>
,  <<"calculate_wave_height_Hs_from_M", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"total_correction_factor", "1.0">> >> >>
,  <<"calculate_unit_volume_V", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"total_correction_factor", "1.0">> >> >>
,  <<"calculate_unit_mass_M", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"total_correction_factor", "1.0">> >> >>
,  <<"calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", << <<"cot_alpha", "req">> >> >>
,  <<"calculate_correctionfactor_unit_mass_M_by_percslope_seabed", << <<"perc_slope", "req">> >> >>
,  <<"calculate_correctionfactor_unit_mass_M_by_relative_freeboard", << <<"rel_freeboard", "req">> >> >>
,  <<"calculate_correctionfactor_unit_mass_M_by_rel_depth", << <<"rel_depth", "req">> >> >>
,  <<"switch_correction_factor_unit_mass_M_near_design_event_frequency", << <<"design_event_occurs_frequently", FALSE>> >> >>
,  <<"switch_correctionfactor_unit_mass_M_by_core_permeability", << <<"low_core_permeability", FALSE>>, <<"core_impermeable", FALSE>> >> >>
,  <<"calculate_correctionfactor_unit_mass_M_by_structure_slope", << <<"cot_alpha", "req">> >> >>
>>

Sig_ca_xblocplus == <<
  <<"check_validity_range", <<  >> >>
,  <<"calculate_wave_height_Hs_from_V", << <<"V", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"total_correction_factor", "1.0">> >> >>
,  <<"calculate_wave_height_Hs_from_M", << <<"M", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"total_correction_factor", "1.0">> >> >>
,  <<"calculate_unit_volume_V", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"total_correction_factor", "1.0">> >> >>
,  <<"calculate_unit_mass_M", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"total_correction_factor", "1.0">> >> >>
,  <<"calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", << <<"cot_alpha", "req">> >> >>
,  <<"calculate_correctionfactor_unit_mass_M_by_percslope_seabed", << <<"perc_slope", "req">> >> >>
,  <<"calculate_correctionfactor_unit_mass_M_by_relative_freeboard", << <<"rel_freeboard", "req">> >> >>
,  <<"switch_correctionfactor_unit_mass_M_by_core_permeability", << <<"low_core_permeability", FALSE>>, <<"core_impermeable", FALSE>> >> >>
>>

Sig_ra_etemadshahidi2020 == <<
  <<"check_validity_range", << <<"Hs", "NaN">>, <<"Tmm10", "NaN">>, <<"N_waves", "NaN">>, <<"cot_alpha", "NaN">>, <<"P", "NaN">>, <<"S", "NaN">>, <<"Dn50", "NaN">>, <<"Dn50_core", "NaN">>, <<"rho_armour", "NaN">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_damage_number_S", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"rho_armour", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"Dn50_core", "NaN">>, <<"M50_core", "NaN">>, <<"rho_core", "NaN">>, <<"rho_water", "1025.0">>, <<"m", "NaN">>, <<"use_depth_limited_version", FALSE>> >> >>
,  <<"calculate_nominal_rock_diameter_Dn50", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"Dn50_core", "NaN">>, <<"M50_core", "NaN">>, <<"rho_core", "NaN">>, <<"m", "NaN">>, <<"use_depth_limited_version", FALSE>>, <<"Cp_init", "0.5">>, <<"max_iter", 1000>>, <<"tolerance", "1e-05">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"Dn50_core", "NaN">>, <<"M50_core", "NaN">>, <<"rho_core", "NaN">>, <<"m", "NaN">>, <<"use_depth_limited_version", FALSE>>, <<"g", "9.81">> >> >>
,  <<"calculate_permeability_coefficient_Cp", << <<"Dn50", "req">>, <<"Dn50_core", "req">> >> >>
>>

Sig_ra_hudson1959 == <<
  <<"check_validity_range", <<  >> >>
,  <<"calculate_median_rock_mass_M50_no_damage", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "req">>, <<"alpha_Hs", "1.27">> >> >>
,  <<"calculate_significant_wave_height_Hs_no_damage", << <<"M50", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "req">>, <<"alpha_Hs", "1.27">> >> >>
,  <<"lookup_table_damage_factors", << <<"damage_percentage", "req">>, <<"rock_type", "rough">> >> >>
,  <<"calculate_median_rock_mass_M50", << <<"Hs", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "req">>, <<"damage_percentage", "req">>, <<"rock_type", "rough">>, <<"alpha_Hs", "1.27">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"M50", "req">>, <<"rho_water", "req">>, <<"rho_armour", "req">>, <<"KD", "req">>, <<"cot_alpha", "req">>, <<"damage_percentage", "req">>, <<"rock_type", "rough">>, <<"alpha_Hs", "1.27">> >> >>
>>

Sig_ra_jumelet2024 == <<
  <<"check_validity_range", << <<"Hs", "NaN">>, <<"Tmm10", "NaN">>, <<"N_waves", "NaN">>, <<"cot_alpha", "NaN">> >> >>
,  <<"calculate_damage_number_S", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"rho_armour", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"c_pl", "4.3">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_nominal_rock_diameter_Dn50", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"c_pl", "4.3">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"c_pl", "4.3">>, <<"g", "9.81">>, <<"smm10_init", "0.03">>, <<"max_iter", 1000>>, <<"tolerance", "0.001">> >> >>
,  <<"calculate_fraction_plunging_waves_Fp", << <<"ksi_mm10", "req">> >> >>
>>

Sig_ra_kramerburcharth2004_lowcrested == <<
  <<"check_validity_range", << <<"Rc", "NaN">>, <<"Dn50", "NaN">> >> >>
,  <<"calculate_nominal_rock_diameter_Dn50", << <<"Hs", "req">>, <<"Rc", "req">>, <<"rho_armour", "req">>, <<"Ns_init", "2.0">>, <<"max_iter", 1000>>, <<"tolerance", "1e-05">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"Rc", "req">>, <<"rho_armour", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">> >> >>
,  <<"calculate_crest_freeboard_Rc", << <<"Hs", "req">>, <<"rho_armour", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"Rc_Dn50_init", "-1.0">>, <<"max_iter", 1000>>, <<"tolerance", "1e-05">> >> >>
>>

Sig_ra_scaravaglione2025 == <<
  <<"check_validity_range", << <<"Hm0", "NaN">>, <<"Tmm10", "NaN">>, <<"N_waves", "NaN">>, <<"cot_alpha", "NaN">>, <<"P", "NaN">>, <<"Dn50", "NaN">>, <<"Dn50_core", "NaN">>, <<"rho_armour", "NaN">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_damage_number_S", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"rho_armour", "req">>, <<"rho_core", "req">>, <<"Dn50", "NaN">>, <<"Dn50_core", "NaN">>, <<"M50", "NaN">>, <<"M50_core", "NaN">>, <<"c_VGnew", "3.3">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_nominal_rock_diameter_Dn50", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"rho_armour", "req">>, <<"rho_core", "req">>, <<"S", "req">>, <<"Dn50_core", "NaN">>, <<"M50_core", "NaN">>, <<"c_VGnew", "3.3">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_significant_wave_height_Hm0", << <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"rho_armour", "req">>, <<"rho_core", "req">>, <<"S", "req">>, <<"Dn50", "NaN">>, <<"Dn50_core", "NaN">>, <<"M50", "NaN">>, <<"M50_core", "NaN">>, <<"c_VGnew", "3.3">>, <<"g", "9.81">>, <<"rho_water", "1025.0">> >> >>
>>

Sig_ra_vandermeer1988 == <<
  <<"check_validity_range", << <<"Hs", "NaN">>, <<"H2p", "NaN">>, <<"Tp", "NaN">>, <<"N_waves", "NaN">>, <<"cot_alpha", "NaN">>, <<"P", "NaN">>, <<"rho_armour", "NaN">> >> >>
,  <<"calculate_damage_number_S", << <<"Hs", "req">>, <<"H2p", "req">>, <<"Tm", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"P", "req">>, <<"rho_armour", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"c_pl", "8.7">>, <<"c_s", "1.4">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_nominal_rock_diameter_Dn50", << <<"Hs", "req">>, <<"H2p", "req">>, <<"Tm", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"P", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"c_pl", "8.7">>, <<"c_s", "1.4">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"ratio_H2p_Hs", "req">>, <<"Tm", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"P", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"c_pl", "8.7">>, <<"c_s", "1.4">>, <<"g", "9.81">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_correction_term_gamma_N", << <<"N_waves", "req">> >> >>
>>

Sig_ra_vandermeer1988_modified == <<
  <<"check_validity_range", << <<"Hs", "NaN">>, <<"H2p", "NaN">>, <<"Tmm10", "NaN">>, <<"N_waves", "NaN">>, <<"cot_alpha", "NaN">>, <<"P", "NaN">>, <<"Dn50", "NaN">>, <<"rho_armour", "NaN">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_damage_number_S", << <<"Hs", "req">>, <<"H2p", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"P", "req">>, <<"rho_armour", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"c_pl", "8.4">>, <<"c_s", "1.3">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_nominal_rock_diameter_Dn50", << <<"Hs", "req">>, <<"H2p", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"P", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"c_pl", "8.4">>, <<"c_s", "1.3">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"ratio_H2p_Hs", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"P", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"c_pl", "8.4">>, <<"c_s", "1.3">>, <<"g", "9.81">>, <<"rho_water", "1025.0">> >> >>
>>

Sig_ra_vandermeer2021 == <<
  <<"calculate_damage_number_S", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"P", "req">>, <<"rho_armour", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"c_pl", "6.49">>, <<"c_s", "0.97">>, <<"c_pl_mult", "1.0">>, <<"c_s_mult", "1.0">> >> >>
,  <<"calculate_nominal_rock_diameter_Dn50", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"P", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"c_pl", "6.49">>, <<"c_s", "0.97">>, <<"c_pl_mult", "1.0">>, <<"c_s_mult", "1.0">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"Tmm10", "req">>, <<"N_waves", "req">>, <<"cot_alpha", "req">>, <<"P", "req">>, <<"rho_armour", "req">>, <<"S", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"c_pl", "6.49">>, <<"c_s", "0.97">>, <<"c_pl_mult", "1.0">>, <<"c_s_mult", "1.0">>, <<"g", "9.81">> >> >>
>>

Sig_rr_vangent2007 == <<
  <<"check_validity_range", << <<"Rc", "NaN">>, <<"Rc2_front", "NaN">>, <<"Rc2_rear", "NaN">>, <<"Gc", "NaN">>, <<"Dn50", "NaN">>, <<"B_element", "NaN">>, <<"h", "NaN">>, <<"Hs", "NaN">>, <<"Tmm10", "NaN">>, <<"z1p", "NaN">>, <<"S", "NaN">>, <<"N_waves", "NaN">> >> >>
,  <<"calculate_damage_number_S", << <<"cot_alpha", "req">>, <<"cot_phi", "req">>, <<"gamma", "req">>, <<"Hs", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"Rc2_front", "req">>, <<"Rc2_rear", "req">>, <<"N_waves", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"rho_rock", "NaN">> >> >>
,  <<"calculate_nominal_rock_diameter_Dn50", << <<"cot_alpha", "req">>, <<"cot_phi", "req">>, <<"gamma", "req">>, <<"S", "req">>, <<"Hs", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"Rc2_front", "req">>, <<"Rc2_rear", "req">>, <<"N_waves", "req">> >> >>
,  <<"calculate_maximum_significant_wave_height_Hs", << <<"cot_alpha", "req">>, <<"cot_phi", "req">>, <<"gamma", "req">>, <<"S", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"Rc2_front", "req">>, <<"Rc2_rear", "req">>, <<"N_waves", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"rho_rock", "NaN">>, <<"tolerance", "0.0001">>, <<"max_iterations", 10000>> >> >>
>>

Sig_rr_vangentpozueta2004 == <<
  <<"check_validity_range", << <<"Rc", "NaN">>, <<"Rc_rear", "NaN">>, <<"cot_phi", "NaN">>, <<"gamma_f", "NaN">>, <<"Dn50", "NaN">>, <<"rho_rock", "NaN">>, <<"rho_water", "NaN">>, <<"Bc", "NaN">>, <<"Hs", "NaN">>, <<"Tmm10", "NaN">>, <<"z1p", "NaN">>, <<"S", "NaN">>, <<"N_waves", "NaN">> >> >>
,  <<"calculate_damage_number_S", << <<"cot_alpha", "req">>, <<"cot_phi", "req">>, <<"gamma_f", "req">>, <<"gamma_f_Crest", "req">>, <<"Hs", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"Rc_rear", "req">>, <<"Bc", "req">>, <<"N_waves", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"rho_rock", "NaN">>, <<"rho_water", "1025.0">>, <<"cs", "2.62144e-13">> >> >>
,  <<"calculate_nominal_rock_diameter_Dn50", << <<"cot_alpha", "req">>, <<"cot_phi", "req">>, <<"gamma_f", "req">>, <<"gamma_f_Crest", "req">>, <<"S", "req">>, <<"Hs", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"Rc_rear", "req">>, <<"Bc", "req">>, <<"rho_rock", "req">>, <<"N_waves", "req">>, <<"rho_water", "1025.0">>, <<"cs", "2.62144e-13">> >> >>
,  <<"calculate_maximum_significant_wave_height_Hs", << <<"cot_alpha", "req">>, <<"cot_phi", "req">>, <<"gamma_f", "req">>, <<"gamma_f_Crest", "req">>, <<"S", "req">>, <<"Tmm10", "req">>, <<"Rc", "req">>, <<"Rc_rear", "req">>, <<"Bc", "req">>, <<"N_waves", "req">>, <<"Dn50", "NaN">>, <<"M50", "NaN">>, <<"rho_rock", "NaN">>, <<"rho_water", "1025.0">>, <<"cs", "2.62144e-13">>, <<"tolerance", "0.0001">>, <<"max_iterations", 10000>> >> >>
>>

Sig_tb_etemadshahidi2021 == <<
  <<"check_validity", << <<"Hs", "NaN">>, <<"Tmm10", "NaN">>, <<"h", "NaN">>, <<"ht", "NaN">>, <<"Bt", "NaN">>, <<"Dn50", "NaN">>, <<"m", "NaN">>, <<"Nod", "NaN">>, <<"cot_alpha_armour_slope", "NaN">>, <<"rho_armour", "NaN">>, <<"rho_water", "1025.0">> >> >>
,  <<"calculate_damage_Nod", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"h", "req">>, <<"ht", "req">>, <<"Bt", "req">>, <<"m", "req">>, <<"Dn50", "req">>, <<"rho_rock", "req">>, <<"rho_water", "1025.0">>, <<"g", "9.81">>, <<"c1", "1.2">>, <<"c2", "11.2">>, <<"c3", "1.75">>, <<"c4", "0.16666666666666666">>, <<"c5", "0.4">>, <<"c6", "-0.1">>, <<"c7", "3.7">> >> >>
,  <<"calculate_nominal_diameter_Dn50", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"h", "req">>, <<"ht", "req">>, <<"Bt", "req">>, <<"Nod", "req">>, <<"m", "req">>, <<"rho_rock", "req">>, <<"rho_water", "1025.0">>, <<"g", "9.81">>, <<"c1", "1.2">>, <<"c2", "11.2">>, <<"c3", "1.75">>, <<"c4", "0.16666666666666666">>, <<"c5", "0.4">>, <<"c6", "-0.1">>, <<"c7", "3.7">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"Tmm10", "req">>, <<"h", "req">>, <<"ht", "req">>, <<"Bt", "req">>, <<"Nod", "req">>, <<"m", "req">>, <<"Dn50", "req">>, <<"rho_rock", "req">>, <<"rho_water", "1025.0">>, <<"g", "9.81">>, <<"c1", "1.2">>, <<"c2", "11.2">>, <<"c3", "1.75">>, <<"c4", "0.16666666666666666">>, <<"c5", "0.4">>, <<"c6", "-0.1">>, <<"c7", "3.7">>, <<"smm10_init", "0.03">>, <<"max_iter", 1000>> >> >>
>>

Sig_tb_gerding1993 == <<
  <<"check_validity", << <<"ht", "NaN">>, <<"h", "NaN">>, <<"Dn50", "NaN">> >> >>
,  <<"calculate_damage_Nod", << <<"Hs", "req">>, <<"ht", "req">>, <<"h", "req">>, <<"Dn50", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
,  <<"calculate_nominal_diameter_Dn50", << <<"Hs", "req">>, <<"ht", "req">>, <<"h", "req">>, <<"Nod", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
,  <<"calculate_wave_height_Hs", << <<"Dn50", "req">>, <<"ht", "req">>, <<"h", "req">>, <<"Nod", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
,  <<"calculate_depth_above_toe_ht", << <<"Hs", "req">>, <<"Dn50", "req">>, <<"h", "req">>, <<"Nod", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
>>

Sig_tb_takahashi1990_caisson == <<
  <<"check_validity", << <<"Ns", "NaN">>, <<"Bt", "NaN">> >> >>
,  <<"calculate_nominal_diameter_Dn50", << <<"Hs", "req">>, <<"Tp", "req">>, <<"hacc", "req">>, <<"Bt", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">>, <<"beta", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_significant_wave_height_Hs", << <<"Dn50", "req">>, <<"Tp", "req">>, <<"hacc", "req">>, <<"Bt", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">>, <<"beta", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_significant_depth_above_toe_hacc", << <<"Dn50", "req">>, <<"Tp", "req">>, <<"Hs", "req">>, <<"Bt", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">>, <<"beta", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_stability_number_Ns", << <<"Hs", "req">>, <<"Tp", "req">>, <<"hacc", "req">>, <<"Bt", "req">>, <<"beta", "req">>, <<"g", "9.81">> >> >>
>>

Sig_tb_vandermeer1998 == <<
  <<"check_validity", << <<"Hs", "NaN">>, <<"ht", "NaN">>, <<"h", "NaN">>, <<"Dn50", "NaN">>, <<"Nod", "NaN">>, <<"Delta", "NaN">> >> >>
,  <<"calculate_damage_Nod", << <<"Hs", "req">>, <<"ht", "req">>, <<"h", "req">>, <<"Dn50", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
,  <<"calculate_nominal_diameter_Dn50", << <<"Hs", "req">>, <<"ht", "req">>, <<"h", "req">>, <<"Nod", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
,  <<"calculate_wave_height_Hs", << <<"Dn50", "req">>, <<"ht", "req">>, <<"h", "req">>, <<"Nod", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
,  <<"calculate_depth_above_toe_ht", << <<"Hs", "req">>, <<"Dn50", "req">>, <<"h", "req">>, <<"Nod", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">> >> >>
>>

Sig_tb_vangentvanderwerf2014 == <<
  <<"check_validity", << <<"Hs", "NaN">>, <<"tt", "NaN">>, <<"ht", "NaN">>, <<"cot_alpha_armour_slope", "NaN">> >> >>
,  <<"calculate_damage_Nod", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"ht", "req">>, <<"Bt", "req">>, <<"tt", "req">>, <<"Dn50", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">>, <<"cot_alpha_armour_slope", "req">>, <<"g", "9.81">>, <<"c1", "0.032">>, <<"c2", "0.3">>, <<"c3", "1.0">>, <<"c4", "3.0">>, <<"c5", "1.0">> >> >>
,  <<"calculate_nominal_diameter_Dn50", << <<"Hm0", "req">>, <<"Tmm10", "req">>, <<"ht", "req">>, <<"Bt", "req">>, <<"tt", "req">>, <<"Nod", "req">>, <<"rho_rock", "req">>, <<"rho_water", "req">>, <<"cot_alpha_armour_slope", "req">>, <<"g", "9.81">> >> >>
,  <<"calculate_velocity_u_delta", << <<"Hs", "req">>, <<"Tmm10", "req">>, <<"ht", "req">>, <<"g", "9.81">> >> >>
>>

SigTable == <<
  <<"core_physics", Sig_core_physics>>,
  <<"core_utility", Sig_core_utility>>,
  <<"ov_denbieman2021", Sig_ov_denbieman2021>>,
  <<"ov_deridder2024", Sig_ov_deridder2024>>,
  <<"ov_deridder2026", Sig_ov_deridder2026>>,
  <<"ov_eurotop2007", Sig_ov_eurotop2007>>,
  <<"ov_eurotop2018", Sig_ov_eurotop2018>>,
  <<"ov_taw2002", Sig_ov_taw2002>>,
  <<"ov_vangent2002_velocity", Sig_ov_vangent2002_velocity>>,
  <<"ov_vangent2007", Sig_ov_vangent2007>>,
  <<"ov_vangent2021_caisson", Sig_ov_vangent2021_caisson>>,
  <<"ov_vangent2025", Sig_ov_vangent2025>>,
  <<"ru_eurotop2018", Sig_ru_eurotop2018>>,
  <<"ru_taw2002", Sig_ru_taw2002>>,
  <<"ru_vangent2001", Sig_ru_vangent2001>>,
  <<"tr_briganti2003", Sig_tr_briganti2003>>,
  <<"tr_dangremond1996", Sig_tr_dangremond1996>>,
  <<"tr_goda1967_caisson", Sig_tr_goda1967_caisson>>,
  <<"tr_vangent2023", Sig_tr_vangent2023>>,
  <<"tr_vangent2024_setup", Sig_tr_vangent2024_setup>>,
  <<"fc_goda1985", Sig_fc_goda1985>>,
  <<"fw_vangentvanderwerf2019", Sig_fw_vangentvanderwerf2019>>,
  <<"ca_accropode2_hudson1959", Sig_ca_accropode2_hudson1959>>,
  <<"ca_accropode_hudson1959", Sig_ca_accropode_hudson1959>>,
  <<"ca_core_loc_hudson1959", Sig_ca_core_loc_hudson1959>>,
  <<"ca_cubes_double_layer_hudson1959", Sig_ca_cubes_double_layer_hudson1959>>,
  <<"ca_cubes_double_layer_vandermeer1988", Sig_ca_cubes_double_layer_vandermeer1988>>,
  <<"ca_cubes_single_layer_vangent2002", Sig_ca_cubes_single_layer_vangent2002>>,
  <<"ca_cubipod_hudson1959", Sig_ca_cubipod_hudson1959>>,
  <<"ca_tetrapod_hudson1959", Sig_ca_tetrapod_hudson1959>>,
  <<"ca_xbloc", Sig_ca_xbloc>>,
  <<"ca_xblocplus", Sig_ca_xblocplus>>,
  <<"ra_etemadshahidi2020", Sig_ra_etemadshahidi2020>>,
  <<"ra_hudson1959", Sig_ra_hudson1959>>,
  <<"ra_jumelet2024", Sig_ra_jumelet2024>>,
  <<"ra_kramerburcharth2004_lowcrested", Sig_ra_kramerburcharth2004_lowcrested>>,
  <<"ra_scaravaglione2025", Sig_ra_scaravaglione2025>>,
  <<"ra_vandermeer1988", Sig_ra_vandermeer1988>>,
  <<"ra_vandermeer1988_modified", Sig_ra_vandermeer1988_modified>>,
  <<"ra_vandermeer2021", Sig_ra_vandermeer2021>>,
  <<"rr_vangent2007", Sig_rr_vangent2007>>,
  <<"rr_vangentpozueta2004", Sig_rr_vangentpozueta2004>>,
  <<"tb_etemadshahidi2021", Sig_tb_etemadshahidi2021>>,
  <<"tb_gerding1993", Sig_tb_gerding1993>>,
  <<"tb_takahashi1990_caisson", Sig_tb_takahashi1990_caisson>>,
  <<"tb_vandermeer1998", Sig_tb_vandermeer1998>>,
  <<"tb_vangentvanderwerf2014", Sig_tb_vangentvanderwerf2014>>
>>
=============================================================================
