------------------------------- MODULE PlansD -------------------------------
(* Sessions for ordering (C19), scaling (C20), iterations (C21), defaults
   (C22), files (C23) and notices (C24) *)
EXTENDS PlansC

-----------------------------------------------------------------------------
(* C19: the direction in which a result moves.  An entry <<m, f, o, p, d>>
   says that output o does not fall (d "+") or rise (d "-") with input p. *)
RECURSIVE Chain(_)
Chain(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Chain(Tail(ss))
Diml == {"calculate_dimensionless_overtopping_discharge_q", "q_diml_max_equation", "calculate_dimensionless_overtopping_discharge_q_rubble_mound", "calculate_dimensionless_crest_freeboard",
         "Rc_diml_max_equation", "calculate_dimensionless_crest_freeboard_rubble_mound"}
        \cup {"calculate_dimensionless_overtopping_discharge_" \o e : e \in {"eq24", "eq26", "eq28", "eq32"}} \cup {"calculate_dimensionless_crest_freeboard_discharge_q_" \o e : e \in {"eq24", "eq26", "eq28", "eq32"}}
Ent(m, f, o, ps, qs) ==
  LET has == DOMAIN DefOf[m][f]
      \* dimensionless results have the wave height in their scale
      a == SeqOf({p \in ps \cap has : ~(p \in {"Hm0", "Hm0_HF"} /\ f \in Diml)})
      b == SeqOf(qs \cap has)
  IN [j \in DOMAIN a |-> <<m, f, o, a[j], "+">>] \o [j \in DOMAIN b |-> <<m, f, o, b[j], "-">>]
\* the functions of module m whose name is in fs
Ents(m, fs, o, ps, qs) == Chain([j \in DOMAIN fs |-> IF fs[j] \in DOMAIN DefOf[m] THEN Ent(m, fs[j], o, ps, qs) ELSE <<>>])
OvQ == <<"calculate_overtopping_discharge_q", "calculate_dimensionless_overtopping_discharge_q", "q_diml_max_equation",
         "calculate_overtopping_discharge_q_rubble_mound", "calculate_dimensionless_overtopping_discharge_q_rubble_mound">>
OvR == <<"calculate_crest_freeboard_Rc", "calculate_dimensionless_crest_freeboard", "Rc_diml_max_equation",
         "calculate_crest_freeboard_Rc_rubble_mound", "calculate_dimensionless_crest_freeboard_rubble_mound">>
RdQ(eq) == <<"calculate_overtopping_discharge_q_" \o eq, "calculate_dimensionless_overtopping_discharge_" \o eq>>
RdR(eq) == <<"calculate_crest_freeboard_discharge_q_" \o eq, "calculate_dimensionless_crest_freeboard_discharge_q_" \o eq>>
HsUnits == <<"ca_accropode_hudson1959", "ca_accropode2_hudson1959", "ca_core_loc_hudson1959", "ca_cubes_double_layer_hudson1959", "ca_cubipod_hudson1959", "ca_tetrapod_hudson1959">>
RangeOf(q) == {q[j] : j \in DOMAIN q}
RaVdM == <<"ra_vandermeer1988", "ra_vandermeer1988_modified", "ra_vandermeer2021">>
OvM == {"ov_taw2002", "ov_eurotop2018", "ov_eurotop2007", "ov_vangent2021_caisson", "ov_vangent2025", "ov_deridder2024", "ov_deridder2026"}
FacP == {"gamma_f", "gamma_beta", "gamma_b", "gamma_v", "gamma_star"}
MonoTab == Chain(<<
  Chain([j \in {1, 2} |-> LET m == <<"ov_taw2002", "ov_eurotop2018">>[j] IN
       Ents(m, OvQ, 1, FacP \cup {"Tmm10", "Hm0", "c2"}, {"Rc", "cot_alpha", "sigma", "c3", "cor3"}) \o Ents(m, OvR, 1, FacP \cup {"Tmm10", "Hm0", "g", "c2"}, {"q", "cot_alpha", "sigma", "c3", "cor3"})]),
  Ents("ov_eurotop2007", OvQ, 1, FacP \cup {"Tmm10", "Hm0", "c2"}, {"Rc", "cot_alpha", "c3"}),
  Ents("ov_eurotop2007", OvR, 1, FacP \cup {"Tmm10", "Hm0", "c2"}, {"q", "cot_alpha", "c3"}),
  Chain([j \in {1, 2, 3, 4} |-> LET e == <<<<"ov_deridder2024", "eq24">>, <<"ov_deridder2024", "eq26">>, <<"ov_deridder2026", "eq28">>, <<"ov_deridder2026", "eq32">>>>[j] IN
       Ents(e[1], RdQ(e[2]), 1, {"gamma_f", "gamma_beta", "Hm0", "Hm0_HF", "Hm0_LF"}, {"Rc", "smm10_HF"}) \o Ents(e[1], RdR(e[2]), 1, {"Hm0", "Hm0_LF", "g"} \cup (IF e[2] \in {"eq24", "eq28"} THEN {"gamma_f", "gamma_beta"} ELSE {}), {"q"} \cup (IF e[2] \in {"eq24", "eq28"} THEN {"smm10_HF"} ELSE {}))]),
  Ents("ov_vangent2021_caisson", OvQ, 1, {"Hm0", "Hm0_swell", "gamma_beta", "c_swell"}, {"Rc"}),
  Ents("ov_vangent2021_caisson", OvR, 1, {"Hm0", "Hm0_swell", "gamma_beta", "c_swell", "g"}, {"q"}),
  Ents("ov_vangent2025", OvQ, 1, {"gamma_f", "gamma_beta", "gamma_b", "gamma_v", "Hm0", "Hm0_swell", "ksi_mm10", "Tmm10"}, {"Rc", "cot_alpha", "Dn50"}),
  Ents("ov_vangent2025", OvR, 1, {"gamma_f", "gamma_beta", "gamma_b", "gamma_v", "Hm0_swell", "ksi_mm10", "Tmm10"}, {"q", "cot_alpha", "Dn50"}),
  Ents("ov_vangent2002_velocity", <<"calculate_maximum_wave_overtopping_velocity_uXp", "calculate_maximum_wave_overtopping_depth_hXp", "calculate_maximum_wave_overtopping_discharge_qXp">>, 1, {"zXp", "gamma_f_Crest"}, {"Rc", "Bc"}),
  Chain([j \in {1, 2} |-> LET m == <<"ru_taw2002", "ru_eurotop2018">>[j] IN
       Ents(m, <<"calculate_wave_runup_height_z2p">>, 1, {"Hm0", "Tmm10", "gamma_f", "gamma_beta", "gamma_b", "c1"}, {"cot_alpha"})
       \o Ents(m, <<"calculate_dimensionless_wave_runup_height_z2p">>, 1, {"Tmm10", "gamma_f", "gamma_beta", "gamma_b", "c1"}, {"cot_alpha"})
       \o Ents(m, <<"iteration_procedure_z2p">>, 1, {"Tmm10", "gamma_f", "gamma_beta"}, {"B_berm"})]),
  Ents("ru_vangent2001", <<"calculate_wave_runup_height_z2p", "calculate_wave_runup_height_zXp">>, 1, {"Hm0", "Hs", "Tmm10", "gamma", "gamma_f", "gamma_beta"}, {"cot_alpha"}),
  Chain([j \in {1, 2} |-> Ent("tr_dangremond1996", <<"calculate_wave_transmission_Kt_permeable", "calculate_wave_transmission_Kt_impermeable">>[j], 1, {"Tpi"}, {"Rc", "B", "cot_alpha"})]),
  Ent("tr_briganti2003", "calculate_wave_transmission_Kt", 1, {"Tpi"}, {"Rc", "B", "cot_alpha"}),
  Ent("tr_vangent2023", "calculate_wave_transmission_Kt", 1, {"Tmm10"}, {"Rc", "B"}),
  Ent("tr_goda1967_caisson", "calculate_wave_transmission_Kt", 1, {}, {"Rc"}),
  Chain([j \in {1, 2} |-> LET f == <<"permeable", "impermeable">>[j] IN Ent("tr_vangent2024_setup", "calculate_structure_induced_setup_delta_" \o f, 1, {"Rc", "Hm0"}, {"hc", "Tmm10"})]),
  Ents("fw_vangentvanderwerf2019", <<"calculate_FH2p_perpendicular", "calculate_FH2p_oblique", "calculate_FH2p_perpendicular_from_z2p">>, 1, {"rho_water", "Hwall", "Hm0", "z2p", "gamma_f", "gamma_beta", "Tmm10", "cFH", "g"}, {"Ac", "cot_alpha"}),
  Ents("fw_vangentvanderwerf2019", <<"calculate_FV2p_perpendicular", "calculate_FV2p_oblique", "calculate_FV2p_perpendicular_from_z2p">>, 1, {"rho_water", "Bwall", "Hm0", "z2p", "gamma_f", "gamma_beta", "Tmm10", "cFV", "g"}, {"Fb", "cot_alpha"}),
  Ents("fw_vangentvanderwerf2019", <<"calculate_FH01p_perpendicular", "calculate_FV01p_perpendicular">>, 1, {"FH2p", "FV2p"}, {}),
  Ent("fc_goda1985", "calculate_pressures_and_forces", 1, {"HD", "rho_water", "Tmax", "Hsi"}, {"cota_seabed"}),
  Ent("fc_goda1985", "calculate_pressures_and_forces", 2, {"HD", "rho_water", "Tmax", "Hsi"}, {"cota_seabed"}),
  Ent("fc_goda1985", "calculate_pressures_and_forces", 5, {"HD", "rho_water", "Tmax", "Hsi"}, {"cota_seabed"}),
  Ent("fc_goda1985", "calculate_pressures_and_forces", 10, {"HD", "rho_water", "Tmax"}, {}),
  Ent("fc_goda1985", "calculate_safety_factors", 1, {"Wup", "muf"}, {"FU", "FH"}),
  Ent("fc_goda1985", "calculate_safety_factors", 2, {"Wup", "tup"}, {"MU", "MH"}),
  Ent("fc_goda1985", "calculate_Wup", 1, {"Bup", "Rc", "hacc", "rho_fill_below_SWL", "rho_fill_above_SWL"}, {"rho_water"}),
  Ent("fc_goda1985", "calculate_forces_and_reactions", 9, {"muf", "rho_fill_below_SWL", "rho_fill_above_SWL"}, {"HD", "Tmax", "Hsi"}),
  Ent("fc_goda1985", "calculate_forces_and_reactions", 10, {"tup_over_Bup", "rho_fill_below_SWL", "rho_fill_above_SWL"}, {"HD", "Tmax", "Hsi"}),
  Chain([j \in DOMAIN HsUnits |-> Ents(HsUnits[j], <<"calculate_unit_mass_M">>, 1, {"Hs", "rho_water", "alpha_Hs"}, {"rho_armour", "KD", "cot_alpha"})
       \o Ents(HsUnits[j], <<"calculate_significant_wave_height_Hs">>, 1, {"M", "rho_armour", "KD", "cot_alpha"}, {"rho_water", "alpha_Hs"})
       \o Ents(HsUnits[j], <<"calculate_KD_breaking_trunk_from_seabed_slope">>, 1, {}, {"seabed_slope_perc"})]),
  Chain([j \in DOMAIN Units |-> Ents(Units[j], <<"calculate_unit_volume_V", "calculate_unit_mass_M">>, 1, {"Hs", "rho_water", "total_correction_factor"}, {"rho_armour"})
       \o Ents(Units[j], <<"calculate_wave_height_Hs_from_V", "calculate_wave_height_Hs_from_M">>, 1, {"M", "V", "rho_armour"}, {"rho_water", "total_correction_factor"})
       \o Ents(Units[j], <<CorF \o "percslope_seabed", CorF \o "relative_freeboard", CorF \o "rel_depth">>, 1, {"perc_slope", "rel_depth"}, {"rel_freeboard"})
       \o Ents(Units[j], <<CorF \o "cotalpha_seabed">>, 1, {}, {"cot_alpha"})]),
  Ents("ca_cubes_single_layer_vangent2002", <<"calculate_unit_mass_M_start_of_damage", "calculate_unit_mass_M_failure">>, 1, {"Hs", "rho_water"}, {"rho_armour", "Ns"}),
  Ents("ca_cubes_single_layer_vangent2002", <<"calculate_significant_wave_height_Hs_start_of_damage", "calculate_significant_wave_height_Hs_failure">>, 1, {"M", "rho_armour", "Ns"}, {"rho_water"}),
  Ents("ca_cubes_double_layer_vandermeer1988", <<"calculate_nominal_diameter_Dn_vanDerMeer1988">>, 1, {"Hs", "N_waves", "rho_water"}, {"Nod", "rho_armour"}),
  Ents("ca_cubes_double_layer_vandermeer1988", <<"calculate_wave_height_Hs_vanDerMeer1988">>, 1, {"Dn", "Nod", "rho_armour"}, {"N_waves", "rho_water"}),
  Ents("ca_cubes_double_layer_vandermeer1988", <<"calculate_damage_Nod_vanDerMeer1988">>, 1, {"Hs", "N_waves", "rho_water"}, {"Dn", "rho_armour"}),
  Chain([j \in DOMAIN RaVdM |-> Ents(RaVdM[j], <<"calculate_nominal_rock_diameter_Dn50">>, 1, {IF RaVdM[j] = "ra_vandermeer1988_modified" THEN "H2p" ELSE "Hs", "N_waves", "rho_water", "H2p", "ratio_H2p_Hs"}, {"S", "rho_armour"})
       \o Ents(RaVdM[j], <<"calculate_damage_number_S">>, 1, {IF RaVdM[j] = "ra_vandermeer1988_modified" THEN "H2p" ELSE "Hs", "N_waves", "rho_water", "H2p", "ratio_H2p_Hs"}, {"Dn50", "M50", "rho_armour"})
       \o Ents(RaVdM[j], <<"calculate_significant_wave_height_Hs">>, 1, {"Dn50", "M50", "S", "rho_armour"}, {"N_waves", "rho_water"})]),
  Ents("ra_scaravaglione2025", <<"calculate_nominal_rock_diameter_Dn50">>, 1, {"Hm0", "N_waves", "rho_water", "Tmm10"}, {"S", "rho_armour", "cot_alpha", "Dn50_core", "M50_core"}),
  Ents("ra_scaravaglione2025", <<"calculate_damage_number_S">>, 1, {"Hm0", "N_waves", "rho_water", "Tmm10"}, {"Dn50", "M50", "rho_armour", "cot_alpha", "Dn50_core", "M50_core"}),
  Ents("ra_scaravaglione2025", <<"calculate_significant_wave_height_Hm0">>, 1, {"Dn50", "M50", "S", "rho_armour", "cot_alpha", "Dn50_core", "M50_core"}, {"N_waves", "rho_water"}),
  Ents("ra_jumelet2024", <<"calculate_nominal_rock_diameter_Dn50">>, 1, {"N_waves", "rho_water"}, {"S", "rho_armour"}),
  Ents("ra_jumelet2024", <<"calculate_damage_number_S">>, 1, {"N_waves", "rho_water"}, {"Dn50", "M50", "rho_armour"}),
  Ents("ra_etemadshahidi2020", <<"calculate_nominal_rock_diameter_Dn50">>, 1, {"N_waves", "Hs"}, {"S", "rho_armour"}),
  Ents("ra_etemadshahidi2020", <<"calculate_damage_number_S">>, 1, {"N_waves", "Hs"}, {"Dn50", "M50", "rho_armour"}),
  Ents("ra_hudson1959", <<"calculate_median_rock_mass_M50_no_damage", "calculate_median_rock_mass_M50">>, 1, {"Hs", "rho_water", "alpha_Hs"}, {"rho_armour", "KD", "cot_alpha", "damage_percentage"}),
  Ents("ra_hudson1959", <<"calculate_significant_wave_height_Hs_no_damage", "calculate_significant_wave_height_Hs">>, 1, {"M50", "rho_armour", "KD", "cot_alpha", "damage_percentage"}, {"rho_water", "alpha_Hs"}),
  Ents("ra_kramerburcharth2004_lowcrested", <<"calculate_nominal_rock_diameter_Dn50">>, 1, {"Hs"}, {"rho_armour"}),
  Ents("ra_kramerburcharth2004_lowcrested", <<"calculate_significant_wave_height_Hs">>, 1, {"rho_armour"}, {}),
  Ents("rr_vangent2007", <<"calculate_nominal_rock_diameter_Dn50">>, 1, {"Hs", "Tmm10", "gamma", "N_waves"}, {"S", "Rc", "Rc2_front", "cot_alpha"}),
  Ents("rr_vangent2007", <<"calculate_damage_number_S">>, 1, {"N_waves"}, {"Dn50", "M50", "Rc2_front"}),
  Ents("rr_vangentpozueta2004", <<"calculate_nominal_rock_diameter_Dn50">>, 1, {"Hs", "Tmm10", "gamma_f", "gamma_f_Crest", "N_waves", "rho_water"}, {"S", "Rc", "Bc", "cot_alpha", "rho_rock"}),
  Ents("rr_vangentpozueta2004", <<"calculate_damage_number_S">>, 1, {"Hs", "Tmm10", "gamma_f", "gamma_f_Crest", "N_waves", "rho_water"}, {"Dn50", "M50", "Rc", "Bc", "cot_alpha", "rho_rock"}),
  Chain([j \in {1, 2} |-> LET m == <<"tb_gerding1993", "tb_vandermeer1998">>[j] IN
       Ents(m, <<"calculate_damage_Nod">>, 1, {"Hs", "rho_water"}, {"Dn50", "rho_rock", "ht"}) \o Ents(m, <<"calculate_nominal_diameter_Dn50">>, 1, {"Hs", "rho_water"}, {"Nod", "rho_rock", "ht"})
       \o Ents(m, <<"calculate_wave_height_Hs">>, 1, {"Dn50", "Nod", "rho_rock", "ht"}, {"rho_water"}) \o Ents(m, <<"calculate_depth_above_toe_ht">>, 1, {"Hs", "rho_water"}, {"Dn50", "Nod", "rho_rock"})]),
  Ents("tb_vangentvanderwerf2014", <<"calculate_damage_Nod">>, 1, {"Hm0", "Tmm10", "rho_water", "tt", "Bt"}, {"Dn50", "rho_rock", "ht"}),
  Ents("tb_vangentvanderwerf2014", <<"calculate_nominal_diameter_Dn50">>, 1, {"Hm0", "Tmm10", "rho_water", "tt", "Bt"}, {"Nod", "rho_rock", "ht"}),
  Ents("tb_vangentvanderwerf2014", <<"calculate_velocity_u_delta">>, 1, {"Hs", "Hm0", "Tmm10"}, {"ht"}),
  Ents("tb_etemadshahidi2021", <<"calculate_damage_Nod">>, 1, {"Hs", "rho_water", "Bt"}, {"Dn50", "rho_rock", "ht"}),
  Ents("tb_etemadshahidi2021", <<"calculate_nominal_diameter_Dn50">>, 1, {"Hs", "rho_water", "Bt"}, {"Nod", "rho_rock", "ht"}),
  Ents("core_physics", <<"calculate_Iribarren_number_ksi">>, 1, {"T"}, {"H", "cot_alpha"}), Ents("core_physics", <<"calculate_wave_steepness_s">>, 1, {"H"}, {"T", "g"}),
  Ents("core_physics", <<"calculate_local_wavelength">>, 1, {"T", "h", "g"}, {}), Ents("core_physics", <<"calculate_buoyant_density_Delta">>, 1, {"rho_rock"}, {"rho_water"}),
  Ents("core_physics", <<"calculate_stability_number_Ns">>, 1, {"H", "rho_water"}, {"D", "rho_rock"}), Ents("core_physics", <<"calculate_Dn50_from_M50">>, 1, {"M50"}, {"rho_rock"}),
  Ents("core_physics", <<"calculate_M50_from_Dn50">>, 1, {"Dn50", "rho_rock"}, {}), Ents("core_physics", <<"calculate_Nod_from_S">>, 1, {"S"}, {}), Ents("core_physics", <<"calculate_S_from_Nod">>, 1, {"Nod"}, {})
  >>)

\* the step of input p
Step19(m, f, p, a, s, i, k) ==
  LET r == Pick(s, i, <<"st19", k>>, <<"1e-5", "0.003", "0.05", "0.3", "1.2", 4>>)
      small == p \in {"gamma_f", "gamma_beta", "gamma_b", "gamma_v", "gamma_star", "gamma", "gamma_f_Crest", "muf", "tup_over_Bup"}
  IN CASE p \in {"Rc", "db", "rel_freeboard", "sigma", "cor3"} -> ToR(a[p] + r * "0.4" * Max2(Abs(a[p]), IF Has(a, "Hm0") THEN a.Hm0 ELSE "0.4"))
       [] p \in {"perc_slope", "seabed_slope_perc", "damage_percentage"} -> ToR(a[p] + r * 5)
       [] p \in Density -> ToR(a[p] * (1 + r / 8))
       [] small -> ToR(a[p] + (1 - a[p]) * (r / 4))
       [] OTHER -> ToR(a[p] * (1 + r))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted({y \in S : ~Eq(x, y)})
\* with other coefficients than published ones the branches of an equation need not meet
Coefs == {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c_pl", "c_s", "c_VGnew", "c_b1", "c_b2", "c_b3", "c_b4", "c_w1", "c_w2", "use_best_fit"}
\* the arguments: plain situations of the equations
Prep19(m, f, p, a0, s, i) ==
  LET a == Tight(m, f, a0)
      ru == m \in {"ov_taw2002", "ov_eurotop2018", "ru_taw2002", "ru_eurotop2018"} /\ ~(f \in {"iteration_procedure_z2p", "iteration_procedure_gamma_b"})
      P(x) == Norm(x, Value(m, f, x, SceneOf(m, s, i)))
      b == IF ru /\ HasP(<<m, f>>, {"cot_alpha"}) /\ (p \notin {"Rc", "q", "sigma", "c2", "c3", "gamma_star", "gamma_v", "g"} \/ Prob(s, i, "plain", "0.5"))
           THEN Without(a, {"cot_alpha_down", "cot_alpha_up", "B_berm", "db"}) @@ [cot_alpha |-> P("cot_alpha")] ELSE a
      c == IF p \in FacP THEN Without(b, {"beta"}) @@ (p :> P(p)) ELSE b
      d == IF p \in (DOMAIN DefOf[m][f]) /\ p \notin DOMAIN c THEN c @@ (p :> P(p)) ELSE c
      e == IF Has(d, "Rc") /\ m \notin NPar /\ m # "ra_kramerburcharth2004_lowcrested" THEN With(d, [Rc |-> ToR(Abs(d.Rc))]) ELSE d
      lim(x, q) == IF Has(x, q) /\ IsReal(x[q]) THEN With(x, q :> ToR(Min2(x[q], 1))) ELSE x
      e1 == lim(lim(lim(lim(e, "gamma_f"), "gamma_b"), "gamma_beta"), "gamma_v")
      \* a crest well above the low-frequency waves
      lf == IF Has(e1, "Hm0_swell") THEN e1.Hm0_swell ELSE IF Has(e1, "Hm0_LF") THEN e1.Hm0_LF ELSE ToR(0)
      h == IF p # "Rc" /\ Has(e1, "Rc") /\ m \in {"ov_vangent2025", "ov_vangent2021_caisson", "ov_deridder2024", "ov_deridder2026"}
           THEN With(e1, [Rc |-> ToR(e1.Rc + Max2(0, 4 * lf) + "0.5" * (IF Has(e1, "Hm0") THEN e1.Hm0 ELSE IF Has(e1, "Hm0_HF") THEN e1.Hm0_HF ELSE 1))]) ELSE e1
      k == IF p = "Hm0" /\ ru THEN Without(h, {"gamma_b"}) ELSE h
      l == IF p = "Hs" /\ m \in RangeOf(RaVdM) THEN Without(k, {"H2p"}) ELSE k
      n == IF Has(l, "Fb") /\ Has(l, "Ac") THEN With(l, [Fb |-> ToR(Min2(l.Fb, l.Ac))]) ELSE l
      o == IF p = "B_berm" /\ Has(n, "L_berm") THEN With(n, [L_berm |-> ToR(Max2(n.L_berm, 7 * n.B_berm))]) ELSE n
      r == IF m = "rr_vangent2007" /\ f = "calculate_damage_number_S" THEN LET c1 == ToR(Min2(o.Rc, "0.85" * Z1p(o.Hs, o.Tmm10, o.gamma, o.cot_alpha))) IN With(o, [Rc |-> c1, Rc2_rear |-> ToR(Min2(o.Rc2_rear, c1 * "0.85"))]) 
           ELSE IF m = "ov_vangent2021_caisson" /\ p = "gamma_beta" THEN Without(o, {"Hm0_swell", "crossing_seas"}) ELSE o
      \* van Gent (2025): with the factors given, without swell and wind
      t == IF m = "ov_vangent2025" THEN With(IF f \in Diml /\ f \in {"q_diml_max_equation", "Rc_diml_max_equation"} THEN r
                                             ELSE Without(r, {"beta", "B_berm", "db"}) @@ [gamma_b |-> P("gamma_b"), gamma_beta |-> P("gamma_beta")],
                                             (IF HasP(<<m, f>>, {"Hm0_swell"}) /\ p # "Hm0_swell" THEN [Hm0_swell |-> ToR(0)] ELSE <<>>) @@ (IF HasP(<<m, f>>, {"include_influence_wind"}) THEN [include_influence_wind |-> FALSE] ELSE <<>>)) ELSE r
      w == IF p = "g" THEN t ELSE Without(t, {"g"})
  IN Without(w, {"return_dict"} \cup {x \in Coefs : x # p /\ ~(x \in DOMAIN DefOf[m][f] /\ Same(DefOf[m][f][x], "req"))})
IterF == {"iteration_procedure_z2p", "iteration_procedure_gamma_b"}
Tol19(m, f, a) == IF Has(a, "tolerance") THEN "1e-6" ELSE "1e-9"
AnyP(q, S) == (DOMAIN DefOf[q[1]][q[2]]) \cap S # {}
\* the mean value does not exceed the design value
BestF == SelectSeq(Calc, LAMBDA q : AnyP(q, {"use_best_fit", "design_calculation"}) /\ ~IsCheck(q[2]) /\ q[2] \notin {"iteration_procedure_gamma_b", "check_best_fit"})
Best19(s, i) ==
  LET q == At(BestF, i, 9)
      m == q[1]
      f == q[2]
      x == IF HasP(q, {"use_best_fit"}) THEN "use_best_fit" ELSE "design_calculation"
      a == Without(Prep19(m, f, "Rc", ArgsOf(m, f, SceneOf(m, s, i)), s, i), {"sigma"} \cup {"gamma_b", "B_berm", "db"})
      c(b) == C(m, f, With(a, x :> b))
      lo == c(x = "use_best_fit")
      hi == c(x # "use_best_fit")
  IN Mk(i, "best fit", <<lo, hi>>, <<ROrd("mean value", T(1, 1), T(2, 1), "1e-9", "1e-14")>> \o (IF m \in OvM THEN <<RAdm(T(1, 1), "1e-9", "0.9"), RAdm(T(2, 1), "1e-9", "1e99")>> ELSE <<>>))
\* higher waves of the same steepness against the same structure
StormF == SelectSeq(Calc, LAMBDA q : /\ AnyP(q, {"Hm0", "Hs"}) /\ AnyP(q, {"Tmm10", "Tm", "Tp"}) /\ ~IsCheck(q[2]) /\ q[1] # "tb_takahashi1990_caisson" /\ ~(q[1] = "rr_vangent2007" /\ q[2] = "calculate_damage_number_S")
                                     /\ q[2] \in {"calculate_overtopping_discharge_q", "calculate_overtopping_discharge_q_rubble_mound", "calculate_crest_freeboard_Rc", "calculate_crest_freeboard_Rc_rubble_mound",
                                                  "calculate_wave_runup_height_z2p", "calculate_wave_runup_height_zXp", "calculate_nominal_rock_diameter_Dn50", "calculate_damage_number_S", "calculate_FH2p_perpendicular",
                                                  "calculate_nominal_diameter_Dn50", "calculate_damage_Nod", "calculate_nominal_diameter_Dn_vanDerMeer1988", "calculate_velocity_u_delta"})
Storm19(s, i) ==
  LET q == At(StormF, i, 9)
      m == q[1]
      f == q[2]
      a == Prep19(m, f, IF HasP(q, {"Hm0"}) THEN "Hm0" ELSE "Hs", ArgsOf(m, f, SceneOf(m, s, i)), s, i)
      k == ToR(1 + Pick(s, i, "st19", <<"1e-4", "0.02", "0.2", 1, 3>>))
      b == [p \in DOMAIN a |-> IF p \in {"Hm0", "Hs", "H2p", "Hm0_swell"} THEN ToR(a[p] * k) ELSE IF p \in {"Tmm10", "Tm", "Tp"} THEN ToR(a[p] * Sqrt(k)) ELSE a[p]]
  IN Mk(i, "storm", <<C(m, f, a), C(m, f, b)>>, <<ROrd("same steepness", T(1, 1), T(2, 1), Tol19(m, f, a), "1e-14")>> \o (IF m \in OvM THEN <<RAdm(T(1, 1), "1e-9", "1e99"), RAdm(T(2, 1), "1e-9", "1e99")>> ELSE <<>>))
Mono19(s, i) ==
  LET e  == At(MonoTab, i, 1)
      m  == e[1]
      f  == e[2]
      p  == e[4]
      a  == Prep19(m, f, p, ArgsOf(m, f, SceneOf(m, s, i)), s, i)
      v0 == a[p]
      ed == IF Prob(s, i, "edge19", "0.35") /\ ~Search(m, f) /\ m # "rr_vangent2007" THEN EdgeVals(m, f, a, p, RegSig, s, i) ELSE <<>>
      ok(x) == (p \in FacP => x <= 1) /\ (m = "tr_briganti2003" /\ p = "B" => (x / a.Hsi > "10.00001" /\ v0 / a.Hsi > 10) \/ (x / a.Hsi < "9.99999" /\ v0 / a.Hsi < 10))
                /\ (m \in {"ru_taw2002", "ru_eurotop2018"} /\ p = "Hm0" => x < "0.15" * (a.Tmm10 ^ 2)) /\ (m = "ov_vangent2025" /\ p = "Dn50" => x < "0.6" * a.Hm0) /\ (v0 >= 0 /\ p \notin {"Rc", "db", "sigma", "cor3", "rel_freeboard"} => x >= 0)
      vs == Sorted({x \in {v0, Step19(m, f, p, a, s, i, 1), Step19(m, f, p, a, s, i, 2)} \cup {ed[j] : j \in DOMAIN ed} : ok(x)})
      n  == Len(vs)
      ab == IF m = "tr_goda1967_caisson" THEN "0.03" ELSE "1e-14"
      Ord(j) == IF e[5] = "+" THEN ROrd(e[4], T(j, e[3]), T(I!+(j, 1), e[3]), Tol19(m, f, a), ab) ELSE ROrd(e[4], T(I!+(j, 1), e[3]), T(j, e[3]), Tol19(m, f, a), ab)
      \* the result is on the side of the equation it was made for
      pos == (m \in OvM /\ HasP(<<m, f>>, {"q"}) /\ p \notin {"q", "g"}) \/ m \in {"fw_vangentvanderwerf2019"} \/ f \in {"calculate_safety_factors", "calculate_forces_and_reactions"}
  IN IF ~IsReal(v0) \/ I!<(n, 2) THEN None(i)
     ELSE Mk(i, p, [j \in Range1(n) |-> WithKeys(C(m, f, [a EXCEPT ![p] = vs[j]]))], [j \in Range1(I!-(n, 1)) |-> Ord(j)] \o (IF pos THEN [j \in Range1(n) |-> RAdm(T(j, e[3]), "1e-9", "1e99")] ELSE <<>>))

Case19(s, i) == CASE I!%(i, 9) = 0 -> Best19(s, i) [] I!%(i, 9) = 1 -> Storm19(s, i) [] OTHER -> Mono19(s, i)

-----------------------------------------------------------------------------
(* C20: scales.  Lengths by k, times by sqrt(k); densities by c *)
LenPar == {"Hm0", "Hs", "Hsi", "H", "HD", "h", "h_s", "L", "d", "hacc", "Rc", "Ac", "Gc", "Dn50", "D", "Dn", "Dn50_core", "B_berm", "L_berm", "db", "BL", "Bc", "Bt", "B1", "B_element", "B", "Bup", "Bwall", "Hwall",
           "Fb", "z2p", "zXp", "z1p", "tup", "tt", "ht", "hc", "H2p", "Hm0_LF", "Hm0_swell", "Hm0_deep", "Hm0_HF", "Rc2_front", "Rc2_rear", "Rc_rear"}
TimePar == {"T", "Tm", "Tp", "Tpi", "Tmm10", "Tmax", "Tmm10_HF"}
VolPar  == {"M", "M50", "M50_core", "V", "MH", "MU"}
AreaPar == {"FU", "FH", "Wup", "FH2p", "FV2p"}
ScExp(m, f, p) == IF p \in LenPar THEN ToR(1) ELSE IF p \in TimePar THEN R("0.5") ELSE IF p \in VolPar THEN ToR(3) ELSE IF p \in AreaPar THEN ToR(2) ELSE IF p = "q" THEN R("1.5")
               ELSE IF p = "tolerance" /\ m # "ov_vangent2025" THEN ToR(1) ELSE ToR(0)
\* exponents of the outputs
Len1 == {"calculate_Dn50_from_M50", "calculate_berm_length", "calculate_crest_freeboard_Rc", "calculate_crest_freeboard_Rc_rubble_mound", "calculate_crest_freeboard_discharge_q_eq24", "calculate_crest_freeboard_discharge_q_eq26",
         "calculate_crest_freeboard_discharge_q_eq28", "calculate_crest_freeboard_discharge_q_eq32", "calculate_depth_above_toe_ht", "calculate_local_wavelength", "calculate_nominal_diameter_Dn50",
         "calculate_nominal_diameter_Dn_vanDerMeer1988", "calculate_nominal_rock_diameter_Dn50", "calculate_significant_wave_height_Hm0", "calculate_significant_wave_height_Hs_failure",
         "calculate_significant_wave_height_Hs_no_damage", "calculate_significant_wave_height_Hs_start_of_damage", "calculate_significant_wave_height_Hs", "calculate_maximum_significant_wave_height_Hs", "calculate_structure_induced_setup_delta_impermeable",
         "calculate_structure_induced_setup_delta_permeable", "calculate_wave_height_Hs_from_M", "calculate_wave_height_Hs_from_V", "calculate_wave_height_Hs_vanDerMeer1988", "calculate_wave_height_Hs",
         "iteration_procedure_z2p", "calculate_wave_runup_height_z2p", "calculate_wave_runup_height_z1p", "calculate_wave_runup_height_z10p", "calculate_wave_runup_height_zXp", "calculate_maximum_wave_overtopping_layer_thickness_hXp", "check_usage_Dn50_or_M50"}
Vol3 == {"calculate_M50_from_Dn50", "calculate_median_rock_mass_M50_no_damage", "calculate_median_rock_mass_M50", "calculate_unit_mass_M_failure", "calculate_unit_mass_M_start_of_damage", "calculate_unit_mass_M", "calculate_unit_volume_V"}
Frc2 == {"calculate_FH01p_perpendicular", "calculate_FH2p_oblique", "calculate_FH2p_perpendicular_from_z2p", "calculate_FH2p_perpendicular", "calculate_FV01p_perpendicular", "calculate_FV2p_oblique", "calculate_FV2p_perpendicular_from_z2p",
         "calculate_FV2p_perpendicular", "calculate_Wup"}
Dis15 == {"calculate_overtopping_discharge_q_eq24", "calculate_overtopping_discharge_q_eq26", "calculate_overtopping_discharge_q_eq28", "calculate_overtopping_discharge_q_eq32", "calculate_overtopping_discharge_q_rubble_mound", "calculate_overtopping_discharge_q"}
Vel05 == {"calculate_maximum_wave_overtopping_velocity_uXp", "calculate_velocity_u_delta", "calculate_maximum_wave_velocity_u1p"}
ExpSeq(f) == CASE f = "calculate_pressures_and_forces" -> <<2, 2, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0>>
               [] f = "calculate_forces_and_reactions" -> <<2, 2, 3, 3, 1, 1, 1, 0, 0, 0>>
               [] f = "calculate_bearing_pressures" -> <<1, 3, 2, 1>>
               [] f \in Len1 -> <<1>> [] f \in Vol3 -> <<3>> [] f \in Frc2 -> <<2>> [] f \in Dis15 -> <<"1.5">> [] f \in Vel05 -> <<"0.5">>
               [] OTHER -> <<0, 0, 0, 0, 0>>
\* 1 for masses, forces, pressures and moments
MassSeq(f) == CASE f = "calculate_pressures_and_forces" -> <<1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0>>
                [] f = "calculate_forces_and_reactions" -> <<1, 1, 1, 1, 1, 1, 1, 0, 0, 0>>
                [] f = "calculate_bearing_pressures" -> <<1, 1, 1, 0>>
                [] f \in Frc2 \cup (Vol3 \ {"calculate_unit_volume_V"}) -> <<1>>
                [] OTHER -> <<0, 0, 0, 0, 0>>
MassPar == {"M", "M50", "M50_core", "MH", "MU", "FU", "FH", "Wup", "FH2p", "FV2p"} \cup Density
\* every output of call 2 against call 1, times the scale
ScaleRel(m, f, a, es, k, tol, n) ==
  LET r == Call(m, f, a)
      o(j) == IF IsReal(AsOut(r.v[j])) THEN <<REq(n, T(2, j), TM(1, j, k ^ es[j]), tol, "1e-13")>> ELSE IF IsBool(r.v[j]) THEN <<RFlag(n, 2, j, 1, j)>> ELSE <<>>
  IN IF r.e # "" THEN <<>> ELSE Chain([j \in Range1(IF I!<(Len(es), Len(r.v)) THEN Len(es) ELSE Len(r.v)) |-> o(j)])
F20 == SelectSeq(Calc, LAMBDA q : ~IsCheck(q[2]) /\ q[1] # "core_utility" /\ q[2] \notin {"check_usage_stabilitynumber", "check_composite_slope", "check_calculate_gamma_beta", "check_best_fit"} /\ ~Search(q[1], q[2])
                                  /\ (DOMAIN DefOf[q[1]][q[2]]) \cap (LenPar \cup TimePar \cup VolPar \cup AreaPar) # {})
F20m == SelectSeq(F20, LAMBDA q : (DOMAIN DefOf[q[1]][q[2]]) \cap MassPar # {} /\ q[1] \notin {"ra_etemadshahidi2020", "ra_kramerburcharth2004_lowcrested", "ra_jumelet2024", "ra_vandermeer2021"})
\* single slopes where the tolerance of the iteration cannot be given
Single(m, f, a, s, i) ==
  IF m \in {"ov_taw2002", "ov_eurotop2018", "ru_taw2002", "ru_eurotop2018"} /\ HasP(<<m, f>>, {"cot_alpha", "cot_alpha_down"})
  THEN Without(a, {"cot_alpha_down", "cot_alpha_up"}) @@ [cot_alpha |-> Norm("cot_alpha", Value(m, f, "cot_alpha", SceneOf(m, s, i)))] ELSE a
\* with limits in metres and seconds
AbsLimits == {"ca_cubes_double_layer_vandermeer1988", "tb_vandermeer1998", "fc_goda1985"}
Dyadic == <<4, "0.25", 16, "0.0625", 64, "0.015625", 4, "0.25">>
Others == <<2, 10, "0.1", "0.03", 50, "2.5", "1.1", "0.7">>
\* pairs of dimensional and dimensionless functions
Pairs20 == <<<<"ov_taw2002", "calculate_overtopping_discharge_q", "calculate_dimensionless_overtopping_discharge_q", "q">>, <<"ov_taw2002", "calculate_crest_freeboard_Rc", "calculate_dimensionless_crest_freeboard", "H">>,
  <<"ov_eurotop2018", "calculate_overtopping_discharge_q", "calculate_dimensionless_overtopping_discharge_q", "q">>, <<"ov_eurotop2018", "calculate_crest_freeboard_Rc", "calculate_dimensionless_crest_freeboard", "H">>,
  <<"ov_eurotop2018", "calculate_overtopping_discharge_q_rubble_mound", "calculate_dimensionless_overtopping_discharge_q_rubble_mound", "q">>,
  <<"ov_eurotop2018", "calculate_crest_freeboard_Rc_rubble_mound", "calculate_dimensionless_crest_freeboard_rubble_mound", "H">>,
  <<"ov_eurotop2007", "calculate_overtopping_discharge_q_rubble_mound", "calculate_dimensionless_overtopping_discharge_q_rubble_mound", "q">>,
  <<"ov_eurotop2007", "calculate_crest_freeboard_Rc_rubble_mound", "calculate_dimensionless_crest_freeboard_rubble_mound", "H">>,
  <<"ov_vangent2021_caisson", "calculate_overtopping_discharge_q", "calculate_dimensionless_overtopping_discharge_q", "q">>, <<"ov_vangent2021_caisson", "calculate_crest_freeboard_Rc", "calculate_dimensionless_crest_freeboard", "H">>,
  <<"ov_vangent2025", "calculate_overtopping_discharge_q", "calculate_dimensionless_overtopping_discharge_q", "q">>, <<"ov_vangent2025", "calculate_crest_freeboard_Rc", "calculate_dimensionless_crest_freeboard", "H">>,
  <<"ov_deridder2024", "calculate_overtopping_discharge_q_eq24", "calculate_dimensionless_overtopping_discharge_eq24", "q">>, <<"ov_deridder2024", "calculate_overtopping_discharge_q_eq26", "calculate_dimensionless_overtopping_discharge_eq26", "q">>,
  <<"ov_deridder2024", "calculate_crest_freeboard_discharge_q_eq24", "calculate_dimensionless_crest_freeboard_discharge_q_eq24", "H">>,
  <<"ov_deridder2026", "calculate_overtopping_discharge_q_eq28", "calculate_dimensionless_overtopping_discharge_eq28", "q">>, <<"ov_deridder2026", "calculate_overtopping_discharge_q_eq32", "calculate_dimensionless_overtopping_discharge_eq32", "q">>,
  <<"ov_deridder2026", "calculate_crest_freeboard_discharge_q_eq28", "calculate_dimensionless_crest_freeboard_discharge_q_eq28", "H">>,
  <<"ru_taw2002", "calculate_wave_runup_height_z2p", "calculate_dimensionless_wave_runup_height_z2p", "H">>, <<"ru_eurotop2018", "calculate_wave_runup_height_z2p", "calculate_dimensionless_wave_runup_height_z2p", "H">>,
  <<"tr_vangent2024_setup", "calculate_structure_induced_setup_delta_permeable", "calculate_dimensionless_structure_induced_setup_permeable", "H">>,
  <<"tr_vangent2024_setup", "calculate_structure_induced_setup_delta_impermeable", "calculate_dimensionless_structure_induced_setup_impermeable", "H">>>>
Case20(s, i) ==
  LET k == I!%(i, 7) IN
  IF k \in {0, 1, 2}
  THEN \* Froude
       LET q == At(F20, i, 7)
           m == q[1]
           f == q[2]
           a == Without(Single(m, f, Tight(m, f, ArgsOf(m, f, SceneOf(m, s, i))), s, i), {"return_dict"})
           et == m = "tb_etemadshahidi2021" /\ f = "calculate_significant_wave_height_Hs"
           dy == Prob(s, i, "dyadic", "0.6")
           sc == ToR(IF et THEN 4 ELSE IF dy THEN Pick(s, i, "scale", Dyadic) ELSE Pick(s, i, "scale", Others))
           b == [p \in DOMAIN a |-> IF IsReal(a[p]) /\ ~Eq(ScExp(m, f, p), 0) THEN ToR(a[p] * (sc ^ ScExp(m, f, p))) ELSE a[p]]
       IN Mk(i, "scale", <<C(m, f, a), C(m, f, b)>>, ScaleRel(m, f, a, ExpSeq(f), sc, IF et THEN "0.02" ELSE IF m = "ov_vangent2025" THEN "1e-5" ELSE "1e-8", "scale") \o (IF dy /\ ~et /\ m \notin AbsLimits THEN <<RWNames("scale", 2, 1)>> ELSE <<>>))
  ELSE IF k = 3
  THEN \* densities
       LET q == At(F20m, i, 7)
           m == q[1]
           f == q[2]
           z == Without(Single(m, f, Tight(m, f, ArgsOf(m, f, SceneOf(m, s, i))), s, i), {"return_dict"})
           a == z @@ [p \in Density \cap (DOMAIN DefOf[m][f]) |-> Norm(p, Value(m, f, p, SceneOf(m, s, i)))]
           et == m = "tb_etemadshahidi2021" /\ f = "calculate_significant_wave_height_Hs"
           c == ToR(Pick(s, i, "scale", <<"0.5", 2, "0.97", "1.03">>))
           b == [p \in DOMAIN a |-> IF p \in MassPar THEN ToR(a[p] * c) ELSE a[p]]
       IN Mk(i, "density", <<C(m, f, a), C(m, f, b)>>, ScaleRel(m, f, a, MassSeq(f), c, IF et THEN "0.02" ELSE "1e-8", "density"))
  ELSE \* dimensionless and dimensional
       LET e == At(Pairs20, i, 7)
           m == e[1]
           P(p) == Norm(p, Value(m, e[2], p, SceneOf(m, s, i)))
           a == Tight(m, e[2], ArgsOf(m, e[2], SceneOf(m, s, i))) @@ [p \in {"gamma_v", "g"} \cap (DOMAIN DefOf[m][e[2]]) |-> P(p)]
           gb == m = "ov_deridder2026" /\ e[4] = "H"      \* the dimensionless function takes the factor
           b == [p \in (DOMAIN a) \cap (DOMAIN DefOf[m][e[3]]) |-> a[p]] @@ (IF gb THEN [gamma_beta |-> RF(3, 1)] ELSE <<>>)
           H == IF Has(a, "Hm0") THEN a.Hm0 ELSE a.Hm0_HF
           g == IF Has(a, "g") THEN a.g ELSE R("9.81")
           sc == IF e[4] = "H" THEN H ELSE ToR(QScale(H, g))
           r == IF gb THEN Ok(<<>>) ELSE Call(m, e[3], b)
           d == C(m, e[2], a)
           n == C(m, e[3], b)
           t == C(m, "calculate_gamma_beta", [theta |-> IF Has(a, "theta") THEN a.theta ELSE ToR(0)])
       IN Mk(i, "pair", IF gb THEN <<d, t, t, n>> ELSE <<d, n>>, <<REq("dimensional", T(1, 1), TM(IF gb THEN 4 ELSE 2, 1, sc), "1e-9", 0)>> \o (IF ~gb /\ I!>=(Len(r.v), 2) THEN <<RFlag("dimensional", 1, 2, 2, 2)>> ELSE <<>>))

-----------------------------------------------------------------------------
(* C21: iterations.  The result satisfies the equation of its method; it does
   not depend on where the iteration starts, nor - beyond the tolerance - on
   the tolerance; a composite slope acts as the average slope found for it. *)
It21 == <<<<"ru_taw2002", "iteration_procedure_z2p", "z2p">>, <<"ru_eurotop2018", "iteration_procedure_z2p", "z2p">>, <<"ru_taw2002", "iteration_procedure_z2p", "z2p">>,
  <<"core_physics", "calculate_local_wavelength", "dispersion">>, <<"ra_kramerburcharth2004_lowcrested", "calculate_nominal_rock_diameter_Dn50", "kramerD">>,
  <<"ra_kramerburcharth2004_lowcrested", "calculate_crest_freeboard_Rc", "kramerR">>, <<"ra_etemadshahidi2020", "calculate_nominal_rock_diameter_Dn50", "etemad2020">>,
  <<"ra_jumelet2024", "calculate_significant_wave_height_Hs", "jumelet">>, <<"tb_etemadshahidi2021", "calculate_significant_wave_height_Hs", "etemad2021">>,
  <<"rr_vangent2007", "calculate_maximum_significant_wave_height_Hs", "rear2007">>, <<"rr_vangentpozueta2004", "calculate_maximum_significant_wave_height_Hs", "rear2004">>,
  <<"ov_vangent2025", "calculate_dimensionless_crest_freeboard", "wind">>, <<"ru_taw2002", "iteration_procedure_gamma_b", "gammab">>, <<"ru_eurotop2018", "iteration_procedure_gamma_b", "gammab">>,
  <<"tb_takahashi1990_caisson", "calculate_significant_wave_height_Hs", "takahashiH">>, <<"tb_takahashi1990_caisson", "calculate_significant_depth_above_toe_hacc", "takahashiD">>>>
Toled == SelectSeq(It21, LAMBDA q : HasP(q, {"tolerance"}))
Inits == {"Cp_init", "smm10_init", "Ns_init", "Rc_Dn50_init"}
Started == SelectSeq(It21, LAMBDA q : AnyP(q, Inits))
InitVal(p, s, i, n) ==
  LET u == U(s, i, <<"init", p, n>>)
  IN CASE p = "Cp_init" -> Sig(Lin(u, "0.2", 2), 3) [] p = "smm10_init" -> Sig(LogU(u, "0.002", "0.08"), 3)
       [] p = "Ns_init" -> Sig(Lin(u, "0.5", 6), 3) [] OTHER -> Sig(Lin(u, -3, 3), 3)
Tols == <<"1e-2", "1e-3", "1e-4", "1e-5", "1e-6", "1e-8", "1e-10", "1e-12">>
Wind21(m, a) == IF m = "ov_vangent2025" THEN With(a, [include_influence_wind |-> TRUE]) ELSE a
\* functions where a composite slope may be given
Comp21 == SelectSeq(Calc, LAMBDA q : HasP(q, {"cot_alpha", "cot_alpha_down", "cot_alpha_up", "gamma_b", "gamma_beta", "Tmm10", "Hm0", "B_berm", "db"}))
CompIter(m) == IF m = "ov_taw2002" THEN "ru_taw2002" ELSE IF m = "ov_eurotop2018" THEN "ru_eurotop2018" ELSE m
Case21(s, i) ==
  LET k == I!%(i, 6) IN
  IF k \in {0, 1, 2}
  THEN LET q == At(It21, i, 6)
           m == q[1]
           f == q[2]
           a0 == Wind21(m, ArgsOf(m, f, SceneOf(m, s, i)))
           a == IF HasP(q, {"tolerance"}) /\ Prob(s, i, "tolg", "0.7") THEN With(a0, [tolerance |-> R(Pick(s, i, "tolv", Tols))]) ELSE a0
       IN IF (Search(m, f) /\ k # 0) THEN None(i) ELSE IF (IF TkHacc(C(m, f, a)) THEN ~TkHaccRel(ScalarOutcome(C(m, f, a), a)) ELSE Call(m, f, a).e # "") THEN None(i) ELSE Mk(i, "residual", <<C(m, f, a)>>, <<RRes(q[3], 1)>> \o (IF q[3] = "wind" THEN <<RAdm(T(1, 1), "0.5", 1000)>> ELSE <<>>))
  ELSE IF k = 3
  THEN LET q == At(Started, i, 6)
           m == q[1]
           f == q[2]
           a == Tight(m, f, ArgsOf(m, f, SceneOf(m, s, i)))
           b(n) == With(a, [p \in Inits \cap DOMAIN DefOf[m][f] |-> InitVal(p, s, i, n)])
       IN Mk(i, "start", <<C(m, f, b(1)), C(m, f, b(2))>>, <<RNear("start", 2, 1, IF m = "tb_etemadshahidi2021" THEN "0.03" ELSE IF m = "ra_jumelet2024" THEN "0.05" ELSE "1e-7")>>)
  ELSE IF k = 4
  THEN LET q == At(Toled, i, 6)
           m == q[1]
           f == q[2]
           a == Wind21(m, ArgsOf(m, f, SceneOf(m, s, i)))
           t == R(Pick(s, i, "tolv", Tols))
           b(x) == With(a, [tolerance |-> x])
       IN Mk(i, "tolerance", <<C(m, f, b(t)), C(m, f, b(R("1e-12")))>>, <<REq("tolerance", T(1, 1), T(2, 1), 0, ToR(20 * t))>>)
  ELSE LET q == At(Comp21, i, 6)
           m == q[1]
           f == q[2]
           P(p) == Norm(p, Value(m, f, p, SceneOf(m, s, i)))
           z == Without(ArgsOf(m, f, SceneOf(m, s, i)), {"cot_alpha", "beta"})
           a == With(z, [p \in {"cot_alpha_down", "cot_alpha_up", "gamma_b", "gamma_beta"} |-> P(p)])
           ez == Complete(m, f, a)
           e == [p \in {"Hm0", "Tmm10", "cot_alpha_down", "cot_alpha_up", "B_berm", "db", "gamma_f", "gamma_beta"} |-> IF IsStr(ez[p]) THEN R(ez[p]) ELSE ToR(ez[p])]
           k2 == IF m = "ov_taw2002" THEN <<>> ELSE IF m = "ov_eurotop2018" THEN (IF Has(a, "use_best_fit") THEN [use_best_fit |-> a.use_best_fit] ELSE <<>>) ELSE [p \in {"c1", "c2", "c3", "c4", "use_best_fit"} \cap DOMAIN a |-> a[p]]
           it == [Hm0 |-> e.Hm0, Tmm10 |-> e.Tmm10, cot_alpha_down |-> e.cot_alpha_down, cot_alpha_up |-> e.cot_alpha_up, B_berm |-> e.B_berm, db |-> e.db, gamma_f |-> e.gamma_f, gamma_beta |-> e.gamma_beta] @@ k2
           b == With(Without(a, {"cot_alpha_down", "cot_alpha_up"}), [cot_alpha |-> RF(2, 1)])
       IN Mk(i, "composite", <<C(CompIter(m), "iteration_procedure_z2p", it),
                               C("ru_taw2002", "determine_average_slope", [Hm0 |-> e.Hm0, z2p |-> RF(1, 1), cot_alpha_down |-> e.cot_alpha_down, cot_alpha_up |-> e.cot_alpha_up, B_berm |-> e.B_berm, db |-> e.db]),
                               C(m, f, a), C(m, f, b)>>, <<RNear("average slope", 3, 4, "1e-9"), RAdm(T(2, 1), 0, 1000)>>)

-----------------------------------------------------------------------------
(* C22: options.  An option left out is the option at its published value;
   another value changes the result as the equation says; the best fit is
   the published set of coefficients. *)
NotOpt == {"max_iter", "max_iterations", "tolerance", "file_name", "return_dict", "do_validity_check"} \cup Inits
OptOf(m, f) == {p \in DOMAIN DefOf[m][f] : LET d == DefOf[m][f][p] IN ~Same(d, "req") /\ ~Same(d, "None") /\ p \notin NotOpt}
DefVal(d) == IF IsStr(d) /\ d \in {"permeable", "impermeable", "rough"} THEN d ELSE IF IsBool(d) THEN d ELSE IF IsStr(d) THEN R(d) ELSE ToR(d)
F22 == SelectSeq(Calc, LAMBDA q : OptOf(q[1], q[2]) # {} /\ ~Search(q[1], q[2]))
\* sessions without iterations that stop at a fixed tolerance
EffTol(m, f) == IF m = "tb_etemadshahidi2021" /\ f = "calculate_significant_wave_height_Hs" THEN "0.02"
                ELSE IF m \in {"ov_vangent2025", "ov_taw2002", "ov_eurotop2018", "ru_taw2002", "ru_eurotop2018", "rr_vangent2007", "rr_vangentpozueta2004", "ra_jumelet2024"} THEN "1e-5" ELSE "1e-7"
BestTab == <<<<"ru_taw2002", <<"c1", "c2", "c3", "c4">>, KBestFit>>, <<"ru_eurotop2018", <<"c1", "c2", "c3", "c4">>, KBestFit>>, <<"ov_eurotop2018", <<"c1", "c2", "c3", "c4">>, EoBest>>,
             <<"ov_eurotop2007", <<"c2", "c3">>, <<"0.2", "2.6">>>>, <<"ov_eurotop2018", <<"c2", "c3">>, <<EoBest[2], EoBest[3]>>>>>>
BestFuns(e) == SelectSeq(Calc, LAMBDA q : q[1] = e[1] /\ HasP(q, {"use_best_fit"}) /\ (DOMAIN DefOf[q[1]][q[2]]) \cap {"c1", "c2", "c3", "c4"} = {e[2][j] : j \in DOMAIN e[2]} /\ q[2] # "check_best_fit")
Best22 == Chain([j \in DOMAIN BestTab |-> [n \in DOMAIN BestFuns(BestTab[j]) |-> <<BestFuns(BestTab[j])[n], BestTab[j]>>]])
Case22(s, i) ==
  LET k == I!%(i, 5) IN
  IF k = 0
  THEN \* the best fit
       LET e == At(Best22, i, 5)
           m == e[1][1]
           f == e[1][2]
           a0 == ArgsOf(m, f, SceneOf(m, s, i))
           a == IF m = "ov_eurotop2018" /\ AnyP(e[1], {"cot_alpha_down"}) THEN Single(m, f, a0, s, i) ELSE a0
           cs == [j \in DOMAIN e[2][2] |-> e[2][2][j]]
           x == With(a, [use_best_fit |-> TRUE])
           y == With(a, [p \in {cs[j] : j \in DOMAIN cs} |-> R(e[2][3][CHOOSE j \in DOMAIN cs : cs[j] = p])] @@ [use_best_fit |-> FALSE])
       IN Mk(i, "best fit", <<C(m, f, x), C(m, f, y)>>, <<RNear("best fit", 1, 2, "1e-12"), RWNames("best fit", 1, 2)>>)
  ELSE LET q == At(F22, i, 5)
           m == q[1]
           f == q[2]
           sc == SceneOf(m, s, i)
           a0 == Tight(m, f, ArgsOf(m, f, sc))
           O == OptOf(m, f)
           num == {p \in O : ~Same(DefOf[m][f][p], "NaN")}
           sub(S, x) == LET S1 == {p \in S : Prob(s, i, <<"opt", p>>, x)} IN IF S1 = {} /\ S # {} THEN {Pick(s, i, "opt1", SeqOf(S))} ELSE S1
       IN IF k \in {1, 2}
          THEN \* given at the default
               LET P == sub(O, "0.6")
                   x == Without(a0, P)
                   y == With(x, [p \in P |-> DefVal(DefOf[m][f][p])])
               IN IF P = {} THEN None(i)
                  ELSE Mk(i, "default", <<WithKeys(C(m, f, x)), WithKeys(C(m, f, y))>>, IF Call(m, f, x).e # "" THEN <<RErr("default", 1), RErr("default", 2)>> ELSE <<RNear("default", 1, 2, "1e-12"), RWNames("default", 1, 2)>>)
          ELSE \* another value
               LET P == IF num = {} THEN {} ELSE IF Prob(s, i, "one", "0.6") THEN {At(SeqOf(num), i, I!*(5, Len(F22)))} ELSE sub(num, "0.3")
                   x == Without(a0, P)
                   y == With(x, [p \in P |-> IF IsBool(DefOf[m][f][p]) THEN ~DefOf[m][f][p] ELSE Norm(p, Value(m, f, p, sc))])
               IN IF P = {} \/ IsCheck(f) THEN None(i)
                  ELSE Mk(i, "effect", <<WithKeys(C(m, f, x)), WithKeys(C(m, f, y))>>, <<REffect("effect", 1, 2, EffTol(m, f))>>)

-----------------------------------------------------------------------------
(* C23: files.  One to four requests to the writers, with the same or other
   names, in one directory. *)
WrFuns == <<<<"ov_denbieman2021", "write_input_file_XGB_Overtopping">>, <<"ov_vangent2007", "write_input_file_NN_Overtopping">>>>
WVals(p, s, i, n) ==      \* a value with 1 to 17 digits
  LET u == U(s, i, <<"wv", p, n>>)
      x == CASE p = "beta" -> Lin(u, -90, 90)
             [] p \in {"db", "Rc"} -> Lin(u, -4, 12)
             [] p \in {"gamma_f", "gamma_f_down", "gamma_f_up"} -> Lin(u, "0.3", 1)
             [] p \in {"tan_alpha_B", "tan_alpha_f"} -> Lin(u, 0, "0.2")
             [] p \in {"cot_alpha_down", "cot_alpha_up"} -> Lin(u, 0, 8)
             [] OTHER -> LogU(u, "0.000001", 100000)
      d == RndInt(s, i, <<"wd", p, n>>, 8)
  IN IF d < 4 THEN Sig(x, I!+(1, RndInt(s, i, <<"we", p, n>>, 4))) ELSE IF d < 5 THEN ToR(0) ELSE ToR(x)
Lens23 == <<1, 2, 3, 5, 12, 30, 120, 0>>
WCall(s, i, k) ==
  LET q  == Pick(s, i, <<"wf", k>>, WrFuns)
      n  == Pick(s, i, <<"wn", k>>, Lens23)
      n2 == Pick(s, i, <<"wn2", k>>, Lens23)
      mo == Pick(s, i, <<"wm", k>>, <<"all", "all", "mix", "mix", "mix", "one", "one", "bad", "lack">>)
      key(p) == <<p, k>>
      P  == {FileCols[q[2]][j] : j \in DOMAIN FileCols[q[2]]}
      \* the inputs given as arrays
      A  == CASE mo = "all" -> P [] mo = "one" -> {} [] OTHER -> {p \in P : Prob(s, i, <<"wa", key(p)>>, "0.5")} \cup (IF Prob(s, i, <<"wb", k>>, "0.6") THEN {"beta"} ELSE {})
      od == Pick(s, i, <<"wo", k>>, SeqOf(P))
      a0 == [p \in P |-> IF p \in A THEN [arr |-> [j \in Range1(IF mo = "bad" /\ p = od THEN n2 ELSE n) |-> WVals(p, s, i, <<k, IF Prob(s, i, <<"dup", k, j>>, "0.2") THEN 1 ELSE j>>)]] ELSE WVals(p, s, i, <<k, 0>>)]
      a1 == IF mo = "lack" THEN Without(a0, {od}) ELSE a0
      nm == Pick(s, i, <<"wname", k>>, <<"", "", "a", "a", "case 1", "x.y">>)
      a  == IF nm = "" THEN a1 ELSE With(a1, [file_name |-> nm])
      ty == Pick(s, i, <<"wty", k>>, <<"", "", "int", "np">>)
      may == FALSE
  IN [c |-> C(q[1], q[2], a) @@ [ty |-> ty, files |-> IF NNf(q[2]) THEN "NN" ELSE "XGB"], may |-> may]
Case23(s, i) ==
  LET n == Pick(s, i, "wnum", <<1, 2, 3, 4>>)
      w == [k \in Range1(n) |-> WCall(s, i, k)]
  IN Mk(i, "files", [k \in Range1(n) |-> w[k].c], [k \in Range1(n) |-> RFile(k, w[k].may)] \o [k \in Range1(n) |-> RPure(k)])

-----------------------------------------------------------------------------
(* C24: notices.  The same request with and without what calls for a notice. *)
F24n == Wth({"Dn50", "M50"}) \o Wth({"Dn50_core", "M50_core"})
F24s == Wth({"sigma", "use_best_fit"})
F24c == SelectSeq(Calc, LAMBDA q : Limited(q[1], q[2]))
F24o == SelectSeq(Calc, LAMBDA q : ~Search(q[1], q[2]))
Case24(s, i) ==
  LET k == I!%(i, 4)
      q == At(<<F24n, F24s, F24c, F24o>>[I!+(k, 1)], i, 4)
      m == q[1]
      f == q[2]
      D == DOMAIN DefOf[m][f]
      sc == SceneOf(m, s, i)
      P(p) == Norm(p, Value(m, f, p, sc))
      a == ArgsOf(m, f, sc)
      ask(b) == Cty(m, f, b, s, i)
      tell(bs) == Mk(i, "notice", [j \in DOMAIN bs |-> ask(bs[j])], [j \in DOMAIN bs |-> RNote("notice", j)])
  IN CASE k = 0 ->      \* by mass, with and without the density
            LET core == HasP(q, {"Dn50_core", "M50_core"}) /\ (~HasP(q, {"Dn50", "M50"}) \/ Prob(s, i, "core", "0.5"))
                d == IF core THEN "Dn50_core" ELSE "Dn50"
                w == IF core THEN "M50_core" ELSE "M50"
                r == CHOOSE x \in {"rho_core", "rho_rock", "rho_armour"} : x \in D /\ (core <=> x = "rho_core")
                z == Without(a, {d, w, r})
                opt == ~Same(DefOf[m][f][r], "req")
                b1 == With(z, [p \in {w} |-> P(w)])
                b2 == With(b1, [p \in {r} |-> P(r)])
                b3 == With(IF opt THEN z ELSE With(z, [p \in {r} |-> P(r)]), [p \in {d} |-> P(d)])
            IN tell((IF opt THEN <<b1>> ELSE <<>>) \o <<b2, b3>>)
       [] k = 1 ->      \* the spread of the coefficients
            LET v == Pick(s, i, "sig", <<"0.5", 1, "1.64", 2, -1, "0.001">>)
                z == Without(a, {"sigma", "use_best_fit"})
            IN tell(<<With(z, [sigma |-> ToR(v)]), With(z, [sigma |-> ToR(v), use_best_fit |-> TRUE]), With(z, [sigma |-> ToR(0), use_best_fit |-> FALSE]), With(z, [sigma |-> ToR(v), use_best_fit |-> FALSE])>>)
       [] k = 2 ->      \* few and many steps
            LET n == RndInt(s, i, "steps", 12)
                t == R(Pick(s, i, "tolv", Tols))
                lim(x) == With(a, [max_iterations |-> ToR(x), tolerance |-> t])
            IN tell(<<lim(I!+(n, 1)), lim(Pick(s, i, "many", <<40, 200, 1000, 10000>>)), a>>)
       [] OTHER -> tell(<<a>>)

-----------------------------------------------------------------------------
CaseD(prop, s, i) ==
  CASE prop = "C19" -> Case19(s, i)
    [] prop = "C20" -> Case20(s, i)
    [] prop = "C21" -> Case21(s, i)
    [] prop = "C22" -> Case22(s, i)
    [] prop = "C23" -> Case23(s, i)
    [] prop = "C24" -> Case24(s, i)
=============================================================================
