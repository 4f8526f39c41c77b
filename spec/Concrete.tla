------------------------------ MODULE Concrete ------------------------------
(* functions/structural/stability_concrete_armour *)
EXTENDS Rock

(* units designed with the Hudson formula *)
HuM(z, c) == OkC(<<HudsonM(z.Hs, z.rho_water, z.rho_armour, z.KD, z.cot_alpha, z.alpha_Hs)>>, c)
HuH(z, c) == OkC(<<HudsonH(z.M, z.rho_water, z.rho_armour, z.KD, z.cot_alpha, z.alpha_Hs)>>, c)

\* KD for breaking waves falls with the seabed slope (%): constant to 1 %,
\* straight lines to 5 % and 10 %, constant beyond; in steps of 0.1, rounded down
KDSlope(s, k1, k5, k10) ==
  LET k == CASE s <= 1  -> ToR(k1)
             [] s <= 5  -> k1 + (k5 - k1) * ((s - 1) / 4)
             [] s <= 10 -> k5 + (k10 - k5) * ((s - 5) / 5)
             [] OTHER   -> ToR(k10)
  IN Floor(k * 10 + "1e-7") / 10
KDr(s) == <<s < 0, s <= 1, s <= 5, s <= 10>>
ChkSlope(cot, F) == If(G(cot), ChkP("cot_alpha", "Cotangent of the front-side slope of the structure", F, cot, "1.33", "1.5"))
ChkSeabed(s, F)  == If(G(s), ChkP("seabed_slope_perc", "Seabed slope in percentage", F, s, 0, 10))

InterlockingUnit(f, z, F1, F2, check, k1, k5, k10) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkSlope(z.cot_alpha, F1) \cup ChkSeabed(z.seabed_slope_perc, F2))
    [] f = "calculate_unit_mass_M" -> HuM(z, If(check, ChkSlope(z.cot_alpha, F1)))
    [] f = "calculate_significant_wave_height_Hs" -> HuH(z, If(check, ChkSlope(z.cot_alpha, F1)))
    [] f = "calculate_KD_breaking_trunk_from_seabed_slope" ->
         OkRC(<<KDSlope(z.seabed_slope_perc, k1, k5, k10)>>, KDr(z.seabed_slope_perc), ChkSeabed(z.seabed_slope_perc, F2))
    [] f = "calculate_KD_nonbreaking_trunk_from_seabed_slope" -> Ok(<<ToR(k1)>>)
Eval_ca_accropode_hudson1959(f, z)  == InterlockingUnit(f, z, "Accropodes Hudson 1959", "Accropode documentation", TRUE, 15, "9.7", 8)
Eval_ca_accropode2_hudson1959(f, z) == InterlockingUnit(f, z, "Accropode II Hudson 1959", "Accropode II documentation", TRUE, 16, "10.66", 9)
Eval_ca_core_loc_hudson1959(f, z)   == InterlockingUnit(f, z, "Core Loc Hudson 1959", "Core Loc documentation", FALSE, 16, "10.66", 9)

PlainUnit(f, z) ==
  CASE f = "check_validity_range" -> Ok(<<>>)
    [] f = "calculate_unit_mass_M" -> HuM(z, {})
    [] f = "calculate_significant_wave_height_Hs" -> HuH(z, {})
Eval_ca_cubes_double_layer_hudson1959(f, z) == PlainUnit(f, z)
Eval_ca_cubipod_hudson1959(f, z) == PlainUnit(f, z)
Eval_ca_tetrapod_hudson1959(f, z) == PlainUnit(f, z)

-----------------------------------------------------------------------------
(* cubes in a double layer, van der Meer (1988) *)
ChkCu(Hs, T, rho, NW, cot, ph, pt) ==
  LET F == "Double layer cubes vander Meer 1988" IN
       If(G(Hs), ChkP(ph, "Significant wave height Hs", F, Hs, "0.01", 20))
  \cup If(G(NW), ChkP("N_waves", "Number of waves N_waves", F, NW, 0, 7500))
  \cup If(G(T), ChkP(pt, "Wave period Tm", F, T, "0.5", 30))
  \cup If(G(rho), ChkP("rho_armour", "Armour density rho_armour", F, rho, 2000, 3100))
  \cup If(G(cot), ChkP("cot_alpha", "Cotangent of outer structure slope cot_alpha", F, cot, "1.5", "1.5"))
  \cup If(G(Hs) /\ G(T), Chk("Wave steepness using Tm and Hs", F, S0(Hs, T), "0.005", "0.07"))
CuNs(Nod, n, s) == ("6.7" * ((Nod ^ "0.4") / (n ^ "0.3")) + 1) * (s ^ "-0.1")
CuT(H, s) == Sqrt(H / (s * ("9.81" / (2 * Pi))))
Eval_ca_cubes_double_layer_vandermeer1988(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkCu(z.Hs, z.Tm, z.rho_armour, z.N_waves, z.cot_alpha, "Hs", "Tm"))
    [] f = "calculate_nominal_diameter_Dn_vanDerMeer1988" ->
         OkC(<<z.Hs / (CuNs(z.Nod, z.N_waves, S0(z.Hs, z.Tm)) * Delta(z.rho_armour, z.rho_water))>>,
             ChkCu(z.Hs, z.Tm, z.rho_armour, z.N_waves, z.cot_alpha, "Hs", "Tm"))
    [] f = "calculate_wave_height_Hs_vanDerMeer1988" ->
         LET H == ToR(CuNs(z.Nod, z.N_waves, z.s0m) * Delta(z.rho_armour, z.rho_water) * z.Dn)
         IN OkC(<<H>>, ChkCu(H, CuT(H, z.s0m), z.rho_armour, z.N_waves, z.cot_alpha, "", ""))
    [] f = "calculate_damage_Nod_vanDerMeer1988" ->
         OkC(<<((((z.Hs / (Delta(z.rho_armour, z.rho_water) * z.Dn)) / (z.s0m ^ "-0.1") - 1) / "6.7") * (z.N_waves ^ "0.3")) ^ "2.5">>,
             ChkCu(z.Hs, CuT(z.Hs, z.s0m), z.rho_armour, z.N_waves, z.cot_alpha, "Hs", ""))

-----------------------------------------------------------------------------
(* cubes in a single layer, van Gent (2002) *)
CsM(z) == Ok(<<M50of(z.Hs / (z.Ns * Delta(z.rho_armour, z.rho_water)), z.rho_armour)>>)
CsH(z) == Ok(<<z.Ns * Delta(z.rho_armour, z.rho_water) * Dn50of(z.M, z.rho_armour)>>)
Eval_ca_cubes_single_layer_vangent2002(f, z) ==
  CASE f = "check_validity_range" -> Ok(<<>>)
    [] f \in {"calculate_unit_mass_M_start_of_damage", "calculate_unit_mass_M_failure"} -> CsM(z)
    [] f \in {"calculate_significant_wave_height_Hs_start_of_damage", "calculate_significant_wave_height_Hs_failure"} -> CsH(z)

-----------------------------------------------------------------------------
(* Xbloc and XblocPlus: stability coefficient and correction factors *)
XSeabed(c) == CASE c > 30 -> 1 [] c > 20 -> "1.1" [] c > 15 -> "1.25" [] c > 10 -> "1.5" [] OTHER -> 2
XSeabedR(c) == <<XSeabed(c)>>
XFree(r, low, mid) == CASE r < "0.5" -> low [] r < 1 -> mid [] OTHER -> 1
XV(z, k) == z.total_correction_factor * ((z.Hs / (k * Delta(z.rho_armour, z.rho_water))) ^ 3)
XH(z, V, k) == ((V / z.total_correction_factor) ^ (1 / 3)) * k * Delta(z.rho_armour, z.rho_water)
XUnit(f, z, k, low, mid, permLow, permNone) ==
  CASE f = "check_validity_range" -> Ok(<<>>)
    [] f = "calculate_wave_height_Hs_from_V" -> Ok(<<XH(z, z.V, k)>>)
    [] f = "calculate_wave_height_Hs_from_M" -> Ok(<<XH(z, z.M / z.rho_armour, k)>>)
    [] f = "calculate_unit_volume_V" -> Ok(<<XV(z, k)>>)
    [] f = "calculate_unit_mass_M" -> Ok(<<XV(z, k) * z.rho_armour>>)
    [] f = "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed" -> OkR(<<ToR(XSeabed(z.cot_alpha))>>, XSeabedR(z.cot_alpha))
    [] f = "calculate_correctionfactor_unit_mass_M_by_percslope_seabed" -> OkR(<<ToR(XSeabed(100 / z.perc_slope))>>, XSeabedR(100 / z.perc_slope))
    [] f = "calculate_correctionfactor_unit_mass_M_by_relative_freeboard" ->
         OkR(<<ToR(XFree(z.rel_freeboard, low, mid))>>, <<XFree(z.rel_freeboard, low, mid)>>)
    [] f = "switch_correctionfactor_unit_mass_M_by_core_permeability" ->
         OkR(<<ToR(IF z.core_impermeable THEN permNone ELSE IF z.low_core_permeability THEN permLow ELSE 1)>>,
             <<z.core_impermeable, z.low_core_permeability>>)
    [] f = "calculate_correctionfactor_unit_mass_M_by_rel_depth" ->
         OkR(<<ToR(IF z.rel_depth > "3.5" THEN 2 ELSE IF z.rel_depth > "2.5" THEN "1.5" ELSE 1)>>, <<z.rel_depth > "3.5", z.rel_depth > "2.5">>)
    [] f = "switch_correction_factor_unit_mass_M_near_design_event_frequency" ->
         OkR(<<ToR(IF z.design_event_occurs_frequently THEN "1.25" ELSE 1)>>, <<z.design_event_occurs_frequently>>)
    [] f = "calculate_correctionfactor_unit_mass_M_by_structure_slope" ->
         OkR(<<ToR(IF z.cot_alpha > 2 / 3 THEN "1.25" ELSE IF z.cot_alpha > "0.5" THEN "1.5" ELSE 1)>>, <<z.cot_alpha > 2 / 3, z.cot_alpha > "0.5">>)
Eval_ca_xbloc(f, z)     == XUnit(f, z, "2.77", 2, "1.5", "1.5", 2)
Eval_ca_xblocplus(f, z) == XUnit(f, z, "2.5", "1.5", "1.25", "1.25", "1.5")

(* the published unit properties: <<module, path, value>> *)
UnitProps == <<
  <<"ca_accropode_hudson1959", "KD.trunk_non_breaking", 15>>, <<"ca_accropode_hudson1959", "KD.trunk_breaking", 12>>,
  <<"ca_accropode_hudson1959", "KD.head_non_breaking", "11.5">>, <<"ca_accropode_hudson1959", "KD.head_breaking", "9.5">>,
  <<"ca_accropode_hudson1959", "kt", "1.29">>, <<"ca_accropode_hudson1959", "nlayers", 1>>,
  <<"ca_accropode2_hudson1959", "KD.trunk_breaking_min", 9>>, <<"ca_accropode2_hudson1959", "KD.trunk_breaking_max", 16>>,
  <<"ca_accropode2_hudson1959", "KD.trunk_nonbreaking", 16>>, <<"ca_accropode2_hudson1959", "kt", "1.52">>, <<"ca_accropode2_hudson1959", "nlayers", 1>>,
  <<"ca_core_loc_hudson1959", "KD.trunk", 16>>, <<"ca_core_loc_hudson1959", "KD.head", 13>>, <<"ca_core_loc_hudson1959", "kt", "1.516">>,
  <<"ca_core_loc_hudson1959", "nlayers", 1>>,
  <<"ca_cubes_double_layer_hudson1959", "KD.double_layer_trunk_non_breaking", "7.5">>, <<"ca_cubes_double_layer_hudson1959", "KD.double_layer_trunk_breaking", "6.5">>,
  <<"ca_cubes_double_layer_hudson1959", "KD.double_layer_head_non_breaking", 5>>,
  <<"ca_cubes_double_layer_hudson1959", "nv", "0.47">>, <<"ca_cubes_double_layer_hudson1959", "kt", "1.1">>,
  <<"ca_cubes_double_layer_hudson1959", "nlayers", 2>>, <<"ca_cubes_double_layer_hudson1959", "Delta_x_fact_Dn", "1.7">>,
  <<"ca_cubes_double_layer_hudson1959", "Delta_y_fact_Dn", "0.85">>,
  <<"ca_cubes_double_layer_vandermeer1988", "nv", "0.47">>, <<"ca_cubes_double_layer_vandermeer1988", "kt", "1.1">>,
  <<"ca_cubes_double_layer_vandermeer1988", "nlayers", 2>>, <<"ca_cubes_double_layer_vandermeer1988", "Delta_x_fact_Dn", "1.7">>,
  <<"ca_cubes_double_layer_vandermeer1988", "Delta_y_fact_Dn", "0.85">>,
  <<"ca_cubes_single_layer_vangent2002", "kt", 1>>, <<"ca_cubes_single_layer_vangent2002", "nlayers", 1>>,
  <<"ca_cubipod_hudson1959", "KD.trunk_double_layer", 28>>, <<"ca_cubipod_hudson1959", "KD.trunk_single_layer", 12>>,
  <<"ca_cubipod_hudson1959", "KD.head_double_layer", 7>>, <<"ca_cubipod_hudson1959", "KD.head_single_layer", 5>>, <<"ca_cubipod_hudson1959", "kt", 1>>,
  <<"ca_tetrapod_hudson1959", "KD.trunk_non_breaking", 8>>, <<"ca_tetrapod_hudson1959", "KD.trunk_breaking", 7>>,
  <<"ca_tetrapod_hudson1959", "KD.head_non_breaking", "5.5">>, <<"ca_tetrapod_hudson1959", "KD.head_breaking", "4.5">>,
  <<"ca_tetrapod_hudson1959", "nv", "0.5">>, <<"ca_tetrapod_hudson1959", "kt", "1.02">>, <<"ca_tetrapod_hudson1959", "nlayers", 2>>,
  <<"ca_xbloc", "KD.trunk_breaking", 16>>, <<"ca_xbloc", "KD.head_breaking", 13>>, <<"ca_xbloc", "kt", "1.4">>, <<"ca_xbloc", "nlayers", 1>>,
  <<"ca_xblocplus", "KD.trunk_breaking", 12>>, <<"ca_xblocplus", "kt", "1.33">>, <<"ca_xblocplus", "nlayers", 1>>
>>
=============================================================================
