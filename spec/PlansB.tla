------------------------------- MODULE PlansB -------------------------------
(* Sessions for the design directions that invert each other (C10 - C12).

   An entry  [m, f1, f2, p1, p2, k1, k2, tol, ab, fl]  stands for the session
       x := f1(..., p2 = y, ...);  z := f2(..., p1 = x * k1, ...)
   with z * k2 = y, for arguments both functions share.  k1, k2 convert
   between dimensionless and dimensional values: "" (none), "H" (the wave
   height), "Q" (the discharge scale).  fl: both report whether the maximum
   equation governs, and have to agree.                                      *)
EXTENDS PlansA

RT(m, f1, f2, p1, p2)            == [m |-> m, f1 |-> f1, f2 |-> f2, p1 |-> p1, p2 |-> p2, k1 |-> "", k2 |-> "", tol |-> "1e-6", ab |-> "1e-12", fl |-> FALSE]
RTx(m, f1, f2, p1, p2, k1, k2)   == [RT(m, f1, f2, p1, p2) EXCEPT !.k1 = k1, !.k2 = k2]
RTt(m, f1, f2, p1, p2, tol)      == [RT(m, f1, f2, p1, p2) EXCEPT !.tol = tol]
Fl(r) == [r EXCEPT !.fl = TRUE]
Both(m, f1, f2, p1, p2) == <<RT(m, f1, f2, p1, p2), RT(m, f2, f1, p2, p1)>>

TA2(m, f1, f2, p1, p2, tol) == <<RTt(m, f1, f2, p1, p2, tol), RTt(m, f2, f1, p2, p1, tol)>>

\* discharge and freeboard of one method: qf, rf dimensional; qd, rd dimensionless ("" if none)
QR(m, qf, rf, qd, rd, fl) ==
  LET F(r) == IF fl THEN Fl(r) ELSE r
  IN <<F(RT(m, rf, qf, "Rc", "q")), F(RT(m, qf, rf, "q", "Rc"))>>
     \o (IF rd = "" THEN <<>> ELSE <<F(RTx(m, rd, qf, "Rc", "q", "H", "")), F(RTx(m, qf, rd, "q", "Rc", "", "H"))>>)
     \o (IF qd = "" THEN <<>> ELSE <<F(RTx(m, rf, qd, "Rc", "q", "", "Q")), F(RTx(m, qd, rf, "q", "Rc", "Q", ""))>>)
     \o (IF qd = "" \/ rd = "" THEN <<>> ELSE <<F(RTx(m, rd, qd, "Rc", "q", "H", "Q")), F(RTx(m, qd, rd, "q", "Rc", "Q", "H"))>>)
MaxEq(m) == <<RTx(m, "Rc_diml_max_equation", "q_diml_max_equation", "Rc", "q", "H", "Q"), RTx(m, "q_diml_max_equation", "Rc_diml_max_equation", "q", "Rc", "Q", "H")>>

Std(m, fl) == QR(m, "calculate_overtopping_discharge_q", "calculate_crest_freeboard_Rc", "calculate_dimensionless_overtopping_discharge_q", "calculate_dimensionless_crest_freeboard", fl)
Rub(m) == QR(m, "calculate_overtopping_discharge_q_rubble_mound", "calculate_crest_freeboard_Rc_rubble_mound", "calculate_dimensionless_overtopping_discharge_q_rubble_mound",
             "calculate_dimensionless_crest_freeboard_rubble_mound", FALSE)
RT10 ==
  Std("ov_taw2002", TRUE) \o Std("ov_taw2002", TRUE) \o MaxEq("ov_taw2002")
  \o Std("ov_eurotop2018", TRUE) \o Std("ov_eurotop2018", TRUE) \o Rub("ov_eurotop2018") \o MaxEq("ov_eurotop2018")
  \o Rub("ov_eurotop2007") \o Std("ov_vangent2021_caisson", FALSE) \o Std("ov_vangent2025", FALSE) \o Std("ov_vangent2025", FALSE) \o MaxEq("ov_vangent2025")
  \o QR("ov_deridder2024", "calculate_overtopping_discharge_q_eq24", "calculate_crest_freeboard_discharge_q_eq24", "calculate_dimensionless_overtopping_discharge_eq24",
        "calculate_dimensionless_crest_freeboard_discharge_q_eq24", FALSE)
  \o QR("ov_deridder2024", "calculate_overtopping_discharge_q_eq26", "calculate_crest_freeboard_discharge_q_eq26", "calculate_dimensionless_overtopping_discharge_eq26", "", FALSE)
  \o QR("ov_deridder2026", "calculate_overtopping_discharge_q_eq28", "calculate_crest_freeboard_discharge_q_eq28", "calculate_dimensionless_overtopping_discharge_eq28", "", FALSE)
  \o QR("ov_deridder2026", "calculate_overtopping_discharge_q_eq32", "calculate_crest_freeboard_discharge_q_eq32", "calculate_dimensionless_overtopping_discharge_eq32", "", FALSE)

Dm == "calculate_damage_number_S"
Dd == "calculate_nominal_rock_diameter_Dn50"
Dh == "calculate_significant_wave_height_Hs"
Tri(m) == Both(m, Dd, Dm, "Dn50", "S") \o Both(m, Dh, Dm, "Hs", "S") \o Both(m, Dd, Dh, "Dn50", "Hs")
RT11 ==
  Both("ra_hudson1959", "calculate_median_rock_mass_M50_no_damage", "calculate_significant_wave_height_Hs_no_damage", "M50", "Hs")
  \o Both("ra_hudson1959", "calculate_median_rock_mass_M50", "calculate_significant_wave_height_Hs", "M50", "Hs")
  \o Tri("ra_vandermeer1988") \o Tri("ra_vandermeer1988_modified") \o Tri("ra_vandermeer2021") \o Tri("ra_etemadshahidi2020") 
  \o Both("ra_jumelet2024", Dd, Dm, "Dn50", "S") \o TA2("ra_jumelet2024", Dh, Dm, "Hs", "S", "0.03") \o TA2("ra_jumelet2024", Dd, Dh, "Dn50", "Hs", "0.01")
  \o Both("ra_scaravaglione2025", Dd, Dm, "Dn50", "S") \o Both("ra_scaravaglione2025", "calculate_significant_wave_height_Hm0", Dm, "Hm0", "S")
  \o Both("ra_scaravaglione2025", Dd, "calculate_significant_wave_height_Hm0", "Dn50", "Hm0")
  \o <<RT("ra_kramerburcharth2004_lowcrested", Dd, Dh, "Dn50", "Hs"), RT("ra_kramerburcharth2004_lowcrested", "calculate_crest_freeboard_Rc", Dh, "Rc", "Hs")>>

HudsonUnits == <<"ca_accropode2_hudson1959", "ca_accropode_hudson1959", "ca_core_loc_hudson1959", "ca_cubes_double_layer_hudson1959", "ca_cubipod_hudson1959", "ca_tetrapod_hudson1959">>
RECURSIVE Cat(_, _)
Cat(F(_), ms) == IF ms = <<>> THEN <<>> ELSE F(Head(ms)) \o Cat(F, Tail(ms))
HuRT(m) == Both(m, "calculate_unit_mass_M", "calculate_significant_wave_height_Hs", "M", "Hs")
XbRT(m) == Both(m, "calculate_unit_mass_M", "calculate_wave_height_Hs_from_M", "M", "Hs") \o Both(m, "calculate_unit_volume_V", "calculate_wave_height_Hs_from_V", "V", "Hs")
Nd == "calculate_nominal_diameter_Dn50"
Nn == "calculate_damage_Nod"
Nh == "calculate_wave_height_Hs"
Nt == "calculate_depth_above_toe_ht"
Toe(m) == Both(m, Nd, Nn, "Dn50", "Nod") \o Both(m, Nh, Nn, "Hs", "Nod") \o Both(m, Nt, Nn, "ht", "Nod") \o Both(m, Nd, Nh, "Dn50", "Hs") \o Both(m, Nd, Nt, "Dn50", "ht")
          \o Both(m, Nh, Nt, "Hs", "ht")
Cd == "calculate_nominal_diameter_Dn_vanDerMeer1988"
Ch == "calculate_wave_height_Hs_vanDerMeer1988"
Cn == "calculate_damage_Nod_vanDerMeer1988"
Mh == "calculate_maximum_significant_wave_height_Hs"
RT12 ==
  Cat(HuRT, HudsonUnits) \o XbRT("ca_xbloc") \o XbRT("ca_xblocplus")
  \o Both("ca_cubes_single_layer_vangent2002", "calculate_unit_mass_M_start_of_damage", "calculate_significant_wave_height_Hs_start_of_damage", "M", "Hs")
  \o Both("ca_cubes_single_layer_vangent2002", "calculate_unit_mass_M_failure", "calculate_significant_wave_height_Hs_failure", "M", "Hs")
  \o Both("ca_cubes_double_layer_vandermeer1988", Cd, Ch, "Dn", "Hs") \o Both("ca_cubes_double_layer_vandermeer1988", Ch, Cn, "Hs", "Nod")
  \o Both("ca_cubes_double_layer_vandermeer1988", Cd, Cn, "Dn", "Nod")
  \o Toe("tb_gerding1993") \o Toe("tb_vandermeer1998")
  \o TA2("tb_vangentvanderwerf2014", Nd, Nn, "Dn50", "Nod", "0.03")
  \o Both("tb_etemadshahidi2021", Nd, Nn, "Dn50", "Nod")
  \o <<RTt("tb_etemadshahidi2021", Dh, Nn, "Hs", "Nod", "0.05"), RTt("tb_etemadshahidi2021", Nd, Dh, "Dn50", "Hs", "0.02")>>
  \o <<RTt("tb_takahashi1990_caisson", Nd, Dh, "Dn50", "Hs", "0.02"), RTt("tb_takahashi1990_caisson", Dh, Nd, "Hs", "Dn50", "0.02"),
       RTt("tb_takahashi1990_caisson", Nd, "calculate_significant_depth_above_toe_hacc", "Dn50", "hacc", "0.02")>>
  \o TA2("rr_vangent2007", Dd, Dm, "Dn50", "S", "0.05") \o <<RTt("rr_vangent2007", Mh, Dm, "Hs", "S", "0.03"), RTt("rr_vangent2007", Dd, Mh, "Dn50", "Hs", "0.02")>>
  \o Both("rr_vangentpozueta2004", Dd, Dm, "Dn50", "S") \o Both("rr_vangentpozueta2004", Mh, Dm, "Hs", "S") \o Both("rr_vangentpozueta2004", Dd, Mh, "Dn50", "Hs")

\* arguments of one function that only steer its iteration
Steer == {"smm10_init", "Cp_init", "Rc_Dn50_init", "Ns_init"}
Height(a) == IF Has(a, "Hm0") THEN a.Hm0 ELSE IF Has(a, "Hm0_HF") THEN a.Hm0_HF ELSE a.Hs
GOf(a) == IF Has(a, "g") THEN a.g ELSE ToR("9.81")
Conv(k, a) == ToR(CASE k = "" -> 1 [] k = "H" -> Height(a) [] k = "Q" -> Sqrt(GOf(a) * (Height(a) ^ 3)))
\* with wind, the inverse is found to a tolerance and only for discharges where wind matters
WindQ(a, s, i) == IF Has(a, "include_influence_wind") /\ Has(a, "q") THEN (IF a.include_influence_wind THEN [a EXCEPT !["q"] = ToR(LogU(U(s, i, "wq"), "5e-5", "0.05") * Sqrt(GOf(a) * (a.Hm0 ^ 3)))] ELSE a) ELSE a

TripCase(t, s, i) ==
  LET m   == t.m
      sc  == SceneOf(m, s, i)
      d1  == DOMAIN DefOf[m][t.f1]
      d2  == DOMAIN DefOf[m][t.f2]
      A1  == Args(m, t.f1, s, i)
      A2  == Args(m, t.f2, s, i)
      req1 == {p \in d1 : Same(DefOf[m][t.f1][p], "req")}
      both == [p \in {p \in DOMAIN A1 : p \in d2 \/ p \in req1 \/ p = t.p2 \/ p \in Steer} |-> A1[p]]
      a0  == WindQ(both, s, i)
      \* the wave height enters as a value and as a ratio
      needR == t.p2 \in {"Hs"} /\ Has(a0, "H2p")
      \* the load the second function computes has to be given to the first
      withp2 == IF Has(a0, t.p2) THEN a0 ELSE a0 @@ [p \in {t.p2} |-> ToR(Value(m, t.f1, p, sc))]
      \* stone size and mass: give the size
      Dnof(a) == IF t.p2 = "Dn50" \/ ~Has(a, "Dn50") THEN [p \in DOMAIN a \ (IF t.p2 = "Dn50" THEN {"M50"} ELSE {}) |-> a[p]] ELSE a
      tight(a, d) == (IF "tolerance" \in d THEN [tolerance |-> ToR(IF m \in {"rr_vangent2007"} THEN "1e-8" ELSE "1e-11")] ELSE <<>>) @@ a
      base == Dnof(withp2)
      a1  == tight(base, d1)
      mul == Conv(t.k1, base)
      ref == IF t.k1 = "" THEN RF(1, 1) ELSE [ref |-> <<1, 1>>, mul |-> mul]
      drop == {t.p1} \cup (IF t.p1 = "Dn50" THEN {"M50"} ELSE {}) \cup (IF "tolerance" \in d1 THEN {"tolerance"} ELSE {}) \cup Steer
      shared == [p \in {p \in DOMAIN base : p \in d2 /\ p \notin drop} |-> base[p]]
      \* what the second function needs beyond the shared arguments
      more == [p \in {p \in {"ratio_H2p_Hs", "H2p", "s0m", "Tm", "smm10"} : p \in d2 /\ p \notin DOMAIN base} |->
                 CASE p = "ratio_H2p_Hs" -> ToR(base.H2p / base.Hs)
                   [] p = "H2p" -> (IF t.p1 = "Hs" THEN [ref |-> <<1, 1>>, mul |-> base.ratio_H2p_Hs] ELSE ToR(base.ratio_H2p_Hs * base.Hs))
                   [] p = "s0m" -> (IF t.p1 = "Hs" THEN NaN ELSE ToR(S0(base.Hs, base.Tm)))
                   [] p = "Tm" -> (IF Has(base, "Hs") THEN ToR(Sqrt((2 * Pi * base.Hs) / ("9.81" * base.s0m)))
                                   ELSE [ref |-> <<1, 1>>, pow |-> ToR("0.5"), mul |-> ToR(Sqrt((2 * Pi) / ("9.81" * base.s0m)))])
                   [] OTHER -> A2[p]]
      a2  == tight([p \in {t.p1} |-> ref] @@ shared @@ more, d2)
      wind == Has(base, "include_influence_wind") /\ (IF Has(base, "include_influence_wind") THEN base.include_influence_wind ELSE FALSE)
      tol == IF wind THEN "2e-3" ELSE t.tol
      k2  == Conv(t.k2, base)
      vg  == m = "ov_vangent2025"
      rc1 == t.p1 = "Rc"                     \* the freeboard comes first
      low == "0.5"
      ab  == IF t.p2 = "Rc" THEN "1e-7" * sc.H ELSE t.ab
      adm == IF vg /\ rc1 THEN <<RAdm(TM(1, 1, IF t.k1 = "H" THEN 1 ELSE 1 / base.Hm0), low, 30)>>
             ELSE IF vg THEN <<RAdm(TAM(1, "Rc", 1 / base.Hm0), low, 30),
                               RAdm(TM(1, 1, IF t.k1 = "Q" THEN 1 ELSE 1 / Conv("Q", base)), IF wind THEN "5e-5" ELSE "1e-30", "0.05")>>
             ELSE IF t.p1 = "q" THEN <<RAdm(T(1, 1), "1e-200", "1e200")>>       \* no underflow
             \* Takahashi: where the stability number is at its lower limit many depths need one size
             ELSE IF t.f2 = "calculate_significant_depth_above_toe_hacc" THEN <<RAdm(TM(1, 1, Delta(base.rho_rock, base.rho_water) / base.Hs), 0, 1 / "1.85")>>
             ELSE <<>>
      ok  == /\ \A p \in d2 : Same(DefOf[m][t.f2][p], "req") => p \in DOMAIN a2
             /\ Has(base, t.p2)
             /\ ~(t.p2 = "Rc" /\ Abs(base.Rc) < sc.H / 1000)      \* a root of zero: rounding decides whether it exists
             /\ ~(m \in {"tb_takahashi1990_caisson", "tb_etemadshahidi2021"} /\ sc.H < "1.5")
      z1  == Complete(m, t.f1, a1)
      H1  == Call(m, t.f1, a1).v
      ok2 == \* no damage below the threshold
             /\ ~(m = "tb_etemadshahidi2021" /\ t.f1 = Nn /\ Ns(z1.Hs, z1.Dn50, z1.rho_rock, z1.rho_water) <= z1.c1)
             \* the two regimes of Etemad-Shahidi (2020) do not meet exactly
             /\ ~(m = "ra_etemadshahidi2020" /\ t.f1 = Dh /\ H1 # <<>> /\ Close(Ksi(H1[1], z1.Tmm10, z1.cot_alpha), "1.8", "0.03"))
  IN IF ~ok \/ (m = "ov_vangent2025" /\ sc.wide) THEN None(i)
     ELSE IF ~ok2 THEN None(i)
     ELSE IF t.p2 = "hacc" THEN   \* more than one depth may need the same size
          Mk(i, "inverse", <<C(m, t.f1, a1), C(m, t.f2, a2), C(m, t.f1, [a1 EXCEPT !["hacc"] = RF(2, 1)])>>,
             <<RRes("search", 2)>> \o adm)
     ELSE Mk(i, "inverse", <<C(m, t.f1, a1) @@ [ty |-> Ty(s, i)], C(m, t.f2, a2) @@ [ty |-> Ty(s, i)]>>,
             <<REq("inverse of " \o t.f1, TM(2, 1, k2), TA(1, t.p2), tol, ab)>> \o (IF t.fl THEN <<RFlag("maximum governs", 1, 2, 2, 2)>> ELSE <<>>) \o adm)
Trip(ts, s, i) == TripCase(ts[I!+(I!%(i, Len(ts)), 1)], s, i)

CaseB(prop, s, i) ==
  CASE prop = "C10" -> Trip(RT10, s, i)
    [] prop = "C11" -> Trip(RT11, s, i)
    [] prop = "C12" -> Trip(RT12, s, i)
=============================================================================
