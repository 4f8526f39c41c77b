------------------------------- MODULE Domain -------------------------------
(* The input space: how an argument record for every function is drawn.  All
   choices are functions of (seed s, case number i), so a case is identified
   by its numbers.  A "scene" is one coastal situation (sea state, structure,
   materials); every parameter gets its value from the scene, so that the
   inputs of one call, and of different calls in one case, belong together. *)
EXTENDS Sys

I == INSTANCE Integers

U(s, i, k)          == Rnd(s, i, k)
Lin(u, a, b)        == a + u * (b - a)
LogU(u, a, b)       == a * ((b / a) ^ u)
Pick(s, i, k, seq)  == seq[I!+(RndInt(s, i, k, Len(seq)), 1)]
Prob(s, i, k, p)    == U(s, i, k) < p
\* shortest round values half of the time: inputs people type
Rd(s, i, k, x)      == LET d == RndInt(s, i, k, 4) IN IF d = 0 THEN Sig(x, 2) ELSE IF d = 1 THEN Sig(x, 3) ELSE Sig(x, 7)

\* ns: no small (laboratory) scales
SceneN(s, i, nosmall) ==
  LET wide == Prob(s, i, "wide", "0.2")
      whole == Prob(s, i, "whole", "0.1")       \* whole numbers only
      I1(x) == IF whole THEN Max2(1, Rint(x)) ELSE x
      H  == I1(Rd(s, i, "rH", IF ~nosmall /\ ~whole /\ Prob(s, i, "small", "0.2") THEN LogU(U(s, i, "H"), "0.03", "0.5") ELSE LogU(U(s, i, "H"), "0.5", 10)))
      st == IF wide THEN LogU(U(s, i, "st"), "0.0006", "0.14") ELSE LogU(U(s, i, "st"), "0.005", "0.07")
      T  == I1(Rd(s, i, "rT", Sqrt((2 * Pi * H) / ("9.81" * st))))
      rw == Pick(s, i, "rw", <<1000, 1025, 1025, 1030, Sig(Lin(U(s, i, "rwu"), 990, 1045), 5)>>)
      ra == Pick(s, i, "ra", <<2650, 2650, 2400, 2750, Sig(Lin(U(s, i, "rau"), 2000, 3200), 5)>>)
      dl == (ra - rw) / rw
      ns == IF wide THEN LogU(U(s, i, "ns"), "0.4", 9) ELSE Lin(U(s, i, "ns"), "0.9", "4.5")
      Dn == I1(Rd(s, i, "rD", H / (dl * ns)))
  IN [s |-> s, i |-> i, wide |-> wide, H |-> ToR(H), T |-> ToR(T), st |-> Sig(S0(H, T), 6), rw |-> ToR(rw), ra |-> ToR(ra), dl |-> ToR(dl), Dn |-> ToR(Dn),
      cot |-> ToR(IF Prob(s, i, "lmcot", "0.1") THEN Pick(s, i, "lcot", <<"1.5", 2, 3, 4, 4, 6>>) ELSE I1(Rd(s, i, "rcot", IF wide THEN Lin(U(s, i, "cot"), "0.7", 12) ELSE Lin(U(s, i, "cot"), "1.3", 6)))),
      h |-> ToR(I1(Rd(s, i, "rh", H * LogU(U(s, i, "h"), "0.8", 12)))),
      Rc |-> ToR(I1(Rd(s, i, "rRc", H * Lin(U(s, i, "Rc"), "0.15", "2.6"))))]
Scene(s, i) == SceneN(s, i, FALSE)
SceneOf(m, s, i) == SceneN(s, i, m = "tb_takahashi1990_caisson")

NPar == {"tr_briganti2003", "tr_dangremond1996", "tr_goda1967_caisson", "tr_vangent2023", "tr_vangent2024_setup"}

\* alternatives
AltBeta(sc)  == Pick(sc.s, sc.i, "altbeta", <<"b", "b", "b", "g", "g", "2">>)
AltSlope(sc) == Pick(sc.s, sc.i, "altslope", <<"s", "s", "p", "p", "2">>)
AltDn(sc)    == Pick(sc.s, sc.i, "altdn", <<"d", "d", "m", "2">>)
Miss(sc)     == Prob(sc.s, sc.i, "miss", "0.04")

IsCheck(f) == f \in {"check_validity_range", "check_validity", "check_validity_range_rubble_mound", "check_impulsive_breaking"}

\* is parameter p of f given explicitly?
Gives(m, f, p, sc) ==
  LET d == DefOf[m][f][p]
      Pr(x) == Prob(sc.s, sc.i, <<"give", p>>, x)
      has(x) == x \in DOMAIN DefOf[m][f]
  IN CASE Same(d, "req") -> TRUE
       [] Same(d, "None") -> LET w == RndInt(sc.s, sc.i, "none", 10)
                            four == <<"Hs", "Dn", "Delta", "Ns">>
                        IN IF w < 8 THEN p # four[I!+(I!%(w, 4), 1)] ELSE Pr("0.6")
       [] p = "gamma_beta" /\ f \in {"q_diml_max_equation", "Rc_diml_max_equation"} -> TRUE
       [] p \in {"max_iter", "max_iterations"} -> FALSE
       [] p = "file_name" -> FALSE
       [] IsCheck(f) -> Pr("0.8")
       [] f \in {"check_composite_slope", "calculate_berm_length"} -> IF Miss(sc) THEN Pr("0.5") ELSE
              (CASE p = "cot_alpha" -> AltSlope(sc) # "p" [] OTHER -> AltSlope(sc) # "s")
       [] p = "beta" /\ has("gamma_beta") /\ Same(d, "NaN") -> ~Miss(sc) /\ AltBeta(sc) # "g"
       [] p = "gamma_beta" /\ has("beta") /\ Same(d, "NaN") -> ~Miss(sc) /\ AltBeta(sc) # "b"
       [] p = "cot_alpha" /\ has("cot_alpha_down") -> IF Miss(sc) THEN Pr("0.2") ELSE AltSlope(sc) # "p"
       [] p \in {"cot_alpha_down", "cot_alpha_up"} -> IF Miss(sc) THEN Pr("0.3") ELSE AltSlope(sc) # "s"
       [] p = "cot_alpha" /\ Same(d, "NaN") -> Pr("0.93")
       [] p = "Dn50" /\ has("M50") -> ~Miss(sc) /\ AltDn(sc) # "m"
       [] p = "M50" /\ has("Dn50") -> ~Miss(sc) /\ AltDn(sc) # "d"
       [] p = "Dn50_core" /\ has("M50_core") -> ~Miss(sc) /\ Pick(sc.s, sc.i, "altcore", <<"d", "d", "m", "2">>) # "m"
       [] p = "M50_core" -> ~Miss(sc) /\ Pick(sc.s, sc.i, "altcore", <<"d", "d", "m", "2">>) # "d"
       [] p = "rho_core" -> Pr("0.85")
       [] p = "rho_rock" /\ Same(d, "NaN") -> Pr("0.85")
       [] p = "m" /\ m = "ra_etemadshahidi2020" -> Pr("0.7")
       [] p \in {"Hm0", "Hs"} /\ m = "ru_vangent2001" ->
             IF Miss(sc) THEN Pick(sc.s, sc.i, "altH2", <<TRUE, FALSE>>)
             ELSE (p = "Hm0") = Pick(sc.s, sc.i, "altH", <<TRUE, FALSE>>)
       [] p \in {"c0", "c1"} /\ Same(d, "NaN") -> Pr("0.2")
       [] p = "Dn50" /\ m = "ov_vangent2025" -> AltDn(sc) # "m" /\ ~Miss(sc)
       [] p = "gamma_f" /\ m = "ov_vangent2025" -> AltDn(sc) # "d"
       [] Same(d, "NaN") -> Pr("0.5")
       [] IsBool(d) -> Pr("0.5")
       [] p \in {"B_berm", "db", "gamma_f", "theta", "gamma_v", "gamma_star", "gamma_beta", "rock_type", "structure_type", "total_correction_factor", "rho_water"} -> Pr("0.65")
       [] p = "tolerance" -> Pr("0.1")
       [] OTHER -> Pr("0.25")

RECURSIVE Value(_, _, _, _), ArgsOf(_, _, _)
\* the size some other function of the module needs in this scene (sc.Dn when there is none)
Sized(m, f, sc) ==
  LET r == Call(m, f, ArgsOf(m, f, sc))
  IN IF r.e = "" /\ IsFin(r.v[1]) /\ r.v[1] > 0 THEN Sig(r.v[1] * Lin(U(sc.s, sc.i, "sized"), "0.97", "1.03"), 6) ELSE sc.Dn
Value(m, f, p, sc) ==
  LET s == sc.s
      i == sc.i
      d == DefOf[m][f][p]
      u == U(s, i, p)
      w == sc.wide
      D(x) == Rd(s, i, <<"r", p>>, x)
      H == sc.H
      tr == m \in NPar
  IN CASE p \in {"Hm0", "Hs", "Hsi", "H", "Hm0_HF"} -> H
       [] p = "Hm0_deep" -> D(H * Lin(u, "0.8", "1.6"))
       [] p = "Hm0_LF" -> D(H * LogU(u, "0.02", "0.9"))
       [] p = "Hm0_swell" -> IF u < "0.25" THEN ToR(0) ELSE D(H * Lin(u, "-0.2", "0.9"))
       [] p = "H2p" -> D(H * Lin(u, IF w THEN "0.9" ELSE "1.1", IF w THEN "1.7" ELSE "1.42"))
       [] p = "ratio_H2p_Hs" -> D(Lin(u, IF w THEN "0.9" ELSE "1.1", IF w THEN "1.7" ELSE "1.42"))
       [] p = "HD" -> D(H * Lin(u, 1, 2))
       [] p \in {"T", "Tmm10", "Tm", "Tp", "Tpi"} -> sc.T
       [] p = "Tmax" -> D(sc.T * Lin(u, "0.9", "1.3"))
       [] p = "Tmm10_HF" -> D(sc.T * Lin(u, "0.6", "1.1"))
       [] p \in {"smm10", "smm10_HF", "s0m", "s0p", "offshore_wave_steepness"} -> sc.st
       [] p = "smm10_init" -> D(LogU(u, "0.005", "0.08"))
       [] p \in {"ksi_mm10", "ksi_0p"} -> D(LogU(u, "0.3", 14))
       [] p \in {"h", "h_s"} -> sc.h
       [] p = "L" -> D(H * LogU(u, 5, 80))
       [] p = "d" -> D(sc.h * Lin(u, "0.3", 1))
       [] p = "hacc" /\ m = "fc_goda1985" -> D(sc.h * Lin(u, "0.4", 1))
       [] p = "hacc" -> D(H * LogU(u, "0.4", 5))
       [] p = "Rc" /\ m \in {"rr_vangent2007", "rr_vangentpozueta2004"} /\ ~IsCheck(f) ->
             D(Z1p(H, sc.T, Value(m, f, IF m = "rr_vangent2007" THEN "gamma" ELSE "gamma_f", sc), Value(m, f, "cot_alpha", sc)) * Lin(u, "0.2", IF w THEN "1.05" ELSE "0.9"))
       [] p = "Rc2_rear" /\ ~IsCheck(f) -> D(Value(m, f, "Rc", sc) * Lin(u, 0, "0.85"))
       [] p = "Rc2_front" -> IF u < "0.15" THEN ToR(0) ELSE D(H * Lin(u, 0, "0.6"))
       [] p = "Rc" /\ m = "tr_vangent2024_setup" -> D(H * Lin(u, "-1.45", "0.4"))
       [] p = "zXp" /\ m = "ov_vangent2002_velocity" -> D(Value(m, f, "Rc", sc) + H * Lin(u, "0.02", 2))
       [] p = "db" /\ m = "ov_vangent2025" /\ ~IsCheck(f) -> IF u < "0.15" THEN ToR(0) ELSE D(Lin(u, "-1.7" * H, "0.95" * Value(m, f, "Ac", sc)))
       [] p = "c" /\ m = "ov_vangent2021_caisson" -> Pick(s, i, "cc", <<1, "1.3", "1.3", "1.3", "1.3", "1.3", "1.2">>)
       [] p = "cot_alpha" /\ m = "ra_jumelet2024" /\ ~IsCheck(f) -> D(1 / (Lin(u, "0.22", "1.62") * Sqrt(S0(H, sc.T))))
       [] p = "Dn50" /\ f \in {"calculate_maximum_significant_wave_height_Hs", "calculate_significant_wave_height_Hs"} /\ m \in {"rr_vangent2007", "rr_vangentpozueta2004", "ra_jumelet2024", "ra_scaravaglione2025"} ->
             Sized(m, "calculate_nominal_rock_diameter_Dn50", sc)
       [] p = "Dn50" /\ m = "tb_vandermeer1998" /\ f = "calculate_depth_above_toe_ht" -> Sized(m, "calculate_nominal_diameter_Dn50", sc)
       [] p = "Dn50" /\ m = "tb_etemadshahidi2021" /\ f = "calculate_significant_wave_height_Hs" -> Sized(m, "calculate_nominal_diameter_Dn50", sc)
       [] p = "M50" /\ f \in {"calculate_maximum_significant_wave_height_Hs", "calculate_significant_wave_height_Hs"} -> Sig(sc.ra * (Value(m, f, "Dn50", sc) ^ 3), 8)
       [] p = "Rc" /\ m = "tr_vangent2023" -> D(H * Lin(u, "-3", 3))
       [] p = "Rc" /\ tr -> IF u < "0.04" THEN ToR(0) ELSE D(H * Lin(u, "-2.6", "2.4"))
       [] p = "Rc" /\ m = "ra_kramerburcharth2004_lowcrested" /\ f = "calculate_nominal_rock_diameter_Dn50" ->
             LET r == ToR(Lin(u, "-3.4", "1.8")) IN D((H * r) / (Delta(sc.ra, 1025) * KbNs(r)))
       [] p = "Dn50" /\ m = "ra_kramerburcharth2004_lowcrested" /\ f = "calculate_crest_freeboard_Rc" ->
             LET r == ToR(Lin(u, "-3.4", "1.8")) IN D(H / (Delta(sc.ra, 1025) * KbNs(r)))
       [] p = "Rc" /\ m = "ra_kramerburcharth2004_lowcrested" -> D(sc.Dn * Lin(u, IF w THEN -5 ELSE -3, IF w THEN 3 ELSE 2))
       [] p = "Rc" /\ m = "fw_vangentvanderwerf2019" -> sc.Rc
       [] p = "Rc" /\ IsCheck(f) -> D(H * Lin(u, "-0.5", 4))
       [] p = "Rc" -> IF u < "0.03" THEN ToR(0) ELSE IF w THEN D(H * Lin(u, "-0.2", 6)) ELSE sc.Rc
       [] p = "Ac" /\ m = "fw_vangentvanderwerf2019" -> D(sc.Rc * Lin(u, "0.45", "0.95"))
       [] p = "Ac" -> D(sc.Rc * Lin(u, "0.3", "1.2"))
       [] p = "Gc" -> D(H * Lin(u, 0, 4))
       [] p \in {"Rc2_front", "Rc2_rear", "Rc_rear"} -> D(H * Lin(u, "0.05", 3))
       [] p = "q" -> Sig(LogU(u, IF w THEN "1e-9" ELSE "1e-6", IF w THEN "0.5" ELSE "0.012") * Sqrt("9.81" * (H ^ 3)), 4)
       [] p = "q_diml" -> Sig(LogU(u, "1e-7", "0.3"), 4)
       [] p \in {"beta", "theta"} -> Pick(s, i, <<"sp", p>>, <<0, D(Lin(u, -110, 110)), D(Lin(u, 0, 80)), D(Lin(u, 0, 60)), D(Lin(u, 0, 90)), D(Lin(u, -60, 0)),
                                              ToR(LET l == <<0, 10, 15, 20, 30, 45, 60, 70, 75, 80, 85, 90, -30, -45, -80>> IN Pick(s, i, <<"lm", p>>, l))>>)
       [] p = "alpha_wall_deg" -> Pick(s, i, "aw", <<D(Lin(u, 0, 90)), D(Lin(u, 40, 95)), 45, 90, 0>>)
       [] p = "gamma_beta" -> D(Lin(u, IF w THEN "0.3" ELSE "0.7", IF w THEN "1.1" ELSE 1))
       [] p = "gamma_b" -> D(Lin(u, IF w THEN "0.3" ELSE "0.6", IF w THEN "1.1" ELSE 1))
       [] p \in {"gamma_f", "gamma", "gamma_f_Crest", "gamma_f_down", "gamma_f_up"} ->
             Pick(s, i, <<"sp", p>>, <<1, "0.6", D(Lin(u, "0.38", 1)), D(Lin(u, "0.38", 1)), D(Lin(u, "0.38", 1))>>)
       [] p = "gamma_v" -> D(Lin(u, IF w THEN "0.3" ELSE "0.6", IF w THEN "1.1" ELSE 1))
       [] p = "gamma_star" -> D(Lin(u, "0.5", 1))
       [] p \in {"gamma_A", "gamma_p"} -> D(Lin(u, "0.5", 1))
       [] p = "gamma_f_crit" -> D(Lin(u, "0.4", "0.8"))
       [] p = "max_angle" -> D(Lin(u, 40, 100))
       [] p \in {"cot_alpha", "cot_alpha_average", "cot_alpha_armour_slope", "cot_phi"} /\ m \notin {"ca_xbloc", "ca_xblocplus"} -> sc.cot
       [] p = "cot_alpha" /\ f = "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed" ->
             Pick(s, i, "cs", <<D(Lin(u, 4, 60)), D(Lin(u, 8, 32)), 10, 15, 20, 25, 30, 50>>)
       [] p = "cot_alpha" -> Pick(s, i, "cs", <<D(Lin(u, "0.9", "2.6")), D(Lin(u, "1.2", "2.1")), "1.25", "1.5", 2, "1.75">>)
       [] p = "perc_slope" -> Pick(s, i, "ps", <<D(Lin(u, 0, 15)), D(Lin(u, 0, 25)), 10, 4, 5, "3.5", 8, 6>>)
       [] p = "seabed_slope_perc" -> Pick(s, i, "ps", <<D(Lin(u, 0, 12)), D(Lin(u, 0, 10)), D(Lin(u, 1, 10)), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, "1.5", "2.5", "7.5">>)
       [] p = "rel_freeboard" -> Pick(s, i, "rf", <<D(Lin(u, "-0.5", "1.6")), D(Lin(u, "0.2", "1.2")), "0.5", 1, "0.75", "0.25", 0>>)
       [] p = "rel_depth" -> Pick(s, i, "rd", <<D(Lin(u, 1, 5)), D(Lin(u, 2, 4)), "2.5", "3.5", 3, 2>>)
       [] p \in {"cot_alpha_down", "cot_alpha_up"} -> D(Lin(u, IF w THEN "0.8" ELSE "1.3", IF w THEN 9 ELSE 6))
       [] p = "B_berm" -> IF u < "0.2" THEN ToR(0) ELSE D(H * Lin(u, "-0.5", IF w THEN 10 ELSE 5))
       [] p = "L_berm" -> D(H * Lin(u, 5, 25))
       [] p = "db" -> IF u < "0.15" THEN ToR(0) ELSE D(H * Lin(u, "-1.9", "2.4"))
       [] p = "BL" -> D(H * Lin(u, "0", "2.5"))
       [] p \in {"Bc", "Bt", "B1", "B_element"} -> D(H * LogU(u, "0.3", 6))
       [] p = "B" -> D(H * LogU(u, "0.3", 25))
       [] p = "C1" -> D(Lin(u, "0.4", 1))
       [] p \in {"Bup", "Bwall"} -> D(H * LogU(u, "0.5", 5))
       [] p = "Hwall" -> D(H * Lin(u, "0.2", 2))
       [] p = "Fb" -> D(sc.Rc * Lin(u, 0, "1.1"))
       [] p \in {"z2p", "zXp", "z1p"} -> D(H * Lin(u, "0.5", 4))
       [] p = "tup" -> D(H * Lin(u, "0.2", 3))
       [] p = "tup_over_Bup" -> D(Lin(u, "0.3", "0.9"))
       [] p = "muf" -> D(Lin(u, "0.4", "0.7"))
       [] p = "cota_seabed" -> D(LogU(u, 8, 150))
       [] p \in {"FU", "FH", "FH2p", "FV2p"} -> D(LogU(u, "1e4", "8e5"))
       [] p = "Wup" -> D(LogU(u, "2e5", "6e6"))
       [] p \in {"MH", "MU"} -> D(LogU(u, "1e4", "4e6"))
       [] p = "rho_water" -> sc.rw
       [] p \in {"rho_rock", "rho_armour"} -> sc.ra
       [] p = "rho_core" -> D(Lin(u, 2300, 2800))
       [] p \in {"rho_fill_above_SWL", "rho_fill_below_SWL"} -> D(Lin(u, 1700, 2600))
       [] p = "Dn50" /\ f = "calculate_significant_depth_above_toe_hacc" ->   \* a size some depth needs
             LET v(q) == Value(m, "calculate_stability_number_Ns", q, sc)
             IN Sig(H / (Delta(sc.ra, sc.rw) * TkNs(H, sc.T, v("hacc"), v("Bt"), v("beta"), "9.81")), 6)
       [] p \in {"Dn50", "D", "Dn"} -> sc.Dn
       [] p = "Dn50_core" -> D(sc.Dn * Lin(u, 0, "0.9") + "0.001")
       [] p = "M50" /\ m = "ra_kramerburcharth2004_lowcrested" -> Sig(sc.ra * (Value(m, f, "Dn50", sc) ^ 3), 8)
       [] p = "M50" -> Sig(sc.ra * (sc.Dn ^ 3), 8)
       [] p = "M50_core" -> Sig(sc.ra * ((sc.Dn * Lin(u, "0.05", "0.9")) ^ 3), 8)
       [] p = "M" -> Sig(sc.ra * (sc.Dn ^ 3), 6)
       [] p = "V" -> Sig((sc.Dn ^ 3), 6)
       [] p = "N_waves" -> ToR(IF Prob(s, i, "lmN", "0.15") THEN Pick(s, i, "lN", <<1000, 5000, 3000, 7500, 500, 999, 5001>>) ELSE IF w THEN Rint(LogU(u, 200, 12000)) ELSE Rint(Lin(u, 500, 7600)))
       [] p = "S" -> IF w THEN D(LogU(u, "0.05", 40)) ELSE D(Lin(u, 1, 15))
       [] p = "Nod" -> D(LogU(u, "0.1", 5))
       [] p = "Ns" -> D(Lin(u, "0.8", 6))
       [] p = "Delta" -> D(Lin(u, "1.2", 2))
       [] p = "P" -> Pick(s, i, "P", <<"0.1", "0.4", "0.5", "0.6", D(Lin(u, "0.05", "0.65")), D(Lin(u, "0.1", "0.6"))>>)
       [] p = "KD" -> D(Lin(u, 2, 16))
       [] p = "alpha_Hs" -> D(Lin(u, 1, "1.4"))
       [] p = "G" -> D(Lin(u, "1", "1.5"))
       [] p = "nv" -> D(Lin(u, "0.3", "0.5"))
       [] p = "tt" -> D(H * Lin(u, "0.1", "1.2"))
       [] p = "ht" -> D(sc.h * Lin(u, "0.2", "0.95"))
       [] p = "hc" -> D(H * LogU(u, "0.8", 10))
       [] p = "m" \/ p = "m_foreshore_slope" -> D(LogU(u, "0.005", "0.12"))
       [] p = "Kt" -> D(Lin(u, 0, 1))
       [] p = "Hsi_over_h" -> D(Lin(u, "0.05", "0.8"))
       [] p = "Rc_over_Hsi" -> D(Lin(u, "-3.2", "3.2"))
       [] p = "damage_percentage" -> Pick(s, i, "dp", <<0, 3, 5, 7, 10, 12, 15, 18, 20, 25, 30, 35, 40, 45, 50, 60, D(Lin(u, 0, 50)), D(Lin(u, 0, 50)), D(Lin(u, 0, 50)), D(Lin(u, 0, 50))>>)
       [] p = "rock_type" -> Pick(s, i, "rt", <<"rough", "smooth", "Rough", "SMOOTH", "smooth", "rough", "angular">>)
       [] p = "structure_type" -> IF m = "tr_vangent2023" THEN Pick(s, i, "st2", <<"permeable", "impermeable", "perforated", "perforated_with_screen", "perforated_with_perforated_screen", "permeable", "impermeable", "porous">>)
                                  ELSE Pick(s, i, "st2", <<"permeable", "impermeable">>)
       [] p = "total_correction_factor" -> D(Lin(u, 1, 3))
       [] p = "sigma" -> Pick(s, i, "sg", <<0, 1, -1, D(Lin(u, -2, 2))>>)
       [] p = "g" -> Pick(s, i, "g", <<"9.80665", "9.81", "1.62", D(Lin(u, "3.7", 12))>>)
       [] p \in {"c_pl", "c_s"} /\ Same(d, "req") -> D(IF p = "c_pl" THEN Lin(u, 5, 9) ELSE Lin(u, "0.8", "1.6"))
       [] p \in {"c0", "c1", "c2", "c3", "c4"} /\ (Same(d, "req") \/ Same(d, "NaN")) ->
             D(CASE p = "c0" -> Lin(u, 1, "1.6") [] p = "c1" -> Lin(u, 3, 6) [] p = "c2" -> Lin(u, "0.1", "0.3") [] p = "c3" -> Lin(u, 1, 3) [] OTHER -> Lin(u, "0.02", "1.1"))
       [] p = "c_beta" /\ Same(d, "req") -> D(Lin(u, "0.2", "0.9"))
       [] p = "cor3" -> D(Lin(u, "-0.3", "0.3"))
       [] p = "Rc_Dn50_init" -> D(Lin(u, -2, 2))
       [] p = "Ns_init" -> D(Lin(u, 1, 5))
       [] p = "Cp_init" -> D(Lin(u, "0.1", "1.5"))
       [] p = "variable_name" -> Pick(s, i, "vn", <<"Wave steepness s", "Rc/Hm0", "Angle (deg)", "x">>)
       [] p = "formula_name" -> Pick(s, i, "fn", <<"TAW (2002)", "Goda (2000)", "some formula">>)
       [] p = "values" -> D(Lin(u, -3, 6))
       [] p = "min_value" -> D(Lin(u, -2, 2))
       [] p = "max_value" -> D(Lin(u, 1, 5))
       [] IsBool(d) \/ p = "use_best_fit" -> u < "0.5"
       [] (Same(d, "req") \/ Same(d, "NaN") \/ Same(d, "None")) -> Assert(FALSE, <<"no recipe for", m, f, p>>)
       [] OTHER -> D(d * Lin(u, "0.6", "1.5"))

\* numbers in reals, everything else as it is
IsNumPar(p) == p \notin {"rock_type", "structure_type", "variable_name", "formula_name", "file_name", "output_dir"}
Norm(p, x) == IF IsBool(x) THEN x ELSE IF IsNumPar(p) THEN ToR(x) ELSE x

ArgsOf(m, f, sc) == [p \in {p \in DOMAIN DefOf[m][f] : Gives(m, f, p, sc)} |-> Norm(p, Value(m, f, p, sc))]
ArgsSc(m, f, sc) == ArgsOf(m, f, sc)
Args(m, f, s, i) == ArgsSc(m, f, SceneOf(m, s, i))
=============================================================================
