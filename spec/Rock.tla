-------------------------------- MODULE Rock --------------------------------
(* functions/structural/stability_rock_armour: Hudson (1959), van der Meer
   (1988, modified 2003, 2021), Etemad-Shahidi (2020), Scaravaglione (2025),
   Jumelet (2024), Kramer & Burcharth (2004) *)
EXTENDS CorePhysics

-----------------------------------------------------------------------------
(* Hudson (1959) *)
HudsonM(H, rw, rs, KD, cot, a)  == (rs * ((H * a) ^ 3)) / (KD * (Delta(rs, rw) ^ 3) * cot)
HudsonH(M, rw, rs, KD, cot, a)  == (Delta(rs, rw) / a) * (((M * KD * cot) / rs) ^ (1 / 3))

RoughNames  == {"rough", "Rough", "ROUGH", " rough "}
SmoothNames == {"smooth", "Smooth", "SMOOTH", " smooth "}
\* multiplication factor of the wave height for the damage class [lower limit, next)
DamageClasses == <<5, 10, 15, 20, 30, 40>>
DamageFactor(d, t) ==
  LET rough == t \in RoughNames IN
  CASE d < 5  -> "1.0"
    [] d < 10 -> "1.08"
    [] d < 15 -> IF rough THEN "1.14" ELSE "1.19"
    [] d < 20 -> IF rough THEN "1.2"  ELSE "1.27"
    [] d < 30 -> IF rough THEN "1.29" ELSE "1.37"
    [] d < 40 -> IF rough THEN "1.41" ELSE "1.47"
    [] OTHER  -> IF rough THEN "1.54" ELSE "1.56"
BadRock(t) == t \notin RoughNames \cup SmoothNames
DamageR(d, t) == <<DamageFactor(d, t)>>

Eval_ra_hudson1959(f, z) ==
  CASE f = "check_validity_range" -> Ok(<<>>)
    [] f = "calculate_median_rock_mass_M50_no_damage" -> Ok(<<HudsonM(z.Hs, z.rho_water, z.rho_armour, z.KD, z.cot_alpha, z.alpha_Hs)>>)
    [] f = "calculate_significant_wave_height_Hs_no_damage" -> Ok(<<HudsonH(z.M50, z.rho_water, z.rho_armour, z.KD, z.cot_alpha, z.alpha_Hs)>>)
    [] f = "lookup_table_damage_factors" ->
         IF BadRock(z.rock_type) THEN Err
         ELSE OkR(<<ToR(DamageFactor(z.damage_percentage, z.rock_type))>>, DamageR(z.damage_percentage, z.rock_type))
    [] f = "calculate_median_rock_mass_M50" ->
         IF BadRock(z.rock_type) THEN Err
         ELSE OkR(<<HudsonM(z.Hs, z.rho_water, z.rho_armour, z.KD, z.cot_alpha, z.alpha_Hs) / (DamageFactor(z.damage_percentage, z.rock_type) ^ 3)>>,
                  DamageR(z.damage_percentage, z.rock_type))
    [] f = "calculate_significant_wave_height_Hs" ->
         IF BadRock(z.rock_type) THEN Err
         ELSE OkR(<<HudsonH(z.M50, z.rho_water, z.rho_armour, z.KD, z.cot_alpha, z.alpha_Hs) * DamageFactor(z.damage_percentage, z.rock_type)>>,
                  DamageR(z.damage_percentage, z.rock_type))

-----------------------------------------------------------------------------
(* van der Meer (1988): plunging or surging waves *)
ChkVdm(Hs, H2p, Tp, NW, cot, P, rho) ==
  LET F == "Van der Meer (1988)" IN
       If(G(P), ChkP("P", "Notional permeability P", F, P, "0.1", "0.6"))
  \cup If(G(cot), ChkP("cot_alpha", "Cotangent of outer structure slope cot_alpha", F, cot, "1.1", 7))
  \cup If(G(Hs) /\ G(Tp), Chk("Wave steepness s0p", F, S0(Hs, Tp), "0.005", "0.06"))
  \cup If(G(NW), ChkP("N_waves", "Number of waves N_waves", F, NW, 0, 7500))
  \cup If(G(Hs) /\ G(H2p), Chk("Ratio H2%/Hs", F, H2p / Hs, "1.1", "1.4"))
  \cup If(G(rho), ChkP("rho_armour", "Density of armour layer rock rho_armour", F, rho, 2000, 3100))

GammaN(n) == CASE n < 1000 -> Sqrt(1000 / n)
               [] n > 5000 -> Sqrt(n) / (Sqrt(5000) * ("1.3" * (1 - Exp("-0.00031" * n))))
               [] OTHER -> ToR(1)
GammaNr(n) == <<n < 1000, n > 5000>>
Plunging(ksi, mc, cot) == ksi < mc \/ cot >= 4

\* gN: storm duration correction, T: the period of the method
VdmS(Hs, H2p, T, n, cot, P, rho, Dn, cpl, cs, rw, gN) ==
  LET ksi == Ksi(Hs, T, cot)
      x   == Ns(Hs, Dn, rho, rw) * (H2p / Hs)
      y   == IF Plunging(ksi, KsiMc(cpl, cs, P, cot), cot) THEN (x / cpl) * (P ^ "-0.18") * (ksi ^ "0.5")
             ELSE (x / cs) * (P ^ "0.13") * (1 / Sqrt(cot)) * (ksi ^ (-P))
  IN ((y ^ 5) / gN) * Sqrt(n)
VdmD(Hs, H2p, T, n, cot, P, rho, S, cpl, cs, rw, gN) ==
  LET ksi == Ksi(Hs, T, cot)
      x   == (Hs / Delta(rho, rw)) * (H2p / Hs) * (((gN * S) / Sqrt(n)) ^ "-0.2")
  IN IF Plunging(ksi, KsiMc(cpl, cs, P, cot), cot) THEN (x / cpl) * (P ^ "-0.18") * (ksi ^ "0.5")
     ELSE (x / cs) * (P ^ "0.13") * (1 / Sqrt(cot)) * (ksi ^ (-P))
\* the wave height decides the regime: plunging only when both candidates plunge
VdmHpl(T, n, cot, P, rho, S, Dn, cpl, g, rw, gN, ratio) ==
  (cpl * (P ^ "0.18") * (((gN * S) / Sqrt(n)) ^ "0.2") * ((1 / cot) ^ "-0.5") * (((2 * Pi) / (g * (T ^ 2))) ^ "0.25")
   * Delta(rho, rw) * Dn * (1 / ratio)) ^ (1 / "0.75")
VdmHs(T, n, cot, P, rho, S, Dn, cs, g, rw, gN, ratio) ==
  (cs * (P ^ "-0.13") * (((gN * S) / Sqrt(n)) ^ "0.2") * ((1 / cot) ^ P) * (((2 * Pi) / (g * (T ^ 2))) ^ ("-0.5" * P))
   * ((1 / cot) ^ "-0.5") * Delta(rho, rw) * Dn * (1 / ratio)) ^ (1 / (1 + "0.5" * P))
VdmH(T, n, cot, P, rho, S, Dn, cpl, cs, g, rw, gN, ratio) ==
  LET mc == KsiMc(cpl, cs, P, cot)
      a  == ToR(VdmHpl(T, n, cot, P, rho, S, Dn, cpl, g, rw, gN, ratio))
      b  == ToR(VdmHs(T, n, cot, P, rho, S, Dn, cs, g, rw, gN, ratio))
      pl == (Ksi(a, T, cot) < mc /\ Ksi(b, T, cot) < mc) \/ cot >= 4
  IN <<IF pl THEN a ELSE b, <<pl, Ksi(a, T, cot) < mc, Ksi(b, T, cot) < mc, cot >= 4>>>>

Eval_ra_vandermeer1988(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkVdm(z.Hs, z.H2p, z.Tp, z.N_waves, z.cot_alpha, z.P, z.rho_armour))
    [] f = "calculate_correction_term_gamma_N" -> OkR(<<GammaN(z.N_waves)>>, GammaNr(z.N_waves))
    [] f = "calculate_damage_number_S" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE OkRC(<<VdmS(z.Hs, z.H2p, z.Tm, z.N_waves, z.cot_alpha, z.P, z.rho_armour, DnUse(z.Dn50, z.M50, z.rho_armour),
                          z.c_pl, z.c_s, z.rho_water, GammaN(z.N_waves))>>,
                   <<Ksi(z.Hs, z.Tm, z.cot_alpha) < KsiMc(z.c_pl, z.c_s, z.P, z.cot_alpha), z.cot_alpha >= 4>> \o GammaNr(z.N_waves),
                   ChkVdm(z.Hs, z.H2p, NaN, z.N_waves, z.cot_alpha, z.P, z.rho_armour))
    [] f = "calculate_nominal_rock_diameter_Dn50" ->
         OkRC(<<VdmD(z.Hs, z.H2p, z.Tm, z.N_waves, z.cot_alpha, z.P, z.rho_armour, z.S, z.c_pl, z.c_s, z.rho_water, GammaN(z.N_waves))>>,
              <<Ksi(z.Hs, z.Tm, z.cot_alpha) < KsiMc(z.c_pl, z.c_s, z.P, z.cot_alpha), z.cot_alpha >= 4>> \o GammaNr(z.N_waves),
              ChkVdm(z.Hs, z.H2p, NaN, z.N_waves, z.cot_alpha, z.P, z.rho_armour))
    [] f = "calculate_significant_wave_height_Hs" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET h == VdmH(z.Tm, z.N_waves, z.cot_alpha, z.P, z.rho_armour, z.S, DnUse(z.Dn50, z.M50, z.rho_armour),
                            z.c_pl, z.c_s, z.g, z.rho_water, GammaN(z.N_waves), z.ratio_H2p_Hs)
              IN OkRC(<<h[1]>>, h[2] \o GammaNr(z.N_waves),
                      ChkVdm(h[1], z.ratio_H2p_Hs * h[1], NaN, z.N_waves, z.cot_alpha, z.P, z.rho_armour))

-----------------------------------------------------------------------------
(* modified van der Meer (van Gent et al., 2003): spectral period, no duration correction *)
ChkVdmM(Hs, H2p, T, NW, cot, P, Dn, rho, rw) ==
  LET F == "Modified Van der Meer (Van Gent et al., 2003)" IN
       If(G(P), ChkP("P", "Notional permeability P", F, P, "0.1", "0.6"))
  \cup If(G(Hs) /\ G(Dn) /\ G(rho), Chk("Stability number Ns", F, Ns(Hs, Dn, rho, rw), "0.5", "4.5"))
  \cup If(G(Hs) /\ G(T) /\ G(cot), Chk("Iribarren number ksi_m-1,0", F, Ksi(Hs, T, cot), "1.3", 15))
  \cup If(G(cot), ChkP("cot_alpha", "Cotangent of outer structure slope cot_alpha", F, cot, 2, 4))
  \cup If(G(NW), ChkP("N_waves", "Number of waves N_waves", F, NW, 0, 3000))
  \cup If(G(Hs) /\ G(H2p), Chk("Ratio H2%/Hs", F, H2p / Hs, "1.2", "1.4"))
VdmMr(z, Hs, cpl, cs) == <<Ksi(Hs, z.Tmm10, z.cot_alpha) < KsiMc(cpl, cs, z.P, z.cot_alpha), z.cot_alpha >= 4>>

Eval_ra_vandermeer1988_modified(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkVdmM(z.Hs, z.H2p, z.Tmm10, z.N_waves, z.cot_alpha, z.P, z.Dn50, z.rho_armour, z.rho_water))
    [] f = "calculate_damage_number_S" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_armour) IN
              OkRC(<<VdmS(z.Hs, z.H2p, z.Tmm10, z.N_waves, z.cot_alpha, z.P, z.rho_armour, Dn, z.c_pl, z.c_s, z.rho_water, 1)>>,
                   VdmMr(z, z.Hs, z.c_pl, z.c_s),
                   ChkVdmM(z.Hs, z.H2p, z.Tmm10, z.N_waves, z.cot_alpha, z.P, Dn, z.rho_armour, z.rho_water))
    [] f = "calculate_nominal_rock_diameter_Dn50" ->
         LET Dn == ToR(VdmD(z.Hs, z.H2p, z.Tmm10, z.N_waves, z.cot_alpha, z.P, z.rho_armour, z.S, z.c_pl, z.c_s, z.rho_water, 1)) IN
         OkRC(<<Dn>>, VdmMr(z, z.Hs, z.c_pl, z.c_s),
              ChkVdmM(z.Hs, z.H2p, z.Tmm10, z.N_waves, z.cot_alpha, z.P, Dn, z.rho_armour, z.rho_water))
    [] f = "calculate_significant_wave_height_Hs" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_armour)
                  h  == VdmH(z.Tmm10, z.N_waves, z.cot_alpha, z.P, z.rho_armour, z.S, Dn, z.c_pl, z.c_s, z.g, z.rho_water, 1, z.ratio_H2p_Hs)
              IN Res(<<h[1]>>, h[2], ChkVdmM(h[1], NaN, z.Tmm10, z.N_waves, z.cot_alpha, z.P, Dn, z.rho_armour, z.rho_water),
                     May(Chk("Ratio H2%/Hs", "Modified Van der Meer (Van Gent et al., 2003)", 1, "1.2", "1.4")))

-----------------------------------------------------------------------------
(* van der Meer (2021): the modified formula in terms of Hs only.  The
   calculation also reports on the limits of the two formulae it is built on. *)
Vdm21Chk(z, Hs, Dn) ==
  ChkVdm(Hs, NaN, NaN, z.N_waves, z.cot_alpha, z.P, z.rho_armour)
  \cup ChkVdmM(Hs, NaN, z.Tmm10, z.N_waves, z.cot_alpha, z.P, Dn, z.rho_armour, 1025)
Eval_ra_vandermeer2021(f, z) ==
  LET cpl == ToR(z.c_pl * z.c_pl_mult)
      cs  == ToR(z.c_s * z.c_s_mult)
  IN CASE f = "calculate_damage_number_S" ->
            IF DnMissing(z.Dn50, z.M50) THEN Err
            ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_armour) IN
                 Res(<<VdmS(z.Hs, z.Hs, z.Tmm10, z.N_waves, z.cot_alpha, z.P, z.rho_armour, Dn, cpl, cs, 1025, 1)>>,
                     VdmMr(z, z.Hs, cpl, cs), Vdm21Chk(z, z.Hs, Dn), {})
       [] f = "calculate_nominal_rock_diameter_Dn50" ->
            LET Dn == ToR(VdmD(z.Hs, z.Hs, z.Tmm10, z.N_waves, z.cot_alpha, z.P, z.rho_armour, z.S, cpl, cs, 1025, 1)) IN
            Res(<<Dn>>, VdmMr(z, z.Hs, cpl, cs), Vdm21Chk(z, z.Hs, Dn), {})
       [] f = "calculate_significant_wave_height_Hs" ->
            IF DnMissing(z.Dn50, z.M50) THEN Err
            ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_armour)
                     h  == VdmH(z.Tmm10, z.N_waves, z.cot_alpha, z.P, z.rho_armour, z.S, Dn, cpl, cs, z.g, 1025, 1, 1)
                 IN Res(<<h[1]>>, h[2], Vdm21Chk(z, h[1], Dn), {})

-----------------------------------------------------------------------------
(* Etemad-Shahidi et al. (2020) *)
ChkEs(Hs, T, NW, cot, P, S, Dn, Dc, rho, rw) ==
  LET F == "Etemad-Shahidi et al., 2020" IN
       If(G(Hs) /\ G(T), Chk("Wave steepness sm-1,0", F, S0(Hs, T), "0.003", "0.088"))
  \cup If(G(Hs) /\ G(T) /\ G(cot), Chk("Iribarren number ksi_m-1,0", F, Ksi(Hs, T, cot), "0.65", "8.18"))
  \cup If(G(cot), ChkP("cot_alpha", "Cotangent of outer structure slope cot_alpha", F, cot, "1.5", 6))
  \cup If(G(NW), ChkP("N_waves", "Number of waves N_waves", F, NW, 500, 5000))
  \cup If(G(rho), Chk("Buoyant density Delta", F, Delta(rho, rw), "0.92", "2.05"))
  \cup If(G(P), ChkP("P", "Permeability P", F, P, "0.1", "0.6"))
  \cup If(G(Dn) /\ G(Dc), Chk("Relative core diameter Dn50_core / Dn50", F, Dc / Dn, 0, 1))
  \cup If(G(Hs) /\ G(Dn) /\ G(rho), Chk("Stability number Ns", F, Ns(Hs, Dn, rho, rw), 1, "4.3"))
  \cup If(G(S), Chk("Damage number S", F, S, 2, 12))
EsCp(Dn, Dc) == (1 + ((Dc / Dn) ^ "0.3")) ^ "0.6"
EsNoM(z) == z.use_depth_limited_version /\ N(z.m)
EsI(z)   == IF z.use_depth_limited_version THEN 1 - 3 * z.m ELSE ToR(1)
\* <<coefficient, power of ksi>>
EsC(ksi) == IF ksi >= "1.8" THEN <<"3.9", 1 / 3>> ELSE <<"4.5", 7 / 12>>
EsDnOf(z, ksi, c, Cp) ==
  (z.Hs / Delta(z.rho_armour, 1025)) * (1 / c[1]) * (1 / Cp) * (z.N_waves ^ "0.1") * (z.S ^ ("-1" / 6)) * (ksi ^ c[2]) * (1 / EsI(z))
RECURSIVE EsIt(_, _, _, _, _, _, _)
EsIt(z, ksi, c, Dc, Cp, prev, n) ==
  LET D == ToR(EsDnOf(z, ksi, c, Cp))
  IN IF ~(Abs(D - prev) > z.tolerance) THEN D ELSE IF n <= 1 THEN NaN ELSE EsIt(z, ksi, c, Dc, EsCp(D, Dc), D, n - 1)
EsD(z) ==
  LET ksi == Ksi(z.Hs, z.Tmm10, z.cot_alpha)
      Dc  == DnUse(z.Dn50_core, z.M50_core, z.rho_core)
  IN EsIt(z, ksi, EsC(ksi), Dc, z.Cp_init, R("Infinity"), CapOf(z.max_iter))
EsS(z) ==
  LET Dn  == DnUse(z.Dn50, z.M50, z.rho_armour)
      Dc  == DnUse(z.Dn50_core, z.M50_core, z.rho_core)
      ksi == Ksi(z.Hs, z.Tmm10, z.cot_alpha)
      c   == EsC(ksi)
  IN ((Ns(z.Hs, Dn, z.rho_armour, z.rho_water) / (c[1] * EsCp(Dn, Dc) * EsI(z))) ^ 6) * (z.N_waves ^ "0.6") * (ksi ^ (6 * c[2]))
EsHc(z, c) ==
  LET Dn == DnUse(z.Dn50, z.M50, z.rho_armour)
      Dc == DnUse(z.Dn50_core, z.M50_core, z.rho_core)
      p  == 6 * c[2]     \* power of ksi; ksi^2 = T^2 g / (2 pi H cot^2)
  IN (z.S * ((c[1] * EsCp(Dn, Dc) * Delta(z.rho_armour, 1025) * Dn * EsI(z)) ^ 6) * (((2 * Pi) / z.g) ^ (p / 2))
      * (z.Tmm10 ^ (-p)) * (z.cot_alpha ^ p) * (z.N_waves ^ "-0.6")) ^ (1 / (6 - p / 2))
EsH(z) ==
  LET a  == ToR(EsHc(z, EsC(0)))
      b  == ToR(EsHc(z, EsC(2)))
      ka == Ksi(a, z.Tmm10, z.cot_alpha) < "1.8"
      kb == Ksi(b, z.Tmm10, z.cot_alpha) < "1.8"
  IN <<IF ka /\ kb THEN a ELSE b, <<ka, kb>>>>

Eval_ra_etemadshahidi2020(f, z) ==
  CASE f = "check_validity_range" ->
         OkC(<<>>, {[t EXCEPT !.p = IF t.x = "Damage number S" THEN "S" ELSE @]
                    : t \in ChkEs(z.Hs, z.Tmm10, z.N_waves, z.cot_alpha, z.P, z.S, z.Dn50, z.Dn50_core, z.rho_armour, z.rho_water)})
    [] f = "calculate_permeability_coefficient_Cp" -> Ok(<<EsCp(z.Dn50, z.Dn50_core)>>)
    [] f = "calculate_damage_number_S" ->
         IF EsNoM(z) \/ DnMissing(z.Dn50, z.M50) \/ DnMissing(z.Dn50_core, z.M50_core) THEN Err
         ELSE LET S == ToR(EsS(z)) IN
              OkRC(<<S>>, <<Ksi(z.Hs, z.Tmm10, z.cot_alpha) >= "1.8">>,
                   ChkEs(z.Hs, z.Tmm10, z.N_waves, z.cot_alpha, NaN, S, DnUse(z.Dn50, z.M50, z.rho_armour),
                         DnUse(z.Dn50_core, z.M50_core, z.rho_core), z.rho_armour, z.rho_water))
    [] f = "calculate_nominal_rock_diameter_Dn50" ->
         IF EsNoM(z) \/ DnMissing(z.Dn50_core, z.M50_core) THEN Err
         ELSE LET D == EsD(z) IN
              OkRC(<<D>>, <<Ksi(z.Hs, z.Tmm10, z.cot_alpha) >= "1.8">>,
                   ChkEs(z.Hs, z.Tmm10, z.N_waves, z.cot_alpha, NaN, z.S, D,
                         DnUse(z.Dn50_core, z.M50_core, z.rho_core), z.rho_armour, 1025))
    [] f = "calculate_significant_wave_height_Hs" ->
         IF EsNoM(z) \/ DnMissing(z.Dn50, z.M50) \/ DnMissing(z.Dn50_core, z.M50_core) THEN Err
         ELSE LET h == EsH(z) IN
              OkRC(<<h[1]>>, h[2],
                   ChkEs(h[1], z.Tmm10, z.N_waves, z.cot_alpha, NaN, z.S, DnUse(z.Dn50, z.M50, z.rho_armour),
                         DnUse(z.Dn50_core, z.M50_core, z.rho_core), z.rho_armour, 1025))

-----------------------------------------------------------------------------
(* Scaravaglione et al. (2025) *)
ChkSc(H, T, NW, cot, P, Dn, Dc, rho, rw) ==
  LET F == "Scaravaglione et al. (2025)" IN
       If(G(P), ChkP("P", "Notional permeability P", F, P, "0.37", "0.55"))
  \cup If(G(H) /\ G(Dn), Chk("Stability number Ns", F, Ns(H, Dn, rho, rw), "1.47", "3.44"))
  \cup If(G(H) /\ G(T), Chk("Wave steepness s_m-1,0", F, S0(H, T), "0.02", "0.049"))
  \cup If(G(H) /\ G(T) /\ G(cot), Chk("Iribarren number ksi_m-1,0", F, Ksi(H, T, cot), "1.3", 15))
  \cup If(G(cot), ChkP("cot_alpha", "Cotangent of outer structure slope cot_alpha", F, cot, 2, 2))
  \cup If(G(NW), ChkP("N_waves", "Number of waves N_waves", F, NW, 652, 4064))
  \cup If(G(Dn) /\ G(Dc), Chk("Ratio core to armour Dn50_core / Dn50", F, Dc / Dn, "0.21", "0.71"))
ScDc(z) == DnUse(z.Dn50_core, z.M50_core, z.rho_core)
ScChk(z, H, Dn) == ChkSc(H, z.Tmm10, z.N_waves, z.cot_alpha, NaN, Dn, ScDc(z), z.rho_armour, z.rho_water)

Eval_ra_scaravaglione2025(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkSc(z.Hm0, z.Tmm10, z.N_waves, z.cot_alpha, z.P, z.Dn50, z.Dn50_core, z.rho_armour, z.rho_water))
    [] f = "calculate_damage_number_S" ->
         IF DnMissing(z.Dn50, z.M50) \/ DnMissing(z.Dn50_core, z.M50_core) THEN Err
         ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_armour) IN
              OkC(<<(((1 / z.c_VGnew) * (S0(z.Hm0, z.Tmm10) ^ "-0.1") * Sqrt(1 / z.cot_alpha) * Ns(z.Hm0, Dn, z.rho_armour, z.rho_water)
                     * (1 / (1 + ScDc(z) / Dn))) ^ 5) * Sqrt(z.N_waves)>>, ScChk(z, z.Hm0, Dn))
    [] f = "calculate_nominal_rock_diameter_Dn50" ->
         IF DnMissing(z.Dn50_core, z.M50_core) THEN Err
         ELSE LET D == ToR((z.Hm0 / Delta(z.rho_armour, z.rho_water)) * (1 / z.c_VGnew) * ((z.S / Sqrt(z.N_waves)) ^ "-0.2")
                           * (1 / Sqrt(z.cot_alpha)) * (S0(z.Hm0, z.Tmm10) ^ "-0.1") - ScDc(z))
              IN OkC(<<D>>, ScChk(z, z.Hm0, D))
    [] f = "calculate_significant_wave_height_Hm0" ->
         IF DnMissing(z.Dn50, z.M50) \/ DnMissing(z.Dn50_core, z.M50_core) THEN Err
         ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_armour)
                  H  == ToR((Delta(z.rho_armour, z.rho_water) * Dn * z.c_VGnew * Sqrt(z.cot_alpha) * (1 + ScDc(z) / Dn)
                         * (((2 * Pi) / (z.g * (z.Tmm10 ^ 2))) ^ "0.1") * ((z.S / Sqrt(z.N_waves)) ^ "0.2")) ^ (1 / "0.9"))
              IN OkC(<<H>>, ScChk(z, H, Dn))

-----------------------------------------------------------------------------
(* Jumelet et al. (2024): mild slopes, number of plunging waves *)
ChkJu(Hs, T, NW, cot) ==
  LET F == "Jumelet et al., 2024" IN
       If(G(Hs) /\ G(T), Chk("Wave steepness sm-1,0", F, S0(Hs, T), "0.009", "0.057"))
  \cup If(G(Hs) /\ G(T) /\ G(cot), Chk("Iribarren number ksi_m-1,0", F, Ksi(Hs, T, cot), "0.42", "1.66"))
  \cup If(G(cot), ChkP("cot_alpha", "Cotangent of outer structure slope cot_alpha", F, cot, 6, 10))
  \cup If(G(NW), ChkP("N_waves", "Number of waves N_waves", F, NW, 250, 20000))
JuFp(ksi) == "-1.7" * (ksi ^ 2) + "3.2" * ksi - "0.5"
JuN(ksi, n) == Rint(JuFp(ksi) * n)
JuHof(z, ksi) ==
  (z.c_pl * (z.S ^ "0.2") * (JuN(ksi, z.N_waves) ^ "-0.1") * z.cot_alpha * Sqrt((2 * Pi) / (z.g * (z.Tmm10 ^ 2)))
   * Delta(z.rho_armour, 1025) * DnUse(z.Dn50, z.M50, z.rho_armour)) ^ 2
RECURSIVE JuIt(_, _, _)
JuIt(z, prev, n) ==
  LET H == ToR(JuHof(z, Ksi(prev, z.Tmm10, z.cot_alpha)))
  IN IF ~(Abs(H - prev) > z.tolerance) THEN H ELSE IF n <= 1 THEN NaN ELSE JuIt(z, H, n - 1)

Eval_ra_jumelet2024(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkJu(z.Hs, z.Tmm10, z.N_waves, z.cot_alpha))
    [] f = "calculate_fraction_plunging_waves_Fp" -> Ok(<<JuFp(z.ksi_mm10)>>)
    [] f = "calculate_damage_number_S" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET ksi == Ksi(z.Hs, z.Tmm10, z.cot_alpha) IN
              OkC(<<(Ns(z.Hs, DnUse(z.Dn50, z.M50, z.rho_armour), z.rho_armour, z.rho_water) * ksi * (JuN(ksi, z.N_waves) ^ "0.1") * (1 / z.c_pl)) ^ 5>>,
                  ChkJu(z.Hs, z.Tmm10, z.N_waves, z.cot_alpha))
    [] f = "calculate_nominal_rock_diameter_Dn50" ->
         LET ksi == Ksi(z.Hs, z.Tmm10, z.cot_alpha) IN
         OkC(<<(z.Hs / Delta(z.rho_armour, 1025)) * ksi * (JuN(ksi, z.N_waves) ^ "0.1") * (1 / z.c_pl) * (z.S ^ "-0.2")>>,
             ChkJu(z.Hs, z.Tmm10, z.N_waves, z.cot_alpha))
    [] f = "calculate_significant_wave_height_Hs" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET H == JuIt(z, ToR(((z.smm10_init * (z.Tmm10 ^ 2)) * z.g) / (2 * Pi)), CapOf(z.max_iter))
              IN OkC(<<H>>, ChkJu(H, z.Tmm10, z.N_waves, z.cot_alpha))

-----------------------------------------------------------------------------
(* Kramer & Burcharth (2004): low-crested structures *)
ChkKb(Rc, Dn) == If(G(Rc) /\ G(Dn), Chk("Relative crest height Rc / Dn50", "Kramer & Burcharth, 2004", Rc / Dn, "-3.1", "1.5"))
KbNs(r) == "0.06" * (r ^ 2) - "0.23" * r + "1.36"
RECURSIVE KbD(_, _, _, _), KbR(_, _, _, _, _)
KbD(z, D, prev, n) ==
  LET Dn == ToR((1 / "1.36") * (z.Hs / Delta(z.rho_armour, 1025) - z.Rc * ("0.06" * (z.Rc / D) - "0.23")))
  IN IF ~(Abs(Dn - prev) > z.tolerance) THEN Dn ELSE IF n <= 1 THEN NaN ELSE KbD(z, Dn, Dn, n - 1)
KbR(z, D, Rc, prev, n) ==
  LET r == ToR((z.Hs / Delta(z.rho_armour, 1025) - "1.36" * D) / ("0.06" * (Rc / D) - "0.23"))
  IN IF ~(Abs(r - prev) > z.tolerance) THEN r ELSE IF n <= 1 THEN NaN ELSE KbR(z, D, r, r, n - 1)
Eval_ra_kramerburcharth2004_lowcrested(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkKb(z.Rc, z.Dn50))
    [] f = "calculate_nominal_rock_diameter_Dn50" ->
         LET D == KbD(z, z.Hs / (Delta(z.rho_armour, 1025) * z.Ns_init), R("Infinity"), CapOf(z.max_iter))
         IN OkC(<<D>>, ChkKb(z.Rc, D))
    [] f = "calculate_significant_wave_height_Hs" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET D == DnUse(z.Dn50, z.M50, z.rho_armour) IN
              OkC(<<("0.06" * ((z.Rc / D) ^ 2) - ("0.23" * z.Rc) / D + "1.36") * Delta(z.rho_armour, 1025) * D>>, ChkKb(z.Rc, D))
    [] f = "calculate_crest_freeboard_Rc" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET D == DnUse(z.Dn50, z.M50, z.rho_armour)
                  r == KbR(z, D, z.Rc_Dn50_init * D, R("Infinity"), CapOf(z.max_iter))
              IN OkC(<<r>>, ChkKb(r, D))
=============================================================================
