----------------------------- MODULE Overtopping ----------------------------
(* functions/hydraulic/wave_overtopping: TAW (2002), EurOtop (2007, 2018),
   van Gent (2002, 2021, 2025), de Ridder (2024, 2026) *)
EXTENDS Runup

QScale(H, g) == Sqrt(g * (H ^ 3))
MinFlag(a, b) == <<Min2(a, b), b <= a>>

-----------------------------------------------------------------------------
(* TAW (2002) and EurOtop (2018): breaking-wave equation and its maximum *)

ChkTaw(H, T, beta, cot, down, up, gf, gb, gbeta, gv) ==
  LET F == "TAW (2002)" IN
       If(G(H) /\ G(T), Chk("Wave steepness sm-1,0", F, S0(H, T), 0, "0.07"))
  \cup If(G(H) /\ G(T) /\ G(cot), Chk("Iribarren number ksi_m-1,0", F, Ksi(H, T, cot), 0, 7))
  \cup If(G(H) /\ G(T) /\ G(cot) /\ G(gb), Chk("gamma_b * ksi_m-1,0", F, gb * Ksi(H, T, cot), "0.5", 10))
  \cup If(G(down), ChkP("cot_alpha_down", "Cotangent alpha lower slope", F, down, 1, 7))
  \cup If(G(up), ChkP("cot_alpha_up", "Cotangent alpha upper slope", F, up, 1, 7))
  \cup If(G(beta), ChkP("beta", "Incident wave angle beta", F, beta, 0, 90))
  \cup If(G(gb), ChkP("gamma_b", "Influence factor berm gamma_b", F, gb, "0.4", 1))
  \cup If(G(gf), ChkP("gamma_f", "Influence factor roughness gamma_f", F, gf, "0.4", 1))
  \cup If(G(gbeta), ChkP("gamma_beta", "Influence factor oblique waves gamma_beta", F, gbeta, "0.4", 1))
  \cup If(G(gv), ChkP("gamma_v", "Influence factor vertical wall gamma_v", F, gv, "0.4", 1))

\* the geometry both directions share: average slope, breaker parameter and
\* berm factor.  kz: run-up coefficients for the slope, kb: for the berm factor
Geo(z, gbeta, kz, kb) ==
  LET comp == IsComp(z)
      cot  == IF comp THEN AvgSlope(z.Hm0, ZC(z.Hm0, z.Tmm10, z.cot_alpha_down, z.cot_alpha_up, z.B_berm, z.db, z.gamma_f, gbeta, kz),
                                    z.cot_alpha_down, z.cot_alpha_up, z.B_berm, z.db)
              ELSE z.cot_alpha
      ksi  == Ksi(z.Hm0, z.Tmm10, cot)
      gb   == IF G(z.gamma_b) THEN z.gamma_b
              ELSE GammaB2(z.Hm0, z.Tmm10, cot, z.B_berm, BermLen(z.Hm0, z.B_berm, cot, z.cot_alpha_down, z.cot_alpha_up),
                           z.db, z.gamma_f, gbeta, kb)
  IN [cot |-> ToR(cot), ksi |-> ToR(ksi), gb |-> ToR(gb), gfa |-> ToR(GammaFAdj(z.gamma_f, gb, ksi)), gbeta |-> ToR(gbeta)]
GeoMay(z) == IF IsComp(z) \/ N(z.gamma_b) THEN MayRunup ELSE {}
GeoR(z, g) == <<g.gb * g.ksi >= "1.8", g.ksi > 10, IsComp(z)>>

TawGb(z) == IF N(z.gamma_beta) THEN GammaBeta(z.beta, "0.0033", 80) ELSE z.gamma_beta
TawC(z)  == LET s == IF z.use_best_fit THEN z.sigma ELSE 0 IN
            IF z.use_best_fit THEN <<"4.75" + "0.5" * s, "2.6" + "0.35" * s>> ELSE <<"4.3", "2.3">>
TawChk(z, g) ==
  LET c == ChkTaw(z.Hm0, z.Tmm10, z.beta, g.cot, z.cot_alpha_down, z.cot_alpha_up, z.gamma_f, g.gb, g.gbeta, z.gamma_v)
  IN {[t EXCEPT !.p = IF t.p = "gamma_b" /\ N(z.gamma_b) THEN "" ELSE IF t.p = "gamma_beta" /\ N(z.gamma_beta) THEN "" ELSE @] : t \in c}

TawQmax(H, Rc, gbeta, gf, c3, cor3, c2)      == c2 * Exp((-(c3 + cor3) * (Rc / H)) / (gf * gbeta))
TawRcmax(H, q, gbeta, gf, c3, cor3, c2, g)   == ((-Ln(q / (c2 * QScale(H, g))) / (c3 + cor3))) * gf * gbeta

TawQ(z, scale) ==
  IF NoBeta(z) \/ NoSlope(z) THEN Err
  ELSE LET g == Geo(z, TawGb(z), KTaw, KTaw)
           c == TawC(z)
           a == ToR((("0.067" / Sqrt(1 / g.cot)) * g.gb * g.ksi)
                  * Exp((-(c[1]) * (z.Rc / z.Hm0)) / (g.ksi * g.gb * g.gfa * g.gbeta * z.gamma_v)))
           b == ToR(TawQmax(z.Hm0, z.Rc, g.gbeta, g.gfa, c[2], 0, "0.2"))
       IN Res(<<Min2(a, b) * scale, b <= a>>, <<b <= a>> \o GeoR(z, g), TawChk(z, g), GeoMay(z))
TawRc(z, scale) ==
  IF NoBeta(z) \/ NoSlope(z) THEN Err
  ELSE LET g == Geo(z, TawGb(z), KTaw, KTaw)
           c == TawC(z)
           qd == z.q / QScale(z.Hm0, z.g)
           a == ToR((-Ln((qd * Sqrt(1 / g.cot)) / ("0.067" * g.gb * g.ksi)) / c[1])
                    * g.ksi * g.gb * g.gfa * g.gbeta * z.gamma_v)
           b == ToR(TawRcmax(z.Hm0, z.q, g.gbeta, g.gfa, c[2], 0, "0.2", z.g))
       IN Res(<<Min2(a, b) * scale, b <= a>>, <<b <= a>> \o GeoR(z, g), TawChk(z, g), GeoMay(z))

Eval_ov_taw2002(f, z) ==
  CASE f = "check_validity_range" ->
         OkC(<<>>, ChkTaw(z.Hm0, z.Tmm10, z.beta, z.cot_alpha, z.cot_alpha_down, z.cot_alpha_up, z.gamma_f, z.gamma_b, z.gamma_beta, z.gamma_v))
    [] f = "calculate_overtopping_discharge_q" -> TawQ(z, QScale(z.Hm0, z.g))
    [] f = "calculate_dimensionless_overtopping_discharge_q" -> TawQ(z, 1)
    [] f = "q_diml_max_equation" -> Ok(<<TawQmax(z.Hm0, z.Rc, z.gamma_beta, z.gamma_f, z.c3, z.cor3, z.c2)>>)
    [] f = "calculate_influence_oblique_waves_gamma_beta" ->
         OkR(<<GammaBeta(z.beta, z.c_gamma_beta, z.max_angle)>>, <<z.beta < 0, Abs(z.beta) > z.max_angle>>)
    [] f = "calculate_influence_crest_wall_gamma_v" ->
         OkR(<<IF z.alpha_wall_deg <= 45 THEN 1 ELSE "1.35" - "0.0078" * z.alpha_wall_deg>>, <<z.alpha_wall_deg <= 45>>)
    [] f = "calculate_crest_freeboard_Rc" -> TawRc(z, z.Hm0)
    [] f = "calculate_dimensionless_crest_freeboard" -> TawRc(z, 1)
    [] f = "Rc_diml_max_equation" -> Ok(<<TawRcmax(z.Hm0, z.q, z.gamma_beta, z.gamma_f, z.c3, z.cor3, z.c2, z.g)>>)

-----------------------------------------------------------------------------
(* EurOtop (2018) *)
EoBest  == <<"2.7", "0.09", "1.5", "0.023">>
EoGb(z) == IF N(z.gamma_beta) THEN EoGammaBeta(z.beta, z.gamma_f, "0.6", "0.0033", "0.0063", 80) ELSE z.gamma_beta
EoKz(z) == IF z.use_best_fit THEN KBestFit ELSE KEurotop
EoC(z)  == IF z.use_best_fit THEN EoBest ELSE <<z.c1, z.c2, z.c3, z.c4>>
EoC23(z) == IF z.use_best_fit THEN <<EoBest[2], EoBest[3]>> ELSE <<z.c2, z.c3>>

EoQmax(H, Rc, gbeta, gf, gstar, c2, c3)     == c2 * Exp(-(((c3 * (Rc / H)) / (gf * gbeta * gstar)) ^ "1.3"))
EoRcmax(H, q, gbeta, gf, gstar, c2, c3, g)  == (((-Ln(q / (c2 * QScale(H, g)))) ^ (1 / "1.3")) / c3) * gf * gbeta * gstar

EoQ(z, scale) ==
  IF NoBeta(z) \/ NoSlope(z) THEN Err
  ELSE LET g == Geo(z, EoGb(z), EoKz(z), KEurotop)
           c == EoC(z)
           a == ToR(((c[4] / Sqrt(1 / g.cot)) * g.gb * g.ksi)
                  * Exp(-(((c[1] * (z.Rc / z.Hm0)) / (g.ksi * g.gb * g.gfa * g.gbeta * z.gamma_v)) ^ "1.3")))
           b == ToR(EoQmax(z.Hm0, z.Rc, g.gbeta, g.gfa, z.gamma_star, c[2], c[3]))
       IN Res(<<Min2(a, b) * scale, b <= a>>, <<b <= a>> \o GeoR(z, g), {}, GeoMay(z))
EoRc(z, scale) ==
  IF NoBeta(z) \/ NoSlope(z) THEN Err
  ELSE LET g == Geo(z, EoGb(z), EoKz(z), KEurotop)
           c == EoC(z)
           qd == z.q / QScale(z.Hm0, z.g)
           a == ToR((((-Ln((qd * Sqrt(1 / g.cot)) / (c[4] * g.gb * g.ksi))) ^ (1 / "1.3")) / c[1])
                    * g.ksi * g.gb * g.gfa * g.gbeta * z.gamma_v)
           b == ToR(EoRcmax(z.Hm0, z.q, g.gbeta, g.gfa, z.gamma_star, c[2], c[3], z.g))
       IN Res(<<Min2(a, b) * scale, b <= a>>, <<b <= a>> \o GeoR(z, g), {}, GeoMay(z))

\* rubble mound: the maximum equation only, without berm factor
ChkRubble(cot, p) == If(G(cot), ChkP(p, "Cotangent alpha", "EurOtop (2018) - rubble mound", cot, R("4") / R("3"), 2))
EoRm(z, F(_, _), scale) ==
  IF NoBeta(z) \/ NoSlope(z) THEN Err
  ELSE LET g == Geo(z @@ [gamma_b |-> ToR(1)], EoGb(z), EoKz(z), KEurotop)
       IN Res(<<F(g, EoC23(z)) * scale>>, GeoR(z, g), ChkRubble(g.cot, IF IsComp(z) THEN "" ELSE "cot_alpha"),
              IF IsComp(z) THEN MayRunup ELSE {})
EoRmQ(z, scale)  == LET F(g, c) == EoQmax(z.Hm0, z.Rc, g.gbeta, g.gfa, 1, c[1], c[2]) IN EoRm(z, F, scale)
EoRmRc(z, scale) == LET F(g, c) == EoRcmax(z.Hm0, z.q, g.gbeta, g.gfa, 1, c[1], c[2], z.g) IN EoRm(z, F, scale)

Eval_ov_eurotop2018(f, z) ==
  CASE f = "check_validity_range_rubble_mound" -> OkC(<<>>, ChkRubble(z.cot_alpha, "cot_alpha"))
    [] f = "calculate_overtopping_discharge_q" -> EoQ(z, QScale(z.Hm0, z.g))
    [] f = "calculate_dimensionless_overtopping_discharge_q" -> EoQ(z, 1)
    [] f = "q_diml_max_equation" -> Ok(<<EoQmax(z.Hm0, z.Rc, z.gamma_beta, z.gamma_f, z.gamma_star, z.c2, z.c3)>>)
    [] f = "check_best_fit" -> OkR(EoC(z), <<z.use_best_fit>>)
    [] f = "calculate_influence_oblique_waves_gamma_beta" ->
         OkR(<<EoGammaBeta(z.beta, z.gamma_f, z.gamma_f_crit, z.c_gamma_beta_smooth, z.c_gamma_beta_rough, z.max_angle)>>,
             <<z.gamma_f > z.gamma_f_crit, z.beta < 0, Abs(z.beta) > z.max_angle>>)
    [] f = "calculate_crest_freeboard_Rc" -> EoRc(z, z.Hm0)
    [] f = "calculate_dimensionless_crest_freeboard" -> EoRc(z, 1)
    [] f = "Rc_diml_max_equation" -> Ok(<<EoRcmax(z.Hm0, z.q, z.gamma_beta, z.gamma_f, z.gamma_star, z.c2, z.c3, z.g)>>)
    [] f = "calculate_overtopping_discharge_q_rubble_mound" -> EoRmQ(z, QScale(z.Hm0, z.g))
    [] f = "calculate_dimensionless_overtopping_discharge_q_rubble_mound" -> EoRmQ(z, 1)
    [] f = "calculate_crest_freeboard_Rc_rubble_mound" -> EoRmRc(z, z.Hm0)
    [] f = "calculate_dimensionless_crest_freeboard_rubble_mound" -> EoRmRc(z, 1)

-----------------------------------------------------------------------------
(* EurOtop (2007), rubble mound: the maximum equation of TAW (2002) *)
E7C(z)  == IF z.use_best_fit THEN <<"0.2", "2.6">> ELSE <<z.c2, z.c3>>
E7Gb(z) == IF N(z.gamma_beta) THEN GammaBeta(z.beta, "0.0022", 80) ELSE z.gamma_beta
E7Gf(z) == IF N(z.cot_alpha) THEN z.gamma_f ELSE GammaFAdj(z.gamma_f, 1, Ksi(z.Hm0, z.Tmm10, z.cot_alpha))
E7R(z)  == IF N(z.cot_alpha) THEN <<"noslope">> ELSE <<Ksi(z.Hm0, z.Tmm10, z.cot_alpha) >= "1.8", Ksi(z.Hm0, z.Tmm10, z.cot_alpha) > 10>>
E7Q(z, scale)  == IF NoBeta(z) THEN Err ELSE OkR(<<TawQmax(z.Hm0, z.Rc, E7Gb(z), E7Gf(z), E7C(z)[2], 0, E7C(z)[1]) * scale>>, E7R(z))
E7Rc(z, scale) == IF NoBeta(z) THEN Err ELSE OkR(<<TawRcmax(z.Hm0, z.q, E7Gb(z), E7Gf(z), E7C(z)[2], 0, E7C(z)[1], "9.81") * scale>>, E7R(z))

Eval_ov_eurotop2007(f, z) ==
  CASE f = "calculate_overtopping_discharge_q_rubble_mound" -> E7Q(z, QScale(z.Hm0, z.g))
    [] f = "calculate_dimensionless_overtopping_discharge_q_rubble_mound" -> E7Q(z, 1)
    [] f = "check_best_fit" -> OkR(E7C(z), <<z.use_best_fit>>)
    [] f = "calculate_crest_freeboard_Rc_rubble_mound" -> E7Rc(z, z.Hm0)
    [] f = "calculate_dimensionless_crest_freeboard_rubble_mound" -> E7Rc(z, 1)

-----------------------------------------------------------------------------
(* van Gent (2002): overtopping velocity *)
Eval_ov_vangent2002_velocity(f, z) ==
  CASE f = "calculate_maximum_wave_overtopping_velocity_uXp" ->
    Ok(<<((Sqrt(z.g * z.Hs) * z.cu1 * Sqrt(z.gamma_f_Crest)) * Sqrt((z.zXp - z.Rc) / (z.gamma_f * z.Hs))) / (1 + (z.cu2 * z.Bc) / z.Hs)>>)

-----------------------------------------------------------------------------
(* van Gent (2021): caissons *)
ChkVg21(H, T, beta, Rc, qd, F) ==
       If(G(H) /\ G(T), Chk("Wave steepness sm-1,0", F, S0(H, T), "0.015", "0.041"))
  \cup If(G(H) /\ G(Rc), Chk("Dimensionless freeboard Rc/Hm0", F, Rc / H, "1.2", "2.9"))
  \cup If(G(qd), Chk("Dimensionless overtopping discharge q", F, qd, 0, "0.0012"))
  \cup If(G(beta), ChkP("beta", "Incident wave angle beta", F, beta, 0, 75))
Vg21F == "Van Gent (2021)"

\* <<a, b, c_beta, gamma_p>>; no coefficients exist for long-crested waves on a parapet
Vg21Bad(z)  == (~Eq(z.c, 1) /\ ~Eq(z.c, "1.3")) \/ (~z.short_crested_waves /\ ~z.crossing_seas /\ z.parapet)
Vg21C(z) ==
  LET s == z.short_crested_waves \/ z.crossing_seas IN
  IF Eq(z.c, 1)
  THEN IF s THEN <<"0.2", "3.9", "0.75", IF z.parapet THEN "0.89" ELSE "1.0">> ELSE <<"0.2", "4.0", "0.8", "1.0">>
  ELSE IF s THEN <<"0.047", "2.57", "0.7", IF z.parapet THEN "0.85" ELSE "1.0">> ELSE <<"0.047", "2.7", "0.8", "1.0">>
Vg21Gb(beta, gp, cb) == (1 - cb / gp) * (Cosd(beta) ^ 2) + cb / gp
Vg21Missing(z) == (z.crossing_seas /\ N(z.Hm0_swell)) \/ NoBeta(z)
Vg21Sw(z) == IF z.crossing_seas THEN z.c_swell * z.Hm0_swell ELSE 0
Vg21Rg(z) == <<z.short_crested_waves, z.crossing_seas, z.parapet, Eq(z.c, 1)>>
Vg21GbOf(z) == IF N(z.gamma_beta) THEN Vg21Gb(z.beta, Vg21C(z)[4], Vg21C(z)[3]) ELSE z.gamma_beta

Vg21Q(z, scale) ==
  IF Vg21Bad(z) \/ Vg21Missing(z) THEN Err
  ELSE LET k == Vg21C(z)
           q == ToR(k[1] * Exp(-((k[2] / (Vg21GbOf(z) * k[4])) * (((z.Rc - Vg21Sw(z)) / z.Hm0) ^ z.c))))
       IN OkRC(<<q * scale>>, Vg21Rg(z), ChkVg21(z.Hm0, NaN, z.beta, z.Rc, q, Vg21F))
Vg21Rc(z, scale) ==
  IF Vg21Bad(z) \/ Vg21Missing(z) THEN Err
  ELSE LET k == Vg21C(z)
           d == ToR((((-Ln(z.q / (k[1] * QScale(z.Hm0, z.g))) * Vg21GbOf(z) * k[4]) / k[2]) ^ (1 / z.c)) + Vg21Sw(z) / z.Hm0)
       IN OkRC(<<d * scale>>, Vg21Rg(z), ChkVg21(z.Hm0, NaN, z.beta, d * z.Hm0, NaN, Vg21F))

Eval_ov_vangent2021_caisson(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, {[t EXCEPT !.p = IF t.x = "Dimensionless overtopping discharge q" THEN "q_diml" ELSE @]
                                               : t \in ChkVg21(z.Hm0, z.Tmm10, z.beta, z.Rc, z.q_diml, Vg21F)})
    [] f = "calculate_overtopping_discharge_q" -> Vg21Q(z, QScale(z.Hm0, z.g))
    [] f = "calculate_dimensionless_overtopping_discharge_q" -> Vg21Q(z, 1)
    [] f = "calculate_influence_oblique_waves_gamma_beta" -> Ok(<<Vg21Gb(z.beta, z.gamma_p, z.c_beta)>>)
    [] f = "calculate_crest_freeboard_Rc" -> Vg21Rc(z, z.Hm0)
    [] f = "calculate_dimensionless_crest_freeboard" -> Vg21Rc(z, 1)

-----------------------------------------------------------------------------
(* van Gent et al. (2025) *)
ChkVg25(z) ==
  LET F == "Van Gent et al. (2025)"
      H == z.Hm0
  IN   If(G(z.cot_alpha), ChkP("cot_alpha", "Cotangent alpha slope", F, z.cot_alpha, "1.5", 8))
  \cup If(G(H) /\ G(z.Tmm10), Chk("Wave steepness sm-1,0", F, S0(H, z.Tmm10), "0.001", "0.042"))
  \cup If(G(H) /\ G(z.Tmm10) /\ G(z.cot_alpha), Chk("Iribarren number ksi_m-1,0", F, Ksi(H, z.Tmm10, z.cot_alpha), "0.05", 6))
  \cup If(G(H) /\ G(z.h), Chk("Relative water depth h / Hm0", F, z.h / H, "0.6", 5))
  \cup If(G(z.Hm0_deep) /\ G(z.h), Chk("Ratio Hm0_deep / h", F, z.Hm0_deep / z.h, 0, 1))
  \cup If(G(H) /\ G(z.Rc), Chk("Non-dimensional crest freeboard Rc / Hm0", F, z.Rc / H, "0.6", 5))
  \cup If(G(H) /\ G(z.Dn50), Chk("Non-dimensional stone diameter Dn50 / Hm0", F, z.Dn50 / H, "0.12", "0.9"))
  \cup If(G(H) /\ G(z.Rc) /\ G(z.Ac), Chk("Non-dimensional protruding part of crest wall (Rc - Ac) / Hm0", F, (z.Rc - z.Ac) / H, 0, "0.68"))
  \cup If(G(H) /\ G(z.Gc), Chk("Non-dimensional armour width in front of crest wall Gc / Hm0", F, z.Gc / H, "0.6", 5))
  \cup If(G(H) /\ G(z.B_berm), Chk("Non-dimensional Berm width B / Hm0", F, z.B_berm / H, "0.6", 5))
  \cup If(G(H) /\ G(z.db), Chk("Non-dimensional Berm height db / Hm0", F, z.db / H, "-1.7", "0.5"))
  \cup If(G(z.beta), ChkP("beta", "Incident wave angle beta", F, z.beta, 0, 75))

Vg25Gbeta(beta, c) == (1 - c) * (Cosd(beta) ^ 2) + c
Vg25Gf(Dn, H, s, c1, c2, lim) ==
  LET g1 == 1 - c1 * ((Dn / H) ^ c2) IN IF s >= lim THEN g1 ELSE g1 + 12 * (lim - s) * (1 - g1)
Vg25Gberm(H, s, Ac, B, BL, c1, c2, c3, c4) == 1 - (c1 * (((s * B) / H) ^ c2)) * (1 - c3 * ((BL / (s * Ac)) ^ c4))
Vg25Gv(cot, Rc, Ac, cv) == IF cot <= 4 THEN 1 + (cv * (Rc - Ac)) / Rc ELSE 1 + ("0.1125" * cot * (Rc - Ac)) / Rc
Vg25Gw(Rc, Ac, H, q, c1, c2) == 1 + c1 * ((Rc - Ac) / H) * (q ^ c2)

Vg25Missing(z) == NoBeta(z) \/ N(z.gamma_v) \/ (N(z.gamma_f) /\ N(z.Dn50))
Vg25Geo(z) ==
  LET s == S0(z.Hm0, z.Tmm10) IN
  [ksi |-> ToR(Ksi(z.Hm0, z.Tmm10, z.cot_alpha)),
   s   |-> ToR(s),
   G   |-> ToR((IF N(z.gamma_beta) THEN Vg25Gbeta(z.beta, "0.35") ELSE z.gamma_beta)
             * (IF N(z.gamma_b) THEN Vg25Gberm(z.Hm0, s, z.Ac, z.B_berm, z.Ac - z.db, 18, "1.3", "0.34", "0.2") ELSE z.gamma_b)
             * (IF N(z.gamma_f) THEN Vg25Gf(z.Dn50, z.Hm0, s, "0.7", "0.05", "0.012") ELSE z.gamma_f)
             * z.gamma_v)]
Vg25Qa(cot, Rc, sw, H, G_, ksi)         == ("6.8" / cot) * Exp((-5 * (Rc - "0.4" * sw)) / (G_ * ksi * H))
Vg25Qb(cot, Rc, sw, H, G_, ksi, c2, c3) == (c2 / cot) * Exp((c3 * (Rc - "0.4" * sw)) / (G_ * (ksi ^ "0.24") * H))
Vg25Ra(cot, qd, sw, H, G_, ksi)         == ((Ln((cot * qd) / "6.8") * G_ * ksi) / (-5)) + ("0.4" * sw) / H
Vg25Rb(cot, qd, sw, H, G_, ksi, c2, c3) == ((Ln((cot * qd) / c2) * G_ * (ksi ^ "0.24")) / c3) + ("0.4" * sw) / H
Vg25R(z, g) == <<N(z.gamma_f) /\ g.s >= "0.012", z.design_calculation, z.include_influence_wind>>
Vg25Chk(z, Rc) == ChkVg25([cot_alpha |-> z.cot_alpha, Hm0 |-> z.Hm0, Tmm10 |-> z.Tmm10, h |-> NaN, Hm0_deep |-> NaN, Rc |-> Rc,
                           Dn50 |-> z.Dn50, Ac |-> z.Ac, Gc |-> NaN, B_berm |-> z.B_berm, db |-> z.db, beta |-> z.beta])

Vg25Q(z, scale) ==
  IF Vg25Missing(z) THEN Err
  ELSE LET g == Vg25Geo(z)
           a == ToR(Vg25Qa(z.cot_alpha, z.Rc, z.Hm0_swell, z.Hm0, g.G, g.ksi))
           b == ToR(Vg25Qb(z.cot_alpha, z.Rc, z.Hm0_swell, z.Hm0, g.G, g.ksi, "0.8", "-2.5"))
           q1 == Min2(a, b)
           q2 == IF z.include_influence_wind THEN q1 * Vg25Gw(z.Rc, z.Ac, z.Hm0, q1, "0.075", "-0.3") ELSE q1
           q3 == IF z.design_calculation THEN q2 ^ "0.857" ELSE q2
       IN OkRC(<<q3 * scale, b <= a>>, <<b <= a>> \o Vg25R(z, g), Vg25Chk(z, z.Rc))

\* with wind the discharge factor depends on the freeboard sought: fixed point
RECURSIVE Vg25It(_, _, _, _, _, _, _)
Vg25It(z, g, qd, qi, prev, n, tol) ==
  LET gw == Vg25Gw(prev * z.Hm0, z.Ac, z.Hm0, qi, "0.075", "-0.3")
      qn == ToR(qd / gw)
      a  == ToR(Vg25Ra(z.cot_alpha, qn, z.Hm0_swell, z.Hm0, g.G, g.ksi))
      b  == ToR(Vg25Rb(z.cot_alpha, qn, z.Hm0_swell, z.Hm0, g.G, g.ksi, "0.8", "-2.5"))
      d  == Abs(Min2(a, b) - prev)
  IN IF ~(d > tol) THEN <<a, b>> ELSE IF n <= 1 THEN <<NaN, NaN>> ELSE Vg25It(z, g, qd, qn, Min2(a, b), n - 1, tol)
Vg25Rc(z, scale, gg, maxit, tol) ==
  IF Vg25Missing(z) THEN Err
  ELSE LET g  == Vg25Geo(z)
           q0 == z.q / QScale(z.Hm0, gg)
           qd == ToR(IF z.design_calculation THEN q0 ^ (1 / "0.857") ELSE q0)
           a0 == ToR(Vg25Ra(z.cot_alpha, qd, z.Hm0_swell, z.Hm0, g.G, g.ksi))
           b0 == ToR(Vg25Rb(z.cot_alpha, qd, z.Hm0_swell, z.Hm0, g.G, g.ksi, "0.8", "-2.5"))
           ab == IF z.include_influence_wind THEN Vg25It(z, g, qd, qd, Min2(a0, b0), CapOf(maxit), tol) ELSE <<a0, b0>>
           d  == Min2(ab[1], ab[2])
       IN OkRC(<<d * scale, ab[2] <= ab[1]>>, <<ab[2] <= ab[1]>> \o Vg25R(z, g), Vg25Chk(z, d * z.Hm0))

Eval_ov_vangent2025(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkVg25(z))
    [] f = "calculate_overtopping_discharge_q" -> Vg25Q(z, QScale(z.Hm0, z.g))
    [] f = "calculate_dimensionless_overtopping_discharge_q" -> Vg25Q(z, 1)
    [] f = "q_diml_max_equation" ->
         Ok(<<Vg25Qb(z.cot_alpha, z.Rc, z.Hm0_swell, z.Hm0, z.gamma_f * z.gamma_b * z.gamma_v * z.gamma_beta, z.ksi_mm10, z.c2, z.c3)>>)
    [] f = "calculate_influence_friction_gamma_f" ->
         OkR(<<Vg25Gf(z.Dn50, z.Hm0, z.smm10, z.c_f1, z.c_f2, z.smm10_lim)>>, <<z.smm10 >= z.smm10_lim>>)
    [] f = "calculate_influence_berm_gamma_b" -> Ok(<<Vg25Gberm(z.Hm0, z.smm10, z.Ac, z.B_berm, z.BL, z.c_b1, z.c_b2, z.c_b3, z.c_b4)>>)
    [] f = "calculate_influence_oblique_waves_gamma_beta" -> Ok(<<Vg25Gbeta(z.beta, z.c_beta)>>)
    [] f = "calculate_influence_crest_wall_gamma_v" -> OkR(<<Vg25Gv(z.cot_alpha, z.Rc, z.Ac, z.c_v)>>, <<z.cot_alpha <= 4>>)
    [] f = "calculate_influence_wind_gamma_w" -> Ok(<<Vg25Gw(z.Rc, z.Ac, z.Hm0, z.q_diml, z.c_w1, z.c_w2)>>)
    [] f = "calculate_crest_freeboard_Rc" -> Vg25Rc(z, z.Hm0, "9.81", 1000, "1e-5")
    [] f = "calculate_dimensionless_crest_freeboard" -> Vg25Rc(z, 1, z.g, z.max_iter, z.tolerance)
    [] f = "Rc_diml_max_equation" ->
         Ok(<<Vg25Rb(z.cot_alpha, z.q / QScale(z.Hm0, z.g), z.Hm0_swell, z.Hm0, z.gamma_f * z.gamma_b * z.gamma_v * z.gamma_beta, z.ksi_mm10, z.c2, z.c3)>>)

-----------------------------------------------------------------------------
(* de Ridder et al. (2024, 2026) *)
ChkDr24(z) ==
  LET F == "De Ridder et al. (2024)"
      H == z.Hm0
  IN   If(G(H) /\ G(z.Tmm10), Chk("Wave steepness sm-1,0", F, S0(H, z.Tmm10), "0.001", "0.04"))
  \cup If(G(z.Hm0_HF) /\ G(z.Tmm10_HF), Chk("Short wave steepness sm-1,0_HF", F, S0(z.Hm0_HF, z.Tmm10_HF), "0.004", "0.047"))
  \cup If(G(H) /\ G(z.Tmm10) /\ G(z.cot_alpha), Chk("Iribarren number Ksi_m-1,0", F, Ksi(H, z.Tmm10, z.cot_alpha), "0.05", "1.11"))
  \cup If(G(z.m_foreshore_slope), ChkP("m_foreshore_slope", "Foreshore slope m", F, z.m_foreshore_slope, "0.01", "0.05"))
  \cup If(G(z.Rc) /\ G(H), Chk("Rc/Hm0", F, z.Rc / H, "0.8", "3.72"))
  \cup If(G(z.Dn50) /\ G(H), Chk("Dn50/Hm0", F, z.Dn50 / H, "0.12", "0.89"))
  \cup If(G(H) /\ G(z.Hm0_LF), Chk("Hm0_LF/Hm0", F, z.Hm0_LF / H, "0.1", "0.81"))
  \cup If(G(z.h) /\ G(H), Chk("h/Hm0", F, z.h / H, "0.57", "4.95"))
ChkDr26(z) ==
  LET F == "De Ridder et al. (2026)"
      H == z.Hm0
  IN   If(G(H) /\ G(z.Tmm10), Chk("Wave steepness sm-1,0", F, S0(H, z.Tmm10), "0.003", "0.041"))
  \cup If(G(z.Hm0_HF) /\ G(z.Tmm10_HF), Chk("Short wave steepness sm-1,0_HF", F, S0(z.Hm0_HF, z.Tmm10_HF), "0.012", "0.049"))
  \cup If(G(z.Rc) /\ G(H), Chk("Rc/Hm0", F, z.Rc / H, "0.98", "1.94"))
  \cup If(G(z.Dn50) /\ G(H), Chk("Dn50/Hm0", F, z.Dn50 / H, "0.18", "0.35"))
  \cup If(G(H) /\ G(z.Hm0_LF), Chk("Hm0_LF/Hm0", F, z.Hm0_LF / H, "0.15", "0.55"))
  \cup If(G(z.h) /\ G(H), Chk("h/Hm0", F, z.h / H, "1.41", "2.15"))
  \cup If(G(z.theta), ChkP("theta", "theta", F, z.theta, 0, 56))

DrNone == [h |-> NaN, Hm0 |-> NaN, Hm0_HF |-> NaN, Hm0_LF |-> NaN, Tmm10 |-> NaN, Tmm10_HF |-> NaN, Rc |-> NaN,
           cot_alpha |-> NaN, m_foreshore_slope |-> NaN, Dn50 |-> NaN, theta |-> NaN]
DrT(H, s) == Sqrt((2 * Pi * H) / (s * "9.81"))
Dr24Chk(z, Rc, LF) == ChkDr24([DrNone EXCEPT !.Hm0 = z.Hm0, !.Hm0_HF = z.Hm0, !.Tmm10_HF = DrT(z.Hm0, z.smm10_HF), !.Rc = Rc, !.Hm0_LF = LF])
Dr24Q24(z, scale)  == OkC(<<"0.74" * Exp(("-8.51" * (z.Rc / (z.Hm0 * z.gamma_f))) * (z.smm10_HF ^ "0.32")) * scale>>, Dr24Chk(z, z.Rc, NaN))
Dr24Q26(z, scale)  == OkC(<<"0.5" * Exp(("-7.91" * ((z.Rc - "0.21" * z.Hm0_LF) / (z.Hm0 * z.gamma_f))) * (z.smm10_HF ^ "0.3")) * scale>>,
                          Dr24Chk(z, z.Rc, z.Hm0_LF))
Dr24R24(z, scale)  ==
  LET d == ToR((-Ln(z.q / ("0.74" * QScale(z.Hm0, z.g))) * z.gamma_f) / ("8.51" * (z.smm10_HF ^ "0.32")))
  IN OkC(<<d * scale>>, Dr24Chk(z, d * z.Hm0, NaN))
Dr24R26(z) ==
  LET d == ToR(((-Ln(z.q / ("0.5" * QScale(z.Hm0, z.g))) * z.gamma_f * z.Hm0) / ("7.91" * (z.smm10_HF ^ "0.3"))) + "0.21" * z.Hm0_LF)
  IN OkC(<<d>>, Dr24Chk(z, d, z.Hm0_LF))

Eval_ov_deridder2024(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkDr24(z))
    [] f = "calculate_crest_freeboard_discharge_q_eq24" -> Dr24R24(z, z.Hm0)
    [] f = "calculate_dimensionless_crest_freeboard_discharge_q_eq24" -> Dr24R24(z, 1)
    [] f = "calculate_crest_freeboard_discharge_q_eq26" -> Dr24R26(z)
    [] f = "calculate_overtopping_discharge_q_eq24" -> Dr24Q24(z, QScale(z.Hm0, z.g))
    [] f = "calculate_overtopping_discharge_q_eq26" -> Dr24Q26(z, QScale(z.Hm0, z.g))
    [] f = "calculate_dimensionless_overtopping_discharge_eq24" -> Dr24Q24(z, 1)
    [] f = "calculate_dimensionless_overtopping_discharge_eq26" -> Dr24Q26(z, 1)

Dr26Gb(theta) == "0.65" * (Cosd(theta) ^ 2) + "0.35"
Dr26Chk(H, z, LF) == ChkDr26([DrNone EXCEPT !.Hm0 = H, !.Hm0_HF = H, !.Tmm10_HF = DrT(H, z.smm10_HF), !.Rc = z.Rc, !.Hm0_LF = LF, !.theta = z.theta])
Dr26Q28(z, scale) == OkC(<<"0.16" * Exp(("-6.93" * (z.Rc / (z.Hm0 * z.gamma_f * Dr26Gb(z.theta)))) * (z.smm10_HF ^ "0.36")) * scale>>, Dr26Chk(z.Hm0, z, NaN))
Dr26Q32(z, scale) == OkC(<<"0.05" * Exp((("-10.4" * ((z.Rc - "0.97" * z.Hm0_LF) / z.Hm0_HF)) / (z.gamma_f * Dr26Gb(z.theta))) * Sqrt(z.smm10_HF)) * scale>>,
                         Dr26Chk(z.Hm0_HF, z, z.Hm0_LF))
Dr26R28(z, gb, scale) == Ok(<<((-Ln(z.q / ("0.16" * QScale(z.Hm0, z.g))) * z.gamma_f * gb) / ("6.93" * (z.smm10_HF ^ "0.36"))) * scale>>)
Eval_ov_deridder2026(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkDr26(z))
    [] f = "calculate_crest_freeboard_discharge_q_eq28" -> Dr26R28(z, Dr26Gb(z.theta), z.Hm0)
    [] f = "calculate_crest_freeboard_discharge_q_eq32" ->
         Ok(<<((-Ln(z.q / ("0.05" * QScale(z.Hm0_HF, z.g))) * z.gamma_f * Dr26Gb(z.theta) * z.Hm0_HF) / ("10.4" * Sqrt(z.smm10_HF))) + "0.97" * z.Hm0_LF>>)
    [] f = "calculate_dimensionless_crest_freeboard_discharge_q_eq28" -> Dr26R28(z, z.gamma_beta, 1)
    [] f = "calculate_overtopping_discharge_q_eq28" -> Dr26Q28(z, QScale(z.Hm0, z.g))
    [] f = "calculate_overtopping_discharge_q_eq32" -> Dr26Q32(z, QScale(z.Hm0_HF, z.g))
    [] f = "calculate_dimensionless_overtopping_discharge_eq28" -> Dr26Q28(z, 1)
    [] f = "calculate_gamma_beta" -> Ok(<<Dr26Gb(z.theta)>>)
    [] f = "calculate_dimensionless_overtopping_discharge_eq32" -> Dr26Q32(z, 1)
=============================================================================
