------------------------------- MODULE Runup --------------------------------
(* functions/hydraulic/wave_runup: TAW (2002), EurOtop (2018), van Gent (2001) *)
EXTENDS CorePhysics

-----------------------------------------------------------------------------
(* influence factors *)
GammaBeta(beta, c, max) == 1 - c * Min2(Abs(beta), max)
GammaFAdj(gf, gb, ksi)  ==
  IF N(gb * ksi) THEN NaN
  ELSE IF gb * ksi >= "1.8" THEN Min2((((ksi - "1.8") * (1 - gf)) / (10 - R("1.8"))) + gf, 1) ELSE gf
GammaBerm(Hm0, z2p, db, B, L) ==
  LET x   == IF db < 0 THEN z2p ELSE 2 * Hm0
      rdh == IF db > 2 * Hm0 \/ db < -z2p THEN 1 ELSE "0.5" - "0.5" * Cos((Pi * db) / x)
  IN Max2(Min2(1 - (B / L) * (1 - rdh), 1), "0.6")
BermRegime(Hm0, z2p, db) == <<db < 0, db > 2 * Hm0, db < -z2p>>
\* average slope between 1.5 Hm0 below and z2p above still water, without the berm
AvgSlope(Hm0, z2p, down, up, B, db) ==
  (("1.5" * Hm0 - db) * down + (z2p + db) * up) / ("1.5" * Hm0 + z2p)

\* slope and angle alternatives
NoBeta(z)    == N(z.beta) /\ N(z.gamma_beta)
NoSlope(z)   == N(z.cot_alpha) /\ (N(z.cot_alpha_down) \/ N(z.cot_alpha_up))
IsComp(z)    == G(z.cot_alpha_down) /\ G(z.cot_alpha_up)
BermLen(Hm0, B, cot, down, up) ==
  IF G(down) /\ G(up) THEN Hm0 * down + B + Hm0 * up ELSE Hm0 * cot + B + Hm0 * cot

-----------------------------------------------------------------------------
(* dimensionless 2% run-up; k = <<c1, c2, c3, c4>> *)
KTaw      == <<"1.75", "4.3", "1.6", "1.0">>
KEurotop  == <<"1.75", "4.3", "1.5", "1.07">>
KBestFit  == <<"1.65", "4.0", "1.5", "1.0">>

ZLin(k, gb, gfa, gbeta, ksi) == k[1] * gb * gfa * gbeta * ksi
ZMax(k, gfa, gbeta, ksi)     == k[4] * gfa * gbeta * (k[2] - k[3] / Sqrt(ksi))
ZDiml(k, gb, gf, gbeta, ksi) ==
  LET gfa == GammaFAdj(gf, gb, ksi) IN Min2(ZLin(k, gb, gfa, gbeta, ksi), ZMax(k, gfa, gbeta, ksi))

ChkRunup(H, T, gf, gb, gbeta, cot) ==
  LET F == "TAW (2002)" IN
       If(G(gb), ChkP("gamma_b", "Influence factor for a berm gamma_b", F, gb, "0.6", 1))
  \cup If(G(gbeta), ChkP("gamma_beta", "Influence factor for oblique wave incidence gamma_beta", F, gbeta, "0.7", 1))
  \cup If(G(gf), ChkP("gamma_f", "Influence factor for surface roughness gamma_f", F, gf, "0.5", 1))
  \cup If(G(H) /\ G(T), Chk("Wave steepness smm10", F, S0(H, T), "0.001", "0.07"))
  \cup If(G(H) /\ G(T) /\ G(cot), Chk("Iribarren number ksi_mm10", F, Ksi(H, T, cot), "0.4", 20))

\* run-up on an average slope is implicit; the toolbox iterates from 1.5 Hm0
RECURSIVE ZIter(_, _, _, _, _, _, _, _, _, _, _, _, _)
ZIter(z1, z0, n, H, T, down, up, B, db, gf, gbeta, k, tol) ==
  IF n[1] <= n[2] /\ Abs(z1 - z0) > tol
  THEN LET L   == BermLen(H, B, NaN, down, up)
           gb  == GammaBerm(H, z1, db, B, L)
           c0  == AvgSlope(H, z1, down, up, B, db)
           cot == IF c0 > 0 THEN c0 ELSE NaN        \* not a slope: not admissible
           zn  == ToR(H * ZDiml(k, gb, gf, gbeta, Ksi(H, T, cot)))
       IN ZIter(zn, ToR(z1), <<n[1] + 1, n[2]>>, H, T, down, up, B, db, gf, gbeta, k, tol)
  ELSE IF n[1] > n[2] THEN NaN ELSE z1      \* no fixed point found: not admissible
ZComposite(H, T, down, up, B, db, gf, gbeta, k, tol, max) ==
  LET z == ToR("1.5" * H) IN ZIter(z, z + 2 * tol, <<0, CapOf(max)>>, H, T, down, up, B, db, gf, gbeta, k, tol)
ZC(H, T, down, up, B, db, gf, gbeta, k) == ZComposite(H, T, down, up, B, db, gf, gbeta, k, "0.0001", 1000)

\* the berm factor depends on the run-up: two passes
GammaB2(H, T, cot, B, L, db, gf, gbeta, k) ==
  IF Eq(B, 0) \/ Eq(L, 0) THEN ToR(1)
  ELSE LET ksi == Ksi(H, T, cot)
           g1  == GammaBerm(H, H * ZDiml(k, 1, gf, gbeta, ksi), db, B, L)
       IN GammaBerm(H, H * ZDiml(k, g1, gf, gbeta, ksi), db, B, L)

\* warnings that the run-up evaluations inside the iterations may give
MayRunup == May(ChkRunup(1, 1, 1, 1, 1, 1))

KOf(z, best) == IF z.use_best_fit THEN best ELSE <<z.c1, z.c2, z.c3, z.c4>>

\* z: completed arguments, gbeta resolved, k coefficients
ZRes(z, gbeta, k, scale) ==
  LET comp == IsComp(z)
      cot  == IF comp THEN LET zs == ZC(z.Hm0, z.Tmm10, z.cot_alpha_down, z.cot_alpha_up, z.B_berm, z.db, z.gamma_f, gbeta, k)
                           IN LET c0 == AvgSlope(z.Hm0, zs, z.cot_alpha_down, z.cot_alpha_up, z.B_berm, z.db) IN IF c0 > 0 THEN c0 ELSE NaN
              ELSE z.cot_alpha
      ksi  == Ksi(z.Hm0, z.Tmm10, cot)
      gb   == IF G(z.gamma_b) THEN z.gamma_b
              ELSE GammaB2(z.Hm0, z.Tmm10, cot, z.B_berm, BermLen(z.Hm0, z.B_berm, cot, z.cot_alpha_down, z.cot_alpha_up),
                           z.db, z.gamma_f, gbeta, k)
      gfa  == GammaFAdj(z.gamma_f, gb, ksi)
      a    == ToR(ZLin(k, gb, gfa, gbeta, ksi))
      b    == ToR(ZMax(k, gfa, gbeta, ksi))
      c0   == ChkRunup(z.Hm0, z.Tmm10, z.gamma_f, gb, gbeta, cot)
      c    == IF comp \/ N(z.gamma_b) \/ N(z.gamma_beta)
              THEN {[t EXCEPT !.p = IF t.p = "gamma_b" /\ N(z.gamma_b) THEN "" ELSE IF t.p = "gamma_beta" /\ N(z.gamma_beta) THEN "" ELSE @] : t \in c0}
              ELSE c0
  IN Res(<<Min2(a, b) * scale, b <= a>>, <<b <= a, gb * ksi >= "1.8", ksi > 10, comp>>, c,
         IF comp \/ N(z.gamma_b) THEN MayRunup ELSE {})

TawZ(z, scale) ==
  IF NoBeta(z) \/ NoSlope(z) THEN Err
  ELSE ZRes(z, IF N(z.gamma_beta) THEN GammaBeta(z.beta, "0.0022", 80) ELSE z.gamma_beta, KOf(z, KBestFit), scale)
EoGammaBeta(beta, gf, crit, cs, cr, max) == GammaBeta(beta, IF gf > crit THEN cs ELSE cr, max)
EoZ(z, scale) ==
  IF NoBeta(z) \/ NoSlope(z) THEN Err
  ELSE ZRes(z, IF N(z.gamma_beta) THEN EoGammaBeta(z.beta, z.gamma_f, "0.6", "0.0022", "0.0063", 80) ELSE z.gamma_beta,
            KOf(z, KBestFit), scale)

Eval_ru_taw2002(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkRunup(z.Hm0, z.Tmm10, z.gamma_f, z.gamma_b, z.gamma_beta, z.cot_alpha))
    [] f = "calculate_wave_runup_height_z2p" -> TawZ(z, z.Hm0)
    [] f = "calculate_dimensionless_wave_runup_height_z2p" -> TawZ(z, 1)
    [] f = "determine_average_slope" -> Ok(<<AvgSlope(z.Hm0, z.z2p, z.cot_alpha_down, z.cot_alpha_up, z.B_berm, z.db)>>)
    [] f = "iteration_procedure_z2p" ->
         Res(<<ZComposite(z.Hm0, z.Tmm10, z.cot_alpha_down, z.cot_alpha_up, z.B_berm, z.db, z.gamma_f, z.gamma_beta,
                          KOf(z, KBestFit), z.tolerance, z.max_iter)>>, <<>>, {}, MayRunup)
    [] f = "calculate_berm_length" ->
         IF NoSlope(z) THEN Err
         ELSE OkR(<<BermLen(z.Hm0, z.B_berm, z.cot_alpha, z.cot_alpha_down, z.cot_alpha_up)>>, <<IsComp(z)>>)
    [] f = "check_composite_slope" -> IF NoSlope(z) THEN Err ELSE OkR(<<IsComp(z)>>, <<IsComp(z)>>)
    [] f = "check_calculate_gamma_beta" -> IF NoBeta(z) THEN Err ELSE OkR(<<N(z.gamma_beta)>>, <<N(z.gamma_beta)>>)
    [] f = "iteration_procedure_gamma_b" ->
         Res(<<GammaB2(z.Hm0, z.Tmm10, z.cot_alpha_average, z.B_berm, z.L_berm, z.db, z.gamma_f, z.gamma_beta, KOf(z, KBestFit))>>,
             <<Eq(z.B_berm, 0), z.db < 0, z.db > 2 * z.Hm0>>, {}, MayRunup)
    [] f = "calculate_influence_berm_gamma_b" ->
         OkR(<<GammaBerm(z.Hm0, z.z2p, z.db, z.B_berm, z.L_berm)>>, BermRegime(z.Hm0, z.z2p, z.db))
    [] f = "calculate_influence_oblique_waves_gamma_beta" ->
         OkR(<<GammaBeta(z.beta, z.c_gamma_beta, z.max_angle)>>, <<z.beta < 0, Abs(z.beta) > z.max_angle>>)
    [] f = "calculate_adjusted_influence_roughness_gamma_f" ->
         OkR(<<GammaFAdj(z.gamma_f, z.gamma_b, z.ksi_mm10)>>, <<z.gamma_b * z.ksi_mm10 >= "1.8", z.ksi_mm10 > 10>>)

Eval_ru_eurotop2018(f, z) ==
  CASE f = "calculate_wave_runup_height_z2p" -> EoZ(z, z.Hm0)
    [] f = "calculate_dimensionless_wave_runup_height_z2p" -> EoZ(z, 1)
    [] f = "check_best_fit" -> OkR(KOf(z, KBestFit), <<z.use_best_fit>>)
    [] f = "calculate_influence_oblique_waves_gamma_beta" ->
         OkR(<<EoGammaBeta(z.beta, z.gamma_f, z.gamma_f_crit, z.c_gamma_beta_smooth, z.c_gamma_beta_rough, z.max_angle)>>,
             <<z.gamma_f > z.gamma_f_crit, z.beta < 0, Abs(z.beta) > z.max_angle>>)
    [] f = "iteration_procedure_z2p" ->
         Res(<<ZComposite(z.Hm0, z.Tmm10, z.cot_alpha_down, z.cot_alpha_up, z.B_berm, z.db, z.gamma_f, z.gamma_beta,
                          KOf(z, KBestFit), z.tolerance, z.max_iter)>>, <<>>, {}, MayRunup)
    [] f = "iteration_procedure_gamma_b" ->
         Res(<<GammaB2(z.Hm0, z.Tmm10, z.cot_alpha_average, z.B_berm, z.L_berm, z.db, z.gamma_f, z.gamma_beta, KOf(z, KBestFit))>>,
             <<Eq(z.B_berm, 0), z.db < 0, z.db > 2 * z.Hm0>>, {}, MayRunup)

-----------------------------------------------------------------------------
(* van Gent (2001) *)
ZX(H, T, gamma, cot, c0, c1) ==
  LET ksi == Ksi(H, T, cot)
      c2  == (("0.25" * (c1 ^ 2)) / c0)
  IN IF ksi < ("0.5" * c1) / c0 THEN c0 * ksi * gamma * H ELSE (c1 - c2 / ksi) * gamma * H
ZXr(H, T, cot, c0, c1) == <<Ksi(H, T, cot) < ("0.5" * c1) / c0>>

Eval_ru_vangent2001(f, z) ==
  CASE f \in {"calculate_wave_runup_height_z1p", "calculate_wave_runup_height_z10p"} ->
         OkR(<<ZX(z.Hs, z.Tmm10, z.gamma, z.cot_alpha, z.c0, z.c1)>>, ZXr(z.Hs, z.Tmm10, z.cot_alpha, z.c0, z.c1))
    [] f = "calculate_wave_runup_height_zXp" ->
         OkR(<<ZX(z.H, z.Tmm10, z.gamma, z.cot_alpha, z.c0, z.c1)>>, ZXr(z.H, z.Tmm10, z.cot_alpha, z.c0, z.c1))
    [] f = "calculate_wave_runup_height_z2p" ->
         IF N(z.Hm0) = N(z.Hs) THEN Err
         ELSE LET H  == IF G(z.Hm0) THEN z.Hm0 ELSE z.Hs  \* Hm0 and Hs come with their own coefficients
                  c0 == IF G(z.c0) THEN z.c0 ELSE IF G(z.Hm0) THEN "1.45" ELSE "1.35"
                  c1 == IF G(z.c1) THEN z.c1 ELSE IF G(z.Hm0) THEN "3.8" ELSE "4.7"
              IN OkR(<<ZX(H, z.Tmm10, z.gamma, z.cot_alpha, c0, c1)>>, <<G(z.Hm0)>> \o ZXr(H, z.Tmm10, z.cot_alpha, c0, c1))
=============================================================================
