------------------------------ MODULE ToeRear -------------------------------
(* functions/structural/stability_toe_berm: Gerding (1993), van der Meer
   (1998), van Gent & van der Werf (2014), Etemad-Shahidi (2021), Takahashi
   (1990); stability_rock_rear: van Gent (2007), van Gent & Pozueta (2004) *)
EXTENDS Runup

-----------------------------------------------------------------------------
(* Gerding (1993) *)
ChkGe(ht, h, Dn) ==
  LET F == "Gerding (1993)" IN
       If(G(ht) /\ G(h), Chk("Relative toe height (h)", F, ht / h, "0.4", "0.9"))
  \cup If(G(ht) /\ G(Dn), Chk("Relative toe height (Dn50)", F, ht / Dn, 3, 25))
Eval_tb_gerding1993(f, z) ==
  CASE f = "check_validity" -> OkC(<<>>, ChkGe(z.ht, z.h, z.Dn50))
    [] f = "calculate_damage_Nod" ->
         OkC(<<(Ns(z.Hs, z.Dn50, z.rho_rock, z.rho_water) / ("1.6" + "0.24" * (z.ht / z.Dn50))) ^ (1 / "0.15")>>, ChkGe(z.ht, z.h, z.Dn50))
    [] f = "calculate_nominal_diameter_Dn50" ->
         LET n == z.Nod ^ "0.15"
             D == ToR((z.Hs / Delta(z.rho_rock, z.rho_water) - n * "0.24" * z.ht) / (n * "1.6"))
         IN OkC(<<D>>, ChkGe(z.ht, z.h, D))
    [] f = "calculate_wave_height_Hs" ->
         OkC(<<(z.Nod ^ "0.15") * Delta(z.rho_rock, z.rho_water) * z.Dn50 * ("1.6" + "0.24" * (z.ht / z.Dn50))>>, ChkGe(z.ht, z.h, z.Dn50))
    [] f = "calculate_depth_above_toe_ht" ->
         LET ht == ToR((z.Dn50 * (z.Hs / (Delta(z.rho_rock, z.rho_water) * z.Dn50 * (z.Nod ^ "0.15")) - "1.6")) / "0.24")
         IN OkC(<<ht>>, ChkGe(ht, z.h, z.Dn50))

-----------------------------------------------------------------------------
(* van der Meer (1998) *)
ChkTm(Hs, ht, h, Dn, Nod, D, ph) ==
  LET F == "van der Meer (1998)" IN
       If(G(Hs), ChkP(ph, "Relative toe height (h)", F, Hs, "0.01", 20))
  \cup If(G(ht) /\ G(h), Chk("Relative toe height (Dn50)", F, ht / h, "0.4", "0.9"))
  \cup If(G(ht) /\ G(Dn), Chk("Relative toe height (Dn50)", F, ht / Dn, 3, 25))
  \cup If(G(Nod) /\ G(Dn) /\ G(Hs) /\ G(D), Chk("Nod vs Ns", F, (Nod ^ "-0.15") * (Hs / (D * Dn)), 2, "Infinity"))
TmK(z) == 2 + "6.2" * ((z.ht / z.h) ^ "2.7")
Eval_tb_vandermeer1998(f, z) ==
  IF f = "check_validity" THEN OkC(<<>>, ChkTm(z.Hs, z.ht, z.h, z.Dn50, z.Nod, z.Delta, "Hs"))
  ELSE LET D == Delta(z.rho_rock, z.rho_water) IN
  CASE f = "calculate_damage_Nod" ->
         LET n == ToR((z.Hs / (D * z.Dn50 * TmK(z))) ^ (1 / "0.15")) IN OkC(<<n>>, ChkTm(z.Hs, z.ht, z.h, z.Dn50, n, D, "Hs"))
    [] f = "calculate_nominal_diameter_Dn50" ->
         LET d == ToR(z.Hs / (TmK(z) * (z.Nod ^ "0.15") * D)) IN OkC(<<d>>, ChkTm(z.Hs, z.ht, z.h, d, z.Nod, D, "Hs"))
    [] f = "calculate_wave_height_Hs" ->
         LET H == ToR(TmK(z) * D * z.Dn50 * (z.Nod ^ "0.15")) IN OkC(<<H>>, ChkTm(H, z.ht, z.h, z.Dn50, z.Nod, D, ""))
    [] f = "calculate_depth_above_toe_ht" ->
         LET x  == ((z.Hs * (z.Nod ^ "-0.15")) / (D * z.Dn50) - 2) / "6.2"
             ht == IF x > 0 THEN ToR((x ^ (1 / "2.7")) * z.h) ELSE NaN     \* no depth sustains this load
         IN OkRC(<<ht>>, <<x > 0>>, ChkTm(z.Hs, ht, z.h, z.Dn50, z.Nod, D, "Hs"))

-----------------------------------------------------------------------------
(* van Gent & van der Werf (2014) *)
ChkTg(Hs, tt, ht, cot) ==
  LET F == "van Gent & van der Werf (2014)" IN
       If(G(cot), ChkP("cot_alpha_armour_slope", "Armour slope cot_alpha_armour_slope", F, cot, "1.5", 4))
  \cup If(G(cot), ChkP("cot_alpha_armour_slope", "Armour slope cot_alpha_armour_slope, closer to 1:4 more inaccuracies are found", F, cot, "1.5", 2))
  \cup If(G(ht) /\ G(tt), Chk("Relative toe height tt/h", F, tt / (ht + tt), "0.1", "0.3"))
  \cup If(G(ht) /\ G(tt) /\ G(Hs), Chk("Relative water depth h/Hs", F, (ht + tt) / Hs, "1.2", "4.5"))
UDelta(Hs, T, ht, g) == ((Pi * Hs) / T) / Sinh(((2 * Pi) / ((g / (2 * Pi)) * (T ^ 2))) * ht)
Eval_tb_vangentvanderwerf2014(f, z) ==
  CASE f = "check_validity" -> OkC(<<>>, ChkTg(z.Hs, z.tt, z.ht, z.cot_alpha_armour_slope))
    [] f = "calculate_velocity_u_delta" -> Ok(<<UDelta(z.Hs, z.Tmm10, z.ht, z.g)>>)
    [] f = "calculate_damage_Nod" ->
         OkC(<<z.c1 * ((z.Bt / z.Hm0) ^ z.c2) * ((z.tt / z.Hm0) ^ z.c3) * (Ns(z.Hm0, z.Dn50, z.rho_rock, z.rho_water) ^ z.c4)
               * ((UDelta(z.Hm0, z.Tmm10, z.ht, z.g) / Sqrt(z.g * z.Hm0)) ^ z.c5)>>, ChkTg(z.Hm0, z.tt, z.ht, z.cot_alpha_armour_slope))
    [] f = "calculate_nominal_diameter_Dn50" ->
         OkC(<<"0.32" * (z.Hm0 / (Delta(z.rho_rock, z.rho_water) * (z.Nod ^ (1 / 3)))) * ((z.Bt / z.Hm0) ^ "0.1") * ((z.tt / z.Hm0) ^ (1 / 3))
               * ((UDelta(z.Hm0, z.Tmm10, z.ht, z.g) / Sqrt(z.g * z.Hm0)) ^ (1 / 3))>>, ChkTg(z.Hm0, z.tt, z.ht, z.cot_alpha_armour_slope))

-----------------------------------------------------------------------------
(* Etemad-Shahidi et al. (2021) *)
ChkTe(Hs, T, h, ht, Bt, Dn, m, Nod, cot, rho, rw, pn) ==
  LET F == "Etemad-Shahidi et al. (2021)" IN
       If(G(cot), ChkP("cot_alpha_armour_slope", "Armour slope cot_alpha_armour_slope", F, cot, "1.5", 2))
  \cup If(G(Hs) /\ G(T), Chk("Wave steepness sm-1,0", F, S0(Hs, T), "0.009", "0.061"))
  \cup If(G(h) /\ G(ht), Chk("Relative water depth above the toe ht/h", F, ht / h, "0.39", "0.88"))
  \cup If(G(Hs) /\ G(ht), Chk("Relative water depth above the toe ht/Hs", F, ht / Hs, "0.48", "2.58"))
  \cup If(G(Dn) /\ G(ht), Chk("Relative water depth above the toe ht/Dn50", F, ht / Dn, "1.97", "23.4"))
  \cup If(G(Hs) /\ G(Bt), Chk("Relative toe width Bt/Hs", F, Bt / Hs, "0.17", "1.92"))
  \cup If(G(h) /\ G(Hs), Chk("Relative water depth h/Hs", F, h / Hs, "1.22", 3))
  \cup If(G(Hs) /\ G(Dn), Chk("Stability number Ns", F, Ns(Hs, Dn, rho, rw), "1.58", 10))
  \cup If(G(rho), Chk("Buoyant density Delta", F, Delta(rho, rw), "1.65", "1.75"))
  \cup If(G(m), ChkP("m", "Foreshore slope m", F, m, "0.02", "0.1"))
  \cup If(G(Nod), ChkP(pn, "Damage parameter Nod", F, Nod, "0.5", "3.79"))
TeX(z, s, Hs, Nod) ==
  z.c1 + z.c2 * ((z.ht / z.h) ^ z.c3) * (s ^ z.c4) * (Nod ^ z.c5) * ((z.Bt / Hs) ^ z.c6) * (1 - z.c7 * z.m)
RECURSIVE TeIt(_, _, _, _)
TeIt(z, H, s, n) ==
  LET Hn == ToR(Delta(z.rho_rock, z.rho_water) * z.Dn50 * TeX(z, s, H, z.Nod))
  IN IF ~(Abs(Hn - H) > "0.001") THEN Hn ELSE IF n <= 1 THEN NaN ELSE TeIt(z, Hn, ToR(Steep(Hn, z.Tmm10, z.g)), n - 1)
TeChk(z, Hs, Dn, Nod, pn) == ChkTe(Hs, z.Tmm10, z.h, z.ht, z.Bt, Dn, z.m, Nod, NaN, z.rho_rock, z.rho_water, pn)
Eval_tb_etemadshahidi2021(f, z) ==
  CASE f = "check_validity" ->
         OkC(<<>>, ChkTe(z.Hs, z.Tmm10, z.h, z.ht, z.Bt, z.Dn50, z.m, z.Nod, z.cot_alpha_armour_slope, z.rho_armour, z.rho_water, "Nod"))
    [] f = "calculate_damage_Nod" ->
         LET n == ToR(((Ns(z.Hs, z.Dn50, z.rho_rock, z.rho_water) - z.c1) * (1 / z.c2) * ((z.ht / z.h) ^ (-z.c3))
                   * (Steep(z.Hs, z.Tmm10, z.g) ^ (-z.c4)) * ((z.Bt / z.Hs) ^ (-z.c6)) * (1 / (1 - z.c7 * z.m))) ^ (1 / z.c5))
         IN OkC(<<n>>, TeChk(z, z.Hs, z.Dn50, n, ""))
    [] f = "calculate_nominal_diameter_Dn50" ->
         LET d == ToR((z.Hs / Delta(z.rho_rock, z.rho_water)) / TeX(z, Steep(z.Hs, z.Tmm10, z.g), z.Hs, z.Nod))
         IN OkC(<<d>>, TeChk(z, z.Hs, d, z.Nod, "Nod"))
    [] f = "calculate_significant_wave_height_Hs" ->
         LET H == TeIt(z, ToR((z.smm10_init * (z.Tmm10 ^ 2) * z.g) / (2 * Pi)), ToR(z.smm10_init), CapOf(z.max_iter))
         IN OkC(<<H>>, TeChk(z, H, z.Dn50, z.Nod, "Nod"))

-----------------------------------------------------------------------------
(* Takahashi et al. (1990): caisson toe *)
ChkTk(n, Bt, pn) ==
  LET F == "Takahashi et al (1990)" IN
  If(G(n), ChkP(pn, "Stability number Ns", F, n, 0, "Infinity")) \cup If(G(Bt), ChkP("Bt", "Toe width Bt", F, Bt, 0, "Infinity"))
\* the part that does not depend on the wave height
TkAB(T, hacc, Bt, beta, g) ==
  LET b  == Deg2Rad(beta)
      k  == ToR((2 * Pi) / WaveLength(T, hacc, g))
      k1 == (2 * k * hacc) / Sinh(2 * k * hacc)
      x  == k * Bt * Cos(b)
      k2 == Max2("0.45" * (Sin(b) ^ 2) * (Cos(x) ^ 2), (Cos(b) ^ 2) * (Sin(x) ^ 2))
      kp == ToR(k1 * k2)
      c  == kp ^ (1 / 3)
  IN <<ToR((1 - kp) / c), ToR(((1 - kp) ^ 2) / c)>>
TkNsOf(ab, H, hacc) == Max2("1.8", "1.3" * ab[1] * (hacc / H) + "1.8" * Exp("-1.5" * ab[2] * (hacc / H)))
TkNs(H, T, hacc, Bt, beta, g) == TkNsOf(TkAB(T, hacc, Bt, beta, g), H, hacc)
TkTab(z, ab, H) == Delta(z.rho_rock, z.rho_water) * z.Dn50 * TkNsOf(ab, H, z.hacc)

\* H = Delta Dn50 Ns(H): the right-hand side falls with H, so halving brackets it
RECURSIVE TkHalve(_, _, _, _, _)
TkHalve(z, ab, lo, hi, n) ==
  IF n <= 0 THEN hi
  ELSE LET mid == ToR((lo + hi) / 2) IN IF mid < TkTab(z, ab, mid) THEN TkHalve(z, ab, mid, hi, n - 1) ELSE TkHalve(z, ab, lo, mid, n - 1)
TkHs(z) ==
  LET ab == TkAB(z.Tp, z.hacc, z.Bt, z.beta, z.g)
      lo == ToR(Delta(z.rho_rock, z.rho_water) * z.Dn50)
  IN IF TkTab(z, ab, lo) > 12 * lo THEN NaN      \* a stability number above 20: no rock structure, and a very long search
     ELSE TkHalve(z, ab, lo, ToR(Max2(2 * lo, TkTab(z, ab, lo))), 60)
\* the toolbox tabulates with a step of 0.5 mm and takes the closest entry
TkHsOk(z, H) ==
  LET ab == TkAB(z.Tp, z.hacc, z.Bt, z.beta, z.g)
      Hx == TkHs(z)
      e  == ToR("0.001")
      sl == Abs((TkTab(z, ab, Hx + e) - TkTab(z, ab, Hx - e)) / (2 * e))
  IN CloseAbs(H, Hx, "0.0006" * (1 + sl) + "1e-6")
\* depth above the toe: the stability number passes the load within the search step before the answer
TkLess(z, h) == Ns(z.Hs, z.Dn50, z.rho_rock, z.rho_water) < TkNs(z.Hs, z.Tp, h, z.Bt, z.beta, z.g)
TkHaccOk(z, h) ==
  LET n == ToR(Ns(z.Hs, z.Dn50, z.rho_rock, z.rho_water)) IN
  /\ IsFin(h) /\ h > 0
  /\ \/ TkLess(z, h - "0.00101") # TkLess(z, h + "0.00001")
     \/ Close(n, TkNs(z.Hs, z.Tp, h, z.Bt, z.beta, z.g), "1e-6")
     \/ Close(n, TkNs(z.Hs, z.Tp, h - "0.001", z.Bt, z.beta, z.g), "1e-6")
\* no depth up to 100 Hs does, looking every Hs / 2
RECURSIVE TkNone(_, _, _)
TkNone(z, h, first) == h > 100 * z.Hs \/ (TkLess(z, h) = first /\ TkNone(z, ToR(h + z.Hs / 2), first))
\* the depth itself: first passage on that grid, halved
RECURSIVE TkScan(_, _, _), TkCut(_, _, _, _, _)
TkScan(z, h, first) == IF h > 100 * z.Hs THEN NaN ELSE IF TkLess(z, h) # first THEN h ELSE TkScan(z, ToR(h + z.Hs / 2), first)
TkCut(z, lo, hi, first, n) ==
  IF Eq(n, 0) THEN hi ELSE LET mid == ToR((lo + hi) / 2) IN IF TkLess(z, mid) = first THEN TkCut(z, mid, hi, first, n - 1) ELSE TkCut(z, lo, mid, first, n - 1)
TkHaccV(z) ==
  LET h0 == ToR(z.Hs / 20)
      first == TkLess(z, h0)
      h1 == TkScan(z, ToR(h0 + z.Hs / 2), first)
  IN IF IsNaN(h1) THEN NaN ELSE ToR(TkCut(z, ToR(h1 - z.Hs / 2), h1, first, 50) + "0.0005")
TkMay == May(ChkTk(1, 1, ""))
Eval_tb_takahashi1990_caisson(f, z) ==
  CASE f = "check_validity" -> OkC(<<>>, ChkTk(z.Ns, z.Bt, "Ns"))
    [] f = "calculate_stability_number_Ns" ->
         LET n == ToR(TkNs(z.Hs, z.Tp, z.hacc, z.Bt, z.beta, z.g)) IN OkRC(<<n>>, <<n > "1.8">>, ChkTk(n, z.Bt, ""))
    [] f = "calculate_nominal_diameter_Dn50" ->
         LET n == ToR(TkNs(z.Hs, z.Tp, z.hacc, z.Bt, z.beta, z.g))
         IN OkRC(<<z.Hs / (n * Delta(z.rho_rock, z.rho_water))>>, <<n > "1.8">>, ChkTk(n, z.Bt, ""))
    [] f = "calculate_significant_wave_height_Hs" -> Res(<<TkHs(z)>>, <<>>, If(G(z.Bt), ChkP("Bt", "Toe width Bt", "Takahashi et al (1990)", z.Bt, 0, "Infinity")), TkMay)
    [] f = "calculate_significant_depth_above_toe_hacc" ->
         LET h == TkHaccV(z) IN IF IsNaN(h) THEN Err ELSE Res(<<h>>, <<>>, {}, TkMay)

-----------------------------------------------------------------------------
(* van Gent (2007): rear side *)
ChkR7(z) ==
  LET F == "Van Gent (2007)"
      H == z.Hs
  IN   If(G(H) /\ G(z.Tmm10), Chk("sm-1,0", F, S0(H, z.Tmm10), "0.023", "0.054"))
  \cup If(G(z.h) /\ G(H), Chk("h/Hs", F, z.h / H, "3.3", 11))
  \cup If(G(z.N_waves), ChkP("N_waves", "N_waves", F, z.N_waves, 1000, 10000))
  \cup If(G(z.Rc) /\ G(H), Chk("Rc/Hs", F, z.Rc / H, "0.5", "1.9"))
  \cup If(G(z.Rc) /\ G(z.Dn50), Chk("Rc/Dn50", F, z.Rc / z.Dn50, 7, 22))
  \cup If(G(z.Rc) /\ G(H) /\ G(z.z1p), Chk("(z1% - Rc)/Hs", F, (z.z1p - z.Rc) / H, "0.2", "1.3"))
  \cup If(G(z.Rc2_front) /\ G(H), Chk("Rc2,front/Hs", F, z.Rc2_front / H, 0, "0.5"))
  \cup If(G(z.B_element) /\ G(H), Chk("B_element/Hs", F, z.B_element / H, "0.5", "1.5"))
  \cup If(G(z.Gc) /\ G(H), Chk("Gc/Hs", F, z.Gc / H, "0.5", "1.1"))
  \cup If(G(z.Dn50) /\ G(H), Chk("Stability number Ns", F, Ns(H, z.Dn50, 2650, 1025), 4, 12))
  \cup If(G(z.Rc2_rear) /\ G(H), Chk("Rc2,rear/Hs", F, z.Rc2_rear / H, 0, "1.3"))
  \cup If(G(z.S), Chk("S", F, z.S, 2, 100))
Z1p(H, T, gam, cot) == ZX(H, T, gam, cot, "1.45", "5.1")
Z1pR(H, T, cot) == ZXr(H, T, cot, "1.45", "5.1")
R7Chk(z, Hs, z1p, Dn, S) ==
  ChkR7([Hs |-> Hs, Tmm10 |-> z.Tmm10, h |-> NaN, N_waves |-> z.N_waves, Rc |-> z.Rc, Dn50 |-> Dn, z1p |-> z1p,
         Rc2_front |-> z.Rc2_front, B_element |-> NaN, Gc |-> NaN, Rc2_rear |-> z.Rc2_rear, S |-> S])
R7Geo(z) == 1 + (5 * z.Rc2_rear) / (z.Rc - z.Rc2_rear)
R7S(z, Dn, z1p) ==
  "0.00025" * (z.cot_phi ^ "1.25") * (((z1p - z.Rc) / Dn) ^ 2) * ((z.Rc / Dn) ^ "0.5") * R7Geo(z) * (1 / (1 + z.Rc2_front / z.Hs)) * Sqrt(z.N_waves)
R7Z(z, Dn, H) ==
  Dn * Sqrt((z.S / Sqrt(z.N_waves)) * (1 / "0.00025") * (z.cot_phi ^ "-1.25") * ((z.Rc / Dn) ^ "-0.5") * (1 / R7Geo(z)) * (1 + z.Rc2_front / H)) + z.Rc
\* wave height with this 1% run-up, at the breaker parameter of H0
InvZ(H0, z1p, T, gam, cot) ==
  LET ksi == Ksi(H0, T, cot)
      c2  == ("0.25" * (R("5.1") ^ 2)) / R("1.45")
  IN IF ksi < ("0.5" * R("5.1")) / R("1.45") THEN z1p / ("1.45" * ksi * gam) ELSE z1p / (("5.1" - c2 / ksi) * gam)
RECURSIVE R7It(_, _, _, _, _)
R7It(z, Dn, H, prev, n) ==      \* prev = <<previous H, z1p>>
  IF n > 0 /\ Abs(H - prev[1]) > z.tolerance
  THEN LET zz == ToR(R7Z(z, Dn, H)) IN R7It(z, Dn, ToR(InvZ(H, zz, z.Tmm10, z.gamma, z.cot_alpha)), <<H, zz>>, n - 1)
  ELSE IF n > 0 THEN <<H, prev[2]>> ELSE <<NaN, NaN>>
Eval_rr_vangent2007(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, {[t EXCEPT !.p = IF t.x = "S" THEN "S" ELSE @] : t \in ChkR7(z)})
    [] f = "calculate_damage_number_S" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_rock)
                  z1 == ToR(Z1p(z.Hs, z.Tmm10, z.gamma, z.cot_alpha))
                  S  == ToR(R7S(z, Dn, z1))
              IN OkRC(<<S>>, Z1pR(z.Hs, z.Tmm10, z.cot_alpha), R7Chk(z, z.Hs, z1, Dn, S))
    [] f = "calculate_nominal_rock_diameter_Dn50" ->
         LET z1 == ToR(Z1p(z.Hs, z.Tmm10, z.gamma, z.cot_alpha))
             D  == ToR("0.036" * (z.cot_phi ^ "0.5") * ((z1 - z.Rc) ^ "0.8") * (z.Rc ^ "0.2") * (R7Geo(z) ^ "0.4")
                       * ((1 + z.Rc2_front / z.Hs) ^ "-0.4") * ((z.S / Sqrt(z.N_waves)) ^ "-0.4"))
         IN OkRC(<<D>>, Z1pR(z.Hs, z.Tmm10, z.cot_alpha), R7Chk(z, z.Hs, z1, D, z.S))
    [] f = "calculate_maximum_significant_wave_height_Hs" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_rock)
                  h  == R7It(z, Dn, ToR(z.Rc), <<R("Infinity"), NaN>>, CapOf(z.max_iterations))
              IN OkRC(<<h[1]>>, Z1pR(h[1], z.Tmm10, z.cot_alpha), R7Chk(z, h[1], h[2], Dn, z.S))

-----------------------------------------------------------------------------
(* van Gent & Pozueta (2004): rear side, from the overtopping velocity *)
ChkRp(z) ==
  LET F == "Van Gent & Pozueta (2004)"
      H == z.Hs
  IN   If(G(H) /\ G(z.Tmm10), Chk("sm-1,0", F, S0(H, z.Tmm10), "0.019", "0.036"))
  \cup If(G(z.N_waves), ChkP("N_waves", "N_waves", F, z.N_waves, 0, 4000))
  \cup If(G(z.Rc) /\ G(H), Chk("Rc/Hs", F, z.Rc / H, "0.3", 2))
  \cup If(G(z.Rc_rear) /\ G(H), Chk("Rc_rear/Hs", F, z.Rc_rear / H, "0.3", 6))
  \cup If(G(z.Bc) /\ G(H), Chk("B_c/Hs", F, z.Bc / H, "1.3", "1.6"))
  \cup If(G(z.Rc) /\ G(H) /\ G(z.z1p) /\ G(z.gamma_f), Chk("(z1% - Rc)/(gamma_f*Hs)", F, (z.z1p - z.Rc) / (z.gamma_f * H), 0, "1.4"))
  \cup If(G(H) /\ G(z.Dn50) /\ G(z.rho_rock) /\ G(z.rho_water), Chk("Hs/(Delta*Dn50_rear)", F, Ns(H, z.Dn50, z.rho_rock, z.rho_water), "5.5", "8.5"))
  \cup If(G(z.cot_phi), ChkP("cot_phi", "cot phi", F, z.cot_phi, 2, 4))
  \cup If(G(z.S), Chk("S", F, z.S, 2, 50))
RpChk(z, Hs, z1p, Dn, S) ==
  ChkRp([Hs |-> Hs, Tmm10 |-> z.Tmm10, N_waves |-> z.N_waves, Rc |-> z.Rc, Rc_rear |-> z.Rc_rear, Bc |-> z.Bc, z1p |-> z1p, gamma_f |-> z.gamma_f,
         Dn50 |-> Dn, rho_rock |-> z.rho_rock, rho_water |-> z.rho_water, cot_phi |-> z.cot_phi, S |-> S])
UXp(H, zX, Rc, Bc, gf, gc, cu1, cu2, g) ==
  ((Sqrt(g * H) * cu1 * Sqrt(gc)) * Sqrt((zX - Rc) / (gf * H))) / (1 + (cu2 * Bc) / H)
RpU(z, H, z1) == UXp(H, z1, z.Rc, z.Bc, z.gamma_f, z.gamma_f_Crest, "1.7", "0.1", "9.81")
RpRear(z, H) == 1 + 10 * Exp(-(z.Rc_rear / H))
RpUinv(z, Dn, H) ==
  ((((1 / z.cs) * (z.S / Sqrt(z.N_waves)) * (z.cot_phi ^ "2.5") * (1 / RpRear(z, H))) ^ (1 / 6)) * Sqrt(Delta(z.rho_rock, z.rho_water)) * Dn) / z.Tmm10
RpZinv(z, u, H) ==
  (((u / Sqrt("9.81" * H)) * (1 / ("1.7" * Sqrt(z.gamma_f_Crest))) * (1 + ("0.1" * z.Bc) / H)) ^ 2) * H * z.gamma_f + z.Rc
RECURSIVE RpIt(_, _, _, _, _)
RpIt(z, Dn, H, prev, n) ==
  IF n > 0 /\ Abs(H - prev[1]) > z.tolerance
  THEN LET zz == ToR(RpZinv(z, RpUinv(z, Dn, H), H)) IN RpIt(z, Dn, ToR(InvZ(H, zz, z.Tmm10, z.gamma_f, z.cot_alpha)), <<H, zz>>, n - 1)
  ELSE IF n > 0 THEN <<H, prev[2]>> ELSE <<NaN, NaN>>
Eval_rr_vangentpozueta2004(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, {[t EXCEPT !.p = IF t.x = "S" THEN "S" ELSE @] : t \in ChkRp(z)})
    [] f = "calculate_damage_number_S" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_rock)
                  z1 == ToR(Z1p(z.Hs, z.Tmm10, z.gamma_f, z.cot_alpha))
                  S  == ToR(z.cs * (((RpU(z, z.Hs, z1) * z.Tmm10) / (Sqrt(Delta(z.rho_rock, z.rho_water)) * Dn)) ^ 6) * (z.cot_phi ^ "-2.5")
                            * RpRear(z, z.Hs) * Sqrt(z.N_waves))
              IN OkRC(<<S>>, Z1pR(z.Hs, z.Tmm10, z.cot_alpha), RpChk(z, z.Hs, z1, Dn, S))
    [] f = "calculate_nominal_rock_diameter_Dn50" ->
         LET z1 == ToR(Z1p(z.Hs, z.Tmm10, z.gamma_f, z.cot_alpha))
             D  == ToR((z.cs ^ (1 / 6)) * ((z.S / Sqrt(z.N_waves)) ^ ("-1" / 6)) * ((RpU(z, z.Hs, z1) * z.Tmm10) / Sqrt(Delta(z.rho_rock, z.rho_water)))
                       * (z.cot_phi ^ ("-2.5" / 6)) * (RpRear(z, z.Hs) ^ (1 / 6)))
         IN OkRC(<<D>>, Z1pR(z.Hs, z.Tmm10, z.cot_alpha), RpChk(z, z.Hs, z1, D, z.S))
    [] f = "calculate_maximum_significant_wave_height_Hs" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE LET Dn == DnUse(z.Dn50, z.M50, z.rho_rock)
                  h  == RpIt(z, Dn, ToR((z.Rc + "0.5") / ("2.552" * z.gamma_f)), <<R("Infinity"), NaN>>, CapOf(z.max_iterations))
              IN OkRC(<<h[1]>>, Z1pR(h[1], z.Tmm10, z.cot_alpha), RpChk(z, h[1], h[2], Dn, z.S))
=============================================================================
