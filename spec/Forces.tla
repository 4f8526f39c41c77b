------------------------------- MODULE Forces -------------------------------
(* functions/structural/forces_caisson/goda1985.py and
   forces_crestwall/vangentvanderwerf2019.py *)
EXTENDS Runup

-----------------------------------------------------------------------------
(* Goda: caisson breakwaters *)
ChkGo(beta, cota, T, tup, Bup, hs, B1) ==
  LET F == "Goda (2000)" IN
       If(G(beta), ChkP("beta", "Angle of wave incidence", F, beta, 0, 90))
  \cup If(G(cota), ChkP("cota_seabed", "Seabed slope", F, cota, 10, 100))
  \cup If(G(T), ChkP("Tmax", "Wave period", F, T, 0, 30))
  \cup If(G(tup) /\ G(Bup), Chk("Centre of gravity inside of caisson", F, tup / Bup, 0, 1))
  \cup If(G(hs), ChkP("h_s", "Water depth at site", F, hs, 0, "Infinity"))
  \cup If(G(B1), ChkP("B1", "Width of toe berm", F, B1, 0, "Infinity"))
  \cup If(G(Bup), ChkP("Bup", "Width of caisson upright section", F, Bup, 0, "Infinity"))

\* danger of impulsive breaking: condition 1, condition 2 or none (0)
Impulse(beta, B1, L, cota, s, Rc, H, d, hs) ==
  LET all(q) == \A j \in DOMAIN q : G(q[j])
      c1 == /\ all(<<beta, B1, L, cota, s, Rc, H>>)
            /\ beta < 20 /\ B1 / L < "0.02" /\ cota < 50 /\ s < "0.03" /\ Rc / H > "0.3"
      c2 == /\ all(<<beta, B1, L, d, hs, Rc, H>>)
            /\ beta < 20 /\ "0.02" < B1 / L /\ B1 / L < "0.3" /\ d / hs < "0.6" /\ Rc / H > "0.3"
  IN IF c1 THEN 1 ELSE IF c2 THEN 2 ELSE 0
ImpChk(i) == IF i = 1 THEN Chk("Impulsive breaking condition 1", "Goda (2000)", 1, 0, 0)
             ELSE IF i = 2 THEN Chk("Impulsive breaking condition 2", "Goda (2000)", 1, 0, 0) ELSE {}

GoP(z) ==
  LET ab   == Abs(z.beta)
      cb   == ToR(IF ab >= 15 THEN Cosd(ab - 15) ELSE 1)
      h5   == ToR(z.h_s + (z.Hsi * 5) / z.cota_seabed)
      eta  == ToR("0.75" * (1 + cb) * z.HD)
      L    == ToR(WaveLength(z.Tmax, z.h_s, z.g))
      kh   == ToR((2 * Pi * z.h_s) / L)
      a1   == ToR("0.6" + "0.5" * (((2 * kh) / Sinh(2 * kh)) ^ 2))
      a2   == ToR(Min2(((h5 - z.d) / (3 * h5)) * ((z.HD / z.d) ^ 2), (2 * z.d) / z.HD))
      a3   == ToR(1 - (z.hacc / z.h_s) * (1 - 1 / Cosh(kh)))
      p1   == ToR("0.5" * (1 + cb) * (a1 + a2 * (cb ^ 2)) * z.rho_water * z.g * z.HD)
      p2   == ToR(p1 / Cosh(kh))
      p3   == ToR(a3 * p1)
      p4   == ToR(IF eta > z.Rc THEN p1 * (1 - z.Rc / eta) ELSE 0)
      hc   == ToR(Min2(eta, z.Rc))
      pu   == ToR("0.5" * (1 + cb) * a1 * a3 * z.rho_water * z.g * z.HD)
      FH   == ToR("0.5" * (p1 + p3) * z.hacc + "0.5" * (p1 + p4) * hc)
      MH   == ToR((1 / 6) * (2 * p1 + p3) * (z.hacc ^ 2) + "0.5" * (p1 + p4) * z.hacc * hc + (1 / 6) * (p1 + 2 * p4) * (hc ^ 2))
      FU   == ToR("0.5" * pu * z.Bup)
      MU   == ToR((R("2") / 3) * FU * z.Bup)
      imp  == Impulse(ab, z.B1, L, z.cota_seabed, z.offshore_wave_steepness, z.Rc, z.Hsi, z.d, z.h_s)
  IN [FH |-> FH, FU |-> FU, MH |-> MH, MU |-> MU, p1 |-> p1, p2 |-> p2, p3 |-> p3, p4 |-> p4, hstar_c |-> hc, pu |-> pu, h_5Hs |-> h5,
      etastar |-> eta, L |-> L, alpha1 |-> a1, alpha2 |-> a2, alpha3 |-> a3, imp |-> imp,
      r |-> <<ab >= 15, z.beta < 0, (((h5 - z.d) / (3 * h5)) * ((z.HD / z.d) ^ 2)) > ((2 * z.d) / z.HD), eta > z.Rc, imp>>]
GoWup(hacc, Rc, B, below, rw, above, g) == (hacc * (below - rw) + Rc * above) * B * g
GoBear(Wup, tup, MH, MU, FU, B) ==
  LET Me == ToR(Wup * tup - MU - MH)
      We == ToR(Wup - FU)
      te == ToR(Me / We)
      mid == te <= (1 / 3) * B       \* reaction outside the middle third: triangular
  IN <<IF mid THEN (2 * We) / (3 * te) ELSE ((2 * We) / B) * (2 - 3 * (te / B)), Me, We, te, mid>>
GoSF(FU, FH, Wup, muf, tup, MH, MU) == <<(muf * (Wup - FU)) / FH, (Wup * tup - MU) / MH>>

PKeys == <<"FH", "FU", "MH", "MU", "p1", "p2", "p3", "p4", "hstar_c", "pu", "h_5Hs", "etastar", "L", "alpha1", "alpha2", "alpha3", "impulsive_breaking">>
PVals(q) == <<q.FH, q.FU, q.MH, q.MU, q.p1, q.p2, q.p3, q.p4, q.hstar_c, q.pu, q.h_5Hs, q.etastar, q.L, q.alpha1, q.alpha2, q.alpha3, q.imp > 0>>
\* the dictionary repeats the inputs
PKeysD == PKeys \o <<"HD", "Hsi", "Tmax", "beta", "h_s", "d", "cota_seabed", "rho_water", "hacc", "Rc", "Bup", "g">>
PValsD(q, z) == PVals(q) \o <<z.HD, z.Hsi, z.Tmax, Abs(z.beta), z.h_s, z.d, z.cota_seabed, z.rho_water, z.hacc, z.Rc, z.Bup, z.g>>
FKeysD == <<"SF_overturning", "SF_sliding", "tup", "Wup", "te", "We", "Me", "pe">> \o PKeys
          \o <<"HD", "Hsi", "Tmax", "beta", "h_s", "d", "cota_seabed", "rho_water", "hacc", "Rc", "B_up", "g">>

Eval_fc_goda1985(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkGo(z.beta, z.cota_seabed, z.Tmax, z.tup, z.Bup, z.h_s, z.B1))
    [] f = "check_impulsive_breaking" ->
         LET i == Impulse(z.beta, z.B1, z.L, z.cota_seabed, z.offshore_wave_steepness, z.Rc, z.Hsi, z.d, z.h_s)
         IN OkRC(<<i > 0>>, <<i>>, ImpChk(i))
    [] f = "calculate_Wup" -> Ok(<<GoWup(z.hacc, z.Rc, z.Bup, z.rho_fill_below_SWL, z.rho_water, z.rho_fill_above_SWL, z.g)>>)
    [] f = "calculate_safety_factors" -> Ok(GoSF(z.FU, z.FH, z.Wup, z.muf, z.tup, z.MH, z.MU))
    [] f = "calculate_bearing_pressures" ->
         LET b == GoBear(z.Wup, z.tup, z.MH, z.MU, z.FU, z.Bup) IN OkR(<<b[1], b[2], b[3], b[4]>>, <<b[5]>>)
    [] f = "calculate_pressures_and_forces" ->
         LET q == GoP(z) IN OkRC(IF z.return_dict THEN PValsD(q, z) ELSE PVals(q), q.r, ImpChk(q.imp))
    [] f = "calculate_forces_and_reactions" ->
         LET q   == GoP(z)
             tup == ToR(z.tup_over_Bup * z.Bup)
             W   == ToR(GoWup(z.hacc, z.Rc, z.Bup, z.rho_fill_below_SWL, z.rho_water, z.rho_fill_above_SWL, z.g))
             b   == GoBear(W, tup, q.MH, q.MU, q.FU, z.Bup)
             sf  == GoSF(q.FU, q.FH, W, z.muf, tup, q.MH, q.MU)
         IN OkRC(IF z.return_dict
                 THEN <<sf[2], sf[1], tup, W, b[4], b[3], b[2], b[1]>> \o PVals(q)
                      \o <<z.HD, z.Hsi, z.Tmax, z.beta, z.h_s, z.d, z.cota_seabed, z.rho_water, z.hacc, z.Rc, z.Bup, z.g>>
                 ELSE <<q.FH, q.FU, q.MH, q.MU, q.p1, b[1], q.pu, q.imp > 0, sf[1], sf[2]>>,
                 q.r \o <<b[5]>>, ImpChk(q.imp) \cup ChkGo(z.beta, z.cota_seabed, z.Tmax, tup, z.Bup, z.h_s, NaN))

-----------------------------------------------------------------------------
(* van Gent & van der Werf (2019): crest walls *)
ChkCw(Rc, Ac, H, Fb, beta) ==
  LET F == "Van Gent and Van der Werf 2019" IN
       If(G(H) /\ G(Rc) /\ G(Ac), Chk("(Rc-Ac)/Hm0", F, (Rc - Ac) / H, "0.26", "0.77"))
  \cup If(G(Rc) /\ G(Ac), Chk("Rc/Ac", F, Rc / Ac, "1.27", "1.55"))
  \cup If(G(H) /\ G(Rc), Chk("Rc/Hm0", F, Rc / H, "0.79", "2.18"))
  \cup If(G(H) /\ G(Fb), Chk("Fb/Hm0", F, Fb / H, 0, "0.62"))
  \cup If(G(beta), ChkP("beta", "beta", F, beta, 0, 75))
CwGF(z2p, Ac, beta, gA) == (("0.5" * (Cosd(beta) ^ 2) + "0.5") * z2p - gA * Ac) / (z2p - gA * Ac)
CwZ(z) == ToR(ZX(z.Hm0, z.Tmm10, z.gamma_f * z.gamma_beta, z.cot_alpha, z.c0, z.c1))
CwFH(z, z2p) == Max2(z.cFH * z.rho_water * z.g * z.Hwall * (z2p - z.Ac), 0)
CwFV(z, z2p) == Max2(z.cFV * z.rho_water * z.g * z.Bwall * (z2p - "0.75" * z.Ac) * (1 - ((z.Fb / z.Ac) ^ z.cFb)), 0)
CwR(z, gA) == <<CwZ(z) > gA * z.Ac>> \o ZXr(z.Hm0, z.Tmm10, z.cot_alpha, z.c0, z.c1)
Eval_fw_vangentvanderwerf2019(f, z) ==
  CASE f = "check_validity" -> OkC(<<>>, ChkCw(z.Rc, z.Ac, z.Hm0, z.Fb, z.beta))
    [] f \in {"calculate_influence_oblique_waves_force_gamma_F_beta", "calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta",
              "calculate_influence_oblique_waves_vertical_force_gamma_FV_beta"} -> Ok(<<CwGF(z.z2p, z.Ac, z.beta, z.gamma_A)>>)
    [] f = "calculate_influence_oblique_waves_gamma_beta" -> Ok(<<(1 - z.c_beta) * (Cosd(z.beta) ^ 2) + z.c_beta>>)
    [] f = "calculate_FH2p_perpendicular_from_z2p" -> OkRC(<<CwFH(z, z.z2p)>>, <<z.z2p > z.Ac>>, ChkCw(z.Rc, z.Ac, z.Hm0, NaN, NaN))
    [] f = "calculate_FH2p_perpendicular" -> OkRC(<<CwFH(z, CwZ(z))>>, CwR(z, 1), ChkCw(z.Rc, z.Ac, z.Hm0, NaN, NaN))
    [] f = "calculate_FH2p_oblique" ->
         LET q == CwZ(z) IN OkRC(<<Max2(CwGF(q, z.Ac, z.beta, 1) * CwFH(z, q), 0)>>, CwR(z, 1), ChkCw(z.Rc, z.Ac, z.Hm0, NaN, z.beta))
    [] f = "calculate_FV2p_perpendicular_from_z2p" -> OkR(<<CwFV(z, z.z2p)>>, <<z.z2p > "0.75" * z.Ac, z.Fb > z.Ac>>)
    [] f = "calculate_FV2p_perpendicular" -> OkRC(<<CwFV(z, CwZ(z))>>, CwR(z, "0.75"), ChkCw(NaN, z.Ac, z.Hm0, z.Fb, NaN))
    [] f = "calculate_FV2p_oblique" ->
         LET q == CwZ(z) IN OkRC(<<Max2(CwGF(q, z.Ac, z.beta, "0.75") * CwFV(z, q), 0)>>, CwR(z, "0.75"), ChkCw(NaN, z.Ac, z.Hm0, z.Fb, z.beta))
    [] f = "calculate_FH01p_perpendicular" -> Ok(<<"1.6" * z.FH2p>>)
    [] f = "calculate_FV01p_perpendicular" -> Ok(<<("2.88" - 32 * z.s0p) * z.FV2p>>)
=============================================================================
