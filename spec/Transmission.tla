---------------------------- MODULE Transmission ----------------------------
(* functions/hydraulic/wave_transmission: Briganti (2003), d'Angremond (1996),
   Goda (1967), van Gent (2023, 2024) *)
EXTENDS CorePhysics

Clip(x, lo, hi) == Max2(lo, Min2(hi, x))

-----------------------------------------------------------------------------
(* d'Angremond et al. (1996) *)
ChkDa(Kt, s, hh, rr) ==
  LET F == "D'Angremond et al. (1996)" IN
       If(G(Kt), Chk("Transmission coefficient Kt", F, Kt, "0.075", "0.8"))
  \cup If(G(s),  Chk("Wave steepness s0p (dataset limit)", F, s, 0, "0.06"))
  \cup If(G(hh), Chk("Relative water depth Hsi/h (dataset limit)", F, hh, 0, "0.54"))
  \cup If(G(rr), Chk("Relative crest level Rc/Hsi (dataset limit)", F, rr, "-2.5", "2.5"))
\* unlimited coefficient
DaK(H, T, Rc, B, cot, C1) ==
  "-0.4" * (Rc / H) + ((B / H) ^ "-0.31") * (1 - Exp("-0.5" * Ksi(H, T, cot))) * C1
Da(z, check) ==
  LET k == ToR(DaK(z.Hsi, z.Tpi, z.Rc, z.B, z.cot_alpha, z.C1))
  IN OkRC(<<Clip(k, "0.075", "0.8")>>, <<k < "0.075", k > "0.8", check>>,
          If(check, ChkDa(k, S0(z.Hsi, z.Tpi), z.Hsi / z.h, z.Rc / z.Hsi)))
DaParam == [t \in {"Transmission coefficient Kt", "Wave steepness s0p (dataset limit)", "Relative water depth Hsi/h (dataset limit)",
                   "Relative crest level Rc/Hsi (dataset limit)"} |->
            CASE t = "Transmission coefficient Kt" -> "Kt" [] t = "Wave steepness s0p (dataset limit)" -> "s0p"
              [] t = "Relative water depth Hsi/h (dataset limit)" -> "Hsi_over_h" [] OTHER -> "Rc_over_Hsi"]
Eval_tr_dangremond1996(f, z) ==
  CASE f = "check_validity" -> OkC(<<>>, {[t EXCEPT !.p = DaParam[t.x]] : t \in ChkDa(z.Kt, z.s0p, z.Hsi_over_h, z.Rc_over_Hsi)})
    [] f = "calculate_wave_transmission_Kt_permeable" -> Da(z, z.do_validity_check)
    [] f = "calculate_wave_transmission_Kt_impermeable" -> Da(z, TRUE)

-----------------------------------------------------------------------------
(* Briganti et al. (2003): wide crests have their own equation *)
ChkBr(s, ksi, ps, pk) ==
  LET F == "Briganti (2003)" IN
       If(G(s), ChkP(ps, "Wave steepness s0p", F, s, "0.005", "0.07"))
  \cup If(G(ksi), ChkP(pk, "Surf similarity parameter ksi_0p", F, ksi, "0.5", 10))
Br(z) ==
  LET bh  == z.B / z.Hsi
      ksi == Ksi(z.Hsi, z.Tpi, z.cot_alpha)
      nar == bh < 10
      k   == IF nar THEN Clip(DaK(z.Hsi, z.Tpi, z.Rc, z.B, z.cot_alpha, "0.64"), "0.075", "0.8")
             ELSE "-0.35" * (z.Rc / z.Hsi) + "0.51" * (bh ^ "-0.65") * (1 - Exp("-0.41" * ksi))
      up  == "-0.006" * bh + "0.93"
  IN OkRC(<<Max2("0.05", Min2(k, up))>>, <<nar, k < "0.08", k > "0.79", k < "0.05", k > up>>,
          ChkBr(S0(z.Hsi, z.Tpi), ksi, "", ""))
Eval_tr_briganti2003(f, z) ==
  CASE f = "check_validity" -> OkC(<<>>, ChkBr(z.s0p, z.ksi_0p, "s0p", "ksi_0p"))
    [] f = "calculate_wave_transmission_Kt" -> Br(z)

-----------------------------------------------------------------------------
(* Goda (1967): caissons *)
Eval_tr_goda1967_caisson(f, z) ==
  CASE f = "check_validity" -> Ok(<<>>)
    [] f = "calculate_wave_transmission_Kt" ->
         LET x == z.Rc / z.Hsi
             a == z.alpha_1
             b == z.beta_1
         IN CASE x <= -a - b -> OkR(<<ToR(1)>>, <<"sub">>)
              [] x <= a - b -> OkR(<<"0.5" * (1 - Sin((Pi / 2) * ((x + b) / a)))>>, <<"mid">>)
              [] OTHER -> OkR(<<ToR("0.03")>>, <<"high">>)

-----------------------------------------------------------------------------
(* van Gent et al. (2023) *)
LDeep(T) == WaveLength(T, "1e100", "9.81")
ChkVg23(z) ==
  LET F == "Van Gent et al. (2023)" IN
       If(G(z.Hm0) /\ G(z.Rc), Chk("Dimensionless crest height Rc / Hm0", F, z.Rc / z.Hm0, "-2.5", IF Same(z.structure_type, "permeable") THEN "2.5" ELSE "0.0"))
  \cup If(G(z.B) /\ G(z.Tmm10), Chk("Dimensionless crest width B / Lm-1,0", F, z.B / LDeep(z.Tmm10), "0.017", "0.27"))
  \cup If(G(z.B) /\ G(z.Hm0), Chk("Dimensionless crest width B / Hm0", F, z.B / z.Hm0, "0.9", "10.6"))
Vg23Types == {"impermeable", "permeable", "perforated", "perforated_with_screen", "perforated_with_perforated_screen"}
\* c1, c4, c5; c2 and c3 are the same for every structure type
Vg23K(t) == CASE t = "impermeable" -> <<"0.47", 0, "0.5">>
              [] t = "permeable"   -> <<"0.43", "-0.25", "0.5">>
              [] t = "perforated"  -> <<"0.13", "-0.15", "0.82">>
              [] t = "perforated_with_screen" -> <<"0.4", "-0.15", "0.5">>
              [] OTHER -> <<"0.17", "-0.15", "0.76">>
Eval_tr_vangent2023(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkVg23(z))
    [] f = "calculate_wave_transmission_Kt" ->
         IF z.structure_type \notin Vg23Types THEN Err
         ELSE LET k == Vg23K(z.structure_type)
              IN OkR(<<k[1] * Tanh(-(z.Rc / z.Hm0 + "3.1" * ((z.B / LDeep(z.Tmm10)) ^ "0.75") + k[2])) + k[3]>>, <<z.structure_type>>)

-----------------------------------------------------------------------------
(* van Gent (2024): structure-induced set-up *)
ChkVg24(H, T, Rc, B, hc, Dn, t) ==
  LET F == "Van Gent (2024)"
      perm == t = "permeable"
      imp  == t = "impermeable"
  IN   If(G(H) /\ G(T) /\ (perm \/ imp), Chk("Wave steepness sm-1,0", F, S0(H, T), IF perm THEN "0.008" ELSE "0.01", "0.04"))
  \cup If(G(H) /\ G(Rc) /\ (perm \/ imp), Chk("Dimensionless freeboard Rc/Hm0", F, Rc / H, IF perm THEN "-0.8" ELSE -1, 0))
  \cup If(G(H) /\ G(hc) /\ perm, Chk("Dimensionless submerged structure height hc/Hm0", F, hc / H, "1.5", 3))
  \cup If(G(H) /\ G(B) /\ perm, Chk("Dimensionless submerged structure crest width B/Hm0", F, B / H, "0.94", "2.35"))
  \cup If(G(H) /\ G(Dn) /\ perm, Chk("Dimensionless median stone diameter Dn50/Hm0", F, Dn / H, "0.19", "0.47"))
Vg24I(z, scale) == OkC(<<"0.34" * (S0(z.Hm0, z.Tmm10) ^ "0.4") * ((z.Rc / z.Hm0 + "1.6") ^ "3.5") * scale>>,
                       ChkVg24(z.Hm0, z.Tmm10, z.Rc, NaN, NaN, NaN, "impermeable"))
Vg24P(z, scale) == OkC(<<"0.22" * (S0(z.Hm0, z.Tmm10) ^ "0.2") * ((z.hc / z.Hm0) ^ "-0.7") * ((z.Rc / z.Hm0 + "1.5") ^ "1.5") * scale>>,
                       ChkVg24(z.Hm0, z.Tmm10, z.Rc, NaN, z.hc, NaN, "permeable"))
Eval_tr_vangent2024_setup(f, z) ==
  CASE f = "check_validity_range" -> OkC(<<>>, ChkVg24(z.Hm0, z.Tmm10, z.Rc, z.B, z.hc, z.Dn50, z.structure_type))
    [] f = "calculate_structure_induced_setup_delta_impermeable" -> Vg24I(z, z.Hm0)
    [] f = "calculate_dimensionless_structure_induced_setup_impermeable" -> Vg24I(z, 1)
    [] f = "calculate_structure_induced_setup_delta_permeable" -> Vg24P(z, z.Hm0)
    [] f = "calculate_dimensionless_structure_induced_setup_permeable" -> Vg24P(z, 1)
=============================================================================
