---------------------------- MODULE CorePhysics -----------------------------
(* functions/core_physics.py and core_utility.py *)
EXTENDS Base

Steep(H, T, g)   == (((2 * Pi) / g) * H) / (T ^ 2)
S0(H, T)         == Steep(H, T, "9.81")
Ksi(H, T, cot)   == (1 / cot) / Sqrt(S0(H, T))
KsiMc(cpl, cs, P, cot) == ((cpl / cs) * (P ^ "0.31") * Sqrt(1 / cot)) ^ (1 / (P + "0.5"))
Delta(rs, rw)    == (rs - rw) / rw
Ns(H, D, rs, rw) == H / (Delta(rs, rw) * D)
M50of(D, rs)     == rs * (D ^ 3)
Dn50of(M, rs)    == (M / rs) ^ (1 / 3)

\* Dn50 as given, or from the mass; a missing density counts as 2650 kg/m3
DnMissing(Dn, M) == N(Dn) /\ N(M)
DnUse(Dn, M, rs) == IF G(Dn) THEN Dn ELSE IF N(rs) THEN Dn50of(M, 2650) ELSE Dn50of(M, rs)

\* wave number from the linear dispersion relation w^2 = g k tanh(k h), by Newton
RECURSIVE KhIt(_, _, _)
KhIt(q, w2, n) ==
  IF Eq(n, 0) THEN q
  ELSE LET t == Tanh(q)
           f == q * t - w2
           d == t + q * (1 - t * t)
       IN KhIt(q - f / d, w2, n - 1)
WaveLength(T, h, g) ==
  LET w2 == ((((2 * Pi) / T) ^ 2) * h) / g
      q0 == w2 / ((1 - Exp(-(w2 ^ "1.25"))) ^ "0.4")
  IN (2 * Pi * h) / KhIt(q0, w2, 8)

Eval_core_physics(f, z) ==
  CASE f = "calculate_wave_steepness_s" -> Ok(<<Steep(z.H, z.T, z.g)>>)
    [] f = "calculate_Iribarren_number_ksi" -> Ok(<<Ksi(z.H, z.T, z.cot_alpha)>>)
    [] f = "calculate_critical_Iribarren_number_ksi_mc" -> Ok(<<KsiMc(z.c_pl, z.c_s, z.P, z.cot_alpha)>>)
    [] f = "calculate_stability_number_Ns" -> Ok(<<Ns(z.H, z.D, z.rho_rock, z.rho_water)>>)
    [] f = "calculate_buoyant_density_Delta" -> Ok(<<Delta(z.rho_rock, z.rho_water)>>)
    [] f = "calculate_M50_from_Dn50" -> Ok(<<M50of(z.Dn50, z.rho_rock)>>)
    [] f = "calculate_Dn50_from_M50" -> Ok(<<Dn50of(z.M50, z.rho_rock)>>)
    [] f = "check_usage_Dn50_or_M50" ->
         IF DnMissing(z.Dn50, z.M50) THEN Err
         ELSE OkR(<<DnUse(z.Dn50, z.M50, z.rho_rock)>>, <<G(z.Dn50), N(z.rho_rock)>>)
    [] f = "calculate_S_from_Nod" -> Ok(<<z.Nod / (z.G * (1 - z.nv))>>)
    [] f = "calculate_Nod_from_S" -> Ok(<<z.S * z.G * (1 - z.nv)>>)
    [] f = "check_usage_stabilitynumber" ->
         LET none == {p \in {"Hs", "Dn", "Delta", "Ns"} : Same(z[p], "None")}
         IN IF Cardinality(none) # 1 THEN Err
            ELSE CASE none = {"Hs"}    -> OkR(<<z.Dn * z.Delta * z.Ns, "Hs">>, <<"Hs">>)
                   [] none = {"Dn"}    -> OkR(<<z.Hs / (z.Ns * z.Delta), "Dn">>, <<"Dn">>)
                   [] none = {"Delta"} -> OkR(<<z.Hs / (z.Ns * z.Dn), "Delta">>, <<"Delta">>)
                   [] OTHER            -> OkR(<<z.Hs / (z.Delta * z.Dn), "Ns">>, <<"Ns">>)
    [] f = "calculate_local_wavelength" -> Ok(<<WaveLength(z.T, z.h, z.g)>>)

Eval_core_utility(f, z) ==
  CASE f = "check_variable_validity_range" ->
         LET c == ChkP("values", z.variable_name, z.formula_name, z.values, z.min_value, z.max_value)
         IN OkRC(<<~Out(CHOOSE t \in c : TRUE)>>, <<z.values < z.min_value, z.values > z.max_value>>, c)
=============================================================================
