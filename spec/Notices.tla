------------------------------ MODULE Notices -------------------------------
(* What the toolbox tells besides limits exceeded: that it took a density not
   given ("density"), that it left an input out of account ("sigma"), that an
   iteration ended before it converged ("converge").  Told(m, f, a) has the
   notices that must be given, Tells(m, f, a) those that may be. *)
EXTENDS Domain

\* mass and size of a material, and its density
Materials == <<<<"Dn50", "M50", <<"rho_armour", "rho_rock">>>>, <<"Dn50_core", "M50_core", <<"rho_core">>>>>>
Defaulted(z) == \E j \in {1, 2} : LET e == Materials[j] IN
  /\ e[1] \in DOMAIN z /\ e[2] \in DOMAIN z
  /\ N(z[e[1]]) /\ G(z[e[2]])
  /\ \E r \in {1, 2} : r \in DOMAIN e[3] /\ e[3][r] \in DOMAIN z /\ N(z[e[3][r]])
SigmaIgnored(z) == {"sigma", "use_best_fit"} \subseteq DOMAIN z /\ ~Eq(z.sigma, 0) /\ ~z.use_best_fit

\* the number of steps until convergence; Cap when there are more
RECURSIVE R7Steps(_, _, _, _, _), RpSteps(_, _, _, _, _)
R7Steps(z, Dn, H, prev, n) ==
  IF n < Cap /\ Abs(H - prev) > z.tolerance THEN R7Steps(z, Dn, ToR(InvZ(H, ToR(R7Z(z, Dn, H)), z.Tmm10, z.gamma, z.cot_alpha)), H, n + 1) ELSE n
RpSteps(z, Dn, H, prev, n) ==
  IF n < Cap /\ Abs(H - prev) > z.tolerance THEN RpSteps(z, Dn, ToR(InvZ(H, ToR(RpZinv(z, RpUinv(z, Dn, H), H)), z.Tmm10, z.gamma_f, z.cot_alpha)), H, n + 1) ELSE n
Limited(m, f) == m \in {"rr_vangent2007", "rr_vangentpozueta2004"} /\ f = "calculate_maximum_significant_wave_height_Hs"
Steps(m, z) ==
  LET Dn == DnUse(z.Dn50, z.M50, z.rho_rock)
  IN IF m = "rr_vangent2007" THEN R7Steps(z, Dn, ToR(z.Rc), R("Infinity"), ToR(0)) ELSE RpSteps(z, Dn, ToR((z.Rc + "0.5") / ("2.552" * z.gamma_f)), R("Infinity"), ToR(0))

Sure(m, f, z) == (IF Defaulted(z) THEN {"density"} ELSE {}) \cup (IF SigmaIgnored(z) THEN {"sigma"} ELSE {})
Told(m, f, a) ==
  LET z == Complete(m, f, a)
  IN Sure(m, f, z) \cup (IF Limited(m, f) /\ 2 * z.max_iterations <= Steps(m, z) THEN {"converge"} ELSE {})
Tells(m, f, a) ==
  LET z == Complete(m, f, a)
      n == Steps(m, z)
  IN Sure(m, f, z) \cup (IF Limited(m, f) /\ (z.max_iterations <= 2 * n + 5 \/ n >= Cap) THEN {"converge"} ELSE {})
                   \cup (IF m = "tb_takahashi1990_caisson" THEN {"converge"} ELSE {})
=============================================================================
