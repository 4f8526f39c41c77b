------------------------------- MODULE PlansA -------------------------------
(* Sessions for the properties that say what a function returns (C01 - C09)
   and what it warns about (C13, C14).  A case is
     [id, cl, calls, rel]: number, class, program, relations to hold. *)
EXTENDS Props

None(i) == [id |-> i, cl |-> "none", calls |-> <<>>, rel |-> <<>>]
Mk(i, cl, calls, rel) == [id |-> i, cl |-> cl, calls |-> calls, rel |-> rel]
C(m, f, a) == [m |-> m, f |-> f, a |-> a]

\* all functions, as a sequence of <<module, function>>
FunSeq == LET RECURSIVE go(_)
              go(k) == IF k = 0 THEN <<>> ELSE go(I!-(k, 1)) \o [j \in DOMAIN SigTable[k][2] |-> <<SigTable[k][1], SigTable[k][2][j][1]>>]
          IN go(Len(SigTable))
Writers == {"write_input_file_NN_Overtopping", "write_input_file_XGB_Overtopping"}
Calc    == SelectSeq(FunSeq, LAMBDA q : q[2] \notin Writers)
OvMods  == {"ov_deridder2024", "ov_deridder2026", "ov_eurotop2007", "ov_eurotop2018", "ov_taw2002", "ov_vangent2002_velocity", "ov_vangent2021_caisson", "ov_vangent2025"}
RuMods  == {"ru_eurotop2018", "ru_taw2002", "ru_vangent2001"}
TrMods  == {"tr_briganti2003", "tr_dangremond1996", "tr_goda1967_caisson", "tr_vangent2023", "tr_vangent2024_setup"}
RaMods  == {"ra_etemadshahidi2020", "ra_hudson1959", "ra_jumelet2024", "ra_kramerburcharth2004_lowcrested", "ra_scaravaglione2025", "ra_vandermeer1988",
            "ra_vandermeer1988_modified", "ra_vandermeer2021"}
CaMods  == {"ca_accropode2_hudson1959", "ca_accropode_hudson1959", "ca_core_loc_hudson1959", "ca_cubes_double_layer_hudson1959",
            "ca_cubes_double_layer_vandermeer1988", "ca_cubes_single_layer_vangent2002", "ca_cubipod_hudson1959", "ca_tetrapod_hudson1959", "ca_xbloc", "ca_xblocplus"}
TbMods  == {"tb_etemadshahidi2021", "tb_gerding1993", "tb_takahashi1990_caisson", "tb_vandermeer1998", "tb_vangentvanderwerf2014", "rr_vangent2007", "rr_vangentpozueta2004"}
Helpers == {"calculate_influence_oblique_waves_gamma_beta", "calculate_influence_crest_wall_gamma_v", "calculate_influence_friction_gamma_f",
            "calculate_influence_berm_gamma_b", "calculate_influence_wind_gamma_w", "calculate_gamma_beta"}
Of(ms) == SelectSeq(Calc, LAMBDA q : q[1] \in ms /\ ~IsCheck(q[2]))
F01 == Of(OvMods)
F02 == Of(RuMods) \o SelectSeq(Calc, LAMBDA q : q[1] \in OvMods /\ q[2] \in Helpers)
F03 == Of(TrMods)
F04 == Of(RaMods)
F05 == Of(CaMods)
F06 == Of(TbMods)
F07 == SelectSeq(Calc, LAMBDA q : q[1] = "fc_goda1985" /\ q[2] # "check_validity_range")
F08 == Of({"fw_vangentvanderwerf2019"})
F09 == Of({"core_physics"})

\* dictionary results are read in the order of the specification
WithKeys(c) ==
  IF c.m # "fc_goda1985" \/ ~Has(c.a, "return_dict") THEN c
  ELSE IF ~c.a.return_dict THEN c
  ELSE c @@ [keys |-> IF c.f = "calculate_pressures_and_forces" THEN PKeysD ELSE FKeysD]
Ty(s, i) == Pick(s, i, "ty", <<"", "", "", "int", "int", "np">>)
Cty(m, f, a, s, i) == WithKeys(C(m, f, a) @@ [ty |-> Ty(s, i)])

NumPars(a) == SeqOf({p \in DOMAIN a : IsReal(a[p]) /\ IsFin(a[p])})
AnglePar == {"beta", "theta", "alpha_wall_deg", "damage_percentage", "seabed_slope_perc", "sigma", "perc_slope", "rel_freeboard", "rel_depth", "cor3"}

-----------------------------------------------------------------------------
(* edges: change one input until the signature of the evaluation changes,
   bisect, and use both sides and the round number in between *)
Factors == <<"0.25", "0.5", "0.7", "0.85", "1.2", "1.5", 2, 4>>
Signed  == {"Rc", "db", "Hm0_swell", "Gc", "Rc2_front", "B_berm"}    \* zero is an ordinary value, for some a negative one too
ZeroPar == Signed \cup AnglePar \cup {"Fb", "B1", "Rc2_rear", "Hm0_LF", "Bc", "z2p", "FH2p", "FV2p", "MU", "FU", "muf", "tt", "q"}
SFactors == Factors \o <<-1, 0, -1, 0>>
Shifts  == <<-60, -30, -10, -3, 3, 10, 30, 60, 90, -90>>
\* sig(r): what may change
RECURSIVE Bisect(_, _, _, _, _, _, _, _)
Bisect(m, f, a, p, lo, hi, Sg(_), n) ==
  IF n = 0 THEN <<lo, hi>>
  ELSE LET mid == ToR((lo + hi) / 2)
       IN IF Sg(Call(m, f, [a EXCEPT ![p] = mid])) = Sg(Call(m, f, [a EXCEPT ![p] = lo]))
          THEN Bisect(m, f, a, p, mid, hi, Sg, I!-(n, 1)) ELSE Bisect(m, f, a, p, lo, mid, Sg, I!-(n, 1))
Density == {"rho_water", "rho_armour", "rho_rock", "rho_core", "rho_fill_above_SWL", "rho_fill_below_SWL"}
DFactors == <<"0.96", "0.98", "0.99", "1.01", "1.02", "1.04">>     \* a material stays that material
SmallPar == {"sigma", "cor3", "rel_freeboard", "rel_depth"}
SShifts == <<-1, "-0.5", "-0.2", "0.2", "0.5", 1>>
Moves(p) == IF p \in SmallPar THEN SShifts ELSE IF p \in AnglePar THEN Shifts ELSE IF p \in Signed THEN SFactors ELSE IF p \in Density THEN DFactors ELSE Factors
\* searches: slow for sizes and depths that do not belong together
Search(m, f) == m = "tb_takahashi1990_caisson" /\ f \in {"calculate_significant_depth_above_toe_hacc", "calculate_significant_wave_height_Hs"}
Moved(x, p, k) == ToR(IF p \in AnglePar THEN x + k ELSE x * k)
\* values of parameter p around a change of signature (<<>> if none is found)
EdgeVals(m, f, a, p, Sg(_), s, i) ==
  LET s0 == Sg(Call(m, f, a))
      try(t) == Moved(a[p], p, Pick(s, i, <<"edgej", p, t>>, Moves(p)))
      js == {t \in {1, 2, 3, 4} : Sg(Call(m, f, [a EXCEPT ![p] = try(t)])) # s0}
  IN IF js = {} THEN <<>>
     ELSE LET b  == Bisect(m, f, a, p, a[p], try(CHOOSE t \in js : TRUE), Sg, 24)
              mk == Sig(ToR((b[1] + b[2]) / 2), 5)
          IN IF Close(mk, b[1], "3e-7") THEN <<b[1], b[2], mk, Ulp(mk, 1), Ulp(mk, -1)>> ELSE <<b[1], b[2]>>
\* the first of the inputs ps, from position j on, that has an edge: <<p, values>>
RECURSIVE FirstEdge(_, _, _, _, _, _, _, _, _)
FirstEdge(m, f, a, ps, j, n, Sg(_), s, i) ==
  IF n = 0 THEN <<"", <<>>>>
  ELSE LET p == ps[I!+(I!%(j, Len(ps)), 1)]
           e == EdgeVals(m, f, a, p, Sg, s, i)
       IN IF e # <<>> THEN <<p, e>> ELSE FirstEdge(m, f, a, ps, I!+(j, 1), I!-(n, 1), Sg, s, i)
RegSig(r) == ToString(<<r.e, r.r>>)
OutSig(r) == ToString(<<r.e, {c.x : c \in {c \in r.c : Out(c)}}>>)

\* a session of evaluations of one function, at the given values of p
Around(m, f, a, p, vs, s, i, cl, Rel(_)) ==
  Mk(i, cl, [j \in DOMAIN vs |-> Cty(m, f, [a EXCEPT ![p] = vs[j]], s, i)], [j \in DOMAIN vs |-> Rel(j)])

\* one function: the plain draw, an edge, or an extreme value of one input
FunCase(m, f, s, i, Sg(_), Rel(_)) ==
  LET a == Args(m, f, s, i)
      ps == NumPars(a)
      k == U(s, i, "kind")
      plain == Mk(i, "draw", <<Cty(m, f, a, s, i)>>, <<Rel(1)>>)
  IN IF k < "0.6" \/ Len(ps) = 0 \/ Search(m, f) THEN plain
     ELSE IF k < "0.9"
     THEN LET e == FirstEdge(m, f, a, ps, RndInt(s, i, "edgep", Len(ps)), IF I!<(Len(ps), 6) THEN Len(ps) ELSE 6, Sg, s, i)
          IN IF e[2] # <<>> THEN Around(m, f, a, e[1], e[2], s, i, "edge", Rel) ELSE plain
     ELSE IF k < "0.94"
     THEN \* nothing, one, or the value of another input
          LET p == Pick(s, i, "edgep", ps)
              x == Pick(s, i, "xs", <<ToR(0), ToR(1), a[Pick(s, i, "xo", ps)]>>)
              singular == m = "rr_vangent2007" /\ p \in {"Rc", "Rc2_rear"}       \* division by their difference
          IN IF p \in Density \/ singular \/ (x <= 0 /\ p \notin ZeroPar) \/ (x < 0 /\ p \notin Signed \cup AnglePar) THEN plain ELSE Around(m, f, a, p, <<x>>, s, i, "special", Rel)
     ELSE LET p == Pick(s, i, "edgep", ps)
          IN Around(m, f, a, p, <<ToR(a[p] * Pick(s, i, "xf", IF p \in Density THEN DFactors ELSE <<"0.001", "0.02", "0.1", "0.3", "0.5", 2, 3, 10, 50, 1000>>))>>, s, i, "extreme", Rel)
EvalCase(fs, s, i) ==
  LET q == fs[I!+(I!%(i, Len(fs)), 1)] IN FunCase(q[1], q[2], s, i, RegSig, REval)

-----------------------------------------------------------------------------
(* C05: the tabulated properties of the units *)
UnitCall(u) == C(u[1], "unit_properties", [path |-> u[2]])
Case05(s, i) ==
  IF I!%(i, 37) = 0
  THEN LET u == UnitProps[I!+(I!%(RndInt(s, i, "unit", 100000), Len(UnitProps)), 1)]
       IN Mk(i, "table", <<UnitCall(u)>>, <<REq("unit property", T(1, 1), K(u[3]), "1e-12", 0)>>)
  ELSE EvalCase(F05, s, i)

(* C07: the separate steps and the combined calculation *)
Restrict(a, S) == [p \in (DOMAIN a) \cap S |-> a[p]]
RF(i, o) == [ref |-> <<i, o>>]
Case07(s, i) ==
  IF Prob(s, i, "k07", "0.6") THEN EvalCase(F07, s, i)
  ELSE
  LET m  == "fc_goda1985"
      a  == [p \in (DOMAIN Args(m, "calculate_forces_and_reactions", s, i)) \ {"return_dict"} |-> Args(m, "calculate_forces_and_reactions", s, i)[p]]
      z  == Complete(m, "calculate_forces_and_reactions", a)
      pa == Restrict(a, DOMAIN DefOf[m]["calculate_pressures_and_forces"])
      tup == ToR(z.tup_over_Bup * z.Bup)
      calls == << C(m, "calculate_forces_and_reactions", a),
                  C(m, "calculate_pressures_and_forces", pa),
                  C(m, "calculate_Wup", [hacc |-> a.hacc, Rc |-> a.Rc, Bup |-> a.Bup, rho_fill_below_SWL |-> ToR(z.rho_fill_below_SWL), rho_water |-> a.rho_water,
                                         rho_fill_above_SWL |-> ToR(z.rho_fill_above_SWL), g |-> ToR(z.g)]),
                  C(m, "calculate_safety_factors", [FU |-> RF(2, 2), FH |-> RF(2, 1), Wup |-> RF(3, 1), muf |-> ToR(z.muf), tup |-> tup, MH |-> RF(2, 3), MU |-> RF(2, 4)]),
                  C(m, "calculate_bearing_pressures", [Wup |-> RF(3, 1), tup |-> tup, MH |-> RF(2, 3), MU |-> RF(2, 4), FU |-> RF(2, 2), Bup |-> a.Bup]),
                  WithKeys(C(m, "calculate_forces_and_reactions", a @@ [return_dict |-> TRUE])),
                  WithKeys(C(m, "calculate_pressures_and_forces", pa @@ [return_dict |-> TRUE])) >>
      e(n, p, q) == REq(n, p, q, "1e-9", "1e-9")
  IN Mk(i, "chain", calls, <<
        e("FH", T(1, 1), T(2, 1)), e("FU", T(1, 2), T(2, 2)), e("MH", T(1, 3), T(2, 3)), e("MU", T(1, 4), T(2, 4)),
        e("p1", T(1, 5), T(2, 5)), e("pu", T(1, 7), T(2, 10)), e("pe", T(1, 6), T(5, 1)),
        e("SF sliding", T(1, 9), T(4, 1)), e("SF overturning", T(1, 10), T(4, 2)),
        RFlag("impulsive", 1, 8, 2, 17),
        e("dict SF overturning", T(6, 1), T(4, 2)), e("dict SF sliding", T(6, 2), T(4, 1)), e("dict Wup", T(6, 4), T(3, 1)),
        e("dict te", T(6, 5), T(5, 4)), e("dict We", T(6, 6), T(5, 3)), e("dict Me", T(6, 7), T(5, 2)), e("dict pe", T(6, 8), T(5, 1)),
        e("dict FH", T(6, 9), T(2, 1)), e("dict pu", T(6, 18), T(2, 10)), e("dict h_5Hs", T(6, 19), T(7, 11)),
        e("dict p4", T(7, 8), T(2, 8)),
        \* equilibrium of the reaction: its resultant and lever arm reproduce the moment
        REval(1), REval(2), REval(3), REval(4), REval(5), REval(6), REval(7)>>)

(* C08 *)
Case08(s, i) ==
  LET m == "fw_vangentvanderwerf2019"
      k == U(s, i, "k08")
      v == Prob(s, i, "vert", "0.5")
      fo == IF v THEN "calculate_FV2p_oblique" ELSE "calculate_FH2p_oblique"
      fp == IF v THEN "calculate_FV2p_perpendicular" ELSE "calculate_FH2p_perpendicular"
      fz == IF v THEN "calculate_FV2p_perpendicular_from_z2p" ELSE "calculate_FH2p_perpendicular_from_z2p"
      a0 == Args(m, fo, s, i)
      b  == IF Prob(s, i, "beta45", "0.3") THEN Pick(s, i, "b45", <<0, 15, 30, 45, 60, 75, 90>>) ELSE Lin(U(s, i, "b08"), 0, 90)
      a  == [a0 EXCEPT !["beta"] = ToR(b)]
      ap == Restrict(a, DOMAIN DefOf[m][fp])
  IN IF k < "0.5" \/ (v /\ a0.Fb > a0.Ac) THEN EvalCase(F08, s, i)
     ELSE IF k < "0.8"
     THEN Mk(i, "oblique", <<C(m, fo, a), C(m, fp, ap), C(m, fo, [a EXCEPT !["beta"] = ToR(0)]), C(m, fo, [a EXCEPT !["beta"] = ToR(-b)])>>,
             <<ROrd("never larger than perpendicular", T(1, 1), T(2, 1), "1e-9", "1e-9"), ROrd("never negative", K(0), T(1, 1), 0, 0),
               REq("normal incidence", T(3, 1), T(2, 1), "1e-9", "1e-9"), REq("sign of the angle", T(4, 1), T(1, 1), "1e-9", "1e-9"),
               REval(1), REval(2)>>)
     ELSE LET az == Args(m, fz, s, i)
              dry == [az EXCEPT !["z2p"] = ToR(az.Ac * Lin(U(s, i, "dry"), "0.05", IF v THEN "0.75" ELSE 1))]
          IN IF v /\ az.Fb > az.Ac THEN EvalCase(F08, s, i) ELSE Mk(i, "dry", <<C(m, fz, az), C(m, fz, dry)>>,
                <<ROrd("never negative", K(0), T(1, 1), 0, 0), REq("dry edge", T(2, 1), K(0), 0, 0), REval(1)>>)

(* C09 *)
Case09(s, i) ==
  LET m == "core_physics"
      k == RndInt(s, i, "k09", 10)
      e(n, p, q) == REq(n, p, q, "1e-10", 0)
  IN CASE k < 5 -> EvalCase(F09, s, i)
       [] k = 5 -> LET a == Args(m, "calculate_M50_from_Dn50", s, i) IN
                   Mk(i, "inverse", <<C(m, "calculate_M50_from_Dn50", a), C(m, "calculate_Dn50_from_M50", [M50 |-> RF(1, 1)] @@ Restrict(a, {"rho_rock"})),
                                      C(m, "check_usage_Dn50_or_M50", [Dn50 |-> NaN, M50 |-> RF(1, 1), rho_rock |-> ToR(Complete(m, "calculate_M50_from_Dn50", a).rho_rock)])>>,
                      <<e("Dn50", T(2, 1), TA(1, "Dn50")), e("either", T(3, 1), TA(1, "Dn50"))>>)
       [] k = 6 -> LET a == Args(m, "calculate_S_from_Nod", s, i) IN
                   Mk(i, "inverse", <<C(m, "calculate_S_from_Nod", a), C(m, "calculate_Nod_from_S", [S |-> RF(1, 1), G |-> a.G, nv |-> a.nv])>>,
                      <<e("Nod", T(2, 1), TA(1, "Nod"))>>)
       [] k = 7 -> LET sc == SceneOf(m, s, i)
                       v(q) == ToR(Value(m, "check_usage_stabilitynumber", q, sc))
                       f == "check_usage_stabilitynumber"
                   IN Mk(i, "inverse", <<C(m, f, [Dn |-> v("Dn"), Delta |-> v("Delta"), Ns |-> v("Ns")]),
                                         C(m, f, [Hs |-> RF(1, 1), Delta |-> v("Delta"), Ns |-> v("Ns")]),
                                         C(m, f, [Hs |-> RF(1, 1), Dn |-> v("Dn"), Ns |-> v("Ns")]),
                                         C(m, f, [Hs |-> RF(1, 1), Dn |-> v("Dn"), Delta |-> v("Delta")]),
                                         C(m, f, [Hs |-> RF(1, 1), Dn |-> v("Dn"), Delta |-> v("Delta"), Ns |-> v("Ns")]),
                                         C(m, f, [Dn |-> v("Dn"), Delta |-> v("Delta")])>>,
                         <<e("Dn", T(2, 1), TA(1, "Dn")), e("Delta", T(3, 1), TA(1, "Delta")), e("Ns", T(4, 1), TA(1, "Ns")),
                           RIs("which", 1, 2, "Hs"), RIs("which", 2, 2, "Dn"), RIs("which", 3, 2, "Delta"), RIs("which", 4, 2, "Ns"),
                           RErr("nothing missing", 5), RErr("two missing", 6)>>)
       [] OTHER -> LET T0 == Sig(LogU(U(s, i, "wlT"), 1, 30), 4)
                       h0 == Sig(LogU(U(s, i, "wlh"), "0.2", 400), 4)
                       g0 == ToR(Pick(s, i, "wlg", <<"9.81", "9.81", "9.80665", "1.62", "3.7", 12>>))
                   IN Mk(i, "dispersion", <<C(m, "calculate_local_wavelength", [T |-> T0, h |-> h0, g |-> g0])>>, <<RRes("dispersion", 1), REval(1)>>)

-----------------------------------------------------------------------------
(* C13, C14: validity warnings *)
NoChecks == {"ru_vangent2001", "ca_cubes_double_layer_hudson1959", "ov_vangent2002_velocity", "ov_eurotop2007", "ov_denbieman2021", "ov_vangent2007"}
FWarn == SelectSeq(Calc, LAMBDA q : q[1] # "core_physics")
CheckFuns == SelectSeq(Calc, LAMBDA q : IsCheck(q[2]) \/ q[2] = "check_variable_validity_range")
\* a list of values for the elementary check
RangeList(s, i) ==
  LET m  == "core_utility"
      f  == "check_variable_validity_range"
      a0 == Args(m, f, s, i)
      lo == ToR(Min2(a0.min_value, a0.max_value))
      hi == ToR(Max2(a0.min_value, a0.max_value))
      n  == I!+(RndInt(s, i, "rl", 6), 1)
      el(j) == LET t == RndInt(s, i, <<"el", j>>, 9) IN
               CASE t = 0 -> lo [] t = 1 -> hi [] t = 2 -> Ulp(lo, -1) [] t = 3 -> Ulp(hi, 1) [] t = 4 -> Ulp(lo, 1) [] t = 5 -> Ulp(hi, -1)
                 [] OTHER -> Sig(Lin(U(s, i, <<"eu", j>>), lo - 3, hi + 3), 6)
      a  == [a0 EXCEPT !["min_value"] = lo, !["max_value"] = hi]
      vs == [j \in Range1(n) |-> el(j)]
  IN [a |-> a, vs |-> vs, n |-> n]
WCase(s, i, Rel(_), spur) ==
  LET k == U(s, i, "kw")
      m == "core_utility"
      f == "check_variable_validity_range"
  IN IF k < "0.08"
     THEN LET rl == RangeList(s, i)
              arr == C(m, f, [rl.a EXCEPT !["values"] = [arr |-> rl.vs]])
              one(j) == C(m, f, [rl.a EXCEPT !["values"] = rl.vs[j]])
          IN Mk(i, "list", <<arr>> \o [j \in Range1(rl.n) |-> one(j)],
                [j \in Range1(rl.n) |-> Rel(I!+(j, 1))] \o <<RArr(1, [j \in Range1(rl.n) |-> I!+(j, 1)], TRUE, 0)>>
                \o (IF spur THEN [j \in Range1(rl.n) |-> REval(I!+(j, 1))] ELSE <<>>))
     ELSE IF k < "0.45" THEN (LET q == CheckFuns[I!+(I!%(i, Len(CheckFuns)), 1)] IN FunCase(q[1], q[2], s, i, OutSig, Rel))
     ELSE LET q == FWarn[I!+(I!%(i, Len(FWarn)), 1)] IN FunCase(q[1], q[2], s, i, OutSig, Rel)
Case13(s, i) == WCase(s, i, RWarn, FALSE)
Case14(s, i) == WCase(s, i, RTrue, TRUE)

CaseA(prop, s, i) ==
  CASE prop = "C01" -> EvalCase(F01, s, i)
    [] prop = "C02" -> EvalCase(F02, s, i)
    [] prop = "C03" -> EvalCase(F03, s, i)
    [] prop = "C04" -> EvalCase(F04, s, i)
    [] prop = "C05" -> Case05(s, i)
    [] prop = "C06" -> EvalCase(F06, s, i)
    [] prop = "C07" -> Case07(s, i)
    [] prop = "C08" -> Case08(s, i)
    [] prop = "C09" -> Case09(s, i)
    [] prop = "C13" -> Case13(s, i)
    [] prop = "C14" -> Case14(s, i)
=============================================================================
