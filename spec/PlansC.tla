------------------------------- MODULE PlansC -------------------------------
(* Sessions for the properties that relate calls to each other: arrays and
   scalars (C15), histories (C16), equivalent inputs (C17), bounds (C18),
   ordering (C19), scaling (C20), iterations (C21), defaults (C22), files (C23) *)
EXTENDS PlansB, ArrSig

-----------------------------------------------------------------------------
(* C15: arrays.  Call 1 passes arrays, calls 2 .. n+1 are the scalar calls of
   its elements. *)
ArrParOf(m, f) == LET J == {j \in DOMAIN ArrTable : ArrTable[j][1] = m /\ ArrTable[j][2] = f} IN IF J = {} THEN {} ELSE ArrTable[CHOOSE j \in J : TRUE][3]
\* functions that do not take every mixture: which ones they have to take
Part(m, f) ==
  m = "tb_takahashi1990_caisson"
MustTake(m, f, a, A) == ~Part(m, f)
SubsetOf(ps, s, i) ==
  LET k == U(s, i, "subk")
  IN IF k < "0.35" \/ ps = {} THEN ps
     ELSE IF k < "0.6" THEN LET q == SeqOf(ps) IN {Pick(s, i, "sub1", q)}
     ELSE {p \in ps : Prob(s, i, <<"sub", p>>, "0.5")}
\* tight tolerance where the function iterates
Tight(m, f, a) == IF "tolerance" \in DOMAIN DefOf[m][f] THEN [p \in (DOMAIN a) \cup {"tolerance"} |-> IF p = "tolerance" THEN R("1e-11") ELSE a[p]] ELSE a
\* searches stop when every element has converged
ArrTol(m, f, a) == IF "cot_alpha_down" \in DOMAIN a /\ m \in {"ov_taw2002", "ov_eurotop2018", "ru_taw2002", "ru_eurotop2018"} THEN R("2e-3")
                ELSE IF m = "tb_etemadshahidi2021" /\ f = "calculate_significant_wave_height_Hs" THEN R("0.02")
                ELSE IF m = "ov_vangent2025" THEN R("1e-4") ELSE R("1e-9")
ArrCase(m, f, s, i, cl, a, A, E(_), n, ar) ==
  LET \* in a grid an input varies with the row, with the column or with both
      at(p, j) == IF ar # "grid" THEN j ELSE LET w == U(s, i, <<"gr", p>>) IN IF w < "0.45" THEN <<1, 1, 2, 2>>[j] ELSE IF w < "0.9" THEN <<1, 2, 1, 2>>[j] ELSE j
      b(j) == [p \in DOMAIN a |-> IF p \in A THEN E(at(p, j))[p] ELSE a[p]]
      arr == [p \in DOMAIN a |-> IF p \in A THEN [arr |-> [j \in Range1(n) |-> b(j)[p]]] ELSE a[p]]
  IN Mk(i, cl, <<WithKeys(C(m, f, arr)) @@ (IF ar = "" THEN <<>> ELSE [ar |-> ar])>> \o [j \in Range1(n) |-> WithKeys(C(m, f, b(j)))],
        <<RArr(1, [j \in Range1(n) |-> I!+(j, 1)], MustTake(m, f, a, A), ArrTol(m, f, a))>>)
Case15(s, i) ==
  LET q  == Calc[I!+(I!%(i, Len(Calc)), 1)]
      m  == q[1]
      f  == q[2]
      sc == SceneOf(m, s, i)
      a  == Tight(m, f, ArgsOf(m, f, sc))
      ps == {p \in DOMAIN a : p \in ArrParOf(m, f) /\ IsReal(a[p])}
      A  == SubsetOf(ps, s, i)
      ar == Pick(s, i, "repr", <<"", "", "", "", "", "", "ro", "str", "2d", "grid", "grid">>)
      n  == IF ar = "grid" THEN 4 ELSE IF Prob(s, i, "many", "0.03") THEN Pick(s, i, "len", <<9, 17, 40>>) ELSE Pick(s, i, "len", <<1, 2, 3, 3, 4, 5>>)
      k  == U(s, i, "kind")
  IN IF A = {} THEN None(i)
     ELSE IF k < "0.4"
     THEN \* other situations
          LET scs == [j \in Range1(n) |-> SceneOf(m, s, I!+(i, I!*(1000003, j)))]
              e(j) == [p \in DOMAIN a |-> IF p \in A THEN Norm(p, Value(m, f, p, scs[j])) ELSE a[p]]
          IN ArrCase(m, f, s, i, "scenes", a, A, e, n, ar)
     ELSE IF k < "0.75"
     THEN \* around one situation
          LET e(j) == [p \in DOMAIN a |-> IF p \in A THEN Sig(IF p \in {"perc_slope", "seabed_slope_perc", "damage_percentage"} THEN Max2("0.01", a[p] * Lin(U(s, i, <<"vm", p, j>>), "0.5", 2)) ELSE IF p \in AnglePar THEN a[p] + Pick(s, i, <<"vm", p, j>>, IF p \in SmallPar THEN SShifts ELSE Shifts)
                                                              ELSE a[p] * (IF p \in Density THEN Pick(s, i, <<"vm", p, j>>, DFactors) ELSE Lin(U(s, i, <<"vm", p, j>>), "0.7", "1.4")), 6) ELSE a[p]]
          IN ArrCase(m, f, s, i, "around", a, A, e, n, ar)
     ELSE IF k < "0.85"
     THEN \* whole numbers
          LET w(x) == IF x < 0 THEN Min2(-1, Rint(x)) ELSE Max2(1, Rint(x))
              ok == {p \in A : Abs(a[p]) >= 1}
              e(j) == [p \in DOMAIN a |-> IF p \in ok THEN w(IF p \in AnglePar THEN a[p] + Pick(s, i, <<"vm", p, j>>, <<0, 3, 10>>) ELSE a[p] * Pick(s, i, <<"vm", p, j>>, <<1, "1.3", "1.6">>)) ELSE a[p]]
          IN IF ok = {} THEN None(i) ELSE ArrCase(m, f, s, i, "whole numbers", a, ok, e, n, "int")
     ELSE \* across a limit
          LET p == Pick(s, i, "ep", SeqOf(A))
              v == EdgeVals(m, f, a, p, RegSig, s, i)
              ord == Pick(s, i, "ord", <<<<1, 2>>, <<2, 1>>, <<1, 2, 1>>, <<2, 1, 2>>, <<1, 1, 2, 2>>>>)
              off(x) == IF x = 1 THEN ToR(v[1] + (v[1] - v[2]) * 1000) ELSE ToR(v[2] + (v[2] - v[1]) * 1000)
              e(j) == [a EXCEPT ![p] = off(ord[j])]
          IN IF v = <<>> \/ Search(m, f) THEN None(i) ELSE ArrCase(m, f, s, i, "edge", a, {p}, e, Len(ord), "")

-----------------------------------------------------------------------------
(* C16: histories.  Sessions of calls with equal, nearly equal and shared
   arguments, passed by keyword, reversed or by position, with errors and
   discarded results in between.  Every call has to give what it gives without
   a history, and equal calls the same. *)
SigSeq(m, f) == LET t == SigTable[CHOOSE k \in DOMAIN SigTable : SigTable[k][1] = m][2]
                    e == t[CHOOSE k \in DOMAIN t : t[k][1] = f][2]
                IN [j \in DOMAIN e |-> e[j][1]]
RECURSIVE Prefix(_, _, _)
Prefix(sig, a, j) == IF I!>(j, Len(sig)) THEN <<>> ELSE IF sig[j] \in DOMAIN a THEN <<sig[j]>> \o Prefix(sig, a, I!+(j, 1)) ELSE <<>>
Styled(c, st) ==
  CASE st = "rev" -> c @@ [rev |-> TRUE]
    [] st = "pos" -> LET q == Prefix(SigSeq(c.m, c.f), c.a, 1) IN IF q = <<>> THEN c ELSE c @@ [pos |-> q]
    [] st = "rep" -> c @@ [rep |-> 3]
    [] st = "scribble" /\ ~Echoes(c) -> c @@ [rep |-> 2, scribble |-> TRUE]
    [] OTHER -> c
Close16 == <<"1.000000001", "0.999999", "1.00001", "1.002", "0.95", 2>>
\* arrays that live as long as the session: every call with input p gets the same one
Shared(m, f, a, s, i, n) ==
  LET ps == {p \in DOMAIN a : p \in ArrParOf(m, f) /\ IsReal(a[p]) /\ IsFin(a[p])}
      A  == {p \in ps : Prob(s, i, <<"shp", p>>, "0.7")}
  IN [p \in DOMAIN a |-> IF p \in A THEN [arr |-> [j \in Range1(n) |-> IF p \in AnglePar THEN a[p] ELSE ToR(a[p] * (1 + "0.1" * (j - 1)))], sh |-> p \o ToString(a[p])] ELSE a[p]]
Case16(s, i) ==
  LET q  == Calc[I!+(I!%(i, Len(Calc)), 1)]
      m  == q[1]
      f  == q[2]
      sc == SceneOf(m, s, i)
      a  == ArgsOf(m, f, sc)
      ps == NumPars(a)
      \* one input after the other
      par(d) == ps[I!+(I!%(I!+(I!\div(i, Len(Calc)), d), Len(ps)), 1)]
      p  == IF Len(ps) = 0 THEN "" ELSE par(0)
      vary(d) == [a EXCEPT ![par(d)] = IF Eq(@, 0) THEN ToR("0.25") ELSE ToR(@ * Pick(s, i, <<"nf", d>>, Close16))]
      nv == IF I!<(Len(ps), 6) THEN Len(ps) ELSE 6
      b  == IF p = "" THEN a ELSE [a EXCEPT ![p] = ToR(@ * Pick(s, i, "nf", Close16))]
      bs == SeqOf({r \in DOMAIN a : IsBool(a[r])})
      c  == IF Len(bs) = 0 THEN b ELSE [a EXCEPT ![Pick(s, i, "nb", bs)] = ~@]
      gs == IF Prob(s, i, "samem", "0.6") THEN SelectSeq(Calc, LAMBDA r : r[1] = m) ELSE Calc
      g  == Pick(s, i, "g", gs)
      h  == Pick(s, i, "h", Calc)
      \* the other function in the same situation, its inputs of the same name with the same values
      ga == LET x == ArgsOf(g[1], g[2], SceneOf(g[1], s, i)) IN [r \in DOMAIN x |-> IF r \in DOMAIN a /\ Prob(s, i, <<"sameval", r>>, "0.7") /\ IsReal(x[r]) /\ IsReal(a[r]) THEN a[r] ELSE x[r]]
      ha == ArgsOf(h[1], h[2], SceneOf(h[1], s, I!+(i, 77)))
      err == IF DOMAIN ga = {} THEN ga ELSE LET d == Pick(s, i, "drop", SeqOf(DOMAIN ga)) IN [r \in (DOMAIN ga) \ {d} |-> ga[r]]
      st(k) == Pick(s, i, <<"style", k>>, <<"", "rev", "pos", "pos", "rep", "scribble">>)
      Fx(x, k) == Styled(WithKeys(C(m, f, x)), st(k))
      Gx(x, k) == Styled(WithKeys(C(g[1], g[2], x)), st(k))
      sa == Shared(m, f, a, s, i, 3)
      sg == Shared(g[1], g[2], ga, s, i, 3)
      slow == Search(m, f) \/ Search(g[1], g[2]) \/ Search(h[1], h[2])
      all(n) == [j \in Range1(n) |-> RFresh(j)] \o [j \in Range1(n) |-> RPure(j)]
      k == U(s, i, "kind")
  IN IF slow /\ ~Prob(s, i, "slow", "0.1") THEN None(i)
     ELSE IF k < "0.15" /\ Len(ps) # 0 THEN Mk(i, "inputs", <<Fx(a, 1)>> \o [d \in Range1(nv) |-> Fx(vary(I!-(d, 1)), I!+(d, 1))] \o <<Fx(a, 9)>>, <<RSame("again", I!+(nv, 2), 1)>> \o all(I!+(nv, 2)))
     ELSE IF k < "0.35" THEN Mk(i, "scalars", <<Fx(a, 1), Fx(b, 2), Gx(ga, 3), Fx(a, 4), Fx(c, 5), Fx(a, 6)>>, <<RSame("again", 4, 1), RSame("again", 6, 1)>> \o all(6))
     ELSE IF k < "0.5" THEN Mk(i, "errors", <<Fx(a, 1), Gx(err, 2), Fx(a, 3), Gx(ga, 4), C(h[1], h[2], ha), Fx(b, 6), Fx(a, 7)>>, <<RSame("again", 3, 1), RSame("again", 7, 1)>> \o all(7))
     ELSE IF k < "0.9" THEN Mk(i, "arrays", <<Fx(sa, 1), Fx(a, 2), Gx(sg, 3), Fx(sa, 4), Gx(sg, 5), Fx(a, 6)>>, <<RSame("again", 4, 1), RSame("again", 5, 3), RSame("again", 6, 2)>> \o all(6))
     ELSE Mk(i, "long", <<Fx(a, 1), Gx(ga, 2), Fx(b, 3), C(h[1], h[2], ha), Fx(sa, 5), Gx(sg, 6), Fx(c, 7), Gx(ga, 8), Fx(sa, 9), Fx(a, 10)>>,
             <<RSame("again", 8, 2), RSame("again", 9, 5), RSame("again", 10, 1)>> \o all(10))

-----------------------------------------------------------------------------
(* C17: equivalent inputs.  Sessions  x := f(one form);  [y := helper];
   z := f(the other form)  with equal outputs, and calls without any form. *)
Without(a, S) == [p \in (DOMAIN a) \ S |-> a[p]]
With(a, r)    == r @@ Without(a, DOMAIN r)
HasP(q, S)    == S \subseteq DOMAIN DefOf[q[1]][q[2]]
Wth(S)        == SelectSeq(Calc, LAMBDA q : HasP(q, S) /\ ~IsCheck(q[2]))
GbH == "calculate_influence_oblique_waves_gamma_beta"
FBeta  == SelectSeq(Wth({"beta", "gamma_beta"}), LAMBDA q : q[1] # "fw_vangentvanderwerf2019" /\ q[2] # "check_calculate_gamma_beta")
FSlope == SelectSeq(Wth({"cot_alpha", "cot_alpha_down", "cot_alpha_up", "Hm0"}), LAMBDA q : q[2] \notin {"check_composite_slope", "calculate_berm_length"})
FDn    == SelectSeq(Wth({"Dn50", "M50"}), LAMBDA q : q[1] # "core_physics")
FDc    == Wth({"Dn50_core", "M50_core"})
FNaN   == SelectSeq(Calc, LAMBDA q : \E p \in DOMAIN DefOf[q[1]][q[2]] : Same(DefOf[q[1]][q[2]][p], "NaN"))
FBerm  == SelectSeq(Wth({"gamma_b", "B_berm", "cot_alpha_down"}), LAMBDA q : TRUE)
F25    == Wth({"gamma_f", "Dn50", "Ac", "gamma_v"})
Units  == <<"ca_xbloc", "ca_xblocplus">>
Rho(q) == IF HasP(q, {"rho_armour"}) THEN "rho_armour" ELSE "rho_rock"
At(seq, i, k) == seq[I!+(I!%(I!\div(i, k), Len(seq)), 1)]
N17 == 16
Case17(s, i) ==
  LET k  == I!%(i, N17)
      sq(fs) == At(fs, i, N17)
      A0(q) == ArgsOf(q[1], q[2], SceneOf(q[1], s, i))
      P(p, q) == Norm(p, Value(q[1], q[2], p, SceneOf(q[1], s, i)))
      beta == Norm("beta", Pick(s, i, "b17", <<ToR(Lin(U(s, i, "bt"), -95, 95)), ToR(Lin(U(s, i, "bt"), 0, 80)), 0, 45, -30>>))
      near(n, x, y) == RNear(n, x, y, "1e-9")
  IN CASE k \in {0, 1} ->              \* angle or factor
            LET q == sq(FBeta)
                m == q[1]
                a == Without(A0(q), {"beta", "gamma_beta"}) @@ (IF m = "ov_vangent2025" THEN [gamma_v |-> P("gamma_v", q)] ELSE <<>>)
                z == Complete(m, q[2], a)
                h == CASE m \in {"ov_taw2002", "ru_taw2002", "ov_vangent2025"} -> <<C(m, GbH, [beta |-> beta])>>
                       [] m \in {"ov_eurotop2018", "ru_eurotop2018"} -> <<C(m, GbH, [beta |-> beta, gamma_f |-> ToR(z.gamma_f)])>>
                       [] m = "ov_eurotop2007" -> <<C("ru_taw2002", GbH, [beta |-> beta, c_gamma_beta |-> R("0.0022")])>>
                       [] OTHER -> LET c == Vg21C(z) IN <<C(m, GbH, [beta |-> beta, gamma_p |-> ToR(c[4]), c_beta |-> ToR(c[3])])>>
            IN Mk(i, "angle", <<Cty(m, q[2], With(a, [beta |-> beta]), s, i)>> \o h \o <<C(m, q[2], With(a, [gamma_beta |-> RF(2, 1)])), C(m, q[2], With(a, [gamma_beta |-> RF(2, 1), beta |-> P("beta", q)]))>>,
                  <<near("angle", 3, 1), near("factor given", 4, 3)>>)
       [] k \in {2, 3} ->              \* one slope or two equal ones
            LET q == sq(FSlope)
                a == Without(A0(q), {"cot_alpha", "cot_alpha_down", "cot_alpha_up"})
                c == P("cot_alpha", q)
            IN Mk(i, "slope", <<C(q[1], q[2], With(a, [cot_alpha |-> c])), C(q[1], q[2], With(a, [cot_alpha_down |-> c, cot_alpha_up |-> c]))>>, <<near("slope", 2, 1)>>)
       [] k \in {4, 5} ->              \* size or mass
            LET q == sq(FDn)
                a == Without(A0(q), {"Dn50", "M50"})
                d == P("Dn50", q)
                r == a[Rho(q)]
            IN IF Rho(q) \notin DOMAIN a THEN None(i)
               ELSE Mk(i, "size", <<Cty(q[1], q[2], With(a, [Dn50 |-> d]), s, i), C("core_physics", "calculate_M50_from_Dn50", [Dn50 |-> d, rho_rock |-> r]),
                                    C(q[1], q[2], With(a, [M50 |-> RF(2, 1)])), C("core_physics", "calculate_Dn50_from_M50", [M50 |-> RF(2, 1), rho_rock |-> r]),
                                    C(q[1], q[2], With(a, [Dn50 |-> RF(4, 1)])),
                                    C(q[1], q[2], With(a, [Dn50 |-> d, M50 |-> P("M50", q)]))>>,
                       <<near("size", 3, 1), near("size", 5, 3), near("size given", 6, 1)>>)
       [] k = 6 ->                     \* core
            LET q == sq(FDc)
                a == With(Without(A0(q), {"Dn50_core", "M50_core"}), [rho_core |-> P("rho_core", q)])
                d == P("Dn50_core", q)
            IN Mk(i, "core size", <<C(q[1], q[2], With(a, [Dn50_core |-> d])), C("core_physics", "calculate_M50_from_Dn50", [Dn50 |-> d, rho_rock |-> a.rho_core]),
                                    C(q[1], q[2], With(a, [M50_core |-> RF(2, 1)]))>>, <<near("core size", 3, 1)>>)
       [] k = 7 ->                     \* spectral or significant wave height
            LET m == "ru_vangent2001"
                f == "calculate_wave_runup_height_z2p"
                a == Without(A0(<<m, f>>), {"Hm0", "Hs", "c0", "c1"}) @@ [c0 |-> ToR(Lin(U(s, i, "c0"), 1, "1.7")), c1 |-> ToR(Lin(U(s, i, "c1"), 3, 6))]
                H == P("Hs", <<m, f>>)
            IN Mk(i, "wave height", <<C(m, f, With(a, [Hm0 |-> H])), C(m, f, With(a, [Hs |-> H]))>>, <<near("wave height", 2, 1)>>)
       [] k = 8 ->                     \* mass or volume
            LET m == Pick(s, i, "um", Units)
                a == A0(<<m, "calculate_unit_volume_V">>)
                b == A0(<<m, "calculate_wave_height_Hs_from_V">>)
            IN Mk(i, "mass", <<C(m, "calculate_unit_volume_V", a), C(m, "calculate_unit_mass_M", a), C(m, "calculate_wave_height_Hs_from_V", b),
                               C(m, "calculate_wave_height_Hs_from_M", With(Without(b, {"V"}), [M |-> ToR(b.V * b.rho_armour)]))>>,
                  <<REq("mass", T(2, 1), TM(1, 1, a.rho_armour), "1e-9", 0), near("volume", 4, 3)>>)
       [] k = 9 ->                     \* seabed slope as a percentage or a cotangent
            LET m == Pick(s, i, "um", Units)
                f == "calculate_correctionfactor_unit_mass_M_by_"
                c == ToR(P("cot_alpha", <<m, f \o "cotalpha_seabed">>) * "1.0000001")
            IN Mk(i, "seabed", <<C(m, f \o "cotalpha_seabed", [cot_alpha |-> c]), C(m, f \o "percslope_seabed", [perc_slope |-> ToR(100 / c)])>>, <<near("seabed", 2, 1)>>)
       [] k = 10 ->                    \* a berm or its factor (single slope)
            LET q == sq(FBerm)
                m == q[1]
                a == With(Without(A0(q), {"beta", "gamma_beta", "cot_alpha", "cot_alpha_down", "cot_alpha_up", "gamma_b", "use_best_fit", "c1", "c2", "c3", "c4", "c5", "B_berm", "db"}), [gamma_beta |-> P("gamma_beta", q), cot_alpha |-> P("cot_alpha", q)])
                bb == [B_berm |-> ToR(Abs(P("B_berm", q))), db |-> P("db", q)]
                z == Complete(m, q[2], With(a, bb))
                h == IF m \in {"ov_taw2002", "ru_taw2002"} THEN "ru_taw2002" ELSE "ru_eurotop2018"
            IN Mk(i, "berm", <<C(m, q[2], With(a, bb)), C("ru_taw2002", "calculate_berm_length", [Hm0 |-> a.Hm0, cot_alpha |-> a.cot_alpha, B_berm |-> bb.B_berm]),
                               C(h, "iteration_procedure_gamma_b", [Hm0 |-> a.Hm0, Tmm10 |-> a.Tmm10, cot_alpha_average |-> a.cot_alpha, B_berm |-> bb.B_berm, L_berm |-> RF(2, 1), db |-> bb.db,
                                                                  gamma_beta |-> a.gamma_beta, gamma_f |-> ToR(z.gamma_f)]),
                               C(m, q[2], With(a, [gamma_b |-> RF(3, 1)])), C(m, q[2], With(With(a, bb), [gamma_b |-> RF(3, 1)]))>>,
                  <<near("berm", 4, 1), near("berm factor given", 5, 4)>>)
       [] k = 11 ->                    \* roughness or size, and berm, of van Gent (2025)
            LET q == sq(F25)
                a == With(Without(A0(q), {"Dn50", "gamma_f", "gamma_b", "B_berm", "db", "beta"}), [gamma_v |-> P("gamma_v", q), gamma_beta |-> P("gamma_beta", q)])
                d == P("Dn50", q)
                bb == [B_berm |-> ToR(Abs(P("B_berm", q)) + a.Hm0 / 10), db |-> P("db", q)]
                st == C("core_physics", "calculate_wave_steepness_s", [H |-> a.Hm0, T |-> a.Tmm10])
            IN Mk(i, "roughness", <<C(q[1], q[2], With(With(a, [Dn50 |-> d]), bb)), st,
                                    C(q[1], "calculate_influence_friction_gamma_f", [Dn50 |-> d, Hm0 |-> a.Hm0, smm10 |-> RF(2, 1)]),
                                    C(q[1], "calculate_influence_berm_gamma_b", [Hm0 |-> a.Hm0, smm10 |-> RF(2, 1), Ac |-> a.Ac, B_berm |-> bb.B_berm, BL |-> ToR(a.Ac - bb.db)]),
                                    C(q[1], q[2], With(With(a, [gamma_f |-> RF(3, 1)]), bb)), C(q[1], q[2], With(With(a, [gamma_f |-> RF(3, 1), Dn50 |-> ToR(d * 2)]), bb)),
                                    C(q[1], q[2], With(a, [Dn50 |-> d, gamma_b |-> RF(4, 1)] @@ bb))>>,
                  <<near("roughness", 5, 1), near("roughness given", 6, 5), near("berm factor", 7, 1)>>)
       [] k = 12 ->                    \* not a number means not given
            LET q == sq(FNaN)
                a == A0(q)
                ps == SeqOf({p \in DOMAIN DefOf[q[1]][q[2]] : Same(DefOf[q[1]][q[2]][p], "NaN") /\ p \notin DOMAIN a})
            IN IF ps = <<>> THEN None(i) ELSE LET p == Pick(s, i, "nanp", ps) IN Mk(i, "nan", <<C(q[1], q[2], a), C(q[1], q[2], a @@ (p :> NaN))>>, <<RSame("not a number", 2, 1)>>)
       [] k = 13 ->                    \* damage classes and spellings
            LET q == Pick(s, i, "hu", SelectSeq(Wth({"damage_percentage", "rock_type"}), LAMBDA q : TRUE))
                a == A0(q) @@ [rock_type |-> "rough"]
                t == Pick(s, i, "sp", <<"rough", "smooth">>)
                u == Pick(s, i, "sp2", IF t = "rough" THEN <<"Rough", "ROUGH", " rough", "rough ">> ELSE <<"Smooth", "SMOOTH", " smooth", "smooth ">>)
            IN Mk(i, "spelling", <<C(q[1], q[2], With(a, [rock_type |-> t])), C(q[1], q[2], With(a, [rock_type |-> u])), C(q[1], q[2], With(a, [rock_type |-> "round"]))>>, <<near("rock type", 2, 1), RErr("rock type", 3)>>)
       [] OTHER ->                     \* none of the forms
            LET q == sq(FNaN)
                a == A0(q)
                G1 == <<{"beta", "gamma_beta"}, {"cot_alpha", "cot_alpha_down", "cot_alpha_up"}, {"cot_alpha", "cot_alpha_down"}, {"cot_alpha", "cot_alpha_up"}, {"Dn50", "M50"}, {"Dn50_core", "M50_core"}, {"Hm0", "Hs"},
                        {"gamma_f", "Dn50"}, {"gamma_v"}, {"Hm0_swell"}, {"m"}, {"rho_core"}>>
                gs == SelectSeq(G1, LAMBDA S : S \cap (DOMAIN a) # {} /\ Call(q[1], q[2], Without(a, S)).e = "ValueError")
            IN IF gs = <<>> THEN None(i)
               ELSE LET S == Pick(s, i, "grp", gs) IN Mk(i, "none given", <<Cty(q[1], q[2], Without(a, S), s, i)>>, <<RErr("none given", 1)>>)

-----------------------------------------------------------------------------
(* C18: bounds, neutral conditions and the wave angle of influence factors *)
Bnd(n, i, lo, hi) == <<ROrd(n \o " at least", K(lo), T(i, 1), "1e-12", "1e-12"), ROrd(n \o " at most", T(i, 1), K(hi), "1e-12", "1e-12")>>
Is1(n, i, x) == REq(n, T(i, 1), K(x), "1e-12", "1e-12")
GbFuns == <<<<"ov_taw2002", GbH, "lim">>, <<"ru_taw2002", GbH, "lim">>, <<"ov_eurotop2018", GbH, "lim">>, <<"ru_eurotop2018", GbH, "lim">>,
            <<"ov_vangent2021_caisson", GbH, "cos">>, <<"ov_vangent2025", GbH, "cos">>, <<"fw_vangentvanderwerf2019", GbH, "cos">>, <<"ov_deridder2026", "calculate_gamma_beta", "cos">>>>
\* functions with a wave angle, except those that give the angle back or only check it
FAngle == SelectSeq(Calc, LAMBDA q : ~IsCheck(q[2]) /\ q[2] \notin {"check_calculate_gamma_beta", "check_impulsive_breaking", GbH, "calculate_gamma_beta"} /\ ~Search(q[1], q[2])
                                     /\ (HasP(q, {"beta"}) \/ HasP(q, {"theta"})))
LimMods == {"ov_taw2002", "ru_taw2002", "ov_eurotop2018", "ru_eurotop2018", "ov_eurotop2007"}
Kts == <<<<"tr_dangremond1996", "calculate_wave_transmission_Kt_permeable", "0.075", "0.8">>, <<"tr_dangremond1996", "calculate_wave_transmission_Kt_impermeable", "0.075", "0.8">>,
         <<"tr_briganti2003", "calculate_wave_transmission_Kt", "0.05", "0.93">>, <<"tr_goda1967_caisson", "calculate_wave_transmission_Kt", 0, 1>>, <<"tr_vangent2023", "calculate_wave_transmission_Kt", "-0.07", 1>>>>
CorF == "calculate_correctionfactor_unit_mass_M_by_"
XbFacs == <<<<"ca_xbloc", CorF \o "cotalpha_seabed", [cot_alpha |-> ToR(40)]>>, <<"ca_xblocplus", CorF \o "cotalpha_seabed", [cot_alpha |-> ToR(40)]>>,
            <<"ca_xbloc", CorF \o "percslope_seabed", [perc_slope |-> ToR(1)]>>, <<"ca_xblocplus", CorF \o "percslope_seabed", [perc_slope |-> ToR(1)]>>,
            <<"ca_xbloc", CorF \o "relative_freeboard", [rel_freeboard |-> ToR(2)]>>, <<"ca_xblocplus", CorF \o "relative_freeboard", [rel_freeboard |-> ToR(2)]>>,
            <<"ca_xbloc", "switch_correctionfactor_unit_mass_M_by_core_permeability", [low_core_permeability |-> FALSE, core_impermeable |-> FALSE]>>,
            <<"ca_xblocplus", "switch_correctionfactor_unit_mass_M_by_core_permeability", [low_core_permeability |-> FALSE, core_impermeable |-> FALSE]>>,
            <<"ca_xbloc", CorF \o "rel_depth", [rel_depth |-> ToR(2)]>>,
            <<"ca_xbloc", "switch_correction_factor_unit_mass_M_near_design_event_frequency", [design_event_occurs_frequently |-> FALSE]>>>>
N18 == 20
Case18(s, i) ==
  LET k == I!%(i, N18)
      A0(q) == ArgsOf(q[1], q[2], SceneOf(q[1], s, i))
      P(p, q) == Norm(p, Value(q[1], q[2], p, SceneOf(q[1], s, i)))
      b0 == ToR(Pick(s, i, "b18", <<Lin(U(s, i, "bt"), 0, 90), Lin(U(s, i, "bt"), 0, 180), Lin(U(s, i, "bt"), 70, 100), Lin(U(s, i, "bt"), "0.001", 5), 45, 80, 90>>))
      up == ToR(Pick(s, i, "up18", <<"1e-9", "0.01", 1, 5, 10, 40, 99>>))
      near(n, x, y) == RNear(n, x, y, "1e-9")
      le(n, x, y) == ROrd(n, T(x, 1), T(y, 1), "1e-12", "1e-12")
  IN CASE k \in {0, 1, 2} ->           \* the factor for oblique waves
            LET e == At(GbFuns, i, N18)
                m == e[1]
                z0 == [p \in {p \in DOMAIN A0(<<e[1], e[2]>>) : p \notin {"beta", "theta", "c_beta", "gamma_p"}} |-> A0(<<e[1], e[2]>>)[p]]
                c21 == Vg21C([short_crested_waves |-> Prob(s, i, "sc", "0.5"), crossing_seas |-> FALSE, parapet |-> Prob(s, i, "pp", "0.5") /\ Prob(s, i, "sc", "0.5"), c |-> ToR(IF Prob(s, i, "c1", "0.5") THEN 1 ELSE "1.3")])
                z == IF m = "ov_vangent2021_caisson" THEN [c_beta |-> ToR(c21[3]), gamma_p |-> ToR(c21[4])] ELSE z0
                p == IF m = "ov_deridder2026" THEN "theta" ELSE "beta"
                f(b) == C(m, e[2], z @@ (p :> ToR(b)))
                lim == IF e[3] = "cos" THEN ToR(90) ELSE IF Has(z, "max_angle") THEN z.max_angle ELSE ToR(80)
                bb == IF e[3] = "cos" THEN ToR(Min2(b0, 90)) ELSE b0
            IN Mk(i, "oblique", <<Styled(f(bb), ""), f(-bb), f(0), f(lim), f(lim + up), f(-(lim + up)), f(bb / 2)>>,
                  <<near("sign of the angle", 2, 1), Is1("normal incidence", 3, 1), le("limit", 4, 1), ROrd("at most one", T(1, 1), K(1), "1e-12", "1e-12"), ROrd("not negative", K(0), T(1, 1), "1e-12", "1e-12"),
                    le("more oblique", 1, 7)>>
                  \o (IF e[3] = "lim" THEN <<near("beyond the limit", 5, 4), near("beyond the limit", 6, 4)>> ELSE <<near("sign of the angle", 6, 5)>>))
       [] k \in {3, 4, 5, 6} ->        \* the angle in every calculation
            LET q == At(FAngle, i, N18)
                m == q[1]
                p == IF HasP(q, {"theta"}) THEN "theta" ELSE "beta"
                a == Without(A0(q), {p, "gamma_beta", "return_dict"}) @@ (IF m = "ov_vangent2025" THEN [gamma_v |-> P("gamma_v", q)] ELSE <<>>)
                f(b) == C(m, q[2], a @@ (p :> ToR(b)))
                ng == HasP(q, {"gamma_beta"}) /\ p = "beta" /\ m # "fw_vangentvanderwerf2019"
                g1 == C(m, q[2], a @@ [gamma_beta |-> ToR(1)])
                bb == IF m \in LimMods THEN b0 ELSE ToR(Min2(b0, 89))
            IN Mk(i, "angle", <<f(bb), f(-bb), f(0), f(80), f(80 + up), f(-(80 + up))>> \o (IF ng THEN <<g1>> ELSE <<>>),
                  <<near("sign of the angle", 2, 1)>> \o (IF m \in LimMods THEN <<near("beyond the limit", 5, 4), near("beyond the limit", 6, 4)>> ELSE <<>>)
                  \o (IF ng THEN <<near("normal incidence", 3, 7)>> ELSE <<>>))
       [] k \in {7, 8} ->              \* berm
            LET m == "ru_taw2002"
                f == "calculate_influence_berm_gamma_b"
                a == A0(<<m, f>>)
                B == ToR(Abs(a.B_berm))
                L == ToR(Max2(a.L_berm, B * "1.01"))
                g(b, d) == C(m, f, [Hm0 |-> a.Hm0, z2p |-> a.z2p, L_berm |-> L, B_berm |-> ToR(b), db |-> ToR(d)])
                e == 1 + up / 10
                h == Pick(s, i, "it", <<"ru_taw2002", "ru_eurotop2018">>)
                w == Without(A0(<<h, "iteration_procedure_gamma_b">>), {"B_berm", "L_berm"})
                it(b) == C(h, "iteration_procedure_gamma_b", w @@ [B_berm |-> ToR(b), L_berm |-> L])
            IN Mk(i, "berm", <<g(B, a.db), g(0, a.db), g(B, 2 * a.Hm0 * e), g(B, -(a.z2p * e)), g(B, 0), g(B * "0.7", a.db), it(B), it(0)>>,
                  Bnd("berm", 1, "0.6", 1) \o Bnd("berm", 5, "0.6", 1) \o Bnd("berm", 7, "0.6", 1)
                  \o <<Is1("no berm", 2, 1), Is1("berm too low", 3, 1), Is1("berm too high", 4, 1), Is1("no berm", 8, 1), le("berm at still water", 5, 1), le("wider berm", 1, 6)>>)
       [] k \in {9, 10} ->             \* roughness
            LET m == "ru_taw2002"
                f == "calculate_adjusted_influence_roughness_gamma_f"
                a == A0(<<m, f>>)
                g(gf, gb, ksi) == C(m, f, [gamma_f |-> ToR(gf), gamma_b |-> ToR(gb), ksi_mm10 |-> ToR(ksi)])
                gb == ToR(Lin(U(s, i, "gb18"), "0.6", 1))
                x  == ToR(Pick(s, i, "x18", <<LogU(U(s, i, "x18"), "0.3", 14), Lin(U(s, i, "x18"), "1.7", "3.2"), Lin(U(s, i, "x18"), "8", 12)>>))
            IN Mk(i, "roughness", <<g(a.gamma_f, gb, x), g(a.gamma_f, gb, 10), g(a.gamma_f, gb, 10 * (1 + up)), g(1, gb, x), g(a.gamma_f, gb, ToR(("1.8" / gb) * Lin(U(s, i, "y18"), "0.2", "0.9999999"))), g(a.gamma_f, gb, x * (1 + up))>>,
                  Bnd("roughness", 1, a.gamma_f, 1)
                  \o <<Is1("long waves", 2, 1), Is1("long waves", 3, 1), Is1("smooth slope", 4, 1), Is1("short waves", 5, a.gamma_f), le("longer waves", 1, 6)>>)
       [] k = 11 ->                    \* crest wall
            LET f == "calculate_influence_crest_wall_gamma_v"
                g(x) == C("ov_taw2002", f, [alpha_wall_deg |-> ToR(x)])
                x == ToR(Lin(U(s, i, "wall"), 0, 90))
                y == ToR(Lin(U(s, i, "wall2"), 0, 90))
                a == A0(<<"ov_vangent2025", f>>)
                Rc == ToR(Max2(a.Rc, a.Ac))
                v(r, c) == C("ov_vangent2025", f, With(a, [Rc |-> ToR(r), Ac |-> ToR(c)]))
            IN IF ~(Rc > 0) THEN None(i)
               ELSE Mk(i, "wall", <<g(x), g(0), g(45), g(90), g(Max2(x, y)), v(Rc, a.Ac), v(Rc, Rc)>>,
                       Bnd("crest wall", 1, "0.648", 1) \o <<Is1("no wall", 2, 1), Is1("no wall", 3, 1), Is1("vertical wall", 4, "0.648"), le("steeper wall", 5, 1),
                         ROrd("crest wall", K(1), T(6, 1), "1e-12", "1e-12"), Is1("no wall", 7, 1)>>)
       [] k = 12 ->                    \* stone size, berm and wind of van Gent (2025)
            LET m == "ov_vangent2025"
                fa == "calculate_influence_friction_gamma_f"
                a == A0(<<m, fa>>)
                Dn == ToR(Min2(a.Dn50, a.Hm0 * "0.95"))
                fr(x) == C(m, fa, [Dn50 |-> Dn, Hm0 |-> a.Hm0, smm10 |-> ToR(x)])
                sl == Lin(U(s, i, "sl"), "0.0005", "0.012")
                sh == Lin(U(s, i, "sh"), "0.012", "0.06")
                fb == "calculate_influence_berm_gamma_b"
                b == A0(<<m, fb>>)
                fw == "calculate_influence_wind_gamma_w"
                w == A0(<<m, fw>>)
                Rc == ToR(Max2(w.Rc, w.Ac))
                wind(r, c) == C(m, fw, With(w, [Rc |-> ToR(r), Ac |-> ToR(c)]))
            IN Mk(i, "factors 2025", <<fr(sl), fr(sh), fr("0.012"), C(m, fb, With(b, [B_berm |-> ToR(0)])), wind(Rc, w.Ac), wind(Rc, Rc)>>,
                  Bnd("roughness", 1, 0, 1) \o Bnd("roughness", 2, 0, 1)
                  \o <<Is1("no berm", 4, 1), le("long waves", 2, 1), REq("short waves", T(2, 1), T(3, 1), "1e-12", 0), ROrd("wind", K(1), T(5, 1), "1e-12", "1e-12"), Is1("no crest wall", 6, 1)>>)
       [] k = 13 ->                    \* forces on crest walls
            LET m == "fw_vangentvanderwerf2019"
                f == Pick(s, i, "ff", <<"calculate_influence_oblique_waves_force_gamma_F_beta", "calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta", "calculate_influence_oblique_waves_vertical_force_gamma_FV_beta">>)
                a == A0(<<m, f>>)
                z2p == ToR(a.Ac * Lin(U(s, i, "zz"), "1.05", 5))
                bb == ToR(Min2(b0, 90))
                g(b) == C(m, f, With(a, [z2p |-> z2p, beta |-> ToR(b)]))
            IN Mk(i, "force", <<g(bb), g(-bb), g(0), g(bb / 2)>>, <<near("sign of the angle", 2, 1), Is1("normal incidence", 3, 1), ROrd("at most one", T(1, 1), K(1), "1e-12", "1e-12"), le("more oblique", 1, 4)>>)
       [] k \in {14, 15} ->            \* transmission
            LET e == At(Kts, i, N18)
                q == <<e[1], e[2]>>
                a == A0(q)
                H == IF Has(a, "Hsi") THEN a.Hsi ELSE a.Hm0
                f(r) == C(e[1], e[2], With(a, [Rc |-> ToR(H * r)]))
                r == Lin(U(s, i, "rr"), "-3.5", "3.5")
            IN Mk(i, "transmission", <<C(e[1], e[2], a), f(r), f(-8), f(8)>>, Bnd("Kt", 1, e[3], e[4]) \o Bnd("Kt", 2, e[3], e[4]) \o <<le("highest", 1, 3), IF e[1] = "tr_goda1967_caisson" THEN Is1("high crest", 4, "0.03") ELSE le("lowest", 4, 1)>>)
       [] k = 16 ->                    \* correction factors of the unit size
            LET e == At(XbFacs, i, N18)
                q == <<e[1], e[2]>>
            IN Mk(i, "unit size", <<C(e[1], e[2], A0(q)), C(e[1], e[2], e[3])>>, Bnd("correction factor", 1, 1, 2) \o <<Is1("no correction", 2, 1)>>)
       [] k = 17 ->                    \* damage classes, permeability, duration
            LET m == "ra_hudson1959"
                f == "lookup_table_damage_factors"
                t == Pick(s, i, "rt", <<"rough", "smooth">>)
                d == Lin(U(s, i, "dd"), 0, 50)
                g(x) == C(m, f, [damage_percentage |-> ToR(x), rock_type |-> t])
                e == "ra_etemadshahidi2020"
                h == "calculate_permeability_coefficient_Cp"
                a == LET w == A0(<<e, h>>) IN With(w, [Dn50_core |-> ToR(Min2(w.Dn50_core, w.Dn50))])
            IN Mk(i, "damage class", <<g(d), g(Lin(U(s, i, "dd"), 0, 5)), g(Min2(d + up, 50)), C(e, h, a), C(e, h, With(a, [Dn50_core |-> ToR(0)]))>>,
                  Bnd("damage factor", 1, 1, "1.6") \o <<Is1("no damage", 2, 1), le("more damage", 1, 3)>> \o Bnd("permeability", 4, 1, "1.516") \o <<Is1("impermeable core", 5, 1)>>)
       [] k = 18 ->                    \* caisson
            LET q == <<"fc_goda1985", "calculate_pressures_and_forces">>
                a == Without(A0(q), {"return_dict"})
                f(b) == C(q[1], q[2], With(a, [beta |-> ToR(b)]))
                o(j, x, lo, hi) == <<ROrd("coefficient", K(lo), T(j, x), "1e-12", "1e-12"), ROrd("coefficient", T(j, x), K(hi), "1e-12", "1e-12")>>
                ge(n, x) == ROrd(n, T(1, x), T(3, x), "1e-12", "1e-12")
                bb == ToR(Min2(b0, 90))
            IN Mk(i, "caisson", <<f(bb), f(-bb), f(0), f(Lin(U(s, i, "b15"), -15, 15))>>,
                  <<near("sign of the angle", 2, 1), ge("FH", 1), ge("p1", 5), ge("pu", 10), ge("etastar", 12), near("up to 15 degrees", 4, 3)>> \o o(1, 14, "0.6", "1.1") \o o(1, 16, "-1e-9", 1))
       [] OTHER ->                     \* neutral factors in the calculations
            LET fs == SelectSeq(Calc, LAMBDA q : q[1] \in {"ov_taw2002", "ru_taw2002", "ov_eurotop2018", "ru_eurotop2018"} /\ HasP(q, {"gamma_b", "B_berm", "gamma_f"}))
                q == At(fs, i, N18)
                gb == Norm("gamma_beta", P("gamma_beta", q))
                a == Without(A0(q), {"gamma_b", "B_berm", "db", "beta", "gamma_beta", "gamma_v"}) @@ [gamma_beta |-> gb]
                ov == HasP(q, {"gamma_v"})
                f(r) == C(q[1], q[2], With(a, r))
                dd == P("db", q)
                bb == [B_berm |-> ToR(0), db |-> dd]
                \* on a composite slope the level of the transition matters
                sl == With(Without(a, {"cot_alpha_down", "cot_alpha_up"}), [cot_alpha |-> P("cot_alpha", q)])
            IN Mk(i, "neutral", <<C(q[1], q[2], With(sl, bb)), C(q[1], q[2], With(sl, [gamma_b |-> ToR(1)])), C(q[1], q[2], sl)>> \o (IF ov THEN <<C(q[1], q[2], sl @@ [gamma_v |-> ToR(1)])>> ELSE <<>>),
                  <<near("no berm", 1, 2), near("no berm", 3, 2)>> \o (IF ov THEN <<near("no wall", 4, 3)>> ELSE <<>>))

-----------------------------------------------------------------------------
CaseC(prop, s, i) ==
  CASE prop = "C15" -> Case15(s, i)
    [] prop = "C16" -> Case16(s, i)
    [] prop = "C17" -> Case17(s, i)
    [] prop = "C18" -> Case18(s, i)
=============================================================================
