-------------------------------- MODULE Sys ---------------------------------
(* The toolbox as one function: Call(m, f, a) is the result a call of function
   f in module m with the keyword arguments a has to give.                   *)
EXTENDS Overtopping, Transmission, Concrete, ToeRear, Forces, Sigs

Range(s) == {s[i] : i \in DOMAIN s}
SeqToFun(s) == [k \in {s[i][1] : i \in DOMAIN s} |-> (LET i == CHOOSE i \in DOMAIN s : s[i][1] = k IN s[i][2])]
FunsOf  == SeqToFun([i \in DOMAIN SigTable |-> <<SigTable[i][1], [j \in DOMAIN SigTable[i][2] |-> SigTable[i][2][j][1]]>>])
ParsOf  == SeqToFun([i \in DOMAIN SigTable |-> <<SigTable[i][1], SeqToFun(SigTable[i][2])>>])
DefOf   == [m \in DOMAIN ParsOf |-> [f \in DOMAIN ParsOf[m] |-> SeqToFun(ParsOf[m][f])]]

Given(a) == DOMAIN a
Missing(m, f, a) == {p \in DOMAIN DefOf[m][f] : Same(DefOf[m][f][p], "req") /\ p \notin DOMAIN a}
Complete(m, f, a) == a @@ DefOf[m][f]

Dispatch(m, f, z) ==
  CASE m = "core_physics" -> Eval_core_physics(f, z)
    [] m = "core_utility" -> Eval_core_utility(f, z)
    [] m = "ov_deridder2024" -> Eval_ov_deridder2024(f, z)
    [] m = "ov_deridder2026" -> Eval_ov_deridder2026(f, z)
    [] m = "ov_eurotop2007" -> Eval_ov_eurotop2007(f, z)
    [] m = "ov_eurotop2018" -> Eval_ov_eurotop2018(f, z)
    [] m = "ov_taw2002" -> Eval_ov_taw2002(f, z)
    [] m = "ov_vangent2002_velocity" -> Eval_ov_vangent2002_velocity(f, z)
    [] m = "ov_vangent2021_caisson" -> Eval_ov_vangent2021_caisson(f, z)
    [] m = "ov_vangent2025" -> Eval_ov_vangent2025(f, z)
    [] m = "ru_eurotop2018" -> Eval_ru_eurotop2018(f, z)
    [] m = "ru_taw2002" -> Eval_ru_taw2002(f, z)
    [] m = "ru_vangent2001" -> Eval_ru_vangent2001(f, z)
    [] m = "tr_briganti2003" -> Eval_tr_briganti2003(f, z)
    [] m = "tr_dangremond1996" -> Eval_tr_dangremond1996(f, z)
    [] m = "tr_goda1967_caisson" -> Eval_tr_goda1967_caisson(f, z)
    [] m = "tr_vangent2023" -> Eval_tr_vangent2023(f, z)
    [] m = "tr_vangent2024_setup" -> Eval_tr_vangent2024_setup(f, z)
    [] m = "fc_goda1985" -> Eval_fc_goda1985(f, z)
    [] m = "fw_vangentvanderwerf2019" -> Eval_fw_vangentvanderwerf2019(f, z)
    [] m = "ca_accropode2_hudson1959" -> Eval_ca_accropode2_hudson1959(f, z)
    [] m = "ca_accropode_hudson1959" -> Eval_ca_accropode_hudson1959(f, z)
    [] m = "ca_core_loc_hudson1959" -> Eval_ca_core_loc_hudson1959(f, z)
    [] m = "ca_cubes_double_layer_hudson1959" -> Eval_ca_cubes_double_layer_hudson1959(f, z)
    [] m = "ca_cubes_double_layer_vandermeer1988" -> Eval_ca_cubes_double_layer_vandermeer1988(f, z)
    [] m = "ca_cubes_single_layer_vangent2002" -> Eval_ca_cubes_single_layer_vangent2002(f, z)
    [] m = "ca_cubipod_hudson1959" -> Eval_ca_cubipod_hudson1959(f, z)
    [] m = "ca_tetrapod_hudson1959" -> Eval_ca_tetrapod_hudson1959(f, z)
    [] m = "ca_xbloc" -> Eval_ca_xbloc(f, z)
    [] m = "ca_xblocplus" -> Eval_ca_xblocplus(f, z)
    [] m = "ra_etemadshahidi2020" -> Eval_ra_etemadshahidi2020(f, z)
    [] m = "ra_hudson1959" -> Eval_ra_hudson1959(f, z)
    [] m = "ra_jumelet2024" -> Eval_ra_jumelet2024(f, z)
    [] m = "ra_kramerburcharth2004_lowcrested" -> Eval_ra_kramerburcharth2004_lowcrested(f, z)
    [] m = "ra_scaravaglione2025" -> Eval_ra_scaravaglione2025(f, z)
    [] m = "ra_vandermeer1988" -> Eval_ra_vandermeer1988(f, z)
    [] m = "ra_vandermeer1988_modified" -> Eval_ra_vandermeer1988_modified(f, z)
    [] m = "ra_vandermeer2021" -> Eval_ra_vandermeer2021(f, z)
    [] m = "rr_vangent2007" -> Eval_rr_vangent2007(f, z)
    [] m = "rr_vangentpozueta2004" -> Eval_rr_vangentpozueta2004(f, z)
    [] m = "tb_etemadshahidi2021" -> Eval_tb_etemadshahidi2021(f, z)
    [] m = "tb_gerding1993" -> Eval_tb_gerding1993(f, z)
    [] m = "tb_takahashi1990_caisson" -> Eval_tb_takahashi1990_caisson(f, z)
    [] m = "tb_vandermeer1998" -> Eval_tb_vandermeer1998(f, z)
    [] m = "tb_vangentvanderwerf2014" -> Eval_tb_vangentvanderwerf2014(f, z)

\* the tables of unit properties are read like functions
Tabulated(m, p) == LET J == {j \in DOMAIN UnitProps : UnitProps[j][1] = m /\ UnitProps[j][2] = p}
                   IN Ok(<<UnitProps[CHOOSE j \in J : TRUE][3]>>)
\* an obligatory argument was not given
TypeErr == [Ok(<<>>) EXCEPT !.e = "TypeError"]
Call(m, f, a) == IF f = "unit_properties" THEN Tabulated(m, a.path) ELSE IF Missing(m, f, a) # {} THEN TypeErr ELSE Dispatch(m, f, Complete(m, f, a))
=============================================================================
