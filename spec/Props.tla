------------------------------- MODULE Props --------------------------------
(* The properties, as relations between the outcomes of the calls of one
   session.  Judge(rel, o, k) is the set of relations of the list rel that the
   outcomes o violate; it is used twice: on the outcomes the specification
   predicts (a session must satisfy its relations there, with 1/k of the
   tolerance, to be a test at all) and on the outcomes recorded from the code. *)
EXTENDS Session

-----------------------------------------------------------------------------
(* terms: an output, an argument or a constant, times mul plus add *)
T(i, o)       == [i |-> i, o |-> o, p |-> "", mul |-> ToR(1), add |-> ToR(0)]
TM(i, o, m)   == [i |-> i, o |-> o, p |-> "", mul |-> ToR(m), add |-> ToR(0)]
TMA(i, o, m, b) == [i |-> i, o |-> o, p |-> "", mul |-> ToR(m), add |-> ToR(b)]
TA(i, p)      == [i |-> i, o |-> 0, p |-> p, mul |-> ToR(1), add |-> ToR(0)]
TAM(i, p, m)  == [i |-> i, o |-> 0, p |-> p, mul |-> ToR(m), add |-> ToR(0)]
K(x)          == [i |-> 0, o |-> 0, p |-> "", mul |-> ToR(x), add |-> ToR(0)]

(* relations.  n: name of the clause *)
REval(i)               == [t |-> "eval", n |-> "value", i |-> i]
REvalT(i, tol)         == [t |-> "eval", n |-> "value", i |-> i, tol |-> ToR(tol)]
REq(n, l, r, tol, ab)  == [t |-> "eq", n |-> n, i |-> IF l.i = 0 THEN r.i ELSE l.i, l |-> l, r |-> r, tol |-> ToR(tol), ab |-> ToR(ab)]
ROrd(n, l, r, tol, ab)  == [t |-> "le", n |-> n, i |-> IF l.i = 0 THEN r.i ELSE l.i, l |-> l, r |-> r, tol |-> ToR(tol), ab |-> ToR(ab)]
RFlag(n, i, o, j, q)   == [t |-> "flag", n |-> n, i |-> i, o |-> o, j |-> j, q |-> q]
RIs(n, i, o, b)        == [t |-> "is", n |-> n, i |-> i, o |-> o, b |-> b]
RSame(n, i, j)         == [t |-> "same", n |-> n, i |-> i, j |-> j]
RNear(n, i, j, tol)    == [t |-> "near", n |-> n, i |-> i, j |-> j, tol |-> ToR(tol)]
RWNames(n, i, j)       == [t |-> "wnames", n |-> n, i |-> i, j |-> j]
REffect(n, i, j, tol)  == [t |-> "effect", n |-> n, i |-> i, j |-> j, tol |-> ToR(tol)]
RFile(i, may)          == [t |-> "file", n |-> "file", i |-> i, may |-> may]
RNote(n, i)            == [t |-> "note", n |-> n, i |-> i]
RErr(n, i)             == [t |-> "err", n |-> n, i |-> i]
RPure(i)               == [t |-> "pure", n |-> "inputs", i |-> i]
RWarn(i)               == [t |-> "warn", n |-> "missing", i |-> i]
RTrue(i)               == [t |-> "true", n |-> "spurious", i |-> i]
RArr(i, js, must, tol) == [t |-> "arr", n |-> "elements", i |-> i, js |-> js, must |-> must, tol |-> ToR(tol)]
RFresh(i)              == [t |-> "fresh", n |-> "history", i |-> i]
RRes(n, i)             == [t |-> "res", n |-> n, i |-> i]
\* a condition on the session, not on the code: the value is strictly between lo and hi
RAdm(l, lo, hi)        == [t |-> "adm", n |-> "domain", i |-> l.i, l |-> l, lo |-> ToR(lo), hi |-> ToR(hi)]

-----------------------------------------------------------------------------
Usable(o, t) ==
  \/ t.i = 0
  \/ /\ ~o[t.i].skip /\ o[t.i].e = ""
     /\ IF t.p # "" THEN Has(o[t.i].a, t.p) ELSE t.o \in DOMAIN o[t.i].v /\ IsReal(o[t.i].v[t.o])
Get(o, t) == IF t.i = 0 THEN t.mul ELSE ToR((IF t.p # "" THEN o[t.i].a[t.p] ELSE o[t.i].v[t.o]) * t.mul + t.add)

\* two outputs agree
VNear(x, y, tol, ab) ==
  IF IsReal(x) THEN IsReal(y) /\ (Close(x, y, tol) \/ CloseAbs(x, y, ab))
  ELSE IF IsArr(x) THEN IsArr(y) /\ Len(x.arr) = Len(y.arr) /\ \A j \in DOMAIN x.arr :
         (IF IsReal(x.arr[j]) THEN IsReal(y.arr[j]) /\ (Close(x.arr[j], y.arr[j], tol) \/ CloseAbs(x.arr[j], y.arr[j], ab)) ELSE Same(x.arr[j], y.arr[j]))
  ELSE Same(x, y)
VsNear(v, u, tol, ab) == Len(v) = Len(u) /\ \A j \in DOMAIN v : VNear(v[j], u[j], tol, ab)
FinV(x) == IsReal(x) => IsFin(x)
FinVs(v) == \A j \in DOMAIN v : FinV(v[j])
WarnMatch(w, u) == w.x = u.x /\ w.f = u.f /\ Close(w.lo, u.lo, "1e-9") /\ Close(w.hi, u.hi, "1e-9")
ValMatch(w, u)  == Close(w.v, u.v, "1e-7") \/ CloseAbs(w.v, u.v, "1e-12")

-----------------------------------------------------------------------------
(* value relation *)
Spec(o)   == Call(o.m, o.f, o.a)
SpecV(o, r) == [j \in DOMAIN r.v |-> IF ListResult(o) THEN [arr |-> <<r.v[j]>>] ELSE AsOut(r.v[j])]
\* inputs whose value is compared with a limit as it is given
RawPar == {"damage_percentage", "seabed_slope_perc", "N_waves", "cot_alpha", "beta", "theta", "rel_freeboard", "rel_depth", "perc_slope",
           "alpha_wall_deg", "gamma_f", "values", "min_value", "max_value", "c", "db", "B_berm", "smm10", "max_angle", "cot_alpha_armour_slope"}
\* rounding may put a computed quantity on the other side of a limit: the
\* outcome of an input changed by a relative 1e-12 is as good
Nudged(o) ==
  LET ps == {p \in DOMAIN o.a : p \notin RawPar /\ IsReal(o.a[p]) /\ IsFin(o.a[p])}
      \* steps of 0.1 of a value read from a graph
      qs == IF o.f = "calculate_KD_breaking_trunk_from_seabed_slope" THEN {p \in {"seabed_slope_perc"} : ~Eq(o.a[p], Rint(o.a[p]))} ELSE {}
  IN {[o.a EXCEPT ![p] = ToR(@ * k)] : p \in ps, k \in {R("0.999999999999"), R("1.000000000001")}}
     \cup {[o.a EXCEPT ![p] = ToR(@ * k)] : p \in qs, k \in {R("0.9999999"), R("1.0000001")}}
\* Takahashi's searches: any answer within the search step will do
TkHacc(o) == o.m = "tb_takahashi1990_caisson" /\ o.f = "calculate_significant_depth_above_toe_hacc"
TkHsF(o)  == o.m = "tb_takahashi1990_caisson" /\ o.f = "calculate_significant_wave_height_Hs"
TkHaccRel(o) ==
  LET z == Complete(o.m, o.f, o.a) IN
  IF o.e = "" THEN IsReal(o.v[1]) /\ TkHaccOk(z, o.v[1]) ELSE o.e = "ValueError" /\ TkNone(z, ToR(z.Hs / 20), TkLess(z, ToR(z.Hs / 20)))
\* cancellation: output j of the equation amplifies rounding; what it may lose is
\* measured by the equation itself, with every input changed by a relative 1e-12
\* and 1e-11 (a jump does not grow with the change, so that it does not count)
CondPars(o) == {p \in DOMAIN o.a : IsReal(o.a[p]) /\ IsFin(o.a[p])}
Cond1(o, p, j, x) ==
  LET v(k) == LET r == Call(o.m, o.f, [o.a EXCEPT ![p] = ToR(@ * k)]) IN IF r.e = "" /\ j \in DOMAIN r.v THEN AsOut(r.v[j]) ELSE x
      d(k) == IF IsReal(v(k)) THEN Abs(v(k) - x) ELSE ToR(0)
      way(k1, k2) == IF d(k2) >= 5 * d(k1) THEN d(k1) ELSE ToR(0)
  IN Max2(way("0.999999999999", "0.99999999999"), way("1.000000000001", "1.00000000001"))
WithinCond(o, rv, tol) ==
  /\ Len(rv) = Len(o.v)
  /\ \A j \in DOMAIN rv :
       \/ VNear(rv[j], o.v[j], tol, "1e-15")
       \/ /\ IsReal(rv[j]) /\ IsReal(o.v[j])
          /\ \E p \in CondPars(o) : Abs(rv[j] - o.v[j]) <= 10 * Cond1(o, p, j, rv[j])
\* outputs: "" fine, else what is wrong
EvalBad(o, tol) ==
  LET r == Spec(o)
      rv == SpecV(o, r)
      same(s) == s.e = "" /\ VsNear(SpecV(o, s), o.v, tol, "1e-15")
  IN IF o.skip THEN "not called"
     ELSE IF TkHacc(o) THEN (IF TkHaccRel(o) THEN "" ELSE "search result")
     ELSE IF r.e # "" THEN (IF o.e = r.e THEN "" ELSE "should raise")
     ELSE IF ~FinVs(rv) THEN "nonfinite"
     ELSE IF o.e # "" THEN "raised " \o o.e
     ELSE IF TkHsF(o) THEN (IF IsReal(o.v[1]) /\ TkHsOk(Complete(o.m, o.f, o.a), o.v[1]) THEN "" ELSE "search result")
     ELSE IF VsNear(rv, o.v, tol, "1e-15") THEN ""
     ELSE IF \E b \in Nudged(o) : same(Call(o.m, o.f, b)) THEN ""
     ELSE IF WithinCond(o, rv, tol) THEN ""
     ELSE "value"

-----------------------------------------------------------------------------
(* warnings *)
WarnBad(o) ==
  LET r == Spec(o) IN
  IF o.skip THEN {"not called"}
  ELSE IF r.e # "" THEN {}
  ELSE IF ~FinVs(SpecV(o, r)) THEN {"nonfinite"}
  ELSE IF TkHacc(o) /\ TkHaccRel(o) /\ o.e # "" THEN {}
  ELSE IF o.e # "" THEN {"raised " \o o.e}
  ELSE {c.x : c \in {c \in r.c : MustWarn(c) /\ ~\E j \in DOMAIN o.w : WarnMatch(o.w[j], c) /\ ValMatch(o.w[j], c)}}
TrueBad(o) ==
  LET r == Spec(o)
      fits(w) == \/ \E c \in r.c : MayWarn(c) /\ WarnMatch(w, c) /\ ValMatch(w, c)
                 \/ (w.v < w.lo \/ w.v > w.hi) /\ \E u \in r.m : WarnMatch(w, u)
  IN IF o.skip THEN {"not called"}
     ELSE IF r.e # "" \/ o.e # "" THEN {}
     ELSE IF ~FinVs(SpecV(o, r)) THEN {"nonfinite"}
     ELSE {o.w[j].x : j \in {j \in DOMAIN o.w : ~fits(o.w[j])}}

-----------------------------------------------------------------------------
(* arrays: call i with arrays against the scalar calls js *)
ArrBad(o, rel, tol) ==
  LET x  == o[rel.i]
      n  == Len(rel.js)
      sc == [j \in Range1(n) |-> o[rel.js[j]]]
      may == UNION {Spec(sc[j]).m : j \in Range1(n)}
      isMay(w) == \E u \in may : WarnMatch(w, u)
      elem(k, j) == IF IsArr(x.v[k]) THEN x.v[k].arr[j] ELSE x.v[k]
      sval(k, j) == IF IsArr(sc[j].v[k]) THEN sc[j].v[k].arr[1] ELSE sc[j].v[k]
      WVal(w, u) == ValMatch(w, u) \/ (tol > "1e-6" /\ Close(w.v, u.v, 5 * tol))     \* searches
      known(w) == isMay(w) \/ \E j \in Range1(n) : \E q \in DOMAIN sc[j].w : WarnMatch(w, sc[j].w[q]) /\ WVal(w, sc[j].w[q])
      seen(w)  == isMay(w) \/ \E q \in DOMAIN x.w : WarnMatch(w, x.w[q]) /\ WVal(w, x.w[q])
  IN IF \E j \in Range1(n) : sc[j].e = "ZeroDivisionError" THEN {}          \* a scalar is outside the domain of the equation
     ELSE IF x.skip \/ \E j \in Range1(n) : sc[j].skip \/ sc[j].e # "" \/ ~FinVs(sc[j].v) THEN {"scalar call failed"}
     ELSE IF x.e # "" THEN (IF rel.must THEN {"arrays rejected: " \o x.e} ELSE {})
     ELSE IF Len(x.v) # Len(sc[1].v) THEN {"number of outputs"}
     ELSE IF \E k \in DOMAIN x.v : IsArr(x.v[k]) /\ Len(x.v[k].arr) # n THEN {"number of elements"}
     ELSE IF \E k \in DOMAIN x.v : \E j \in Range1(n) : ~VNear(sval(k, j), elem(k, j), tol, "1e-15") THEN {"element"}
     ELSE IF tol > "1e-3" THEN {}
     ELSE IF (\E q \in DOMAIN x.w : ~known(x.w[q])) \/ (\E j \in Range1(n) : \E q \in DOMAIN sc[j].w : ~seen(sc[j].w[q])) THEN {"warnings"}
     ELSE {}

-----------------------------------------------------------------------------
(* notices: those due are given, and no others *)
NoteBad(o) ==
  LET must == Told(o.m, o.f, o.a)
      may == Tells(o.m, o.f, o.a)
      got == {o.nt[j] : j \in DOMAIN o.nt}
      r == Call(o.m, o.f, o.a)
  IN IF o.skip \/ r.e # "" THEN "no value"
     ELSE IF o.e # "" THEN (IF FinVs(SpecV(o, r)) THEN "raised " \o o.e ELSE "")      \* without a value, it may be refused
     ELSE IF ~(must \subseteq got) THEN "no notice"
     ELSE IF ~(got \subseteq (must \cup may)) THEN "false notice"
     ELSE ""

-----------------------------------------------------------------------------
(* files: call i changes the directory as the specification says, starting
   from the directory observed before; may: it may as well refuse the request *)
SameRows(x, y) == Len(x) = Len(y) /\ \A j \in DOMAIN x : Len(x[j]) = Len(y[j]) /\ \A k \in DOMAIN x[j] : Same(x[j][k], y[j][k])
SameAt(g, h, n) == (n \in DOMAIN g) = (n \in DOMAIN h) /\ (n \in DOMAIN g => SameRows(g[n], h[n]))
FileBad(o, i, may) ==
  LET x  == o[i]
      h  == [j \in Range1(I!-(i, 1)) |-> o[j]]
      s  == WriterOutcome(x, x.a, h)
      b  == FilesBefore(h)
      nm == FileOf(x.m, x.f, x.a)
      \* refused: nothing is there that could be taken for the answer to this request
      left == \/ SameAt(x.fs, b, nm) \/ nm \notin DOMAIN x.fs \/ Len(x.fs[nm]) = 0
      rest == \A n \in (DOMAIN x.fs) \cup (DOMAIN b) : n = nm \/ SameAt(x.fs, b, n)
  IN IF x.skip \/ ~Has(x, "fs") THEN "not called"
     ELSE IF ~rest THEN "another file changed"
     ELSE IF s.e # "" \/ (may /\ x.e = "ValueError") THEN (IF x.e # "ValueError" /\ x.e # s.e THEN "not refused" ELSE IF left THEN "" ELSE "refused but written")
     ELSE IF x.e # "" THEN "raised " \o x.e
     ELSE IF SameAt(s.fs, x.fs, nm) THEN "" ELSE "contents"

-----------------------------------------------------------------------------
(* options: from call x to call y the results change as the equations say *)
EffectBad(x, y, tol) ==
  LET rx == Spec(x)
      ry == Spec(y)
      \* the outputs of y are to those of x as sy to sx
      as(sx, sy) == \A j \in DOMAIN sx :
          LET a == sx[j]
              b == sy[j]
              u == x.v[j]
              v == y.v[j]
          IN (IsReal(a) /\ IsReal(b)) => /\ IsReal(u) /\ IsReal(v)
                                        /\ Abs(v * a - u * b) <= tol * Max2(Abs(v * a), Abs(u * b)) + "1e-13"
      alt(o, r) == {SpecV(o, r)} \cup {SpecV(o, t) : t \in {t \in {Call(o.m, o.f, b) : b \in Nudged(o)} : t.e = "" /\ Len(t.v) = Len(r.v)}}
  IN IF x.skip \/ y.skip THEN "not called"
     ELSE IF rx.e # "" \/ ry.e # "" THEN "no value"
     ELSE IF ~FinVs(SpecV(x, rx)) \/ ~FinVs(SpecV(y, ry)) THEN "nonfinite"
     ELSE IF x.e # "" \/ y.e # "" THEN "raised " \o x.e \o y.e
     ELSE IF Len(x.v) # Len(rx.v) \/ Len(y.v) # Len(ry.v) \/ Len(x.v) # Len(y.v) THEN "number of outputs"
     ELSE IF as(SpecV(x, rx), SpecV(y, ry)) THEN ""
     ELSE IF \E a \in alt(x, rx), b \in alt(y, ry) : as(a, b) THEN ""
     ELSE "wrong effect"

-----------------------------------------------------------------------------
(* governing equations of the iterative methods: does output v of the call
   satisfy the equation of its method, to what the method promises? *)
ResidBad(o, name, k) ==
  LET z == Complete(o.m, o.f, o.a)
      x == IF o.skip \/ Len(o.v) = 0 THEN NaN ELSE o.v[1]
      tol == IF Has(z, "tolerance") THEN ToR(z.tolerance / k) ELSE ToR(0)
  IN IF o.skip THEN "not called"
     ELSE IF TkHacc(o) THEN (IF TkHaccRel(o) THEN "" ELSE "search result")
     ELSE IF o.e # "" THEN "raised " \o o.e
     ELSE IF ~IsReal(x) \/ ~IsFin(x) THEN "no solution"
     ELSE CASE name = "z2p" ->        \* run-up on a composite slope
              LET L  == BermLen(z.Hm0, z.B_berm, NaN, z.cot_alpha_down, z.cot_alpha_up)
                  kc == KOf(z, KBestFit)
                  zn == z.Hm0 * ZDiml(kc, GammaBerm(z.Hm0, x, z.db, z.B_berm, L), z.gamma_f, z.gamma_beta,
                                      Ksi(z.Hm0, z.Tmm10, AvgSlope(z.Hm0, x, z.cot_alpha_down, z.cot_alpha_up, z.B_berm, z.db)))
              IN IF CloseAbs(zn, x, 4 * tol + "1e-12") THEN "" ELSE "residual"
       [] name = "dispersion" ->
              LET kk == (2 * Pi) / x
                  w == (2 * Pi) / z.T
              IN IF x > 0 /\ Close(w ^ 2, z.g * kk * Tanh(kk * z.h), "1e-9") THEN "" ELSE "residual"
       [] name = "kramerD" ->
              IF x > 0 /\ Close(Ns(z.Hs, x, z.rho_armour, 1025), KbNs(z.Rc / x), Max2("1e-9", (20 * tol) / x)) THEN "" ELSE "residual"
       [] name = "kramerR" ->
              LET D == DnUse(z.Dn50, z.M50, z.rho_armour)
              IN IF CloseAbs(Ns(z.Hs, D, z.rho_armour, 1025), KbNs(x / D), Max2("1e-9", (20 * tol) / D)) THEN "" ELSE "residual"
       [] name = "etemad2020" ->
              LET ksi == Ksi(z.Hs, z.Tmm10, z.cot_alpha)
                  Dc  == DnUse(z.Dn50_core, z.M50_core, z.rho_core)
              IN IF x > 0 /\ CloseAbs(x, EsDnOf(z, ksi, EsC(ksi), EsCp(x, Dc)), 4 * tol + "1e-12") THEN "" ELSE "residual"
       [] name = "jumelet" ->
              IF x > 0 /\ CloseAbs(x, JuHof(z, Ksi(x, z.Tmm10, z.cot_alpha)), 4 * tol + "1e-12") THEN "" ELSE "residual"
       [] name = "etemad2021" ->
              IF x > 0 /\ CloseAbs(x, Delta(z.rho_rock, z.rho_water) * z.Dn50 * TeX(z, Steep(x, z.Tmm10, z.g), x, z.Nod), R("0.004") / k) THEN "" ELSE "residual"
       [] name = "rear2007" ->
              LET Dn == DnUse(z.Dn50, z.M50, z.rho_rock)
              IN IF x > 0 /\ CloseAbs(Z1p(x, z.Tmm10, z.gamma, z.cot_alpha), R7Z(z, Dn, x), 40 * tol + "1e-9") THEN "" ELSE "residual"
       [] name = "rear2004" ->
              LET Dn == DnUse(z.Dn50, z.M50, z.rho_rock)
              IN IF x > 0 /\ CloseAbs(Z1p(x, z.Tmm10, z.gamma_f, z.cot_alpha), RpZinv(z, RpUinv(z, Dn, x), x), 40 * tol + "1e-9") THEN "" ELSE "residual"
       [] name = "wind" ->            \* freeboard with wind: the discharge factor at this freeboard
              LET d  == z
                  g  == Vg25Geo(z)
                  q0 == z.q / QScale(z.Hm0, z.g)
                  qd == ToR(IF z.design_calculation THEN q0 ^ (1 / "0.857") ELSE q0)
                  a  == Vg25Qa(z.cot_alpha, x * z.Hm0, z.Hm0_swell, z.Hm0, g.G, g.ksi)
                  b  == Vg25Qb(z.cot_alpha, x * z.Hm0, z.Hm0_swell, z.Hm0, g.G, g.ksi, "0.8", "-2.5")
                  q1 == Min2(a, b)
              IN IF Close(q1 * Vg25Gw(x * z.Hm0, z.Ac, z.Hm0, q1, "0.075", "-0.3"), qd, Max2("1e-8", 10000 * tol)) THEN "" ELSE "residual"
       [] name = "gammab" ->          \* berm factor after two passes: the run-up it belongs to reproduces it
              LET g2 == GammaB2(z.Hm0, z.Tmm10, z.cot_alpha_average, z.B_berm, z.L_berm, z.db, z.gamma_f, z.gamma_beta, KOf(z, KBestFit))
              IN IF Close(x, g2, "1e-8") /\ x >= "0.6" /\ x <= 1 THEN "" ELSE "residual"
       [] name = "takahashiH" -> IF TkHsOk(z, x) THEN "" ELSE "residual"

-----------------------------------------------------------------------------
\* these hand back the one of their inputs that is to be used
Selecting == {"check_usage_Dn50_or_M50", "check_usage_stabilitynumber", "check_composite_slope", "check_calculate_gamma_beta"}
\* a call whose result contains its inputs: a selection, or a report with everything in it
Echoes(c) == c.f \in Selecting \/ ("return_dict" \in DOMAIN c.a /\ Same(c.a.return_dict, TRUE))
One(b) == IF b = "" THEN {} ELSE {b}
\* what is wrong with relation rel; k divides the tolerances
RelBad(rel, o, k) ==
  CASE rel.t = "eval" -> One(EvalBad(o[rel.i], IF Has(rel, "tol") THEN rel.tol ELSE "1e-8"))
    [] rel.t = "eq" ->
         IF ~Usable(o, rel.l) \/ ~Usable(o, rel.r) THEN {"no value"}
         ELSE LET a == Get(o, rel.l)
                  b == Get(o, rel.r)
              IN IF ~IsFin(a) \/ ~IsFin(b) THEN {"nonfinite"}
                 ELSE IF Close(a, b, rel.tol / k) \/ CloseAbs(a, b, rel.ab / k) THEN {} ELSE {"not equal"}
    [] rel.t = "le" ->
         IF ~Usable(o, rel.l) \/ ~Usable(o, rel.r) THEN {"no value"}
         ELSE LET a == Get(o, rel.l)
                  b == Get(o, rel.r)
              IN IF ~IsFin(a) \/ ~IsFin(b) THEN {"nonfinite"}
                 ELSE IF a <= b + (rel.tol / k) * Abs(b) + rel.ab / k THEN {} ELSE {"not in order"}
    [] rel.t = "flag" ->
         LET x == o[rel.i]
             y == o[rel.j]
         IN IF x.e # "" \/ y.e # "" \/ x.skip \/ y.skip THEN {"no value"}
            ELSE IF rel.o \in DOMAIN x.v /\ rel.q \in DOMAIN y.v /\ Same(x.v[rel.o], y.v[rel.q]) THEN {} ELSE {"flags differ"}
    [] rel.t = "is" ->
         LET x == o[rel.i] IN IF x.e = "" /\ ~x.skip /\ rel.o \in DOMAIN x.v /\ Same(x.v[rel.o], rel.b) THEN {} ELSE {"wrong flag"}
    [] rel.t = "same" ->
         LET x == o[rel.i]
             y == o[rel.j]
         IN IF x.skip \/ y.skip THEN {"not called"}
            ELSE IF x.e # y.e THEN {"different error"}
            ELSE IF ~(Len(x.v) = Len(y.v) /\ \A j \in DOMAIN x.v : Same(x.v[j], y.v[j])) THEN {"different values"}
            ELSE IF ~(Len(x.w) = Len(y.w) /\ \A j \in DOMAIN x.w : Same(x.w[j], y.w[j])) THEN {"different warnings"}
            ELSE {}
    [] rel.t = "fresh" ->                   \* the call without history gave the same
         LET x == o[rel.i]
         IN IF ~Has(x, "fr") \/ x.skip THEN {}
            ELSE LET y == x.fr
                 IN IF x.e # y.e THEN {"different error"}
                    ELSE IF ~(Len(x.v) = Len(y.v) /\ \A j \in DOMAIN x.v : Same(x.v[j], y.v[j])) THEN {"different values"}
                    ELSE IF ~(Len(x.w) = Len(y.w) /\ \A j \in DOMAIN x.w : Same(x.w[j], y.w[j])) THEN {"different warnings"}
                    ELSE {}
    [] rel.t = "near" ->
         LET x == o[rel.i]
             y == o[rel.j]
         IN IF x.skip \/ y.skip \/ x.e # "" \/ y.e # "" THEN {"no value"}
            ELSE IF ~FinVs(x.v) \/ ~FinVs(y.v) THEN {"nonfinite"}
            ELSE IF VsNear(x.v, y.v, rel.tol / k, "1e-15") THEN {} ELSE {"different values"}
    [] rel.t = "wnames" ->                  \* the same limits are exceeded
         LET x == o[rel.i]
             y == o[rel.j]
             ids(z) == {[x |-> z.w[j].x, f |-> z.w[j].f] : j \in DOMAIN z.w}
         IN IF x.skip \/ y.skip \/ x.e # "" \/ y.e # "" THEN {"no value"} ELSE IF ids(x) = ids(y) THEN {} ELSE {"different warnings"}
    [] rel.t = "effect" -> One(EffectBad(o[rel.i], o[rel.j], rel.tol))
    [] rel.t = "file" -> One(FileBad(o, rel.i, rel.may))
    [] rel.t = "err" -> IF o[rel.i].e = "ValueError" THEN {} ELSE IF o[rel.i].e = "" THEN {"accepted"} ELSE {"raised " \o o[rel.i].e}
    [] rel.t = "note" -> One(NoteBad(o[rel.i]))
    [] rel.t = "pure" -> IF o[rel.i].mut THEN {"input modified"} ELSE IF o[rel.i].ali /\ ~Echoes(o[rel.i]) THEN {"result shares memory with an input"} ELSE {}
    [] rel.t = "warn" -> WarnBad(o[rel.i])
    [] rel.t = "true" -> TrueBad(o[rel.i])
    [] rel.t = "arr" -> ArrBad(o, rel, rel.tol / k)
    [] rel.t = "adm" -> IF Eq(k, 1) THEN {} ELSE IF ~Usable(o, rel.l) THEN {"no value"}
                        ELSE IF Get(o, rel.l) > rel.lo /\ Get(o, rel.l) < rel.hi THEN {} ELSE {"no value"}
    [] rel.t = "res" -> One(ResidBad(o[rel.i], rel.n, k))

\* all violations: [m, f, n, x]
Judge(rel, o, k) ==
  UNION {{[m |-> o[rel[j].i].m, f |-> o[rel[j].i].f, n |-> rel[j].n, x |-> b] : b \in RelBad(rel[j], o, k)} : j \in DOMAIN rel}
=============================================================================
