------------------------------ MODULE Session -------------------------------
(* A session: a program of calls executed one after the other, and the state
   it leaves: the outcomes so far (later calls may use earlier outputs) and
   the files written.  Outcome(call, hist) is the transition of one call; it
   depends on the arguments only, which is the purity the toolbox promises.

   A call is a record with
     m, f   module and function
     a      arguments: reals, booleans, strings, [arr |-> elements], or a
            reference [ref |-> <<call, output>>, pow, mul, add] to an earlier output
   and, for the implementation only: pos (names passed by position), rev
   (keywords in reverse order), ty ("int", "np": representation of numbers),
   keys (order of dictionary outputs), rep (times executed), scribble (the
   caller overwrites the result), ar (a representation of array elements).

   An outcome is [m, f, a, e, v, w, mut, ali, skip]: resolved arguments, error
   class, outputs, warnings, notices (nt), inputs modified, result shares memory with an
   input, call not made because an argument could not be resolved.          *)
EXTENDS Notices

Has(r, k) == k \in DOMAIN r
IsRef(x)  == IsRec(x) /\ Has(x, "ref")
IsArr(x)  == IsRec(x) /\ Has(x, "arr")
Range1(n) == I!..(1, n)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

\* references to earlier outputs
RefOk(x, hist) == LET h == hist[x.ref[1]] IN h.e = "" /\ ~h.skip /\ x.ref[2] \in DOMAIN h.v /\ ~(IsRec(h.v[x.ref[2]]) /\ Has(h.v[x.ref[2]], "bad"))
Deref(x, hist) ==
  LET o == hist[x.ref[1]].v[x.ref[2]]
      y == IF Has(x, "pow") /\ IsReal(o) THEN ToR(o ^ x.pow) ELSE o
      m == IF Has(x, "mul") /\ IsReal(y) THEN ToR(y * x.mul) ELSE y
  IN IF Has(x, "add") /\ IsReal(y) THEN ToR(m + x.add) ELSE m
ArgsReady(call, hist) == \A p \in DOMAIN call.a : IsRef(call.a[p]) => RefOk(call.a[p], hist)
Resolve(call, hist) == [p \in DOMAIN call.a |-> IF IsRef(call.a[p]) THEN Deref(call.a[p], hist) ELSE call.a[p]]

Skipped(call) == [m |-> call.m, f |-> call.f, a |-> <<>>, e |-> "", v |-> <<>>, w |-> <<>>, mut |-> FALSE, ali |-> FALSE, skip |-> TRUE]
WarnOf(c) == [x |-> c.x, f |-> c.f, v |-> c.v, lo |-> c.lo, hi |-> c.hi]
Warns(r)  == {WarnOf(c) : c \in {c \in r.c : Out(c)}}
ListResult(call) == call.f = "check_variable_validity_range"

ScalarOutcome(call, a) ==
  LET r == Call(call.m, call.f, a)
      v == [j \in DOMAIN r.v |-> IF ListResult(call) THEN [arr |-> <<r.v[j]>>] ELSE AsOut(r.v[j])]
  IN [m |-> call.m, f |-> call.f, a |-> a, e |-> r.e, v |-> v, w |-> SeqOf(Warns(r)), mut |-> FALSE, ali |-> FALSE, skip |-> FALSE,
      nt |-> IF call.f = "unit_properties" \/ r.e # "" THEN <<>> ELSE SeqOf(Told(call.m, call.f, a))]

\* arrays: element by element, scalars are repeated
ArrPars(a)   == {p \in DOMAIN a : IsArr(a[p])}
ElemArgs(a, j) == [p \in DOMAIN a |-> IF IsArr(a[p]) THEN a[p].arr[j] ELSE a[p]]
ArrayOutcome(call, a) ==
  LET n  == Len(a[CHOOSE p \in ArrPars(a) : TRUE].arr)
      rs == [j \in Range1(n) |-> Call(call.m, call.f, ElemArgs(a, j))]
      bad == {j \in Range1(n) : rs[j].e # ""}
      nv == Len(rs[1].v)
  IN [m |-> call.m, f |-> call.f, a |-> a, e |-> IF bad = {} THEN "" ELSE "ValueError",
      v |-> IF bad = {} THEN [k \in Range1(nv) |-> [arr |-> [j \in Range1(n) |-> AsOut(rs[j].v[k])]]] ELSE <<>>,
      w |-> SeqOf(UNION {Warns(rs[j]) : j \in Range1(n)}), mut |-> FALSE, ali |-> FALSE, skip |-> FALSE]

-----------------------------------------------------------------------------
(* the writers of input files for external tools.  Their state is the output
   directory fs: file name -> rows of fields. *)
FileCols == [write_input_file_XGB_Overtopping |-> <<"beta", "h", "Hm0", "Tmm10", "ht", "Bt", "db", "B_berm", "Rc", "Ac", "Gc", "cot_alpha_down", "cot_alpha_up", "gamma_f_down", "gamma_f_up", "tan_alpha_f">>,
             write_input_file_NN_Overtopping |-> <<"beta", "h", "Hm0", "Tmm10", "ht", "Bt", "gamma_f", "cot_alpha_down", "cot_alpha_up", "Rc", "B_berm", "db", "tan_alpha_B", "Ac", "Gc">>]
XgbHead == <<"", "b", "h", "Hm0 toe", "Tm-1,0 toe", "ht", "Bt", "hb", "B", "Rc", "Ac", "Gc", "cotad", "cotau", "gf_d", "gf_u", "tanaf">>
IsWriter(f) == f \in DOMAIN FileCols
NNf(f) == f = "write_input_file_NN_Overtopping"
FileOf(m, f, a) == Complete(m, f, a).file_name \o (IF NNf(f) THEN ".inp" ELSE ".csv")
LensOf(f, a) == {Len(a[FileCols[f][j]].arr) : j \in {j \in DOMAIN FileCols[f] : FileCols[f][j] \in DOMAIN a /\ IsArr(a[FileCols[f][j]])}}
RowOf(f, a, j) == [c \in DOMAIN FileCols[f] |-> LET x == a[FileCols[f][c]] IN IF IsArr(x) THEN x.arr[j] ELSE x]
RowsOf(f, a) ==
  LET L == LensOf(f, a)
      n == IF L = {} THEN 1 ELSE CHOOSE n \in L : TRUE
  IN IF NNf(f) THEN [j \in Range1(n) |-> RowOf(f, a, j)]
     ELSE <<XgbHead>> \o [j \in Range1(n) |-> <<ToR(I!-(j, 1))>> \o RowOf(f, a, j)]
Lacks(f, a) == \E j \in DOMAIN FileCols[f] : FileCols[f][j] \notin DOMAIN a
FilesBefore(hist) == LET J == {j \in DOMAIN hist : Has(hist[j], "fs")} IN IF J = {} THEN <<>> ELSE hist[CHOOSE j \in J : \A k \in J : I!<=(k, j)].fs
WriteErr(f, a) == IF Lacks(f, a) THEN "TypeError" ELSE IF I!>(Cardinality(LensOf(f, a)), 1) THEN "ValueError" ELSE ""
WriterOutcome(call, a, hist) ==
  LET e  == WriteErr(call.f, a)
      fs == FilesBefore(hist)
      nm == FileOf(call.m, call.f, a)
  IN [m |-> call.m, f |-> call.f, a |-> a, e |-> e, v |-> <<>>, w |-> <<>>, mut |-> FALSE, ali |-> FALSE, skip |-> FALSE,
      fs |-> IF e = "" THEN [x \in (DOMAIN fs) \cup {nm} |-> IF x = nm THEN RowsOf(call.f, a) ELSE fs[x]] ELSE fs]

Outcome(call, hist) ==
  IF ~ArgsReady(call, hist) THEN Skipped(call)
  ELSE LET a == Resolve(call, hist) IN IF IsWriter(call.f) THEN WriterOutcome(call, a, hist) ELSE IF ArrPars(a) = {} THEN ScalarOutcome(call, a) ELSE ArrayOutcome(call, a)
=============================================================================
