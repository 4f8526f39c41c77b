-------------------------------- MODULE Gen ---------------------------------
(* The toolbox as a state machine: sessions run one after the other in each of
   NCh independent processes, one transition per call.  TLC explores all
   sessions 1..NCase of property Prop; the invariant SpecHolds says that every
   admissible session satisfies its relations in the specification.  Each of
   these sessions is written out to be replayed against the code. *)
EXTENDS Plans, Json
CONSTANTS Prop, Seed, NCh, NCase, Dir
VARIABLES ch, n, cs, hist, bad, pc
vars == <<ch, n, cs, hist, bad, pc>>

Init == /\ ch \in Range1(NCh)
        /\ n = ch
        /\ cs = Case(Prop, Seed, ch)
        /\ hist = <<>>
        /\ bad = {}
        /\ pc = "run"

\* one call of the current session
Step == /\ pc = "run"
        /\ I!<(Len(hist), Len(cs.calls))
        /\ hist' = Append(hist, Outcome(cs.calls[I!+(Len(hist), 1)], hist))
        /\ UNCHANGED <<ch, n, cs, bad, pc>>

\* verdicts that make a session inadmissible: there is nothing to compare
NoTest == {"nonfinite", "no value", "no solution", "not called", "scalar call failed"}
Adm(b) == \A x \in b : x.x \notin NoTest
\* the session is complete: judge it
Finish == /\ pc = "run"
          /\ Len(hist) = Len(cs.calls)
          /\ bad' = Judge(cs.rel, hist, 4)
          /\ pc' = "end"
          /\ UNCHANGED <<ch, n, cs, hist>>
          /\ IF Len(cs.calls) = 0 THEN TRUE
             ELSE IF bad' = {} THEN Emit(Dir \o "/case_" \o ToString(ch) \o ".ndjson", ToJson(cs))
             ELSE Emit(Dir \o "/reject_" \o ToString(ch) \o ".ndjson",
                       ToJson([id |-> n, cl |-> cs.cl, bad |-> bad', viol |-> Adm(bad') /\ Judge(cs.rel, hist, 1) # {}]
                              @@ (IF Adm(bad') THEN [calls |-> cs.calls, hist |-> hist] ELSE <<>>)))

More == /\ pc = "end"
        /\ I!<=(I!+(n, NCh), NCase)
        /\ n' = I!+(n, NCh)
        /\ cs' = Case(Prop, Seed, n')
        /\ hist' = <<>>
        /\ bad' = {}
        /\ pc' = "run"
        /\ UNCHANGED ch

Next == Step \/ Finish \/ More
View == <<ch, n, Len(hist), pc>>
\* the relations hold in the specification, wherever they can be evaluated
SpecHolds == pc = "end" => (bad = {} \/ ~Adm(bad) \/ Judge(cs.rel, hist, 1) = {} )
=============================================================================
