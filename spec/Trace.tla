------------------------------- MODULE Trace --------------------------------
(* Trace validation: every line of obs_<ch>.ndjson is one session as the code
   executed it (the outcomes o of its calls) with the relations to hold.  One
   transition per session; verdicts are written out, and a chunk is accepted
   only when its last line has been judged. *)
EXTENDS Props, Json
CONSTANTS NCh, Dir
VARIABLES ch, l, os, nbad
vars == <<ch, l, os, nbad>>

Init == ch \in Range1(NCh) /\ l = 0 /\ os = <<>> /\ nbad = 0
Load == /\ l = 0
        /\ os' = ndJsonDeserialize(Dir \o "/obs_" \o ToString(ch) \o ".ndjson")
        /\ l' = 1
        /\ UNCHANGED <<ch, nbad>>
\* an outcome so malformed that a relation cannot be evaluated on it satisfies none
Verdict(x) == Total(Judge(x.rel, x.o, 1), {[m |-> x.o[1].m, f |-> x.o[1].f, n |-> "outcome", x |-> "malformed"]})
Replay == /\ I!>=(l, 1) /\ I!<=(l, Len(os))
          /\ LET b == Verdict(os[l])
             IN /\ nbad' = IF b = {} THEN nbad ELSE I!+(nbad, 1)
                /\ IF b = {} THEN TRUE ELSE Emit(Dir \o "/bad_" \o ToString(ch) \o ".ndjson", ToJson([id |-> os[l].id, cl |-> os[l].cl, bad |-> b]))
          /\ l' = I!+(l, 1)
          /\ UNCHANGED <<ch, os>>
Done == /\ l = I!+(Len(os), 1)
        /\ Emit(Dir \o "/done.ndjson", ToJson([ch |-> ch, n |-> Len(os), bad |-> nbad]))
        /\ l' = I!+(l, 1)
        /\ UNCHANGED <<ch, os, nbad>>
Next == Load \/ Replay \/ Done
View == <<ch, l>>
=============================================================================
