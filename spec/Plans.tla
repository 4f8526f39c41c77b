------------------------------- MODULE Plans --------------------------------
(* the session with number i for a property *)
EXTENDS PlansD
Case(prop, s, i) == IF prop \in {"C10", "C11", "C12"} THEN CaseB(prop, s, i)
                    ELSE IF prop \in {"C15", "C16", "C17", "C18"} THEN CaseC(prop, s, i)
                    ELSE IF prop \in {"C19", "C20", "C21", "C22", "C23", "C24"} THEN CaseD(prop, s, i)
                    ELSE CaseA(prop, s, i)
=============================================================================
