-------------------------------- MODULE Base --------------------------------
(* What a call of a toolbox function may produce.

   A result record has
     e  ""  or the error class the call must raise
     v  the sequence of output values
     c  every validity check the call performs: [x, f, v, lo, hi, p]
        (variable, formula, value, limits; p = the input parameter that is
        compared as it is, "" when the value is computed)
     m  validity warnings that iteration steps may give for intermediate
        values: [x, f, lo, hi]
     r  the regime (branch) signature of the evaluation                     *)
EXTENDS Real64, Sequences, FiniteSets, TLC

Ok(v)          == [e |-> "", v |-> v, c |-> {}, m |-> {}, r |-> <<>>]
OkR(v, r)      == [e |-> "", v |-> v, c |-> {}, m |-> {}, r |-> r]
OkC(v, c)      == [e |-> "", v |-> v, c |-> c,  m |-> {}, r |-> <<>>]
OkRC(v, r, c)  == [e |-> "", v |-> v, c |-> c,  m |-> {}, r |-> r]
Res(v, r, c, m) == [e |-> "", v |-> v, c |-> c, m |-> m, r |-> r]
Err            == [e |-> "ValueError", v |-> <<>>, c |-> {}, m |-> {}, r |-> <<"err">>]

\* apply f to the first output, keep the rest of the result
Scale(s, k) == IF s.e # "" THEN s ELSE [s EXCEPT !.v[1] = @ * k]

\* one validity check; it counts only when all the inputs it needs are given
Chk(x, f, val, lo, hi)      == {[x |-> x, f |-> f, v |-> ToR(val), lo |-> ToR(lo), hi |-> ToR(hi), p |-> ""]}
ChkP(p, x, f, val, lo, hi)  == {[x |-> x, f |-> f, v |-> ToR(val), lo |-> ToR(lo), hi |-> ToR(hi), p |-> p]}
If(cond, set) == IF cond THEN set ELSE {}
N(x) == IsNaN(x)
G(x) == ~IsNaN(x)
May(cs) == {[x |-> t.x, f |-> t.f, lo |-> t.lo, hi |-> t.hi] : t \in cs}

Out(c)     == c.v < c.lo \/ c.v > c.hi
\* outside / inside by more than rounding, for computed values
Clear(a, b) == ~Close(a, b, "1e-9") /\ ~CloseAbs(a, b, "1e-12")
MustWarn(c) == Out(c) /\ (c.p # "" \/ (IF c.v < c.lo THEN Clear(c.v, c.lo) ELSE Clear(c.v, c.hi)))
MayWarn(c)  == IF c.p # "" THEN Out(c) ELSE Out(c) \/ ~Clear(c.v, c.lo) \/ ~Clear(c.v, c.hi)

\* Iterations of the specification stop after this many steps: a case that needs
\* more has no usable fixed point and is not admissible (value NaN)
Cap == 150
CapOf(n) == Min2(n, Cap)

Deg2Rad(x) == x * (Pi / 180)
Cosd(x) == Cos(Deg2Rad(x))
=============================================================================
