------------------------------- MODULE Real64 -------------------------------
(* IEEE-754 doubles for TLC.  A real is <<hi, lo>>, the two 32-bit halves of
   its bit pattern; a TLA+ integer, or a decimal written as a string ("0.067"),
   is accepted wherever a real is.  Every
   operator without a definition of its own here is evaluated by the Java
   override class of the same name (java/Real64.java). *)
R(s) == CHOOSE x : x = s                \* decimal literal, "0.067"
ToR(a) == CHOOSE x : TRUE
RAdd(a, b) == CHOOSE x : TRUE
RSub(a, b) == CHOOSE x : TRUE
RMul(a, b) == CHOOSE x : TRUE
RDiv(a, b) == CHOOSE x : TRUE
RNeg(a) == CHOOSE x : TRUE
RPow(a, b) == CHOOSE x : TRUE
RLt(a, b) == CHOOSE x : TRUE
RLe(a, b) == CHOOSE x : TRUE
Eq(a, b) == CHOOSE x : TRUE             \* numeric equality
IsNaN(a) == CHOOSE x : TRUE
IsFin(a) == CHOOSE x : TRUE
Min2(a, b) == CHOOSE x : TRUE
Max2(a, b) == CHOOSE x : TRUE
Abs(a) == CHOOSE x : TRUE
Sqrt(a) == CHOOSE x : TRUE
Exp(a) == CHOOSE x : TRUE
Ln(a) == CHOOSE x : TRUE
Sin(a) == CHOOSE x : TRUE
Cos(a) == CHOOSE x : TRUE
Tan(a) == CHOOSE x : TRUE
Atan(a) == CHOOSE x : TRUE
Sinh(a) == CHOOSE x : TRUE
Cosh(a) == CHOOSE x : TRUE
Tanh(a) == CHOOSE x : TRUE
Floor(a) == CHOOSE x : TRUE
Rint(a) == CHOOSE x : TRUE
Close(a, b, tol) == CHOOSE x : TRUE     \* relative closeness
CloseAbs(a, b, tol) == CHOOSE x : TRUE
RFmt(a) == CHOOSE x : TRUE
Rnd(seed, i, key) == CHOOSE x : TRUE    \* uniform [0,1), a function of its arguments
RndInt(seed, i, key, n) == CHOOSE x : TRUE
Sig(a, digits) == CHOOSE x : TRUE
Nint(a) == CHOOSE x : TRUE
Same(a, b) == CHOOSE x : TRUE           \* equality, FALSE across types
IsBool(a) == CHOOSE x : TRUE
IsStr(a) == CHOOSE x : TRUE
IsReal(a) == CHOOSE x : TRUE            \* a pair of halves
IsRec(a) == CHOOSE x : TRUE             \* a record
AsOut(a) == CHOOSE x : TRUE             \* numbers as reals, the rest unchanged
Ulp(a, n) == CHOOSE x : TRUE            \* the double n steps away
Total(e, d) == e                        \* e, or d where e has no value (java/Total.java)
Emit(file, line) == CHOOSE x : TRUE     \* TRUE, and the line is appended to the file

a + b == RAdd(a, b)
a - b == RSub(a, b)
a * b == RMul(a, b)
a / b == RDiv(a, b)
-. a == RNeg(a)
a ^ b == RPow(a, b)
a < b == RLt(a, b)
a <= b == RLe(a, b)
a > b == RLt(b, a)
a >= b == RLe(b, a)

NaN == R("NaN")
Pi == R("3.141592653589793")
=============================================================================
