------------------------------- MODULE Float64 -------------------------------
(***************************************************************************)
(* IEEE-754 double arithmetic.  A double is represented by the string that *)
(* denotes it ("0.45", "1e-05", "inf", "nan"); the operators below are     *)
(* evaluated by the class java/Float64.java, which contains nothing but    *)
(* these elementary operations.  Every formula lives in the TLA+ modules.  *)
(***************************************************************************)
EXTENDS Naturals

FAdd(a, b)   == CHOOSE r \in STRING : TRUE   \* a + b
FSub(a, b)   == CHOOSE r \in STRING : TRUE   \* a - b
FMul(a, b)   == CHOOSE r \in STRING : TRUE   \* a * b
FDiv(a, b)   == CHOOSE r \in STRING : TRUE   \* a / b
FPow(a, b)   == CHOOSE r \in STRING : TRUE   \* a ** b
FSqrt(a)     == CHOOSE r \in STRING : TRUE
FExp(a)      == CHOOSE r \in STRING : TRUE
FLn(a)       == CHOOSE r \in STRING : TRUE
FLog10(a)    == CHOOSE r \in STRING : TRUE
FSin(a)      == CHOOSE r \in STRING : TRUE
FCos(a)      == CHOOSE r \in STRING : TRUE
FAbs(a)      == CHOOSE r \in STRING : TRUE
FLt(a, b)    == CHOOSE r \in BOOLEAN : TRUE
FLe(a, b)    == CHOOSE r \in BOOLEAN : TRUE
FEq(a, b)    == CHOOSE r \in BOOLEAN : TRUE  \* numeric equality
FFinite(a)   == CHOOSE r \in BOOLEAN : TRUE
FIsNum(a)    == CHOOSE r \in BOOLEAN : TRUE  \* the string denotes a double
FInt(n)      == CHOOSE r \in STRING : TRUE   \* integer to double
FTrunc(a)    == CHOOSE r \in Nat : TRUE      \* double to integer
FRound(a, k) == CHOOSE r \in STRING : TRUE   \* rounded to k significant digits
FUnif(key)   == CHOOSE r \in STRING : TRUE   \* pseudo-random in [0,1), a function of the string key

a \oplus b  == FAdd(a, b)
a \ominus b == FSub(a, b)
a \otimes b == FMul(a, b)
a \oslash b == FDiv(a, b)
a \prec b   == FLt(a, b)
a \preceq b == FLe(a, b)
=============================================================================
