------------------------------ MODULE FunCat --------------------------------
(* The catalogue of functions handed to the code under test (edge           *)
(* velocities, derivatives, custom data fits) and their exact derivatives.  *)
EXTENDS Num

RECURSIVE FEval(_, _)
FEval(F, x) ==
    CASE F.t = "poly" -> Poly(F.c, x)
      [] F.t = "sin"  -> F.a \oplus (F.b \otimes FSin((F.k \otimes x) \oplus F.p))
      [] F.t = "exp"  -> F.a \oplus (F.b \otimes FExp(F.k \otimes x))
      [] F.t = "rat"  -> F.a \oplus (F.b \oslash FPow(F.k \oplus x, F.n))
      [] F.t = "pow"  -> F.a \otimes FPow(x, F.k)
      [] F.t = "ident" -> x
      [] F.t = "sc"   -> F.v \otimes FEval(F.f, (x \ominus F.x) \oslash F.l)     \* other scales
      [] F.t \in {"nan", "raise"} -> Poly(F.c, x)             \* valid for x <= F.at
      [] F.t = "spike" -> (LET m == SelectSeq([i \in 1..Len(F.xs) |-> i], LAMBDA i : FEq(F.xs[i], x))
                           IN IF m = <<>> THEN F.base ELSE F.vs[m[1]])

RECURSIVE FDer(_)
FDer(F) ==
    CASE F.t = "poly" -> [t |-> "poly", c |-> PolyD(F.c)]
      [] F.t = "sin"  -> [t |-> "sin", a |-> "0", b |-> F.b \otimes F.k, k |-> F.k,
                          p |-> F.p \oplus "1.5707963267948966"]
      [] F.t = "exp"  -> [t |-> "exp", a |-> "0", b |-> F.b \otimes F.k, k |-> F.k]
      [] F.t = "pow"  -> [t |-> "pow", a |-> F.a \otimes F.k, k |-> F.k \ominus "1"]
      [] F.t = "ident" -> [t |-> "poly", c |-> <<"1">>]
      [] F.t = "sc"   -> [F EXCEPT !.f = FDer(F.f), !.v = F.v \oslash F.l]
      [] F.t \in {"nan", "raise"} -> [t |-> "poly", c |-> PolyD(F.c)]
      [] F.t = "rat"  -> [t |-> "rat", a |-> "0", b |-> FNeg(F.b \otimes F.n), k |-> F.k, n |-> F.n \oplus "1"]

FEvalD(F, x)  == FEval(FDer(F), x)
FEvalD2(F, x) == FEval(FDer(FDer(F)), x)
=============================================================================
