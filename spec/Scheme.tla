------------------------------ MODULE Scheme ------------------------------
(***************************************************************************)
(* C05.  What an integration scheme must satisfy for any number of stages: *)
(* order of exactness on polynomials, and for the collocation schemes the  *)
(* flipped Radau points as the roots of an integer polynomial.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Order(name, n) ==
    CASE name = "ForwardEuler" -> 1
      [] name = "Trapezoidal"  -> 2
      [] name = "LGR"          -> n - 1
      [] name = "LGRIntegral"  -> n
IsCollocation(name) == name \in {"LGR", "LGRIntegral"}
StagesOf(name, n) == IF IsCollocation(name) THEN n ELSE 2

\* the Legendre families by the ends of [-1, 1] that are among their points
Families == {"LG", "LGR", "LGL"}
LeftEnd(f) == f = "LGL"
RightEnd(f) == f \in {"LGR", "LGL"}

\* coefficients (ascending) of  d^{s-1}/dt^{s-1} [ t^{s-1} (t-1)^s ] / (s-1)!
\* whose roots are the s collocation points on (0, 1]
RECURSIVE Binom(_, _)
Binom(a, b) == IF b = 0 \/ b = a THEN 1 ELSE IF b > a THEN 0 ELSE Binom(a - 1, b - 1) + Binom(a - 1, b)
\* t^{s-1}(t-1)^s = sum_k binom(s,k) (-1)^{s-k} t^{k+s-1};  (k+s-1)!/(k! (s-1)!) = binom(k+s-1, k)
Radau(s) == [k \in 1..(s + 1) |->
                LET e == k - 1 IN
                (IF (s - e) % 2 = 0 THEN 1 ELSE -1) * Binom(s, e) * Binom(e + s - 1, e)]
RECURSIVE AtOne(_, _)
AtOne(c, k) == IF k > Len(c) THEN 0 ELSE c[k] + AtOne(c, k + 1)
RadauSane == \A s \in 1..8 : AtOne(Radau(s), 1) = 0       \* t = 1 is always a node
===========================================================================
