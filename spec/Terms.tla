------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Formulas as data.  A program is a sequence of definitions <<name, term>>; *)
(* a term refers to parameters, inputs and earlier definitions by name.     *)
(* Programs have two interpreters: the exact one below, which TLC uses to   *)
(* check laws and to compute expected values where all numbers involved are *)
(* rational, and a floating point one in the replay (checks/c23.py).       *)
(***************************************************************************)
EXTENDS Rat, TLC

V(x) == <<"v", x>>
K(n) == <<"k", n, 1>>
KQ(n, d) == <<"k", n, d>>
Pi == <<"pi">>
Add(a, b) == <<"add", a, b>>
Sub(a, b) == <<"sub", a, b>>
Mul(a, b) == <<"mul", a, b>>
Div(a, b) == <<"div", a, b>>
Neg(a) == <<"neg", a>>
Sum3(a, b, c) == Add(Add(a, b), c)
Mul3(a, b, c) == Mul(Mul(a, b), c)
Mul4(a, b, c, d) == Mul(Mul(a, b), Mul(c, d))
Pow2(a) == <<"sq", a>>
Sqrt(a) == <<"sqrt", a>>
Exp(a) == <<"exp", a>>
Abs(a) == <<"abs", a>>
Sign(a) == <<"sign", a>>
AtMost1(a) == <<"atmost1", a>>
Tan(a) == <<"tan", a>>
Atan(a) == <<"atan", a>>
CosOf(a) == <<"cos", a>>
\* sin(c atan y), cos(c atan y), y - e (y - atan y)
SinAt(c, y) == <<"sinat", c, y>>
CosAt(c, y) == <<"cosat", c, y>>
Curv(e, y) == <<"curv", e, y>>
\* atan sqrt(tan(a)^2 + s) with the sign of a
Comb(a, s) == <<"comb", a, s>>
\* a + b d
Lin(a, b, d) == Add(V(a), Mul(V(b), d))

\* -- the exact interpreter ---------------------------------------------------
ISqrt(n) == IF n < 0 \/ n > 40000000 THEN -1
            ELSE LET r == CHOOSE k \in 0..6400 : k * k <= n /\ ((k + 1) * (k + 1)) > n IN IF r * r = n THEN r ELSE -1
RSqrt(x) == IF IsBad(x) \/ x[1] < 0 \/ x[1] > 4000000 \/ x[2] > 4000000 THEN Bad
            ELSE LET a == ISqrt(x[1]) b == ISqrt(x[2]) IN IF a < 0 \/ b < 0 THEN Bad ELSE <<a, b>>
RSign(x) == IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0
Hyp(y) == RSqrt(RAdd(Z(1), Sq(y)))
RSinAt(c, y) ==
    IF IsBad(c) \/ IsBad(y) THEN Bad
    ELSE IF y[1] = 0 \/ c[1] = 0 THEN Z(0)
    ELSE IF c = Z(1) THEN RDiv(y, Hyp(y))
    ELSE IF c = Z(2) THEN RDiv(RMul(Z(2), y), RAdd(Z(1), Sq(y)))
    ELSE Bad
RCosAt(c, y) ==
    IF IsBad(c) \/ IsBad(y) THEN Bad
    ELSE IF y[1] = 0 \/ c[1] = 0 THEN Z(1)
    ELSE IF c \in {Z(1), Z(-1)} THEN RInv(Hyp(y))
    ELSE IF c = Z(2) THEN RDiv(RSub(Z(1), Sq(y)), RAdd(Z(1), Sq(y)))
    ELSE Bad
RECURSIVE Ev(_, _)
Ev(t, env) ==
    LET k == t[1] IN
    IF k = "v" THEN env[t[2]]
    ELSE IF k = "k" THEN Q(t[2], t[3])
    ELSE IF k = "pi" THEN Bad
    ELSE LET x == Ev(t[2], env) IN
    CASE k = "neg" -> RNeg(x)
      [] k = "sq" -> Sq(x)
      [] k = "sqrt" -> RSqrt(x)
      [] k = "exp" -> IF ~IsBad(x) /\ x[1] = 0 THEN Z(1) ELSE Bad
      [] k = "abs" -> << RAbsI(x[1]), x[2] >>
      [] k = "sign" -> IF IsBad(x) THEN Bad ELSE Z(RSign(x))
      [] k = "atmost1" -> IF IsBad(x) THEN Bad ELSE IF x[1] > x[2] THEN Z(1) ELSE x
      [] k \in {"tan", "atan"} -> IF ~IsBad(x) /\ x[1] = 0 THEN Z(0) ELSE Bad
      [] k = "cos" -> IF ~IsBad(x) /\ x[1] = 0 THEN Z(1) ELSE Bad
      [] OTHER ->
         LET y == Ev(t[3], env) IN
         CASE k = "add" -> RAdd(x, y)
           [] k = "sub" -> RSub(x, y)
           [] k = "mul" -> IF (~IsBad(x) /\ x[1] = 0) \/ (~IsBad(y) /\ y[1] = 0) THEN Z(0) ELSE RMul(x, y)
           [] k = "div" -> RDiv(x, y)
           [] k = "sinat" -> RSinAt(x, y)
           [] k = "cosat" -> RCosAt(x, y)
           [] k = "comb" -> IF IsBad(x) \/ IsBad(y) THEN Bad ELSE IF x[1] = 0 THEN Z(0)
                            ELSE IF y[1] = 0 /\ (2 * RAbsI(x[1])) <= (3 * x[2]) THEN x ELSE Bad
           [] k = "curv" -> IF ~IsBad(y) /\ y[1] = 0 THEN Z(0) ELSE IF ~IsBad(x) /\ x[1] = 0 THEN y ELSE Bad
RECURSIVE Run(_, _, _)
Run(prog, k, env) == IF k > Len(prog) THEN env ELSE Run(prog, k + 1, (prog[k][1] :> Ev(prog[k][2], env)) @@ env)

\* names used before they are defined
RECURSIVE Uses(_)
Uses(t) == IF t[1] = "v" THEN {t[2]} ELSE IF t[1] \in {"k", "pi"} THEN {}
           ELSE Uses(t[2]) \cup (IF Len(t) = 3 THEN Uses(t[3]) ELSE {})
WellFormed(prog, names) ==
    \A k \in 1..Len(prog) : /\ Uses(prog[k][2]) \subseteq (names \cup {prog[j][1] : j \in 1..(k - 1)})
                            /\ prog[k][1] \notin (names \cup {prog[j][1] : j \in 1..(k - 1)})
=============================================================================
