-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers <<numerator, denominator>>, normalised with a    *)
(* positive denominator.  TLC's integers have 32 bits: a result that would *)
(* not fit is Bad, which is equal to everything (ReqOK) and is never judged. *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Lim == 1073741823
Bad == <<0, 0>>
IsBad(x) == x[2] = 0
RAbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
MulFits(a, b) == a = 0 \/ b = 0 \/ RAbsI(a) <= Lim \div RAbsI(b)
\* a fraction of integers
Q(n, d) == LET g == Gcd(RAbsI(n), RAbsI(d)) s == IF d < 0 THEN -1 ELSE 1 IN << s * (n \div g), s * (d \div g) >>
Z(n) == <<n, 1>>
RNeg(x) == << -x[1], x[2] >>
RMul(x, y) ==
    IF IsBad(x) \/ IsBad(y) THEN Bad
    ELSE LET g == Gcd(RAbsI(x[1]), y[2])
             h == Gcd(RAbsI(y[1]), x[2])
             a == x[1] \div g   b == y[1] \div h
             c == x[2] \div h   d == y[2] \div g
         IN IF MulFits(a, b) /\ MulFits(c, d) THEN << a * b, c * d >> ELSE Bad
RAdd(x, y) ==
    IF IsBad(x) \/ IsBad(y) THEN Bad
    ELSE LET g == Gcd(x[2], y[2])
             a == y[2] \div g   b == x[2] \div g
         IN IF MulFits(x[1], a) /\ MulFits(y[1], b) /\ MulFits(x[2], a)
            THEN LET s == (x[1] * a) + (y[1] * b) IN IF RAbsI(s) <= Lim THEN Q(s, x[2] * a) ELSE Bad
            ELSE Bad
RSub(x, y) == RAdd(x, RNeg(y))
RInv(x) == IF x[1] = 0 THEN Bad ELSE IF x[1] < 0 THEN << -x[2], -x[1] >> ELSE << x[2], x[1] >>
RDiv(x, y) == RMul(x, RInv(y))
RPos(x) == ~IsBad(x) /\ x[1] > 0
ReqOK(x, y) == IsBad(x) \/ IsBad(y) \/ x = y
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN Z(0) ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN Z(1) ELSE RMul(Head(s), RProd(Tail(s)))
Sq(x) == RMul(x, x)
Half == <<1, 2>>
=============================================================================
