------------------------------- MODULE Poly -------------------------------
(***************************************************************************)
(* Integer polynomials in numbered variables and their exact derivatives.  *)
(* A monomial is [c |-> coefficient, p |-> <<variable, ...>>] (a variable   *)
(* is repeated for powers); a polynomial is a sequence of monomials; a     *)
(* point is a function from variable numbers to integers.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mono(cc, pp) == [c |-> cc, p |-> pp]

RECURSIVE ProdFrom(_, _, _)
ProdFrom(p, x, k) == IF k > Len(p) THEN 1 ELSE x[p[k]] * ProdFrom(p, x, k + 1)
RECURSIVE ProdBut(_, _, _, _, _)          \* product without factors a and b
ProdBut(p, x, k, a, b) ==
    IF k > Len(p) THEN 1
    ELSE (IF k = a \/ k = b THEN 1 ELSE x[p[k]]) * ProdBut(p, x, k + 1, a, b)

MonoVal(m, x) == m.c * ProdFrom(m.p, x, 1)
RECURSIVE ValFrom(_, _, _)
ValFrom(f, x, k) == IF k > Len(f) THEN 0 ELSE MonoVal(f[k], x) + ValFrom(f, x, k + 1)
Val(f, x) == ValFrom(f, x, 1)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* Contributions to the gradient: << <<variable, value>>, ... >>; the derivative
\* with respect to v is the sum of the contributions listed for v.
Grad(f, x) ==
    Flat([k \in 1..Len(f) |->
        [a \in 1..Len(f[k].p) |-> << f[k].p[a], f[k].c * ProdBut(f[k].p, x, 1, a, a) >>]])

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

\* Contributions to the second derivatives, each unordered pair once (i <= j).
MonoHess(m, x) ==
    Flat([a \in 1..(Len(m.p) - 1) |->
        [d \in 1..(Len(m.p) - a) |->
            LET b == a + d
                v == m.c * ProdBut(m.p, x, 1, a, b)
            IN << Min2(m.p[a], m.p[b]), Max2(m.p[a], m.p[b]),
                  IF m.p[a] = m.p[b] THEN 2 * v ELSE v >>]])
Hess(f, x) == Flat([k \in 1..Len(f) |-> MonoHess(f[k], x)])

Scale(f, q) == [k \in 1..Len(f) |-> Mono(q * f[k].c, f[k].p)]
\* product with a monomial
Times(f, cc, pp) == [k \in 1..Len(f) |-> Mono(cc * f[k].c, f[k].p \o pp)]

RECURSIVE SumFrom(_, _)
SumFrom(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + SumFrom(s, k + 1)

\* Euler's identities tie the derivatives to the values, monomial by monomial.
EulerOK(f, x) ==
    \A k \in 1..Len(f) :
        LET g == Grad(<<f[k]>>, x)
            h == MonoHess(f[k], x)
            d == Len(f[k].p)
        IN  /\ SumFrom([a \in 1..Len(g) |-> g[a][2] * x[g[a][1]]], 1) = d * MonoVal(f[k], x)
            /\ SumFrom([a \in 1..Len(h) |-> (IF h[a][1] = h[a][2] THEN 1 ELSE 2) * h[a][3] * x[h[a][1]] * x[h[a][2]]], 1)
                  = d * (d - 1) * MonoVal(f[k], x)

\* deterministic pseudo random numbers (stay below 2^31)
HM == 46337
Mix(x) == (((x * x) % HM) * 3 + x * 24587 + 977) % HM
Hash(a, b) == Mix((Mix((Mix(a % HM) + (b % HM) * 7) % HM) + 4001) % HM)
Rnd(a, b, lo, hi) == lo + (Hash(a, b) % (hi - lo + 1))
Pick(a, b, s) == s[Rnd(a, b, 1, Len(s))]
===========================================================================
