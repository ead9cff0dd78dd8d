------------------------------- MODULE MapWalk -------------------------------
(***************************************************************************)
(* C14.  One mapped function, called again and again with batches of       *)
(* different size and different shared arguments.  What a call returns is   *)
(* a function of that call's arguments: the results of the function for the *)
(* elements of the batch, in order.                                        *)
(*                                                                         *)
(* A function has arguments of size r x c (flattened row by row) and        *)
(* outputs of size r x c, whose entries are polynomials of all arguments;   *)
(* an entry without monomials is a structural zero.                        *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS Seed, Walks, Len0
VARIABLES w, step, last
vars == <<w, step, last>>

HW == Hash(Seed, w * 13)
\* kinds: 0 loop (lmap), 1 loop over JAX values, 2 CasADi dense, 3 CasADi sparse
Kind == w % 4
NIn == Rnd(HW, 1, 1, 4)
Shared(k) == k > 1 /\ Rnd(HW, 20 + k, 0, 2) = 0
\* sizes: scalar <<1,1>> (kind "s"), vectors, and matrices for shared arguments
InDim(k) ==
    LET g == Hash(HW, 30 + k) IN
    IF Shared(k) THEN Pick(g, 1, << <<1, 1>>, <<2, 1>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 3>>, <<1, 3>> >>)
    ELSE Pick(g, 1, << <<1, 1>>, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<4, 1>> >>)
Size(d) == d[1] * d[2]
NV == SumFrom([k \in 1..NIn |-> Size(InDim(k))], 1)
NOut == IF Kind = 3 THEN 1 ELSE Rnd(HW, 2, 1, 3)
OutDim(k) ==
    LET g == Hash(HW, 50 + k) IN
    IF Kind = 3 THEN Pick(g, 1, << <<2, 2>>, <<3, 2>>, <<2, 4>>, <<3, 3>>, <<1, 3>>, <<4, 1>> >>)
    ELSE IF Kind = 2 THEN Pick(g, 1, << <<1, 1>>, <<2, 1>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<4, 1>> >>)
    ELSE Pick(g, 1, << <<1, 1>>, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<2, 2>>, <<3, 2>> >>)
MonoAt(h) == [c |-> Pick(h, 1, <<1, 2, 3, -1, -2>>), v |-> [q \in 1..Rnd(h, 2, 1, 2) |-> Rnd(h, 3 + q, 1, NV)]]
Entry(h) ==
    IF Kind = 3 /\ h % 5 < 2 THEN <<>>
    ELSE [q \in 1..Rnd(h, 7, 1, 2) |-> MonoAt(Hash(h, 10 + q))]
Outs == [k \in 1..NOut |-> [r |-> OutDim(k)[1], c |-> OutDim(k)[2],
                            e |-> [q \in 1..Size(OutDim(k)) |-> Entry(Hash(HW, 1000 * k + q))]]]
Fn == [ins |-> [k \in 1..NIn |-> [r |-> InDim(k)[1], c |-> InDim(k)[2], shared |-> Shared(k)]], outs |-> Outs]
Ev(e, x) == SumFrom([k \in 1..Len(e) |-> e[k].c * ProdFrom(e[k].v, x, 1)], 1)

\* a call: n elements; an argument is one value per element, or one for all
Call(h) ==
    LET n == Pick(h, 1, <<1, 2, 3, 4, 5, 7, 2, 3, 2>>)
        arg == [k \in 1..NIn |->
                  LET rows == IF Shared(k) THEN 1 ELSE n IN
                  [i \in 1..rows |-> [q \in 1..Size(InDim(k)) |-> Rnd(h, 1000 * k + 40 * i + q, -3, 3)]]]
        x(i) == Flat([k \in 1..NIn |-> arg[k][IF Shared(k) THEN 1 ELSE i]])
    IN [k |-> "call", n |-> n, arg |-> arg,
        out |-> [o \in 1..NOut |-> [i \in 1..n |-> [q \in 1..Size(OutDim(o)) |-> Ev(Outs[o].e[q], x(i))]]]]
\* a call that must fail: one argument is of the wrong size; later calls are not affected
Bad(h) == [Call(h) EXCEPT !.k = "bad"]
Init == /\ w \in 1..Walks /\ step = 0 /\ last = [k |-> "init"]
Next == /\ step < Len0 /\ step' = step + 1 /\ w' = w
        /\ LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) IN
           last' = IF h % 7 = 0 THEN Bad(Hash(h, 9)) ELSE Call(Hash(h, 9))
Spec == Init /\ [][Next]_vars
\* design: one result per element; equal elements give equal results
OnePerElement == last.k = "call" =>
    \A o \in 1..NOut : /\ Len(last.out[o]) = last.n
                       /\ \A i, j \in 1..last.n :
                             (\A k \in 1..NIn : Shared(k) \/ last.arg[k][i] = last.arg[k][j]) => last.out[o][i] = last.out[o][j]
Ans == [w |-> w, step |-> step, kind |-> Kind, fn |-> Fn, form |-> Rnd(HW, 8, 0, 2), last |-> [op |-> last], hist |-> <<>>]
Out == EmitJson(Ans, <<w, step>>)
=============================================================================
