----------------------------- MODULE Composite -----------------------------
(***************************************************************************)
(* C02.  A composite problem as the sequence of its constraint blocks and  *)
(* the sequence of its objectives, every part a list of integer polynomials *)
(* (Poly).  Evaluations concatenate and sum over the current sequences.    *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS Seed, Walks, Len0, Exhaustive
VARIABLES w, step, n, cons, objs, last, hist
vars == <<w, step, n, cons, objs, last, hist>>

Names(s) == {s[k].name : k \in 1..Len(s)}
Drop(s, x) == SelectSeq(s, LAMBDA e : e.name # x)
RV(h, k) == Rnd(h, k, 0, n - 1)
\* polynomials of degree at most 3 in n variables
RMono(h, k) ==
    LET d == Rnd(h, k, 0, 3) IN Mono(Rnd(h, k + 40, -3, 3), [j \in 1..d |-> RV(h, k * 7 + j)])
RPoly(h) == [k \in 1..Rnd(h, 1, 1, 3) |-> RMono(h, k + 1)]
RLin(h) == [k \in 1..Rnd(h, 1, 1, 3) |-> Mono(Rnd(h, k + 40, -3, 3), <<RV(h, k + 3)>>)]
\* how the part declares its derivatives
Con(h, nm) ==
    LET lin == h % 4 = 0 IN
    [ name |-> nm, n |-> n, lin |-> lin, jac |-> Pick(h, 3, <<"dense", "sparse", "repeated", "matrix">>),
      hess |-> Pick(h, 4, <<"dense", "full", "upper">>), cached |-> Rnd(h, 5, 0, 1) = 1,
      rows |-> [k \in 1..Rnd(h, 2, 0, 3) |-> IF lin THEN RLin(Hash(h, 10 + k)) ELSE RPoly(Hash(h, 10 + k))] ]
Obj(h, nm) == [ name |-> nm, n |-> n, hess |-> Pick(h, 4, <<"dense", "full", "upper">>), poly |-> RPoly(Hash(h, 11)) ]

Did(o, ok, c, b) == [op |-> o, ok |-> ok, cons |-> c, objs |-> b]
AddCon(p) ==
    IF p.name \in Names(cons) \/ p.n # n THEN Did([k |-> "addcon", part |-> p], FALSE, cons, objs)
    ELSE Did([k |-> "addcon", part |-> p], TRUE, Append(cons, p), objs)
AddObj(p) ==
    IF p.name \in Names(objs) THEN Did([k |-> "addobj", part |-> p], FALSE, cons, objs)
    ELSE Did([k |-> "addobj", part |-> p], TRUE, cons, Append(objs, p))
DelCon(x) == Did([k |-> "delcon", name |-> x], x \in Names(cons), Drop(cons, x), objs)
DelObj(x) == Did([k |-> "delobj", name |-> x], x \in Names(objs), cons, Drop(objs, x))
Look(k) == Did([k |-> k], TRUE, cons, objs)
Do(kind, h) ==
    CASE kind = "addcon"  -> AddCon(Con(h, Pick(h, 1, <<"a", "b", "c", "d", "e">>)))
      [] kind = "wrongcon" -> AddCon([Con(h, "f") EXCEPT !.n = IF h % 2 = 0 THEN n + 1 ELSE n - 1, !.rows = << >>])
      [] kind = "delcon"  -> DelCon(Pick(h, 1, <<"a", "b", "c", "d", "e">>))
      [] kind = "addobj"  -> AddObj(Obj(h, Pick(h, 1, <<"a", "b", "o">>)))
      [] kind = "delobj"  -> DelObj(Pick(h, 1, <<"a", "b", "o">>))
      [] kind = "acon" -> AddCon(Con(Hash(h, 1), "a"))
      [] kind = "bcon" -> AddCon(Con(Hash(h, 2), "b"))
      [] kind = "dela" -> DelCon("a")
      [] kind = "aobj" -> AddObj(Obj(Hash(h, 3), "o"))
      [] kind = "delo" -> DelObj("o")
      [] OTHER -> Look(kind)
Looks == <<"hstruct", "heval", "jstruct", "values", "split", "counts">>
Kinds == <<"addcon", "addcon", "addcon", "delcon", "addobj", "addobj", "delobj", "wrongcon">> \o Looks
Alphabet == <<"acon", "bcon", "dela", "aobj", "delo", "hstruct", "heval", "wrongcon">>

Init ==
    /\ w \in 1..Walks /\ step = 0
    /\ n = Rnd(Seed, w, 2, 4)
    /\ cons = <<>> /\ objs = <<>>
    /\ last = [op |-> [k |-> "init"], ok |-> TRUE] /\ hist = <<>>
Take(d) == /\ cons' = (IF d.ok THEN d.cons ELSE cons) /\ objs' = (IF d.ok THEN d.objs ELSE objs)
           /\ last' = [op |-> d.op, ok |-> d.ok]
           /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
Next ==
    /\ step < Len0 /\ step' = step + 1 /\ w' = w /\ n' = n
    /\ IF Exhaustive
       THEN \E a \in 1..Len(Alphabet) : Take(Do(Alphabet[a], Hash(Seed * 3 + w, 1009)))
       ELSE LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) IN Take(Do(Pick(h, 1, Kinds), Hash(h, 9)))
Spec == Init /\ [][Next]_vars

RejectedKeeps == [][~last'.ok => UNCHANGED <<cons, objs>>]_vars
Distinct == Cardinality(Names(cons)) = Len(cons) /\ Cardinality(Names(objs)) = Len(objs)

\* the evaluations -----------------------------------------------------------
X == [k \in 0..(n - 1) |-> Rnd(Seed + w, step * 31 + k, -3, 3)]
AllRows == Flat([k \in 1..Len(cons) |-> cons[k].rows])
Lam == [k \in 1..Len(AllRows) |-> Rnd(Seed + w, step * 57 + 300 + k, -3, 3)]
Of == Rnd(Seed + w, step + 900, 0, 3)
Offset(k) == SumFrom([j \in 1..(k - 1) |-> Len(cons[j].rows)], 1)
Times3(hh, q) == [k \in 1..Len(hh) |-> <<hh[k][1], hh[k][2], q * hh[k][3]>>]
Ans ==
    LET r == AllRows
        ob == Flat([k \in 1..Len(objs) |-> objs[k].poly]) IN
    [ w |-> w, step |-> step, n |-> n, last |-> last, hist |-> hist, names |-> [k \in 1..Len(cons) |-> cons[k].name],
      sizes |-> [k \in 1..Len(cons) |-> Len(cons[k].rows)], offsets |-> [k \in 1..Len(cons) |-> Offset(k)],
      x |-> [k \in 1..n |-> X[k - 1]], lam |-> Lam, of |-> Of,
      val |-> [k \in 1..Len(r) |-> Val(r[k], X)], jac |-> [k \in 1..Len(r) |-> Grad(r[k], X)],
      obj |-> Val(ob, X), grad |-> Grad(ob, X),
      hess |-> Flat([k \in 1..Len(r) |-> Times3(Hess(r[k], X), Lam[k])]) \o Times3(Hess(ob, X), Of) ]
\* sums over parts equal the parts' own values
Sums == SumFrom([k \in 1..Len(objs) |-> Val(objs[k].poly, X)], 1) = Ans.obj
Out == EmitJson(Ans, <<w, step, hist>>)
===========================================================================
