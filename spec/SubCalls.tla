------------------------------ MODULE SubCalls ------------------------------
(***************************************************************************)
(* C12.  A model calls its submodels, each of which records its return in   *)
(* the caller, and collects the records into its outputs.  Evaluations may  *)
(* fail at any point, failures may be caught by a caller, and evaluations   *)
(* follow each other on the same objects.                                  *)
(*                                                                         *)
(* bufs[i][k] = <<>>, or <<out>>: what submodel k returned to node i and    *)
(* was not collected yet.  out is a sequence of [n |-> name, v |-> value].  *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS Seed, Walks, Len0, Exhaustive
VARIABLES w, step, bufs, con, par, dirty, last, hist
vars == <<w, step, bufs, con, par, dirty, last, hist>>

Nd(st, n, res, kids) == [st |-> st, n |-> n, res |-> res, kids |-> kids]
Kid(n, i) == [n |-> n, i |-> i]
Shapes == <<
  << Nd(TRUE, 2, <<2>>, << Kid("a", 2), Kid("b", 3) >>), Nd(FALSE, 1, <<>>, <<>>), Nd(FALSE, 2, <<1>>, <<>>) >>,
  << Nd(TRUE, 1, <<>>, << Kid("a", 2) >>), Nd(FALSE, 2, <<2>>, << Kid("a", 3), Kid("tire", 4) >>), Nd(FALSE, 1, <<1>>, <<>>), Nd(FALSE, 3, <<>>, <<>>) >>,
  << Nd(FALSE, 2, <<1>>, << Kid("left", 2), Kid("right", 3) >>), Nd(FALSE, 1, <<1>>, <<>>), Nd(FALSE, 1, <<1>>, <<>>) >>,
  << Nd(TRUE, 1, <<1>>, << Kid("body", 2), Kid("aero", 3) >>), Nd(TRUE, 2, <<2>>, << Kid("engine", 4) >>), Nd(FALSE, 1, <<>>, <<>>), Nd(FALSE, 2, <<1, 2>>, <<>>) >>,
  << Nd(TRUE, 3, <<3, 1>>, <<>>) >>,
  << Nd(FALSE, 1, <<>>, << Kid("a", 2) >>), Nd(FALSE, 1, <<>>, << Kid("a", 3) >>), Nd(FALSE, 1, <<1>>, << Kid("a", 4) >>), Nd(FALSE, 2, <<>>, <<>>) >> >>
Sh == Shapes[((w - 1) % Len(Shapes)) + 1]
Own(i) == [k \in 1..Sh[i].n |-> CASE k = 1 -> "y1" [] k = 2 -> "y2" [] OTHER -> "y3"]
RECURSIVE OutNames(_)
OutNames(i) == Own(i) \o Flat([k \in 1..Len(Sh[i].kids) |->
    LET kd == Sh[i].kids[k] sub == OutNames(kd.i) IN [j \in 1..Len(sub) |-> kd.n \o "." \o sub[j]]])
RECURSIVE ResNames(_)
ResNames(i) == [j \in 1..Len(Sh[i].res) |-> Own(i)[Sh[i].res[j]]] \o Flat([k \in 1..Len(Sh[i].kids) |->
    LET kd == Sh[i].kids[k] sub == ResNames(kd.i) IN [j \in 1..Len(sub) |-> kd.n \o "." \o sub[j]]])
Empty(i) == [k \in 1..Len(Sh[i].kids) |-> <<>>]
Has(out, n) == \E k \in 1..Len(out) : out[k].n = n
Lookup(out, n) == out[CHOOSE k \in 1..Len(out) : out[k].n = n].v

\* what a node does during one evaluation ----------------------------------
Call(k, miss, on, x) == [a |-> "call", c |-> k, miss |-> miss, on |-> on, x |-> x]
Collect(miss) == [a |-> "collect", c |-> 0, miss |-> miss, on |-> "raise", x |-> 0]
Raise(kind) == [a |-> "raise", c |-> 0, miss |-> kind, on |-> "raise", x |-> 0]
NFaults == 16
Script(i, f, h) ==
    LET K == Len(Sh[i].kids)
        v == IF K = 0 THEN 0 ELSE Rnd(h, 1, 1, K)                  \* the submodel the fault is about
        plain == [k \in 1..K |-> Call(k, "none", "raise", k)]
        upto == Rnd(h, 2, 0, K)
        with(acts) == [k \in 1..v |-> plain[k]] \o acts \o [k \in 1..(K - v) |-> plain[v + k]]
        inst(acts) == [k \in 1..Max2(v - 1, 0) |-> plain[k]] \o acts \o [k \in 1..(IF v = 0 THEN 0 ELSE K - v) |-> plain[v + k]]
        good == <<Collect("none")>>
    IN CASE f = 1 /\ K > 0 -> with(<<Call(v, "none", "raise", 5)>>) \o good
         [] f = 2 /\ K > 0 -> with(<<Call(v, "none", "catch", 5)>>) \o good
         [] f = 3 /\ K > 0 -> inst(<<>>) \o good
         [] f = 4 /\ K > 0 -> inst(<<Call(v, "input", "raise", 2)>>) \o good
         [] f = 5 /\ K > 0 -> inst(<<Call(v, "input", "catch", 2), Call(v, "none", "raise", 3)>>) \o good
         [] f = 6 /\ K > 0 -> inst(<<Call(v, "extra", "raise", 4)>>) \o good
         [] f = 7 -> SubSeq(plain, 1, upto) \o <<Raise("error")>>
         [] f = 8 -> plain \o <<Collect("own")>>
         [] f = 9 -> plain
         [] f = 10 -> plain \o good \o good
         [] f = 11 -> plain \o good \o [k \in 1..K |-> Call(k, "none", "raise", 6 + k)] \o good
         [] f = 12 -> [k \in 1..K |-> plain[K + 1 - k]] \o good
         [] f = 13 /\ K > 0 -> inst(<<Call(v, "none", "retry", 2)>>) \o good
         [] f = 14 -> SubSeq(plain, 1, upto) \o <<Call(0, "none", "raise", 1)>> \o good
         [] f = 15 -> SubSeq(plain, 1, upto) \o <<Raise("interrupt")>>
         [] f = 16 /\ K > 0 -> inst(<<Call(v, "state", "raise", 2)>>) \o good
         [] OTHER -> plain \o good
\* faults of submodels during an evaluation: mostly none, and none that forgets to collect
SubFault(h) == IF h % 4 # 0 THEN 0 ELSE LET f == Rnd(h, 3, 1, NFaults) IN IF f = 9 THEN 0 ELSE f

NoPar(i) == i = 1 /\ (w - 1) % Len(Shapes) = 3                \* a model without parameters of its own
OwnOut(i, x, z, p, acc, tag, upto) ==
    [k \in 1..upto |-> [n |-> Own(i)[k], v |-> k * x + 3 * z + (IF NoPar(i) THEN 0 ELSE p) + acc + tag]]
\* env: [bufs, cnt (evaluations of each node so far), scr (their scripts), tag, h, p (parameter in force)]
Res(ok, out, e) == [ok |-> ok, out |-> out, e |-> e]
RECURSIVE Eval(_, _, _, _, _), Acts(_, _, _, _, _, _, _), RunCall(_, _, _, _)
Eval(i, x, z, f, e) ==
    LET s == Script(i, f, Hash(e.h, 31 * i + e.cnt[i]))
        e1 == [e EXCEPT !.cnt[i] = @ + 1, !.scr[i] = Append(@, s)]
        r == Acts(i, s, x, z, 0, <<>>, e1)
    IN IF r.ok THEN r ELSE Res(FALSE, <<>>, [r.e EXCEPT !.bufs[i] = Empty(i)])
Acts(i, s, x, z, acc, ret, e) ==
    IF s = <<>> THEN Res(TRUE, IF ret = <<>> THEN OwnOut(i, x, z, e.p, acc, e.tag, Sh[i].n) ELSE ret[1], e)
    ELSE LET a == Head(s) t == Tail(s) IN
    CASE a.a = "raise" -> Res(FALSE, <<>>, e)
      [] a.a = "collect" ->
           IF \E k \in 1..Len(e.bufs[i]) : e.bufs[i][k] = <<>> THEN Res(FALSE, <<>>, e)
           ELSE LET e1 == [e EXCEPT !.bufs[i] = Empty(i)]
                    own == OwnOut(i, x, z, e.p, acc, e.tag, IF a.miss = "own" THEN Sh[i].n - 1 ELSE Sh[i].n)
                    out == own \o Flat([k \in 1..Len(e.bufs[i]) |->
                              LET o == e.bufs[i][k][1] IN [j \in 1..Len(o) |-> [n |-> Sh[i].kids[k].n \o "." \o o[j].n, v |-> o[j].v]]])
                IN IF \A k \in 1..Len(OutNames(i)) : Has(out, OutNames(i)[k])
                   THEN Acts(i, t, x, z, acc, <<out>>, e1) ELSE Res(FALSE, <<>>, e1)
      [] a.a = "call" ->
           LET r == RunCall(i, a, x, e)
               r2 == IF ~r.ok /\ a.on = "retry" THEN RunCall(i, a, x, r.e) ELSE r
           IN IF r2.ok THEN Acts(i, t, x, z, acc + r2.out[1].v, ret, r2.e)
              ELSE IF a.on = "catch" THEN Acts(i, t, x, z, acc, ret, r2.e)
              ELSE r2
RunCall(i, a, x, e) ==
    IF a.c = 0 THEN Res(FALSE, <<>>, e)                               \* no such submodel
    ELSE LET kd == Sh[i].kids[a.c] IN
    IF e.bufs[i][a.c] # <<>> THEN Res(FALSE, <<>>, e)                 \* called again
    ELSE IF a.miss = "input" \/ (a.miss = "state" /\ Sh[kd.i].st) THEN Res(FALSE, <<>>, e)
    ELSE LET r == Eval(kd.i, x + a.x, IF Sh[kd.i].st THEN a.x ELSE 0, SubFault(Hash(e.h, 97 * kd.i + e.cnt[kd.i])), e) IN
         IF r.ok THEN Res(TRUE, r.out, [r.e EXCEPT !.bufs[i][a.c] = <<r.out>>]) ELSE r

--------------------------------------------------------------------------
\* operations on the assembled model
Ways(i) == IF i > 1 THEN <<"dict", "array">>
           ELSE IF Sh[1].st THEN <<"dict", "array", "apply", "applyarray", "implicit", "dict", "array">>
           ELSE <<"dict", "array", "apply", "applyarray">>
Fields(i, out) == IF out = <<>> THEN <<>> ELSE
    [k \in 1..Len(OutNames(i)) |-> IF Has(out, OutNames(i)[k]) THEN <<Lookup(out, OutNames(i)[k])>> ELSE <<>>]
DoEval(h, f0, i) ==
    LET x == Rnd(h, 1, -5, 5)
        z == IF Sh[i].st THEN Rnd(h, 2, 1, 4) ELSE 0
        wy0 == Pick(h, 3, Ways(i))
        wy == IF f0 = 9 /\ wy0 # "apply" THEN "dict" ELSE wy0          \* array forms need collected outputs
        p == IF wy \in {"apply", "applyarray"} THEN par + 7 ELSE par
        e0 == [bufs |-> bufs, cnt |-> [k \in 1..Len(Sh) |-> 0], scr |-> [k \in 1..Len(Sh) |-> <<>>],
               tag |-> (step + 1) * 1000, h |-> Hash(h, 4), p |-> p]
        r == Eval(i, x, z, f0, e0)
    IN /\ bufs' = r.e.bufs
       /\ dirty' = (dirty \/ (f0 = 9))
       /\ last' = [op |-> [k |-> "eval", i |-> i, x |-> x, z |-> z, p |-> p, way |-> wy, tag |-> e0.tag, scr |-> r.e.scr],
                   ok |-> r.ok, out |-> r.out, f |-> f0,
                   vals |-> Fields(i, r.out),
                   con |-> IF i = 1 /\ r.ok THEN [k \in 1..Len(con) |-> IF Has(r.out, con[k]) THEN <<Lookup(r.out, con[k])>> ELSE <<>>] ELSE <<>>,
                   res |-> IF r.ok THEN [k \in 1..Len(ResNames(i)) |-> IF Has(r.out, ResNames(i)[k]) THEN <<Lookup(r.out, ResNames(i)[k])>> ELSE <<>>] ELSE <<>>]
       /\ UNCHANGED <<con, par>>
Blank(o) == [op |-> o, ok |-> TRUE, out |-> <<>>, f |-> -1, vals |-> <<>>, con |-> <<>>, res |-> <<>>]
SetCon(h) ==
    LET nn == OutNames(1) n == Rnd(h, 1, 0, 3) o == Rnd(h, 2, 0, Len(nn) - 1) IN
    /\ con' = IF n > Len(nn) THEN <<nn[1]>> ELSE [k \in 1..n |-> nn[((o + k * Rnd(h, 3, 1, 1)) % Len(nn)) + 1]]
    /\ last' = Blank([k |-> "setcon", con |-> con'])
    /\ UNCHANGED <<bufs, par, dirty>>
SetPar(h) ==
    /\ par' = Rnd(h, 1, 1, 50)
    /\ last' = Blank([k |-> "setpar", v |-> par'])
    /\ UNCHANGED <<bufs, con, dirty>>

Init ==
    /\ w \in 1..Walks /\ step = 0
    /\ bufs = [i \in 1..Len(Sh) |-> Empty(i)]
    /\ con = <<>> /\ par = 1 /\ dirty = FALSE
    /\ last = Blank([k |-> "init", shape |-> Sh])
    /\ hist = <<>>
NextX ==
    \E f \in 0..NFaults : DoEval(Hash(Seed * 7 + w, f * 31 + step), f, 1)
NextR ==
    LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) g == Hash(h, 9) k == h % 12 IN
    IF k = 0 /\ Sh[1].st THEN SetCon(g)
    ELSE IF k = 1 THEN SetPar(g)
    ELSE LET f == IF k < 6 THEN 0 ELSE Rnd(g, 5, 1, NFaults)
             i == IF k \in {5, 11} THEN Rnd(g, 6, 1, Len(Sh)) ELSE 1
         IN DoEval(g, f, i)
Next == /\ step < Len0 /\ step' = step + 1 /\ w' = w
        /\ IF Exhaustive THEN NextX ELSE NextR
        /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
Spec == Init /\ [][Next]_vars

\* design: nothing stays recorded between evaluations unless a model returned without collecting
TypeOK == ~dirty => \A i \in 1..Len(Sh) : bufs[i] = Empty(i)
\* a failed evaluation leaves no record in the model that failed
FailureClears == [][(last'.f >= 0 /\ ~last'.ok) => bufs'[last'.op.i] = Empty(last'.op.i)]_vars
\* every collected value stems from the current evaluation
Fresh == [][(last'.f >= 0 /\ last'.ok /\ ~dirty) => \A k \in 1..Len(last'.out) : last'.out[k].v >= last'.op.tag - 500]_vars
Ans == [w |-> w, step |-> step, last |-> last, hist |-> hist, shape |-> Sh,
        names |-> [i \in 1..Len(Sh) |-> [o |-> OutNames(i), r |-> ResNames(i)]], con |-> con, par |-> par]
Out == EmitJson(Ans, <<w, step, hist>>)
=============================================================================
