----------------------------- MODULE BuildWalk -----------------------------
(***************************************************************************)
(* C18, schedules.  The steps of Build.tla as far as they can be told apart *)
(* from outside: a builder is stopped before its compiler is started (at    *)
(* its k-th file operation), when it starts, when half or all of its        *)
(* output is written, after it has returned (at the k-th file operation),   *)
(* or it has finished; there it goes on, is killed (with or without its     *)
(* compiler), its compiler fails, or others build meanwhile.                *)
(* lib[d][c] is what the directory d holds for the equations c: "none",     *)
(* "whole", or "maybe" while a builder is stopped or was killed where it    *)
(* cannot be told whether the library was in place already.                 *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS Seed, Walks, Len0, Exhaustive
VARIABLES w, step, lib, pr, last, hist
vars == <<w, step, lib, pr, last, hist>>
Slots == 1..3
Dirs == 1..2
NEq == 7
\* equations 6 and 7 are those of 1 and 4 by other names and with other default parameters
Class(e) == CASE e = 6 -> 1 [] e = 7 -> 4 [] OTHER -> e
Off == [st |-> "off", e |-> 0, d |-> 0, held |-> <<>>]
Max == 4
Cur(p) == pr[p]
\* a step of builder p: its new state, the library state of its directory, and what must be seen
Did(op, exp, P, L) == /\ pr' = P /\ lib' = L /\ last' = [op |-> op, exp |-> exp, held |-> [q \in Slots |-> P[q].held]]
Skip == Did([k |-> "skip"], "nothing", pr, lib)
SetSt(p, st) == [pr EXCEPT ![p].st = st]
Hold(p, e) == [pr EXCEPT ![p].st = "idle", ![p].held = Append(@, e)]
WholeIn(d, e) == [lib EXCEPT ![d][Class(e)] = "whole"]
MaybeIn(d, e) == IF lib[d][Class(e)] = "whole" THEN lib ELSE [lib EXCEPT ![d][Class(e)] = "maybe"]
\* on to the compiler, or to the end when there is no need for it
OnTo(op, p, e, d, P) ==
    IF lib[d][Class(e)] = "none" THEN Did(op, "compiler", [P EXCEPT ![p].st = "start"], lib)
    ELSE Did(op, "built", [P EXCEPT ![p].st = "idle", ![p].held = Append(@, e)], WholeIn(d, e))
Begin(p, e, d, k) ==
    IF pr[p].st \notin {"off", "idle"} \/ Len(pr[p].held) >= Max THEN Skip
    ELSE LET P == [pr EXCEPT ![p].e = e, ![p].d = d]
             op == [k |-> "begin", p |-> p, e |-> e, d |-> d, n |-> k, new |-> pr[p].st = "off"] IN
         IF k > 0 THEN Did(op, "stopped", [P EXCEPT ![p].st = "pre"], lib)
         ELSE OnTo(op, p, e, d, P)
Go(p, k) ==
    LET e == pr[p].e  d == pr[p].d IN
    CASE pr[p].st = "pre" -> OnTo([k |-> "go", p |-> p, n |-> 0], p, e, d, pr)
      [] pr[p].st \in {"start", "half", "whole"} ->
            IF k > 0 THEN Did([k |-> "end", p |-> p, n |-> k], "stopped", SetSt(p, "post"), MaybeIn(d, e))
            ELSE Did([k |-> "end", p |-> p, n |-> 0], "built", Hold(p, e), WholeIn(d, e))
      [] pr[p].st = "post" -> Did([k |-> "go", p |-> p, n |-> 0], "built", Hold(p, e), WholeIn(d, e))
      [] OTHER -> Skip
Half(p) == IF pr[p].st # "start" THEN Skip ELSE Did([k |-> "half", p |-> p], "half", SetSt(p, "half"), lib)
Whole(p) == IF pr[p].st \notin {"start", "half"} THEN Skip ELSE Did([k |-> "whole", p |-> p], "whole", SetSt(p, "whole"), lib)
\* nothing is in place afterwards that was not before
Fail(p, how) == IF pr[p].st \notin {"start", "half", "whole"} THEN Skip
                ELSE Did([k |-> "fail", p |-> p, how |-> how], "error", SetSt(p, "idle"), lib)
Kill(p, how) == IF pr[p].st = "off" THEN Skip
                ELSE Did([k |-> "kill", p |-> p, how |-> IF pr[p].st \in {"start", "half", "whole"} THEN how ELSE "group"],
                         "gone", [pr EXCEPT ![p] = Off],
                         IF pr[p].st \in {"pre", "post"} THEN MaybeIn(pr[p].d, pr[p].e) ELSE lib)
Eval(p) == IF pr[p].st # "idle" \/ pr[p].held = <<>> THEN Skip ELSE Did([k |-> "eval", p |-> p], "values", pr, lib)
\* the user throws the libraries away while nobody builds there
Clean(d) == IF \E p \in Slots : pr[p].d = d /\ pr[p].st \notin {"off", "idle"} THEN Skip
            ELSE Did([k |-> "clean", d |-> d], "nothing", pr, [lib EXCEPT ![d] = [c \in 1..NEq |-> "none"]])
\* everybody goes on to the end
Finish == Did([k |-> "finish"], "built", pr, lib)

\* exhaustive: builder 1 is brought to every point, something happens there, builder 2 builds the same or
\* other equations, and things go on
DoX ==
    CASE step = 0 -> \E k \in 0..12 : Begin(1, 3, 1, k)
      [] step = 1 -> \/ Skip
                     \/ pr[1].st = "start" /\ (Half(1) \/ Whole(1) \/ \E k \in 1..11 : Go(1, k))
      [] step = 2 -> \/ Skip
                     \/ Kill(1, "group")
                     \/ pr[1].st \in {"start", "half", "whole"} /\ (Kill(1, "alone") \/ Fail(1, "exit") \/ Fail(1, "signal"))
      [] step = 3 -> \E e \in {3, 4} : Begin(2, e, 1, 0)
      [] step = 4 -> IF pr[2].st = "idle" THEN Skip ELSE Go(2, 0)
      [] step = 5 -> Finish
DoR(h) ==
    LET k == Rnd(h, 1, 0, 29)  p == Rnd(h, 2, 1, 3)
        d == IF h % 5 = 0 THEN 2 ELSE 1
        \* favour equations somebody is building already, and those that look alike
        e == IF h % 3 = 0 THEN (IF pr[1 + (p % 3)].e = 0 THEN 1 + (w % 2) ELSE pr[1 + (p % 3)].e)
             ELSE IF h % 3 = 1 THEN Pick(h, 3, IF w % 2 = 0 THEN <<1, 2, 6>> ELSE <<3, 4, 7>>) ELSE Rnd(h, 4, 1, NEq) IN
    IF step + 1 = Len0 THEN Finish
    ELSE IF pr[p].st \in {"off", "idle"} THEN
        CASE k < 20 -> Begin(p, e, d, IF k % 3 = 0 THEN Rnd(h, 5, 1, 18) ELSE 0)
          [] k < 23 -> Eval(p) [] k < 25 -> Kill(p, "group") [] k < 27 -> Clean(d) [] OTHER -> Begin(p, e, d, 0)
    ELSE CASE k < 6 -> Half(p) [] k < 10 -> Whole(p)
           [] k < 18 -> Go(p, IF k % 2 = 0 THEN Rnd(h, 6, 1, 10) ELSE 0)
           [] k < 22 -> Kill(p, IF k = 21 THEN "alone" ELSE "group")
           [] k < 25 -> Fail(p, Pick(h, 7, <<"exit", "signal", "nothing">>))
           [] OTHER -> Begin(1 + (p % 3), pr[p].e, pr[p].d, 0)
Init == /\ w \in 1..Walks /\ step = 0
        /\ lib = [d \in Dirs |-> [c \in 1..NEq |-> "none"]] /\ pr = [p \in Slots |-> Off]
        /\ last = [op |-> [k |-> "init"], exp |-> "nothing", held |-> [q \in Slots |-> <<>>]] /\ hist = <<>>
Next == /\ step < Len0 /\ step' = step + 1 /\ w' = w
        /\ IF Exhaustive THEN DoX ELSE DoR(Hash(Seed * 7 + w * 103, step * 19 + 5))
        /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A p \in Slots : pr[p].st \in {"off", "idle", "pre", "start", "half", "whole", "post"} /\ Len(pr[p].held) <= Max
          /\ \A d \in Dirs : \A c \in 1..NEq : lib[d][c] \in {"none", "maybe", "whole"}
\* a compiler is only needed where there is no library for these very equations
NeedsOne == \A p \in Slots : pr[p].st = "start" /\ last.exp = "compiler" /\ last.op.p = p => lib[pr[p].d][Class(pr[p].e)] = "none"
\* a library stays until the user removes it, whatever happens to the builders
StaysPut == [][\A d \in Dirs : \A c \in 1..NEq : lib[d][c] = "whole" => lib'[d][c] = "whole" \/ last'.op.k = "clean"]_vars
\* a model once built is held until its process ends
HeldStays == [][\A p \in Slots : \/ last'.op.k = "kill"
                                 \/ SubSeq(pr'[p].held, 1, Len(pr[p].held)) = pr[p].held]_vars

\* the equations: x' = f, the algebraic output g, the residual r, the output y, at states s, inputs u, parameter q
N == 150
Pad(s, u) == N * s * u + (u - s) * ((N * (N + 1)) \div 2) - ((N * (N + 1) * (2 * N + 1)) \div 6)
Big(e) == Class(e) \in {3, 4}
\* the constant of the equations, and the one that appears only at the end of the source
Const(e) == CASE Class(e) = 2 -> 4 [] OTHER -> 3
Late(e) == IF Class(e) = 4 THEN 8 ELSE 7
F(e, s, u, q) == Const(e) * s + (IF e = 5 THEN 0 ELSE u * s) + q
G(e, s, u, q) == u * u * Const(e) + q * s
R(e, s, u, q) == s - u * Late(e) + (IF Big(e) THEN Pad(s, u) ELSE 0)
Y(e, s, u, q) == s * s + Const(e) * u
\* derivatives to (s, u) and second derivatives <<ss, su, uu>>
dF(e, s, u, q) == IF e = 5 THEN <<Const(e), 0>> ELSE <<Const(e) + u, s>>
dG(e, s, u, q) == <<q, 2 * u * Const(e)>>
dR(e, s, u, q) == IF Big(e) THEN <<1 + N * u - ((N * (N + 1)) \div 2), N * s + ((N * (N + 1)) \div 2) - Late(e)>> ELSE <<1, -Late(e)>>
hF(e) == IF e = 5 THEN <<0, 0, 0>> ELSE <<0, 1, 0>>
hG(e) == <<0, 0, 2 * Const(e)>>
hR(e) == IF Big(e) THEN <<0, N, 0>> ELSE <<0, 0, 0>>
Pts == <<<<2, 3, 5>>, <<-1, 4, 2>>, <<7, -2, -3>>>>
Vals(e) == [i \in 1..Len(Pts) |->
    LET s == Pts[i][1]  u == Pts[i][2]  q == Pts[i][3] IN
    [f |-> F(e, s, u, q), g |-> G(e, s, u, q), r |-> R(e, s, u, q), y |-> Y(e, s, u, q),
     df |-> dF(e, s, u, q), dg |-> dG(e, s, u, q), dr |-> dR(e, s, u, q), hf |-> hF(e), hg |-> hG(e), hr |-> hR(e)]]
ASSUME \A e \in 1..NEq : Vals(e) = Vals(Class(e))
ASSUME \A e, f \in 1..NEq : Class(e) # Class(f) => Vals(e) # Vals(f)
Table == [pts |-> Pts, n |-> N, const |-> [e \in 1..NEq |-> Const(e)], late |-> [e \in 1..NEq |-> Late(e)],
          big |-> [e \in 1..NEq |-> Big(e)], vals |-> [e \in 1..NEq |-> Vals(e)]]
Ans == [w |-> w, step |-> step, last |-> last, hist |-> hist, lib |-> lib]
\* the table of values goes out once; exhaustive runs put out whole histories only
Out == IF Exhaustive /\ step < Len0 THEN TRUE
       ELSE EmitJson(IF step = 0 THEN [Ans EXCEPT !.hist = <<Table>>] ELSE Ans, <<w, step, hist>>)
=============================================================================
