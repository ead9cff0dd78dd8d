------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* C04.  Variable bounds.  base: what bound updates last wrote, position by *)
(* position; bcs: the boundary conditions in the order they were added.    *)
(* In force at a position: the value of the boundary condition added last  *)
(* for it, otherwise base.                                                 *)
(***************************************************************************)
EXTENDS Ocp, Emit
CONSTANTS Seed, Walks, Len0, Exhaustive
VARIABLES w, step, st, last, hist
vars == <<w, step, st, last, hist>>

Inf == 1000000
DW == 12
Groups(c) == <<"states", "inputs", "states_dot", "con_outputs">>
VNames(c, g) ==
    CASE g = "states" -> Mod(c).states [] g = "states_dot" -> Mod(c).states
      [] g = "inputs" -> Mod(c).inputs
      [] g = "con_outputs" -> [k \in 1..NC(c) |-> Mod(c).outputs[c.con[k]]]
      [] g = "global" -> IF Free(c) THEN <<"mesh_scale">> ELSE <<>>
      [] OTHER -> <<>>
KnownVar(c, g, n) == \E k \in 1..Len(VNames(c, g)) : VNames(c, g)[k] = n
No(c, g, n) == CHOOSE k \in 1..Len(VNames(c, g)) : VNames(c, g)[k] = n
StageLegal(c, s) == s >= -Stages(c) /\ s < Stages(c)
PosOf(c, g, n, s) == IF g = "global" THEN MeshPos(c) ELSE Pos(Shape(c), g, No(c, g, n) - 1, s)
Positions(c, g, n) == IF g = "global" THEN {MeshPos(c)} ELSE {PosOf(c, g, n, s) : s \in 0..(Stages(c) - 1)}

--------------------------------------------------------------------------
(* Bound update entries: [g, n, kind ("scalar"/"array"), lo, hi: sequences   *)
(* of length 1 (scalar) or one per stage]                                   *)
EntryOK(c, e) ==
    /\ KnownVar(c, e.g, e.n)
    /\ Len(e.lo) = Len(e.hi)
    /\ \A k \in 1..Len(e.lo) : e.lo[k] <= e.hi[k]
    /\ e.kind = "array" => Len(e.lo) = Stages(c)
StageOf(c, p) == p \div NumVarStage(Shape(c))
ApplyEntry(c, b, e) ==
    LET at(s, p) == IF e.kind = "array" THEN s[StageOf(c, p) + 1] ELSE s[1]
        ps == Positions(c, e.g, e.n)
    IN [ lo |-> [p \in DOMAIN b.lo |-> IF p \in ps THEN at(e.lo, p) ELSE b.lo[p]],
         hi |-> [p \in DOMAIN b.hi |-> IF p \in ps THEN at(e.hi, p) ELSE b.hi[p]] ]
RECURSIVE ApplyEntries(_, _, _)
ApplyEntries(c, b, l) == IF l = <<>> THEN b ELSE ApplyEntries(c, ApplyEntry(c, b, Head(l)), Tail(l))

BCOK(c, e) == KnownVar(c, e.g, e.n) /\ e.g # "global" /\ StageLegal(c, e.s)
BCPos(c, l) == [k \in 1..Len(l) |-> [p |-> PosOf(c, l[k].g, l[k].n, l[k].s), v |-> l[k].v]]

LastBC(bcs, p) == LET ks == {k \in 1..Len(bcs) : bcs[k].p = p} IN
                  IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
Lo(s, p) == LET k == LastBC(s.bcs, p) IN IF k = 0 THEN s.base.lo[p] ELSE s.bcs[k].v
Hi(s, p) == LET k == LastBC(s.bcs, p) IN IF k = 0 THEN s.base.hi[p] ELSE s.bcs[k].v

--------------------------------------------------------------------------
Fn(c, v) == [p \in 0..(N(c) - 1) |-> v]
Unbounded(c) == [lo |-> Fn(c, -Inf), hi |-> Fn(c, Inf)]
Pinned(c) ==
    [k \in 1..NS(c) |-> [g |-> "states_dot", n |-> Mod(c).states[k], kind |-> "scalar", lo |-> <<0>>, hi |-> <<0>>]]

AVar(c, h) ==
    LET g == Pick(h, 31, <<"states", "states", "inputs", "con_outputs", "states_dot", "global">>)
        g2 == IF VNames(c, g) = <<>> THEN "states" ELSE g
    IN [g |-> g2, n |-> Pick(h, 32, VNames(c, g2))]
StageVar(c, h) == LET v == AVar(c, h) IN IF v.g = "global" THEN [g |-> "states", n |-> Mod(c).states[1]] ELSE v
Entry(c, h) ==
    LET v == AVar(c, h)
        arr == v.g # "global" /\ Rnd(h, 33, 0, 2) = 0
        n == IF arr THEN Stages(c) ELSE 1
        lo == [k \in 1..n |-> Rnd(h, 40 + k, -6, 4)]
    IN [ g |-> v.g, n |-> v.n, kind |-> IF arr THEN "array" ELSE "scalar",
         lo |-> [k \in 1..n |-> IF Rnd(h, 70 + k, 0, 9) = 0 THEN -Inf ELSE lo[k]],
         hi |-> [k \in 1..n |-> IF Rnd(h, 80 + k, 0, 9) = 0 THEN Inf ELSE lo[k] + Rnd(h, 100 + k, 0, 4)] ]
Corrupt(c, e, h) ==
    LET q == h % 7
        st1 == StageVar(c, h)
        arr(n) == [k \in 1..n |-> Rnd(h, 40 + k, -6, 4)]
    IN
    CASE q = 0 -> [e EXCEPT !.n = "nope"]
      [] q = 1 -> [e EXCEPT !.g = "nogroup"]
      [] q = 2 -> [g |-> st1.g, n |-> st1.n, kind |-> "array", lo |-> arr(Stages(c) + 1), hi |-> arr(Stages(c) + 1)]
      [] q = 3 -> [g |-> st1.g, n |-> st1.n, kind |-> "array", lo |-> arr(Max2(2, Stages(c)) - 1), hi |-> arr(Max2(2, Stages(c)) - 1)]
      [] q = 4 -> [g |-> st1.g, n |-> st1.n, kind |-> "scalar", lo |-> <<3>>, hi |-> <<2>>]
      [] q = 5 -> [g |-> st1.g, n |-> st1.n, kind |-> "array", lo |-> arr(Stages(c)), hi |-> [arr(Stages(c)) EXCEPT ![Stages(c)] = arr(Stages(c))[Stages(c)] - 1]]
      [] q = 6 -> [g |-> "con_outputs", n |-> Mod(c).states[1], kind |-> "scalar", lo |-> <<0>>, hi |-> <<1>>]
BC(c, h) ==
    LET v == StageVar(c, h) IN
    [g |-> v.g, n |-> v.n, s |-> Pick(h, 34, <<0, -1, 0, -1, Stages(c) - 1, -Stages(c), Rnd(h, 35, -Stages(c), Stages(c) - 1)>>), v |-> Rnd(h, 36, -9, 9)]
CorruptBC(c, e, h) ==
    CASE h % 5 = 0 -> [e EXCEPT !.n = "nope"]
      [] h % 5 = 1 -> [e EXCEPT !.g = "nogroup"]
      [] h % 5 = 2 -> [e EXCEPT !.s = Stages(c)]
      [] h % 5 = 3 -> [e EXCEPT !.s = -Stages(c) - 1]
      [] h % 5 = 4 -> [e EXCEPT !.s = Stages(c) + 7]

Did(o, ok, s) == [op |-> o, ok |-> ok, st |-> s]
Bounded(s, l, o) ==
    IF \A k \in 1..Len(l) : EntryOK(s.cfg, l[k])
    THEN Did(o, TRUE, [s EXCEPT !.base = ApplyEntries(s.cfg, s.base, l)]) ELSE Did(o, FALSE, s)
Conditioned(s, l, o) ==
    IF \A k \in 1..Len(l) : BCOK(s.cfg, l[k])
    THEN Did(o, TRUE, [s EXCEPT !.bcs = @ \o BCPos(s.cfg, l)]) ELSE Did(o, FALSE, s)
Do(kind, s, h) ==
    LET c == s.cfg
        n == Rnd(h, 1, 1, 3)
        es == [k \in 1..n |-> Entry(c, Hash(h, 200 + k))]
        bs == [k \in 1..n |-> BC(c, Hash(h, 300 + k))]
        bad == Rnd(h, 2, 1, n)
        v == StageVar(c, h)
        sg == Rnd(h, 3, -Stages(c), Stages(c) - 1)
        lo == Rnd(h, 4, -5, 5)
    IN
    CASE kind = "bounds" -> Bounded(s, es, [k |-> "bounds", l |-> es])
      [] kind = "badbounds" -> LET l == [es EXCEPT ![bad] = Corrupt(c, es[bad], Hash(h, 5))] IN Bounded(s, l, [k |-> "bounds", l |-> l])
      [] kind = "bc" -> Conditioned(s, bs, [k |-> "bc", l |-> bs])
      [] kind = "badbc" -> LET l == [bs EXCEPT ![bad] = CorruptBC(c, bs[bad], Hash(h, 5))] IN Conditioned(s, l, [k |-> "bc", l |-> l])
      \* setters of one variable at one stage (not where a boundary condition is in force)
      [] kind = "set" ->
           IF v.g = "states_dot" \/ LastBC(s.bcs, PosOf(c, v.g, v.n, sg)) # 0 THEN Did([k |-> "nop"], TRUE, s)
           ELSE Did([k |-> "set", g |-> v.g, n |-> v.n, s |-> sg, lo |-> lo, hi |-> lo + Rnd(h, 6, 0, 2)], TRUE,
                    [s EXCEPT !.base.lo[PosOf(c, v.g, v.n, sg)] = lo, !.base.hi[PosOf(c, v.g, v.n, sg)] = lo + Rnd(h, 6, 0, 2)])
      [] kind = "badset" ->
           IF v.g = "states_dot" THEN Did([k |-> "nop"], TRUE, s)
           ELSE Did([k |-> "set", g |-> v.g, n |-> v.n, s |-> IF h % 2 = 0 THEN Stages(c) ELSE sg, lo |-> 2, hi |-> IF h % 2 = 0 THEN 3 ELSE 1], FALSE, s)
      [] kind = "other" -> Did([k |-> Pick(h, 1, <<"scales", "mesh", "eval", "param">>)], TRUE, s)
      [] OTHER -> Did([k |-> "nop"], TRUE, s)
Kinds == <<"bounds", "bounds", "badbounds", "bc", "bc", "badbc", "set", "badset", "other">>
Alphabet == <<"bounds", "badbounds", "bc", "badbc", "set", "bounds", "bc">>

Cfg0(h) ==
    LET m == Rnd(h, 1, 1, NumModels)
        nI == IF Exhaustive THEN Rnd(h, 2, 1, 2) ELSE Rnd(h, 2, 1, 4)
    IN [ m |-> m, con |-> Pick(h, 4, ConChoices[m]), cls |-> Pick(h, 5, <<"fixed", "scaled">>),
         sch |-> Pick(h, 6, SchemeNames), nI |-> nI, D |-> DW, pts |-> [k \in 1..(nI + 1) |-> ((k - 1) * DW) \div nI], ms |-> 1,
         cyc |-> FALSE, noncyc |-> {}, cond |-> Rnd(h, 9, 0, 1) = 1, par |-> Models[m].def, key |-> h ]
\* the configuration brings bounds and boundary conditions of its own
Start(c) ==
    LET h == Hash(c.key, 5)
        es == [k \in 1..Rnd(h, 1, 0, 3) |-> Entry(c, Hash(h, 200 + k))]
        bs == [k \in 1..Rnd(h, 2, 0, 2) |-> BC(c, Hash(h, 300 + k))]
    IN [ op |-> [k |-> "init", bounds |-> es, bcs |-> bs],
         st |-> [ cfg |-> c, bcs |-> BCPos(c, bs),
                  base |-> ApplyEntries(c, Unbounded(c), es \o (IF c.cond THEN Pinned(c) ELSE <<>>)) ] ]
Init ==
    /\ w \in 1..Walks
    /\ step = 0
    /\ LET s0 == Start(Cfg0(Hash(Seed, w * 13))) IN st = s0.st /\ last = [op |-> s0.op, ok |-> TRUE]
    /\ hist = <<last>>
Take(d) == /\ st' = d.st
           /\ last' = [op |-> d.op, ok |-> d.ok]
           /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
Next ==
    /\ step < Len0
    /\ step' = step + 1 /\ w' = w
    /\ IF Exhaustive
       THEN \E a \in 1..Len(Alphabet) : Take(Do(Alphabet[a], st, Hash(Seed * 3 + w, a * 1009)))
       ELSE LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) IN Take(Do(Pick(h, 1, Kinds), st, Hash(h, 9)))
Spec == Init /\ [][Next]_vars

\* design -------------------------------------------------------------------
RejectedKeeps == [][~last'.ok => st' = st]_vars
\* no step but a boundary condition changes a position that has one, and
\* nothing changes at positions an update does not name
BCsHold == [][\A p \in 0..(N(st.cfg) - 1) :
                 (LastBC(st.bcs, p) # 0 /\ last'.op.k # "bc") => Lo(st', p) = Lo(st, p) /\ Hi(st', p) = Hi(st, p)]_vars
Ordered == \A p \in 0..(N(st.cfg) - 1) : Lo(st, p) <= Hi(st, p)

Ans == [ w |-> w, step |-> step, cfg |-> st.cfg, last |-> last, hist |-> hist, n |-> N(st.cfg),
         lo |-> [k \in 1..N(st.cfg) |-> Lo(st, k - 1)], hi |-> [k \in 1..N(st.cfg) |-> Hi(st, k - 1)] ]
Out == EmitJson(Ans, <<w, step, hist>>)
PostModels == TLCGet("stats").distinct > 0 /\ CSVWrite("%1$s", <<ToJson([models |-> Models, schemes |-> Schemes])>>, IOEnv.VERIF_OUT \o ".models")
===========================================================================
