----------------------------- MODULE OptSteady -----------------------------
(***************************************************************************)
(* C28 for steady-state problems: one stage of a linear model, a convex    *)
(* quadratic cost of which a part may come from add_obj_from_var, and an   *)
(* optimum known by its certificate, as in OptWalk.                        *)
(***************************************************************************)
EXTENDS OptWalk
VARIABLE sc
svars == <<w, step, st, last, hist, pose, sc>>
NV(c) == NumVarStage(Shape(c))
SCfg(h) ==
    LET c == Repar(OCfg(h), Hash(h, 3)) IN
    [c EXCEPT !.cls = "fixed", !.cyc = FALSE, !.noncyc = {}, !.cond = FALSE, !.sch = "FE", !.nI = 1, !.D = 1, !.pts = <<0, 1>>, !.ms = 1]
StageRows(c) == DotRows(c, 0) \o OutRows(c, 0) \o ResRows(c, 0)
VarName(c, p) ==
    LET g == Group(c, p)
        b == CASE g = "states" -> 0 [] g = "inputs" -> NS(c) [] g = "states_dot" -> NS(c) + NI(c) [] OTHER -> 2 * NS(c) + NI(c)
    IN [g |-> g, n |-> ScNames(c, g)[p - b + 1]]
SPosed(c, h) ==
    LET t == Traj(c, Hash(h, 1))
        x == [p \in 0..(NV(c) - 1) |-> Vector(c, t)[p]]
        rows == TLCEval(StageRows(c))
        l == [k \in 1..Len(rows) |-> Rnd(h, 1000 + k, -3, 3)]
        jt == TLCEval(AddAll([p \in 0..(NV(c) - 1) |-> 0],
                Flat([k \in 1..Len(rows) |-> LET g == Grad(rows[k], x) IN [j \in 1..Len(g) |-> <<g[j][1], l[k] * g[j][2]>>]]), 1))
        still == h % 2 = 0                   \* rates given, as for an equilibrium
        timep == TimeIdx(Mod(c)) - 1
        held == IF still THEN {DotPos(c, i, 0) : i \in (1..NS(c)) \ {timep + 1}} ELSE {}
        \* what may sit on a bound without repeating what the equations say
        cand == IF still THEN (IF Pair(c) THEN {0, 2} ELSE {1}) \cup {timep}
                ELSE IF Pair(c) THEN {0, 1, 2, 3, 4} ELSE {0, 1, 2, 3}
        onB == {p \in cand : Rnd(h, 200 + p, 0, 2) = 0}
        side(p) == IF Rnd(h, 2000 + p, 0, 1) = 0 THEN -1 ELSE 1
        z == TLCEval([p \in 0..(NV(c) - 1) |-> IF p \in onB THEN side(p) * Rnd(h, 2500 + p, 1, 4) ELSE IF p \in held THEN Rnd(h, 2500 + p, -3, 3) ELSE 0])
        open(p) == Rnd(h, 3000 + p, 0, 2) = 0
        lo == [p \in 0..(NV(c) - 1) |-> IF p \in held \/ (p \in onB /\ z[p] > 0) THEN x[p] ELSE IF open(p) THEN -INFTY ELSE x[p] - Rnd(h, 4000 + p, 1, 4)]
        hi == [p \in 0..(NV(c) - 1) |-> IF p \in held \/ (p \in onB /\ z[p] < 0) THEN x[p] ELSE IF open(p) THEN INFTY ELSE x[p] + Rnd(h, 5000 + p, 1, 4)]
        quad == TLCEval([p \in 0..(NV(c) - 1) |-> IF Group(c, p) \in {"states", "inputs"} THEN Rnd(h, 6000 + p, 1, 3) ELSE Rnd(h, 6000 + p, 0, 2)])
        nown == Rnd(h, 3, 0, 3)
        own == {<<Rnd(h, 30 + k, 0, NV(c) - 1), Pick(h, 40 + k, <<-2, -1, 1, 3>>)>> : k \in 1..nown}
        tg == TLCEval([p \in 0..(NV(c) - 1) |-> SumFrom(LET ws == SelectSeq(<<-2, -1, 1, 3>>, LAMBDA v : <<p, v>> \in own) IN ws, 1)])
        lin == TLCEval([p \in 0..(NV(c) - 1) |-> -(quad[p] * x[p]) - (tg[p] + jt[p] - z[p])])
    IN [ x |-> x, l |-> l, z |-> z, lo |-> lo, hi |-> hi, quad |-> quad, lin |-> lin, jt |-> jt, tg |-> tg, own |-> own ]

SInit == /\ w \in 1..Walks /\ step = 0 /\ hist = <<>>
         /\ st = Fresh(SCfg(Hash(Seed, w * 13)))
         /\ last = [op |-> [k |-> "init"], ok |-> TRUE]
         /\ pose = NoPose
         /\ sc = [p \in 0..(NV(st.cfg) - 1) |-> 4]
SNext ==
    /\ step < Len0 /\ step' = step + 1 /\ w' = w /\ hist' = hist /\ st' = st
    /\ LET c == st.cfg
           h == Hash(Seed * 5 + w * 101, step * 17 + 3)
           sc2 == [p \in DOMAIN sc |-> IF Group(c, p) # "states_dot" /\ Rnd(h, 700 + p, 0, 2) = 0 THEN Pick(h, 800 + p, <<1, 2, 8, 12, 20, 40>>) ELSE sc[p]]
           again == step > 0 /\ Rnd(h, 7, 0, 5) = 0
           d == [k |-> IF again THEN "again" ELSE "pose", start |-> [p \in 1..NV(c) |-> Rnd(h, 8000 + p, -3, 3)], first |-> Rnd(h, 9, 0, 1) = 0,
                 scales |-> {[v |-> VarName(c, p), k |-> sc2[p]] : p \in {p \in DOMAIN sc : sc2[p] # sc[p]}}]
       IN /\ sc' = sc2
          /\ last' = [op |-> d, ok |-> TRUE]
          /\ pose' = IF again THEN pose ELSE SPosed(c, Hash(h, 10))
SSpec == SInit /\ [][SNext]_svars

SFeasible == Posing =>
    LET rows == TLCEval(StageRows(C)) IN
    /\ \A k \in 1..Len(rows) : Val(rows[k], pose.x) = 0 /\ \A m \in 1..Len(rows[k]) : Len(rows[k][m].p) <= 1
    /\ \A p \in 0..(NV(C) - 1) : pose.lo[p] <= pose.x[p] /\ pose.x[p] <= pose.hi[p]
    /\ \A p \in 0..(NV(C) - 1) : pose.quad[p] >= 0 /\ (Group(C, p) \in {"states", "inputs"} => pose.quad[p] > 0)
SStationary == Posing =>
    \A p \in 0..(NV(C) - 1) :
        /\ pose.quad[p] * pose.x[p] + pose.lin[p] + pose.tg[p] + pose.jt[p] - pose.z[p] = 0
        /\ pose.z[p] > 0 => pose.x[p] = pose.lo[p]
        /\ pose.z[p] < 0 => pose.x[p] = pose.hi[p]
STwice(x) == SumFrom([p \in 1..NV(C) |-> pose.quad[p - 1] * x[p - 1] * x[p - 1] + 2 * (pose.lin[p - 1] + pose.tg[p - 1]) * x[p - 1]], 1)
SNoBetter == Posing =>
    \A k \in 1..8 :
        LET v == Vector(C, Traj(C, Hash(step * 31 + w, k)))
            y == [p \in 0..(NV(C) - 1) |-> v[p]] IN
        ((\A p \in 0..(NV(C) - 1) : pose.lo[p] <= y[p] /\ y[p] <= pose.hi[p]) /\ y # pose.x) => STwice(y) > STwice(pose.x)
Seq1(f) == [k \in 1..NV(C) |-> f[k - 1]]
SOut == EmitJson([ w |-> w, step |-> step, cfg |-> C, last |-> last, n |-> NV(C), names |-> [k \in 1..NV(C) |-> VarName(C, k - 1)],
                   pose |-> IF Posing THEN << [x |-> Seq1(pose.x), lo |-> Seq1(pose.lo), hi |-> Seq1(pose.hi), quad |-> Seq1(pose.quad),
                                                lin |-> Seq1(pose.lin), tg |-> Seq1(pose.tg), own |-> pose.own] >> ELSE <<>> ], <<w, step>>)
===========================================================================
