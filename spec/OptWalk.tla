------------------------------ MODULE OptWalk ------------------------------
(***************************************************************************)
(* C28.  A solve returns the optimum of the problem that is posed at that  *)
(* moment.                                                                 *)
(*                                                                         *)
(* The problems are convex: the dynamics are linear (models Lin and Pair), *)
(* the cost is quadratic and the mesh scale of a free mesh is held by its  *)
(* bounds.  A feasible trajectory, the multipliers of all equations and of *)
(* the bounds it touches are chosen first; the linear part of the cost is  *)
(* then the one with which they satisfy the conditions of Karush, Kuhn and *)
(* Tucker, which for such problems makes the trajectory the one optimum.   *)
(* Everything but the mesh scale is an integer over Q.                     *)
(*                                                                         *)
(* Between two solves the mesh, its scale, parameters, scales, bounds and  *)
(* the cost change; the problem object stays the same.                     *)
(***************************************************************************)
EXTENDS OcpWalk
VARIABLES pose
ovars == <<w, step, st, last, hist, pose>>

INFTY == 1000000000
\* Runge-Kutta coefficients: what every node adds to the state at the start of its interval
Steps == [ FE    |-> [den |-> 1,   c |-> << <<1, 0>> >>],
           TR    |-> [den |-> 2,   c |-> << <<1, 1>> >>],
           LGR2  |-> [den |-> 1,   c |-> << <<0, 1>> >>],
           LGRI2 |-> [den |-> 2,   c |-> << <<1, 1>> >>],
           LGR3  |-> [den |-> 12,  c |-> << <<0, 5, -1>>, <<0, 9, 3>> >>],
           LGRI3 |-> [den |-> 108, c |-> << <<16, 21, -1>>, <<0, 81, 27>> >>] ]
OptSchemes == <<"FE", "TR", "LGR2", "LGRI2", "LGR3", "LGRI3">>
Quot(c) == Steps[c.sch].den * Steps[c.sch].den
Pair(c) == c.m = PairNo
Hh(c, b) == LenI(c, b) * (c.ms \div c.D)

\* integral of d (a function on the stages, over Q) from x0, by stages
RECURSIVE IntervalStart(_, _, _, _)
Add(c, d, b, k) ==      \* change over interval b up to its node k (1 is the start)
    IF k = 1 THEN 0
    ELSE (Hh(c, b) * SumFrom([q \in 1..(Width(c) + 1) |-> Steps[c.sch].c[k - 1][q] * d[b * Width(c) + q - 1]], 1)) \div Steps[c.sch].den
IntervalStart(c, x0, d, b) == IF b = 0 THEN x0 ELSE IntervalStart(c, x0, d, b - 1) + Add(c, d, b - 1, Width(c) + 1)
Integral(c, x0, d) ==
    TLCEval([k \in 0..(Stages(c) - 1) |-> IntervalStart(c, x0, d, StageB(c, k)) + Add(c, d, StageB(c, k), StageW(c, k))])

--------------------------------------------------------------------------
(* A trajectory: [x, u, d, y] by number and stage, over Q *)
Traj(c, h) ==
    LET S == Stages(c)
        Q == Quot(c)
        a == c.par[1] bb == c.par[2]
        flat == h % 11 = 0
        r(k) == TLCEval([j \in 0..(S - 1) |-> IF flat THEN 0 ELSE Q * Rnd(h, 50 * k + j, -1, 1)])
        x0(k) == IF flat /\ k # 1 THEN 0 ELSE Q * Rnd(h, k, -2, 2)
        one == [j \in 0..(S - 1) |-> Q]
        two == [j \in 0..(S - 1) |-> 2 * Q]
    IN IF Pair(c) THEN
         LET dq == r(1) ds == r(2)
             q == Integral(c, x0(1), dq)
             s == Integral(c, x0(2), ds)
             u1 == TLCEval([k \in DOMAIN q |-> dq[k] - bb * s[k]])
             u2 == TLCEval([k \in DOMAIN q |-> ds[k] - a * q[k]])
             u3 == TLCEval([k \in DOMAIN q |-> q[k] + s[k]])
         IN [ x |-> <<q, Integral(c, x0(3), two), s>>, u |-> <<u1, u2, u3>>, d |-> <<dq, two, ds>>,
              y |-> << [k \in DOMAIN q |-> 0], [k \in DOMAIN q |-> u1[k] - s[k]] >> ]
       ELSE
         LET dv == r(1)
             v == Integral(c, x0(2), dv)
             p == Integral(c, x0(1), v)
             u == TLCEval([k \in DOMAIN v |-> a * (dv[k] + bb * v[k])])          \* a is 1 or -1
         IN [ x |-> <<Integral(c, x0(3), one), p, v>>, u |-> <<u>>, d |-> <<one, v, dv>>,
              y |-> << [k \in DOMAIN v |-> p[k] + bb * u[k]] >> ]
VarOf(c, t, v) == IF v <= NS(c) THEN t.x[v] ELSE t.u[v - NS(c)]
Closed(c, t) == \A k \in 1..Len(CycVars(c)) : LET f == VarOf(c, t, CycVars(c)[k]) IN f[0] = f[Stages(c) - 1]
\* the decision vector
Vector(c, t) ==
    LET nv == NumVarStage(Shape(c))
        at(p) == LET k == p \div nv  i == p % nv IN
                 IF i < NS(c) THEN t.x[i + 1][k]
                 ELSE IF i < NS(c) + NI(c) THEN t.u[i - NS(c) + 1][k]
                 ELSE IF i < 2 * NS(c) + NI(c) THEN (IF c.cond THEN 0 ELSE t.d[i - NS(c) - NI(c) + 1][k])
                 ELSE t.y[c.con[i - 2 * NS(c) - NI(c) + 1]][k]
    IN TLCEval([p \in 0..(N(c) - 1) |-> IF Free(c) /\ p = N(c) - 1 THEN c.ms ELSE at(p)])
\* the first of some attempts that meets the cyclic conditions; at rest in the end
RECURSIVE Attempt(_, _, _)
Attempt(c, h, k) ==
    IF k = 40 THEN Traj(c, 0)
    ELSE LET t == Traj(c, Hash(h, 300 + k)) IN IF ~c.cyc \/ Closed(c, t) THEN t ELSE Attempt(c, h, k + 1)

--------------------------------------------------------------------------
(* Polynomials at integers over Q: terms without a divided variable carry Q *)
Divided(c, m) == \E k \in 1..Len(m.p) : m.p[k] < Stages(c) * NumVarStage(Shape(c))
ValQ(c, f, x) == SumFrom([k \in 1..Len(f) |-> MonoVal(f[k], x) * (IF Divided(c, f[k]) THEN 1 ELSE Quot(c))], 1)
Linear(c, f) == \A k \in 1..Len(f) : Cardinality({j \in 1..Len(f[k].p) : f[k].p[j] < Stages(c) * NumVarStage(Shape(c))}) <= 1
RECURSIVE AddAll(_, _, _)
AddAll(f, l, k) == IF k > Len(l) THEN f ELSE AddAll([f EXCEPT ![l[k][1]] = @ + l[k][2]], l, k + 1)

Group(c, p) == LET i == p % NumVarStage(Shape(c)) IN
    IF Free(c) /\ p = N(c) - 1 THEN "global" ELSE IF i < NS(c) THEN "states" ELSE IF i < NS(c) + NI(c) THEN "inputs"
    ELSE IF i < 2 * NS(c) + NI(c) THEN "states_dot" ELSE "con_outputs"
StageOf(c, p) == p \div NumVarStage(Shape(c))
InStage(c, p) == p % NumVarStage(Shape(c))

RowsOf(c) == LET bs == TLCEval(Blocks(c)) IN Flat([b \in 1..Len(bs) |-> bs[b].rows])
Posed(c, timed, bc, h) ==
    LET S == Stages(c)
        Q == Quot(c)
        t == Attempt(c, Hash(h, 1), 1)
        x == Vector(c, t)
        rows == TLCEval(RowsOf(c))
        xe == Extend(c, x)
        \* multipliers of the equations times their denominators
        l == [k \in 1..Len(rows) |-> Rnd(h, 1000 + k, -2, 2)]
        jt == TLCEval(AddAll([p \in 0..N(c) |-> 0],
                Flat([k \in 1..Len(rows) |-> LET g == Grad(rows[k], xe) IN [j \in 1..Len(g) |-> <<g[j][1], l[k] * g[j][2]>>]]), 1))
        tg == TLCEval(AddAll([p \in 0..N(c) |-> 0], IF timed THEN Grad(Objective(c), xe) ELSE <<>>, 1))
        fixed0 == ~c.cyc /\ (bc \/ h % 3 # 0)
        hasY == \E k \in 1..NC(c) : c.con[k] = (IF Pair(c) THEN 2 ELSE 1)
        yAt == IF hasY /\ (Pair(c) \/ c.par[2] # 0) THEN 2 * Rnd(h, 2, 0, S \div 2) + 1 ELSE -1
        ypos(k) == ConPos(c, CHOOSE j \in 1..NC(c) : c.con[j] = (IF Pair(c) THEN 2 ELSE 1), k)
        \* at most one variable per odd stage sits on its bound
        act == {k \in 1..(S - 1) : k % 2 = 1 /\ (~c.cyc \/ k < S - 1) /\ (k = yAt \/ Rnd(h, 200 + k, 0, 2) > 0)}
        onB == { IF k = yAt THEN ypos(k) ELSE VarPos(c, NS(c) + (IF Pair(c) THEN Rnd(h, 230 + k, 1, 2) ELSE 1), k) : k \in act }
        held == IF fixed0 THEN {VarPos(c, i, 0) : i \in 1..NS(c)} ELSE {}
        side(p) == IF Rnd(h, 2000 + p, 0, 1) = 0 THEN -1 ELSE 1
        z == TLCEval([p \in 0..(N(c) - 1) |-> IF p \in onB THEN side(p) * Rnd(h, 2500 + p, 1, 4) ELSE IF p \in held THEN Rnd(h, 2500 + p, -3, 3) ELSE 0])
        open(p) == Rnd(h, 3000 + p, 0, 2) = 0 \/ (c.cond /\ Group(c, p) = "states_dot")
        gap(p, q) == Q * Rnd(h, q + p, 1, 4)
        lo == [p \in 0..(N(c) - 1) |-> IF Group(c, p) = "global" \/ p \in held \/ (p \in onB /\ z[p] > 0) THEN x[p]
                                       ELSE IF open(p) THEN -INFTY ELSE x[p] - gap(p, 4000)]
        hi == [p \in 0..(N(c) - 1) |-> IF Group(c, p) = "global" \/ p \in held \/ (p \in onB /\ z[p] < 0) THEN x[p]
                                       ELSE IF open(p) THEN INFTY ELSE x[p] + gap(p, 5000)]
        quad == TLCEval([p \in 0..(N(c) - 1) |-> CASE Group(c, p) \in {"states", "inputs"} -> Rnd(h, 6000 + p, 1, 3)
                                               [] Group(c, p) = "global" -> 0 [] OTHER -> Rnd(h, 6000 + p, 0, 2)])
        lin == TLCEval([p \in 0..(N(c) - 1) |-> IF Group(c, p) = "global" THEN 0
                     ELSE -(quad[p] * x[p]) - Q * (tg[p] + jt[p] - z[p])])
    IN [ x |-> x, l |-> l, z |-> z, lo |-> lo, hi |-> hi, quad |-> quad, lin |-> lin, jt |-> jt, tg |-> tg, rest |-> Closed(c, t) ]

--------------------------------------------------------------------------
OCfg(h) ==
    LET m == Pick(h, 1, <<1, 1, PairNo>>)
        sch == Pick(h, 6, OptSchemes)
        nI == IF sch = "LGRI3" THEN Rnd(h, 2, 1, 2) ELSE Rnd(h, 2, 1, 4)
        cyc == Rnd(h, 3, 0, 2) = 0
    IN [ m |-> m, con |-> Pick(h, 4, ConChoices[m]), cls |-> Pick(h, 5, <<"fixed", "scaled">>), sch |-> sch, nI |-> nI,
         D |-> nI, pts |-> [k \in 1..(nI + 1) |-> k - 1], ms |-> nI, cyc |-> cyc,
         noncyc |-> IF ~cyc THEN {} ELSE IF m = PairNo THEN Pick(h, 8, <<{2, 6}, {2, 6}, {2, 4, 6}, {2, 4, 5, 6}>>)
                    ELSE Pick(h, 8, <<{1, 2}, {1, 2, 4}, {1}, {1, 3}>>),
         cond |-> Rnd(h, 9, 0, 1) = 1, par |-> IF m = PairNo THEN <<1, 2>> ELSE <<3, 2>>, trig |-> <<>>, key |-> h ]
\* intervals of length 1 or 2 and the mesh scale with which the lengths are whole
Remesh(c, h) ==
    LET len == [k \in 1..c.nI |-> Rnd(h, k, 1, 2)]
        d == SumFrom(len, 1)
    IN [c EXCEPT !.D = d, !.pts = [k \in 1..(c.nI + 1) |-> SumFrom([j \in 1..(k - 1) |-> len[j]], 1)], !.ms = d * Rnd(h, 20, 1, 2)]
Repar(c, h) == [c EXCEPT !.par = IF Pair(c) THEN <<Rnd(h, 1, -2, 2), Rnd(h, 2, -2, 2)>> ELSE <<Pick(h, 1, <<1, -1>>), Rnd(h, 2, 0, 2)>>]

NoPose == [x |-> <<>>]
OInit ==
    /\ w \in 1..Walks /\ step = 0 /\ hist = <<>>
    /\ st = Fresh(OCfg(Hash(Seed, w * 13)))
    /\ last = [op |-> [k |-> "init"], ok |-> TRUE]
    /\ pose = NoPose
ONext ==
    /\ step < Len0 /\ step' = step + 1 /\ w' = w /\ hist' = hist
    /\ LET h == Hash(Seed * 5 + w * 101, step * 17 + 3)
           c0 == st.cfg
           meshed == step = 0 \/ h % 2 = 0
           pared == step = 0 \/ Rnd(h, 1, 0, 1) = 0
           c1 == IF meshed THEN Remesh(c0, Hash(h, 2)) ELSE c0
           c2 == IF pared THEN Repar(c1, Hash(h, 3)) ELSE c1
           sc == IF Rnd(h, 4, 0, 2) > 0 THEN Do("scales", st, Hash(h, 5)) ELSE [op |-> [k |-> "nop"], st |-> st]
           dropped == st.time /\ Rnd(h, 6, 0, 3) = 0
           timed == st.time /\ ~dropped
           again == step > 0 /\ Rnd(h, 7, 0, 5) = 0            \* the same problem from another start
           starts == [p \in 1..N(c2) |-> Rnd(h, 8000 + p, -3, 3)]
       IN IF again
          THEN /\ st' = sc.st
               /\ last' = [op |-> [k |-> "again", mesh |-> FALSE, par |-> FALSE, scales |-> sc.op, first |-> FALSE, drop |-> FALSE, start |-> starts,
                                   hess |-> Pick(h, 8, <<"exact", "exact", "config", "limited-memory">>), bc |-> FALSE], ok |-> TRUE]
               /\ pose' = pose
          ELSE /\ st' = [sc.st EXCEPT !.cfg = c2, !.time = timed]
               /\ last' = [op |-> [k |-> "pose", mesh |-> meshed, par |-> pared, scales |-> sc.op, first |-> Rnd(h, 9, 0, 1) = 0, drop |-> dropped,
                                   start |-> starts, hess |-> Pick(h, 8, <<"exact", "exact", "config", "limited-memory">>), bc |-> w % 2 = 0], ok |-> TRUE]
               /\ pose' = Posed(c2, timed, w % 2 = 0, Hash(h, 10))
OSpec == OInit /\ [][ONext]_ovars

--------------------------------------------------------------------------
(* The certificate *)
C == st.cfg
Posing == pose # NoPose
Feasible == Posing =>
    LET xe == Extend(C, pose.x) rows == TLCEval(RowsOf(C)) IN
    /\ \A k \in 1..Len(rows) : ValQ(C, rows[k], xe) = 0
    /\ \A p \in 0..(N(C) - 1) : pose.lo[p] <= pose.x[p] /\ pose.x[p] <= pose.hi[p]
Convex == Posing =>
    /\ LET rows == TLCEval(RowsOf(C)) IN \A k \in 1..Len(rows) : Linear(C, rows[k])
    /\ \A p \in 0..(N(C) - 1) : pose.quad[p] >= 0 /\ (Group(C, p) \in {"states", "inputs"} => pose.quad[p] > 0)
    /\ Free(C) => pose.lo[MeshPos(C)] = pose.hi[MeshPos(C)]
Stationary == Posing =>
    \A p \in 0..(N(C) - 1) : Group(C, p) # "global" =>
        pose.quad[p] * pose.x[p] + pose.lin[p] + Quot(C) * (pose.tg[p] + pose.jt[p] - pose.z[p]) = 0
Complementary == Posing =>
    \A p \in 0..(N(C) - 1) : /\ pose.z[p] > 0 => pose.x[p] = pose.lo[p]
                             /\ pose.z[p] < 0 => pose.x[p] = pose.hi[p]
\* what the certificate promises, tried on other feasible trajectories (Q = 1)
Twice(x) == SumFrom([p \in 1..N(C) |-> IF Group(C, p - 1) = "global" THEN 0 ELSE pose.quad[p - 1] * x[p - 1] * x[p - 1] + 2 * pose.lin[p - 1] * x[p - 1]], 1)
            + 2 * (IF st.time /\ ~Free(C) THEN Val(Objective(C), Extend(C, x)) ELSE 0)
NoBetter == (Posing /\ Quot(C) = 1) =>
    \A k \in 1..4 :
        LET y == Vector(C, Attempt(C, Hash(step * 31 + w, k), 30)) IN
        ((\A p \in 0..(N(C) - 1) : pose.lo[p] <= y[p] /\ y[p] <= pose.hi[p]) /\ y # pose.x) => Twice(y) > Twice(pose.x)
NoBetterFree == (Posing /\ Quot(C) = 1 /\ (\A p \in 0..(N(C) - 1) : pose.z[p] = 0)) =>
    \A k \in 1..6 : LET y == Vector(C, Attempt(C, Hash(step * 31 + w, k), 30)) IN y # pose.x => Twice(y) > Twice(pose.x)

Seq0(f) == [k \in 1..N(C) |-> f[k - 1]]
OOut == EmitJson([ w |-> w, step |-> step, cfg |-> C, cfg0 |-> Fresh(OCfg(C.key)).cfg, last |-> last, n |-> N(C), free |-> Free(C),
                   q |-> Quot(C), timed |-> st.time, mesh |-> MeshNums(C), meshden |-> DD(C), s |-> [k \in 1..N(C) |-> PosScale(C, st.sc, k - 1)],
                   pose |-> IF Posing THEN << [x |-> Seq0(pose.x), lo |-> Seq0(pose.lo), hi |-> Seq0(pose.hi), quad |-> Seq0(pose.quad),
                                                lin |-> Seq0(pose.lin), l |-> pose.l, z |-> Seq0(pose.z)] >> ELSE <<>> ], <<w, step>>)
===========================================================================
