-------------------------------- MODULE Ocp --------------------------------
(***************************************************************************)
(* Direct transcription of an optimal control problem with polynomial      *)
(* dynamics: which equation stands in which row, as a polynomial in the    *)
(* positions of the decision vector (Layout), for the full and condensed   *)
(* formulation, fixed and free mesh.  Derivatives come from Poly.          *)
(*                                                                         *)
(* cfg = [m (model number), con (numbers of outputs used as con_outputs),  *)
(*        cls ("fixed"/"scaled"), sch (scheme), nI, D, pts (nI+1 integers  *)
(*        0..D), ms (mesh scale if fixed), cyc, noncyc (numbers in         *)
(*        states \o inputs), cond, par (parameter values)]                 *)
(***************************************************************************)
EXTENDS Layout, Poly

--------------------------------------------------------------------------
(* Models.  A local monomial [c, v, t, q]: coefficient, variable numbers   *)
(* (states then inputs, 1-based), power of the mesh, parameter numbers.    *)
L(cc, vv, tt, qq) == [c |-> cc, v |-> vv, t |-> tt, q |-> qq]

Models == <<
  [ name |-> "Lin", states |-> <<"time", "p", "v">>, inputs |-> <<"u">>,
    outputs |-> <<"y">>, residuals |-> <<>>, meshdeg |-> 0, sub |-> FALSE,
    params |-> << [path |-> "a", n |-> 0], [path |-> "b", n |-> 0] >>, def |-> <<3, 2>>,
    f |-> << << L(1, <<>>, 0, <<>>) >>,
             << L(1, <<3>>, 0, <<>>) >>,
             << L(1, <<4>>, 0, <<1>>), L(-1, <<3>>, 0, <<2>>) >> >>,
    o |-> << << L(1, <<2>>, 0, <<>>), L(1, <<4>>, 0, <<2>>) >> >> ],
  [ name |-> "Quad", states |-> <<"p", "time">>, inputs |-> <<"u", "p">>,
    outputs |-> <<"u", "time", "y2">>, residuals |-> <<2>>, meshdeg |-> 0, sub |-> FALSE,
    params |-> << [path |-> "a", n |-> 0] >>, def |-> <<2>>,
    f |-> << << L(1, <<1, 3>>, 0, <<1>>), L(1, <<4, 4>>, 0, <<>>), L(1, <<1, 1, 1>>, 0, <<>>), L(-2, <<>>, 0, <<>>) >>,
             << L(2, <<>>, 0, <<>>), L(1, <<1, 4>>, 0, <<>>) >> >>,
    o |-> << << L(1, <<1, 3>>, 0, <<>>), L(1, <<>>, 0, <<1>>) >>,
             << L(1, <<1>>, 0, <<>>), L(-1, <<3, 3>>, 0, <<1>>) >>,
             << L(1, <<3, 4>>, 0, <<>>), L(-1, <<2>>, 0, <<>>) >> >> ],
  [ name |-> "Mesh", states |-> <<"time", "p">>, inputs |-> <<"u">>,
    outputs |-> <<"y", "z">>, residuals |-> <<2>>, meshdeg |-> 1, sub |-> FALSE,
    params |-> << [path |-> "a", n |-> 0] >>, def |-> <<2>>,
    f |-> << << L(1, <<>>, 0, <<>>), L(1, <<2>>, 1, <<>>) >>,
             << L(1, <<3>>, 1, <<1>>), L(1, <<2, 3>>, 0, <<>>) >> >>,
    o |-> << << L(1, <<2, 3>>, 1, <<>>), L(1, <<>>, 1, <<>>) >>,
             << L(1, <<>>, 1, <<1>>), L(-1, <<3>>, 0, <<>>) >> >> ],
  [ name |-> "Sub", states |-> <<"time", "p">>, inputs |-> <<"u">>,
    outputs |-> <<"y", "sub.f", "sub.r">>, residuals |-> <<3>>, meshdeg |-> 0, sub |-> TRUE,
    params |-> << [path |-> "g", n |-> 2], [path |-> "sub.h", n |-> 1], [path |-> "sub.k", n |-> 0] >>,
    def |-> <<2, -1, 3, 2>>,
    f |-> << << L(1, <<>>, 0, <<>>), L(1, <<2, 2>>, 0, <<2>>) >>,
             << L(1, <<2>>, 0, <<1>>), L(1, <<3, 3>>, 0, <<2>>), L(1, <<2, 3>>, 0, <<4>>), L(1, <<>>, 0, <<3>>) >> >>,
    o |-> << << L(1, <<3>>, 0, <<1>>), L(1, <<2, 3>>, 0, <<>>) >>,
             << L(1, <<2, 3>>, 0, <<4>>), L(1, <<>>, 0, <<3>>) >>,
             << L(1, <<2>>, 0, <<3>>), L(-1, <<3>>, 0, <<>>) >> >> ],
  [ name |-> "One", states |-> <<"time">>, inputs |-> <<>>,
    outputs |-> <<"y">>, residuals |-> <<>>, meshdeg |-> 0, sub |-> FALSE,
    params |-> << [path |-> "a", n |-> 0] >>, def |-> <<2>>,
    f |-> << << L(1, <<1>>, 0, <<1>>) >> >>,
    o |-> << << L(1, <<1, 1>>, 0, <<1>>), L(-1, <<>>, 0, <<>>) >> >> ],
  \* the shipped drone, times 10.  Variable 5 stands for the deviation of the pitch from the angle of the stage, whose
  \* sine and cosine (times 5) are parameters 2 and 3, different at every stage (cfg.trig); the expansion to second
  \* order around the angle has the exact value and the exact first and second derivatives where the deviation is zero
  [ name |-> "Drone", states |-> <<"x", "x_dot", "z", "z_dot", "theta">>, inputs |-> <<"f", "omega">>,
    outputs |-> <<"sin_theta", "f_omega">>, residuals |-> <<>>, meshdeg |-> 0, sub |-> FALSE,
    params |-> << [path |-> "gravity", n |-> 0] >>, def |-> <<9>>,
    f |-> << << L(10, <<2>>, 0, <<>>) >>,
             << L(2, <<6>>, 0, <<2>>), L(2, <<6, 5>>, 0, <<3>>), L(-1, <<6, 5, 5>>, 0, <<2>>) >>,
             << L(10, <<4>>, 0, <<>>) >>,
             << L(2, <<6>>, 0, <<3>>), L(-2, <<6, 5>>, 0, <<2>>), L(-1, <<6, 5, 5>>, 0, <<3>>), L(-10, <<>>, 0, <<1>>) >>,
             << L(10, <<7>>, 0, <<>>) >> >>,
    o |-> << << L(2, <<>>, 0, <<2>>), L(2, <<5>>, 0, <<3>>), L(-1, <<5, 5>>, 0, <<2>>) >>,
             << L(10, <<6, 7>>, 0, <<>>) >> >> ],
  \* linear, with a residual equation that fixes an input (OptWalk)
  [ name |-> "Pair", states |-> <<"q", "time", "s">>, inputs |-> <<"u1", "u2", "u3">>,
    outputs |-> <<"r", "y">>, residuals |-> <<1>>, meshdeg |-> 0, sub |-> FALSE,
    params |-> << [path |-> "a", n |-> 0], [path |-> "b", n |-> 0] >>, def |-> <<1, 2>>,
    f |-> << << L(1, <<4>>, 0, <<>>), L(1, <<3>>, 0, <<2>>) >>,
             << L(2, <<>>, 0, <<>>) >>,
             << L(1, <<5>>, 0, <<>>), L(1, <<1>>, 0, <<1>>) >> >>,
    o |-> << << L(1, <<1>>, 0, <<>>), L(1, <<3>>, 0, <<>>), L(-1, <<6>>, 0, <<>>) >>,
             << L(1, <<4>>, 0, <<>>), L(-1, <<3>>, 0, <<>>) >> >> ]
>>
NumModels == 5
DroneNo == 6
PairNo == 7
\* the number by which the polynomials of a model are multiplied
ModelDen(m) == IF m.name = "Drone" THEN 10 ELSE 1
\* con_outputs selections offered per model (order matters)
ConChoices == << << <<1>>, <<>> >>, << <<3, 1>>, <<1>>, <<>> >>, << <<1>>, <<1, 2>> >>,
                 << <<2>>, <<1, 2>> >>, << <<1>>, <<>> >>,
                 << <<1>>, <<2, 1>>, <<>> >>, << <<2>>, <<>>, <<1, 2>> >> >>
TimeIdx(m) == CHOOSE i \in 1..Len(m.states) : m.states[i] = "time"

--------------------------------------------------------------------------
(* Schemes:  (1/K) A x - h (1/K) B xdot = 0;  nodes over nd.               *)
Schemes == [
  FE    |-> [K |-> 1,   nd |-> 1, node |-> <<0, 1>>,    order |-> 1, A |-> << <<-1, 1>> >>, B |-> << <<1, 0>> >>],
  TR    |-> [K |-> 2,   nd |-> 1, node |-> <<0, 1>>,    order |-> 2, A |-> << <<-2, 2>> >>, B |-> << <<1, 1>> >>],
  LGR2  |-> [K |-> 1,   nd |-> 1, node |-> <<0, 1>>,    order |-> 1, A |-> << <<-1, 1>> >>, B |-> << <<0, 1>> >>],
  LGRI2 |-> [K |-> 2,   nd |-> 1, node |-> <<0, 1>>,    order |-> 2, A |-> << <<-2, 2>> >>, B |-> << <<1, 1>> >>],
  LGR3  |-> [K |-> 2,   nd |-> 3, node |-> <<0, 1, 3>>, order |-> 2,
             A |-> << <<-4, 3, 1>>, <<4, -9, 5>> >>, B |-> << <<0, 2, 0>>, <<0, 0, 2>> >>],
  LGRI3 |-> [K |-> 108, nd |-> 3, node |-> <<0, 1, 3>>, order |-> 3,
             A |-> << <<-108, 108, 0>>, <<-108, 0, 108>> >>, B |-> << <<16, 21, -1>>, <<0, 81, 27>> >>],
  \* a stand-in scheme with four stages and no zero coefficient: the assembly
  \* of the integration equations must not depend on the scheme's numbers
  ST4   |-> [K |-> 2,   nd |-> 4, node |-> <<0, 1, 2, 4>>, order |-> -1,
             A |-> << <<-3, 1, 2, 5>>, <<4, -1, 3, -2>>, <<1, 2, -5, 3>> >>,
             B |-> << <<2, -3, 1, 4>>, <<-1, 5, 2, 3>>, <<3, 1, -2, 7>> >>] ]
SchemeNames == << "FE", "TR", "LGR2", "LGR3", "LGRI2", "LGRI3", "ST4" >>

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
\* zero error on t^k for k <= order (nodes node/nd, interval [0,1])
SchemeExact(s) ==
    \A j \in 1..Len(s.A) : \A k \in 0..s.order :
        SumFrom([w \in 1..Len(s.node) |-> s.A[j][w] * Pow(s.node[w], k) * s.nd], 1)
      = SumFrom([w \in 1..Len(s.node) |-> s.B[j][w] * (IF k = 0 THEN 0 ELSE k * Pow(s.node[w], k - 1)) * s.nd * s.nd], 1)

--------------------------------------------------------------------------
Mod(cfg) == Models[cfg.m]
Sch(cfg) == Schemes[cfg.sch]
NS(cfg)  == Len(Mod(cfg).states)
NI(cfg)  == Len(Mod(cfg).inputs)
NC(cfg)  == Len(cfg.con)
NR(cfg)  == Len(Mod(cfg).residuals)
Shape(cfg) ==
  [ groups |-> << [name |-> "states", size |-> NS(cfg)], [name |-> "inputs", size |-> NI(cfg)],
                  [name |-> "states_dot", size |-> NS(cfg)], [name |-> "con_outputs", size |-> NC(cfg)] >>,
    nI |-> cfg.nI, nS |-> Len(Sch(cfg).node), nG |-> IF cfg.cls = "scaled" THEN 1 ELSE 0 ]
Stages(cfg) == NumStages(Shape(cfg))
N(cfg)      == NumDec(Shape(cfg))
Free(cfg)   == cfg.cls = "scaled"
MeshPos(cfg) == GlobalPos(Shape(cfg), 0)
Alias(cfg)  == N(cfg)       \* the mesh scale where it enters through the mesh position

DD(cfg) == cfg.D * Sch(cfg).nd
MD(cfg) == ModelDen(Mod(cfg)) * Pow(DD(cfg), Mod(cfg).meshdeg)
Width(cfg) == Len(Sch(cfg).node) - 1
\* normalized mesh position of a stage, over DD
StageB(cfg, st) == IF st = 0 THEN 0 ELSE (st - 1) \div Width(cfg)
StageW(cfg, st) == IF st = 0 THEN 1 ELSE ((st - 1) % Width(cfg)) + 2
LenI(cfg, b) == cfg.pts[b + 2] - cfg.pts[b + 1]
NodeNum(cfg, st) ==
    LET b == StageB(cfg, st) IN
    cfg.pts[b + 1] * Sch(cfg).nd + Sch(cfg).node[StageW(cfg, st)] * LenI(cfg, b)
MeshNums(cfg) == [k \in 1..Stages(cfg) |-> NodeNum(cfg, k - 1)]

VarPos(cfg, v, st) ==
    IF v <= NS(cfg) THEN Pos(Shape(cfg), "states", v - 1, st)
    ELSE Pos(Shape(cfg), "inputs", v - NS(cfg) - 1, st)
DotPos(cfg, i, st) == Pos(Shape(cfg), "states_dot", i - 1, st)
ConPos(cfg, i, st) == Pos(Shape(cfg), "con_outputs", i - 1, st)

\* parameters after those of the problem belong to a stage
ParAt(cfg, q, st) == IF q <= Len(cfg.par) THEN cfg.par[q] ELSE cfg.trig[st + 1][q - Len(cfg.par)]
\* local polynomial at a stage, times MD
Place(cfg, f, st) ==
    [k \in 1..Len(f) |->
        LET m == f[k]
            q == [j \in 1..Len(m.q) |-> ParAt(cfg, m.q[j], st)]
            base == m.c * ProdFrom([j \in 1..Len(q) |-> j], q, 1) * Pow(NodeNum(cfg, st), m.t)
                    * Pow(DD(cfg), Mod(cfg).meshdeg - m.t)
        IN Mono(IF Free(cfg) THEN base ELSE base * Pow(cfg.ms, m.t),
                [j \in 1..Len(m.v) |-> VarPos(cfg, m.v[j], st)]
                  \o (IF Free(cfg) THEN [j \in 1..m.t |-> Alias(cfg)] ELSE <<>>))]

\* rows ------------------------------------------------------------------
DotRows(cfg, st) == [i \in 1..NS(cfg) |->
    Append(Place(cfg, Mod(cfg).f[i], st), Mono(-MD(cfg), <<DotPos(cfg, i, st)>>))]
OutRows(cfg, st) == [i \in 1..NC(cfg) |->
    Append(Place(cfg, Mod(cfg).o[cfg.con[i]], st), Mono(-MD(cfg), <<ConPos(cfg, i, st)>>))]
ResRows(cfg, st) == [i \in 1..NR(cfg) |-> Place(cfg, Mod(cfg).o[Mod(cfg).residuals[i]], st)]
AlgRows(cfg) == Flat([k \in 1..Stages(cfg) |->
    DotRows(cfg, k - 1) \o OutRows(cfg, k - 1) \o ResRows(cfg, k - 1)])

\* h of interval b as a monomial (over D)
HMono(cfg, b) == IF Free(cfg) THEN Mono(LenI(cfg, b), <<MeshPos(cfg)>>) ELSE Mono(LenI(cfg, b) * cfg.ms, <<>>)

\* integration equations, times K*D (times MD if dots are eliminated)
ContRow(cfg, b, j, i, elim) ==
    LET s == Sch(cfg)
        q == IF elim THEN MD(cfg) ELSE 1
        h == HMono(cfg, b)
        st(w) == b * Width(cfg) + w - 1
        xs == [w \in 1..Len(s.node) |-> Mono(s.A[j][w] * cfg.D * q, <<VarPos(cfg, i, st(w))>>)]
        ds == Flat([w \in 1..Len(s.node) |->
                 IF s.B[j][w] = 0 THEN <<>>
                 ELSE IF elim THEN Times(Place(cfg, Mod(cfg).f[i], st(w)), -(s.B[j][w]) * h.c, h.p)
                 ELSE << Mono(-(s.B[j][w]) * h.c, <<DotPos(cfg, i, st(w))>> \o h.p) >>])
    IN xs \o ds
ContRows(cfg, elim) == Flat([b \in 1..cfg.nI |-> Flat([j \in 1..Width(cfg) |->
    [i \in 1..NS(cfg) |-> ContRow(cfg, b - 1, j, i, elim)]])])
ContDen(cfg, elim) == Sch(cfg).K * cfg.D * (IF elim THEN MD(cfg) ELSE 1)

CycVars(cfg) == SelectSeq([v \in 1..(NS(cfg) + NI(cfg)) |-> v],
                          LAMBDA v : v \notin cfg.noncyc)
CycRows(cfg) == [k \in 1..Len(CycVars(cfg)) |->
    << Mono(1, <<VarPos(cfg, CycVars(cfg)[k], 0)>>), Mono(-1, <<VarPos(cfg, CycVars(cfg)[k], -1)>>) >>]

\* the rows of the problem: sequence of [name, den, rows] -----------------
Block(nm, d, r) == [name |-> nm, den |-> [k \in 1..Len(r) |-> d], rows |-> r]
CondBlock(cfg) ==
    LET c == ContRows(cfg, TRUE)
        a == Flat([k \in 1..Stages(cfg) |-> OutRows(cfg, k - 1) \o ResRows(cfg, k - 1)])
    IN [ name |-> "model_algebra",
         den |-> [k \in 1..(Len(c) + Len(a)) |-> IF k <= Len(c) THEN ContDen(cfg, TRUE) ELSE MD(cfg)],
         rows |-> c \o a ]
CycBlocks(cfg) == IF cfg.cyc THEN << Block("cyclic", 1, CycRows(cfg)) >> ELSE <<>>
FullBlocks(cfg) ==
    << Block("model_algebra", MD(cfg), AlgRows(cfg)), Block("continuity", ContDen(cfg, FALSE), ContRows(cfg, FALSE)) >>
      \o CycBlocks(cfg)
Blocks(cfg) == IF cfg.cond THEN << CondBlock(cfg) >> \o CycBlocks(cfg) ELSE FullBlocks(cfg)

Objective(cfg) ==
    IF Free(cfg) THEN << Mono(1, <<MeshPos(cfg)>>) >>
    ELSE LET i == TimeIdx(Mod(cfg)) IN
         << Mono(1, <<VarPos(cfg, i, -1)>>), Mono(-1, <<VarPos(cfg, i, 0)>>) >>

--------------------------------------------------------------------------
(* Points *)
\* x : 0..N-1 -> Int, extended by the alias of the mesh scale
Extend(cfg, x) == [k \in 0..N(cfg) |-> IF k < N(cfg) THEN x[k] ELSE IF Free(cfg) THEN x[MeshPos(cfg)] ELSE 0]
RandPoint(cfg, seed) ==
    Extend(cfg, [k \in 0..(N(cfg) - 1) |->
        IF Free(cfg) /\ k = MeshPos(cfg) THEN Rnd(seed, k, 1, 3) ELSE Rnd(seed, k, -2, 3)])

\* condensed = full with states_dot replaced by the model's derivatives:
\* both sides times K*D*MD
\* (full continuity times MD, with K*D*x exact and K*D*xdot -> f*MD)
CondensedIsFull(cfg, x) ==
    LET c == ContRows(cfg, TRUE)
        q == ContRows(cfg, FALSE)
        dots == {DotPos(cfg, i, st) : i \in 1..NS(cfg), st \in 0..(Stages(cfg) - 1)}
        fv == [d \in dots |->
                 LET st == d \div NumVarStage(Shape(cfg))
                     i == (d % NumVarStage(Shape(cfg))) - NS(cfg) - NI(cfg) + 1
                 IN Val(Place(cfg, Mod(cfg).f[i], st), x)]
        subst(f) == SumFrom([k \in 1..Len(f) |->
                       LET m == f[k] IN
                       IF Len(m.p) > 0 /\ m.p[1] \in dots
                       THEN m.c * fv[m.p[1]] * ProdFrom(m.p, x, 2)
                       ELSE MD(cfg) * MonoVal(m, x)], 1)
    IN \A k \in 1..Len(c) : Val(c[k], x) = subst(q[k])

\* what crosses the interface ---------------------------------------------
Vals(b, x)  == [k \in 1..Len(b.rows) |-> Val(b.rows[k], x)]
Jacs(b, x)  == [k \in 1..Len(b.rows) |-> Grad(b.rows[k], x)]
Hesss(b, x) == [k \in 1..Len(b.rows) |-> Hess(b.rows[k], x)]
===========================================================================
