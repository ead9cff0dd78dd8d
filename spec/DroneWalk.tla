----------------------------- MODULE DroneWalk -----------------------------
(***************************************************************************)
(* C25.  The shipped minimum-time problem of a drone, as a user meets it:  *)
(* from its default configuration (a flip) or one of his own, through any  *)
(* history of settings and solves.  Composition of OcpWalk, Bounds and     *)
(* SolveWalk for the model "Drone" of Ocp; pitch angles have rational sines *)
(* and cosines, plus whole turns.                                          *)
(***************************************************************************)
EXTENDS SolveWalk

\* numbers that are no integers, by code
PiTimes(k) == 500000 + k
Tenths(k) == -400000 - k
Lim(g, n, lo, hi) == [g |-> g, n |-> n, kind |-> "scalar", lo |-> <<lo>>, hi |-> <<hi>>]
DefaultBounds ==
    << Lim("states", "x", -50, 50), Lim("states", "x_dot", -50, 50), Lim("states", "z", -50, 50), Lim("states", "z_dot", -50, 50),
       Lim("states", "theta", PiTimes(-10), PiTimes(10)), Lim("inputs", "f", 1, 20), Lim("inputs", "omega", -10, 10),
       Lim("global", "mesh_scale", Tenths(1), 50) >>
\* from rest at the origin to rest five metres higher, having turned once
At(s, n, v) == [g |-> "states", n |-> n, s |-> s, v |-> v]
DefaultBCs ==
    << At(0, "x", 0), At(0, "x_dot", 0), At(0, "z", 0), At(0, "z_dot", 0), At(0, "theta", 0),
       At(-1, "x", 0), At(-1, "x_dot", 0), At(-1, "z", 5), At(-1, "z_dot", 0), At(-1, "theta", PiTimes(2)) >>
ByDefault == Rnd(st.cfg.key, 90, 0, 1) = 0
DefaultState(c) ==
    [ cfg |-> c, bcs |-> B!BCPos(c, DefaultBCs),
      base |-> B!ApplyEntries(c, B!Unbounded(c), DefaultBounds \o (IF c.cond THEN B!Pinned(c) ELSE <<>>)) ]
DInit ==
    /\ Init
    /\ LET s0 == B!Start(st.cfg) IN
       /\ bst = IF ByDefault THEN DefaultState(st.cfg) ELSE s0.st
       /\ sv = [ start |-> [k |-> "init", default |-> ByDefault, bounds |-> s0.op.bounds, bcs |-> s0.op.bcs],
                 rows |-> <<>>, num |-> -1, nsol |-> 0 ]
DSpec == DInit /\ [][VNext]_vvars

--------------------------------------------------------------------------
ThetaPos(c) == {VarPos(c, 5, s) : s \in 0..(Stages(c) - 1)}
\* integration and repetition equations are linear in the pitch itself
Pure(c, row) == SelectSeq(row, LAMBDA m : Len(m.p) = 1 /\ m.p[1] \in ThetaPos(c))
ThetaRow(c, b, r) ==
    CASE b = "continuity" -> r % NS(c) = 0
      [] b = "model_algebra" -> c.cond /\ r <= c.nI * Width(c) * NS(c) /\ r % NS(c) = 0
      [] b = "cyclic" -> TRUE
      [] OTHER -> FALSE
Lin == LET c == [st.cfg EXCEPT !.par = st.pars[1], !.trig = Trig] bs == Blocks(c) IN
       [b \in 1..Len(bs) |-> [ name |-> bs[b].name,
           terms |-> Flat([r \in 1..Len(bs[b].rows) |->
               IF ~ThetaRow(c, bs[b].name, r) THEN <<>>
               ELSE LET q == Pure(c, bs[b].rows[r]) IN [k \in 1..Len(q) |-> <<r - 1, q[k].p[1], q[k].c>>]]) ]]
Turns == [k \in 1..Stages(st.cfg) |-> Rnd(Hash(Seed + w, step + 800), k, -1, 1)]
AngleList == [k \in 1..Stages(st.cfg) |-> <<VarPos(st.cfg, 5, k - 1), Trig[k][1], Trig[k][2], Turns[k]>>]
UnitCircle == \A k \in 1..Len(Trig) : (Trig[k][1] * Trig[k][1]) + (Trig[k][2] * Trig[k][2]) = 25
\* hovering: no acceleration where the thrust is the weight and the drone is level
Hover == LET c == [st.cfg EXCEPT !.par = st.pars[1], !.trig = [k \in 1..Stages(st.cfg) |-> <<0, 5>>]]
             x == [p \in 0..N(c) |-> IF p = VarPos(c, 6, 0) THEN c.par[1] ELSE 0]
         IN \A i \in 1..NS(c) : Val(Place(c, Mod(c).f[i], 0), x) = 0
\* time enters by the length of the mesh only
TimeIsScale == Objective(st.cfg) = << Mono(1, <<MeshPos(st.cfg)>>) >> /\ X[MeshPos(st.cfg)] > 0

DOut == EmitJson([ w |-> w, step |-> step, cfg |-> st.cfg, cfg0 |-> Fresh(Cfg0(st.cfg.key)).cfg, last |-> last, hist |-> <<>>,
                   start |-> sv.start, n |-> N(st.cfg), free |-> Free(st.cfg), angles |-> AngleList, lin |-> Lin,
                   x |-> [k \in 1..N(st.cfg) |-> X[k - 1]], mesh |-> MeshNums(st.cfg), meshden |-> DD(st.cfg),
                   s |-> [k \in 1..N(st.cfg) |-> PosScale(st.cfg, st.sc, k - 1)],
                   lo |-> [k \in 1..N(st.cfg) |-> B!Lo(bst, k - 1)], hi |-> [k \in 1..N(st.cfg) |-> B!Hi(bst, k - 1)],
                   nobj |-> Len(st.objs) + (IF st.time THEN 1 ELSE 0), rows |-> sv.rows, num |-> sv.num,
                   evals |-> <<EvalOf(1)>>, model |-> <<>> ], <<w, step, hist>>)
===========================================================================
