------------------------------ MODULE LapWalk ------------------------------
(***************************************************************************)
(* C20.  A lap-time problem under changes of track, mesh, bounds and        *)
(* boundary conditions.  own: positions whose bounds the track gives (the   *)
(* values follow from the current track and mesh); all other positions have *)
(* the numbers last written (base); boundary conditions override both.      *)
(***************************************************************************)
EXTENDS Ocp, Track, Emit
CONSTANTS Seed, Walks, Len0, Exhaustive
VARIABLES w, step, st, last, hist
vars == <<w, step, st, last, hist>>

Inf == 1000000
Trk == 2000000          \* "what the track says"
DW == 12
LStates == <<"time", "n", "eta", "vx", "vy", "yaw_rate", "wheel_speed_fl", "wheel_speed_fr", "wheel_speed_rl", "wheel_speed_rr">>
LInputs == <<"throttle", "brake", "steer", "ax", "ay", "track_curvature", "track_heading">>
Cons == << <<>>, <<"vehicle.slip_ratio_fl", "vehicle.slip_angle_rr">>, <<"vehicle.ax">> >>
Sh(c) == [ groups |-> << [name |-> "states", size |-> 10], [name |-> "inputs", size |-> 7],
                         [name |-> "states_dot", size |-> 10], [name |-> "con_outputs", size |-> Len(c.cons)] >>,
           nI |-> c.nI, nS |-> Len(Sch(c).node), nG |-> 0 ]
LS(c) == NumStages(Sh(c))
LN(c) == NumDec(Sh(c))
Names(c, g) == CASE g = "states" -> LStates [] g = "states_dot" -> LStates [] g = "inputs" -> LInputs
                 [] g = "con_outputs" -> c.cons [] OTHER -> <<>>
Known(c, g, n) == \E k \in 1..Len(Names(c, g)) : Names(c, g)[k] = n
No(c, g, n) == CHOOSE k \in 1..Len(Names(c, g)) : Names(c, g)[k] = n
P(c, g, n, s) == Pos(Sh(c), g, No(c, g, n) - 1, s)
Ps(c, g, n) == {P(c, g, n, s) : s \in 0..(LS(c) - 1)}
TrackVars == << <<"inputs", "track_curvature">>, <<"inputs", "track_heading">>, <<"states", "n">> >>
TrackPs(c) == UNION {Ps(c, TrackVars[k][1], TrackVars[k][2]) : k \in 1..3}
StageOf(c, p) == p \div NumVarStage(Sh(c))
\* stages' distances over DD * 5 metres
Q(s, k) == NodeNum(s.c, k) * s.trk.s[Len(s.trk.s)]

--------------------------------------------------------------------------
EntryOK(c, e) ==
    /\ Known(c, e.g, e.n) /\ Len(e.lo) = Len(e.hi)
    /\ \A k \in 1..Len(e.lo) : e.lo[k] <= e.hi[k]
    /\ e.kind = "array" => Len(e.lo) = LS(c)
ApplyEntry(c, b, e) ==
    LET at(s, p) == IF e.kind = "array" THEN s[StageOf(c, p) + 1] ELSE s[1]
        ps == Ps(c, e.g, e.n)
    IN [ lo |-> [p \in DOMAIN b.lo |-> IF p \in ps THEN at(e.lo, p) ELSE b.lo[p]],
         hi |-> [p \in DOMAIN b.hi |-> IF p \in ps THEN at(e.hi, p) ELSE b.hi[p]],
         own |-> b.own \ ps ]
RECURSIVE ApplyEntries(_, _, _)
ApplyEntries(c, b, l) == IF l = <<>> THEN b ELSE ApplyEntries(c, ApplyEntry(c, b, Head(l)), Tail(l))
BCOK(c, e) == Known(c, e.g, e.n) /\ e.s >= -LS(c) /\ e.s < LS(c)
BCPos(c, l) == [k \in 1..Len(l) |-> [p |-> P(c, l[k].g, l[k].n, l[k].s), v |-> l[k].v]]
LastBC(bcs, p) == LET ks == {k \in 1..Len(bcs) : bcs[k].p = p} IN
                  IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
Lo(s, p) == LET k == LastBC(s.bcs, p) IN IF k # 0 THEN s.bcs[k].v ELSE IF p \in s.b.own THEN Trk ELSE s.b.lo[p]
Hi(s, p) == LET k == LastBC(s.bcs, p) IN IF k # 0 THEN s.bcs[k].v ELSE IF p \in s.b.own THEN Trk ELSE s.b.hi[p]

--------------------------------------------------------------------------
AVar(c, h) ==
    IF Rnd(h, 30, 0, 2) = 0 THEN LET v == TrackVars[Rnd(h, 31, 1, 3)] IN [g |-> v[1], n |-> v[2]]
    ELSE LET g == Pick(h, 31, <<"states", "states", "inputs", "states_dot", "con_outputs">>)
             g2 == IF Names(c, g) = <<>> THEN "inputs" ELSE g
         IN [g |-> g2, n |-> Pick(h, 32, Names(c, g2))]
Entry(c, h) ==
    LET v == AVar(c, h)
        arr == Rnd(h, 33, 0, 2) = 0
        n == IF arr THEN LS(c) ELSE 1
        lo == [k \in 1..n |-> Rnd(h, 40 + k, -6, 4)]
    IN [ g |-> v.g, n |-> v.n, kind |-> IF arr THEN "array" ELSE "scalar", lo |-> lo,
         hi |-> [k \in 1..n |-> IF Rnd(h, 80 + k, 0, 9) = 0 THEN Inf ELSE lo[k] + Rnd(h, 100 + k, 0, 4)] ]
Corrupt(c, e, h) ==
    CASE h % 4 = 0 -> [e EXCEPT !.n = "nope"]
      [] h % 4 = 1 -> [e EXCEPT !.g = "nogroup"]
      [] h % 4 = 2 -> [e EXCEPT !.kind = "array", !.lo = [k \in 1..(LS(c) + 1) |-> 0], !.hi = [k \in 1..(LS(c) + 1) |-> 1]]
      [] h % 4 = 3 -> [e EXCEPT !.kind = "scalar", !.lo = <<3>>, !.hi = <<2>>]
BC(c, h) == LET v == AVar(c, h) IN
    [g |-> v.g, n |-> v.n, s |-> Pick(h, 34, <<0, -1, 0, Rnd(h, 35, -LS(c), LS(c) - 1)>>), v |-> Rnd(h, 36, -9, 9)]
CorruptBC(c, e, h) == IF h % 2 = 0 THEN [e EXCEPT !.n = "nope"] ELSE [e EXCEPT !.s = LS(c) + (h % 3)]
\* scales (times 4) of the variables, those not named count one; the start may already have some
AScale(c, h) == LET v == AVar(c, h) IN [g |-> v.g, n |-> v.n, k |-> Pick(h, 37, <<1, 2, 8, 20, 40, 3>>)]
VarScale(l, g, n) == LET ks == {k \in 1..Len(l) : l[k].g = g /\ l[k].n = n} IN
                     IF ks = {} THEN 4 ELSE l[CHOOSE k \in ks : \A j \in ks : j <= k].k
BadTracks == <<"missing", "nocolumn", "crossing", "duplicate", "nan", "onerow">>

Did(o, ok, s) == [op |-> o, ok |-> ok, st |-> s]
TakeTrack(s, t) == [s EXCEPT !.trk = t, !.b.own = TrackPs(s.c)]
GoodMesh(c, h) ==
    LET cut == {Rnd(h, 10 + k, 1, DW - 1) : k \in 1..(c.nI - 1)}
        RECURSIVE Sorted(_)
        Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A n \in S : m <= n IN <<m>> \o Sorted(S \ {m})
    IN IF Cardinality(cut) = c.nI - 1 THEN <<0>> \o Sorted(cut) \o <<DW>>
       ELSE [k \in 1..(c.nI + 1) |-> ((k - 1) * DW) \div c.nI]
BadMesh(c, h) == LET m == GoodMesh(c, h) IN
    CASE h % 4 = 0 -> Append(m, DW + 1) [] h % 4 = 1 -> [m EXCEPT ![1] = 1]
      [] h % 4 = 2 -> [m EXCEPT ![c.nI + 1] = DW - 1] [] h % 4 = 3 -> [m EXCEPT ![c.nI] = DW]
Do(kind, s, h) ==
    LET c == s.c
        n == Rnd(h, 1, 1, 3)
        es == [k \in 1..n |-> Entry(c, Hash(h, 200 + k))]
        bs == [k \in 1..n |-> BC(c, Hash(h, 300 + k))]
        bad == Rnd(h, 2, 1, n)
        t == Line(Hash(h, 7), 2, 9)
        fmt == Rnd(h, 8, 0, 3)
    IN
    CASE kind = "track" -> Did([k |-> "track", bad |-> "", fmt |-> fmt, t |-> Data(t)], TRUE, TakeTrack(s, t))
      [] kind = "badtrack" -> Did([k |-> "track", bad |-> Pick(h, 3, BadTracks), fmt |-> fmt, t |-> Data(t)], FALSE, s)
      [] kind = "bounds" -> Did([k |-> "bounds", l |-> es], TRUE, [s EXCEPT !.b = ApplyEntries(c, s.b, es)])
      [] kind = "badbounds" -> Did([k |-> "bounds", l |-> [es EXCEPT ![bad] = Corrupt(c, es[bad], Hash(h, 5))]], FALSE, s)
      [] kind = "bc" -> Did([k |-> "bc", l |-> bs], TRUE, [s EXCEPT !.bcs = @ \o BCPos(c, bs)])
      [] kind = "badbc" -> Did([k |-> "bc", l |-> [bs EXCEPT ![bad] = CorruptBC(c, bs[bad], Hash(h, 5))]], FALSE, s)
      \* what a mesh change means for bounds the user put in place of the track's is left open
      [] kind = "mesh" -> IF s.b.own # TrackPs(c) THEN Did([k |-> "nop"], TRUE, s)
                          ELSE LET m == GoodMesh(c, h) IN Did([k |-> "mesh", pts |-> m], TRUE, [s EXCEPT !.c.pts = m])
      [] kind = "badmesh" -> Did([k |-> "mesh", pts |-> BadMesh(c, h)], FALSE, s)
      [] kind = "scales" -> LET l == IF h % 5 = 0 THEN <<>> ELSE [k \in 1..(2 * n) |-> AScale(c, Hash(h, 400 + k))] \o <<[g |-> "states", n |-> "time", k |-> 40]>>
                                \o (IF h % 3 = 0 THEN <<>> ELSE <<[g |-> "inputs", n |-> "steer", k |-> 2]>>)
                            IN Did([k |-> "scales", l |-> l], TRUE, [s EXCEPT !.sc = l])
      [] kind = "badscales" -> Did([k |-> "scales", l |-> <<AScale(c, Hash(h, 401)), [AScale(c, Hash(h, 402)) EXCEPT !.n = "nope"]>>], FALSE, s)
      [] kind = "param" -> Did([k |-> "param", v |-> Rnd(h, 1, 600, 800)], TRUE, [s EXCEPT !.mass = Rnd(h, 1, 600, 800)])
      [] OTHER -> Did([k |-> "nop"], TRUE, s)
Kinds == <<"track", "track", "badtrack", "bounds", "bounds", "badbounds", "bc", "badbc", "mesh", "mesh", "badmesh", "param", "scales", "scales", "badscales">>
Alphabet == <<"track", "badtrack", "bounds", "bc", "mesh", "badmesh", "scales">>

Cfg0(h) ==
    LET nI == Rnd(h, 2, 1, 4)
        sch == Pick(h, 6, <<"TR", "TR", "FE", "LGR2", "LGR3", "LGRI2", "LGRI3">>)
        c == [sch |-> sch, nI |-> nI, D |-> DW, pts |-> <<>>, cons |-> Pick(h, 4, Cons), key |-> h,
              cyc |-> Rnd(h, 8, 0, 1) = 1, cond |-> Rnd(h, 9, 0, 2) = 0,
              nocyc |-> Pick(h, 10, << <<>>, <<"inputs.steer">>, <<"states.time">>, <<"inputs.track_heading", "states.n">> >>)]
    IN [c EXCEPT !.pts = GoodMesh(c, Hash(h, 11))]
Start(c) ==
    LET h == Hash(c.key, 5)
        es == [k \in 1..Rnd(h, 1, 0, 3) |-> Entry(c, Hash(h, 200 + k))]
        bs == [k \in 1..Rnd(h, 2, 0, 2) |-> BC(c, Hash(h, 300 + k))]
        pinned == IF c.cond THEN [k \in 1..10 |-> [g |-> "states_dot", n |-> LStates[k], kind |-> "scalar", lo |-> <<0>>, hi |-> <<0>>]] ELSE <<>>
        sc == [k \in 1..Rnd(h, 3, 0, 4) |-> AScale(c, Hash(h, 500 + k))]
        t == Line(Hash(h, 7), 2, 9)
        Fn(v) == [p \in 0..(LN(c) - 1) |-> v]
        free == [lo |-> Fn(-Inf), hi |-> Fn(Inf), own |-> {}]
    IN [ op |-> [k |-> "init", pts |-> c.pts, bounds |-> es, bcs |-> bs, scales |-> sc, t |-> Data(t), fmt |-> 0],
         st |-> TakeTrack([c |-> c, bcs |-> BCPos(c, bs), b |-> ApplyEntries(c, free, es \o pinned), trk |-> t, mass |-> 0, sc |-> sc], t) ]
Init ==
    /\ w \in 1..Walks
    /\ step = 0
    /\ LET s0 == Start(Cfg0(Hash(Seed, w * 13))) IN st = s0.st /\ last = [op |-> s0.op, ok |-> TRUE]
    /\ hist = <<last>>
Take(d) == /\ st' = d.st
           /\ last' = [op |-> d.op, ok |-> d.ok]
           /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
Next ==
    /\ step < Len0
    /\ step' = step + 1 /\ w' = w
    /\ IF Exhaustive
       THEN \E a \in 1..Len(Alphabet) : Take(Do(Alphabet[a], st, Hash(Seed * 3 + w + step * 41, a * 1009)))
       ELSE LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) IN Take(Do(Pick(h, 1, Kinds), st, Hash(h, 9)))
Spec == Init /\ [][Next]_vars

\* design -------------------------------------------------------------------
\* scales are about the numbers the solver sees: no bound, track or mesh moves
ScalesOnly == [][last'.op.k = "scales" => [st' EXCEPT !.sc = st.sc] = st]_vars
RejectedKeeps == [][~last'.ok => st' = st]_vars
\* only the track, only at its own positions, and never over a boundary condition
TrackKeeps == [][last'.op.k = "track" => \A p \in (0..(LN(st.c) - 1)) \ TrackPs(st.c) : Lo(st', p) = Lo(st, p) /\ Hi(st', p) = Hi(st, p)]_vars
BCsHold == [][\A p \in 0..(LN(st.c) - 1) : (LastBC(st.bcs, p) # 0 /\ last'.op.k # "bc") => Lo(st', p) = Lo(st, p) /\ Hi(st', p) = Hi(st, p)]_vars
Sane ==
    /\ LineOK(st.trk)
    /\ step = 0 => LayoutOK(Sh(st.c))
    \* the mesh spans the track: first stage at its start, last stage at its end
    /\ Q(st, 0) = 0 /\ Q(st, LS(st.c) - 1) = DD(st.c) * st.trk.s[Len(st.trk.s)]
    /\ \A k \in 0..(LS(st.c) - 2) : Q(st, k) <= Q(st, k + 1)

\* variables that must repeat from the last stage to the first
Always == <<"states.time", "inputs.track_heading">>
Cyclic(c) ==
    LET nm == [k \in 1..17 |-> IF k <= 10 THEN "states." \o LStates[k] ELSE "inputs." \o LInputs[k - 10]]
        off == {Always[k] : k \in 1..2} \cup {c.nocyc[k] : k \in 1..Len(c.nocyc)}
    IN SelectSeq([k \in 1..17 |-> IF nm[k] \in off THEN 0 ELSE k], LAMBDA k : k # 0)
CycPos(c, k, s) == IF k <= 10 THEN Pos(Sh(c), "states", k - 1, s) ELSE Pos(Sh(c), "inputs", k - 11, s)
\* scales (times 4) by position of the decision vector
ScaleVec(c) ==
    LET gn == Sh(c).groups per == [g \in 1..Len(gn) |-> [k \in 1..gn[g].size |-> VarScale(st.sc, gn[g].name, Names(c, gn[g].name)[k])]]
        stage == per[1] \o per[2] \o per[3] \o per[4]
    IN [p \in 1..LN(c) |-> stage[((p - 1) % Len(stage)) + 1]]
Ans ==
    LET c == st.c IN
    [ s |-> ScaleVec(c), ss |-> [k \in 1..10 |-> VarScale(st.sc, "states", LStates[k])], w |-> w, step |-> step, c |-> c, last |-> last, hist |-> hist, n |-> LN(c), stages |-> LS(c), trk |-> Data(st.trk),
      lo |-> [k \in 1..LN(c) |-> Lo(st, k - 1)], hi |-> [k \in 1..LN(c) |-> Hi(st, k - 1)],
      mesh |-> [k \in 1..LS(c) |-> NodeNum(c, k - 1)], dd |-> DD(c), total |-> st.trk.s[Len(st.trk.s)],
      seg |-> [k \in 1..LS(c) |-> Seg(st.trk.s, Q(st, k - 1), DD(c))],
      time |-> <<P(c, "states", "time", -1), P(c, "states", "time", 0)>>,
      steer |-> [k \in 1..LS(c) |-> P(c, "inputs", "steer", k - 1)],
      cyc |-> IF c.cyc THEN [k \in 1..Len(Cyclic(c)) |-> <<CycPos(c, Cyclic(c)[k], 0), CycPos(c, Cyclic(c)[k], -1)>>] ELSE <<>>,
      sch |-> Sch(c), mass |-> st.mass ]
Out == EmitJson(Ans, <<w, step, hist>>)
===========================================================================
