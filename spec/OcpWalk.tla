------------------------------ MODULE OcpWalk ------------------------------
(***************************************************************************)
(* The life of an optimal control problem: scales, meshes, parameters and  *)
(* added parts change; what the problem evaluates to is at all times a     *)
(* function of the current settings only (Eval).                           *)
(*                                                                         *)
(* st = [cfg, mpar (parameters stored in the model), pars (parameters of   *)
(*       every problem built on the model), sc (scale times 4, per scaled  *)
(*       variable), objs, cons (added parts), time (time objective kept)]  *)
(***************************************************************************)
EXTENDS Ocp, Emit
CONSTANTS Mode,      \* "C03", "C08", "C09", "C22" or "C25": which operations are offered
          Seed, Walks, Len0, Exhaustive, WithDer
VARIABLES w, step, st, last, hist
vars == <<w, step, st, last, hist>>

DW == 12
Uniform(n) == [k \in 1..(n + 1) |-> ((k - 1) * DW) \div n]

\* scaled variables: states, inputs, states_dot, con_outputs, global ------
K1(c) == NS(c)
K2(c) == NS(c) + NI(c)
K3(c) == 2 * NS(c) + NI(c)
K4(c) == 2 * NS(c) + NI(c) + NC(c)
K5(c) == K4(c) + (IF Free(c) THEN 1 ELSE 0)
ScNames(c, g) ==
    CASE g = "states" -> Mod(c).states
      [] g = "inputs" -> Mod(c).inputs
      [] g = "states_dot" -> Mod(c).states
      [] g = "con_outputs" -> [k \in 1..NC(c) |-> Mod(c).outputs[c.con[k]]]
      [] g = "global" -> IF Free(c) THEN <<"mesh_scale">> ELSE <<>>
      [] OTHER -> <<>>
GroupBase(c, g) ==
    CASE g = "states" -> 0 [] g = "inputs" -> K1(c) [] g = "states_dot" -> K2(c)
      [] g = "con_outputs" -> K3(c) [] g = "global" -> K4(c) [] OTHER -> 0
Known(c, g, n) == \E k \in 1..Len(ScNames(c, g)) : ScNames(c, g)[k] = n
ScaledVar(c, g, n) == GroupBase(c, g) + (CHOOSE k \in 1..Len(ScNames(c, g)) : ScNames(c, g)[k] = n)
Ones(c) == [k \in 1..K5(c) |-> 4]

\* scale (times 4) of a position of the decision vector
PosScale(c, sc, p) ==
    IF p >= Stages(c) * NumVarStage(Shape(c)) THEN sc[K5(c)]
    ELSE sc[(p % NumVarStage(Shape(c))) + 1]
StateScales(c, sc) == [i \in 1..NS(c) |-> sc[i]]
ConScales(c, sc) == [i \in 1..NC(c) |-> sc[K3(c) + i]]
\* scales (times 4) of the rows of a block: the equation of a state carries
\* the state's scale, of a constraint output that output's, all others one
RowScales(c, sc, name) ==
    LET ss == StateScales(c, sc)
        cs == ConScales(c, sc)
        rs == [i \in 1..NR(c) |-> 4]
        cont == Flat([b \in 1..(c.nI * Width(c)) |-> ss])
    IN CASE name = "continuity" -> cont
         [] name = "model_algebra" ->
              IF c.cond THEN cont \o Flat([k \in 1..Stages(c) |-> cs \o rs])
              ELSE Flat([k \in 1..Stages(c) |-> ss \o cs \o rs])
         [] OTHER -> <<>>            \* all one

\* added parts --------------------------------------------------------------
\* the pitch of the drone has no integer value, so added parts use the variable after it
Angle(c, p) == Mod(c).name = "Drone" /\ p < Stages(c) * NumVarStage(Shape(c)) /\ p % NumVarStage(Shape(c)) = 4
RP(c, h, k) == LET p == Rnd(h, k, 0, N(c) - 1) IN IF Angle(c, p) THEN p + 1 ELSE p
ObjPoly(c, h) ==
    CASE h % 3 = 0 -> << Mono(2, <<RP(c, h, 1)>>), Mono(-1, <<RP(c, h, 2)>>) >>
      [] h % 3 = 1 -> << Mono(1, <<RP(c, h, 1), RP(c, h, 1)>>), Mono(3, <<RP(c, h, 2)>>) >>
      [] h % 3 = 2 -> << Mono(2, <<RP(c, h, 1), RP(c, h, 2)>>), Mono(1, <<RP(c, h, 3), RP(c, h, 3)>>) >>
ConPoly(c, h) ==
    << << Mono(1, <<RP(c, h, 1)>>), Mono(-3, <<>>) >>,
       << Mono(2, <<RP(c, h, 2), RP(c, h, 3)>>), Mono(1, <<RP(c, h, 4)>>) >>,
       << Mono(-1, <<RP(c, h, 2), RP(c, h, 2)>>), Mono(1, <<RP(c, h, 2)>>) >> >>
Names(s) == {s[k].name : k \in 1..Len(s)}
Part(s, n) == CHOOSE e \in {s[k] : k \in 1..Len(s)} : e.name = n
Drop(s, n) == SelectSeq(s, LAMBDA e : e.name # n)
BlockNames(c) == {Blocks(c)[k].name : k \in 1..Len(Blocks(c))}

\* meshes -------------------------------------------------------------------
LegalMesh(c, pts) ==
    /\ Len(pts) = c.nI + 1
    /\ pts[1] = 0
    /\ pts[Len(pts)] = DW
    /\ \A k \in 1..(Len(pts) - 1) : pts[k] < pts[k + 1]
\* nI - 1 inner points 1..DW-1, in order
RECURSIVE Inner(_, _, _, _)
Inner(h, k, n, low) ==
    IF k > n THEN <<>>
    ELSE LET p == Rnd(h, k, low + 1, DW - 1 - (n - k)) IN <<p>> \o Inner(h, k + 1, n, p)
RandMesh(h, n) == <<0>> \o Inner(h, 1, n - 1, 0) \o <<DW>>
BadMesh(h, n) ==
    LET m == RandMesh(h, n) IN
    CASE h % 7 = 0 -> Append(m, DW + 1)
      [] h % 7 = 1 -> Tail(m)
      [] h % 7 = 2 -> [m EXCEPT ![1] = 1 - 2 * (h % 2)]
      [] h % 7 = 3 -> [m EXCEPT ![n + 1] = DW + 1 - 2 * (h % 2)]
      [] h % 7 = 4 -> IF n > 1 THEN [m EXCEPT ![n] = DW] ELSE <<0, 0>>
      [] h % 7 = 5 -> IF n > 1 THEN [m EXCEPT ![2] = 0] ELSE <<DW, 0>>
      [] h % 7 = 6 -> IF n > 2 THEN [m EXCEPT ![2] = m[3], ![3] = m[2]] ELSE [k \in 1..Len(m) |-> m[Len(m) + 1 - k]]

\* parameters ---------------------------------------------------------------
ParBase(m, k) == SumFrom([j \in 1..(k - 1) |-> Max2(1, m.params[j].n)], 1)
SetPar(m, par, k, vals) ==
    [j \in 1..Len(par) |->
        LET o == j - ParBase(m, k) IN IF o >= 1 /\ o <= Len(vals) THEN vals[o] ELSE par[j]]
RandVals(m, h, k) == [j \in 1..Max2(1, m.params[k].n) |-> Rnd(h, 50 + j, -3, 3)]

--------------------------------------------------------------------------
(* An operation yields [op (for the driver), ok, st]. *)
Did(o, ok, s) == [op |-> o, ok |-> ok, st |-> s]
G(h) == Pick(h, 3, <<"states", "inputs", "con_outputs", "states", "states_dot", "global">>)
OneScale(c, h) ==
    LET g == Pick(h, 3, <<"states", "inputs", "con_outputs", "states", "states_dot", "global">>)
        nn == ScNames(c, g)
        g2 == IF nn = <<>> THEN "states" ELSE g
    IN [g |-> g2, n |-> Pick(h, 4, ScNames(c, g2)), k |-> Pick(h, 5, <<1, 2, 8, 12, 16, 20, 40>>)]
BadScale(c, h) ==
    CASE h % 4 = 0 -> [g |-> "states", n |-> "nope", k |-> 8]
      [] h % 4 = 1 -> [g |-> "nogroup", n |-> "p", k |-> 8]
      [] h % 4 = 2 -> [g |-> "con_outputs", n |-> "time", k |-> 8]
      [] h % 4 = 3 -> IF Free(c) THEN [g |-> "global", n |-> "nope", k |-> 8] ELSE [g |-> "global", n |-> "mesh_scale", k |-> 8]
RECURSIVE ApplyScales(_, _, _)
ApplyScales(c, sc, l) ==
    IF l = <<>> THEN sc
    ELSE ApplyScales(c, [sc EXCEPT ![ScaledVar(c, Head(l).g, Head(l).n)] = Head(l).k], Tail(l))

\* every second exhaustive walk of C03 is about parts that come and go while scales change
PartWalk == Exhaustive /\ Mode = "C03" /\ w % 2 = 0
Do(kind, s, h) ==
    LET c == s.cfg
        m == Mod(c)
        j == Rnd(h, 11, 1, Len(s.pars))
        np == Rnd(h, 12, 1, Len(m.params))
        vals == RandVals(m, h, np)
    IN
    CASE kind = "scales" ->
           LET n == Rnd(h, 1, 0, 4)
               every == Flat([q \in 1..3 |-> LET g == <<"states", "inputs", "con_outputs">>[q] IN
                            [k \in 1..Len(ScNames(c, g)) |-> [g |-> g, n |-> ScNames(c, g)[k], k |-> Pick(h, 10 * q + k, <<2, 8, 12>>)]]])
               l == IF PartWalk \/ h % 5 = 0 THEN every ELSE [k \in 1..n |-> OneScale(c, Hash(h, 100 + k))]
           IN Did([k |-> "scales", l |-> l, j |-> 1], TRUE, [s EXCEPT !.sc = ApplyScales(c, Ones(c), l)])
      [] kind = "noscales" -> Did([k |-> "scales", l |-> <<>>, j |-> 1], TRUE, [s EXCEPT !.sc = Ones(c)])
      [] kind = "badscales" ->
           LET l == << OneScale(c, Hash(h, 100)), BadScale(c, Hash(h, 200)), OneScale(c, Hash(h, 102)) >>
           IN Did([k |-> "scales", l |-> l, j |-> 1], FALSE, s)
      [] kind = "addobj" ->
           LET p == [name |-> Pick(h, 1, <<"o1", "o2", "o3">>), id |-> step, poly |-> ObjPoly(c, h), dense |-> h % 2 = 0]
           IN IF p.name \in Names(s.objs) THEN Did([k |-> "addobj", part |-> p, j |-> 1], FALSE, s)
              ELSE Did([k |-> "addobj", part |-> p, j |-> 1], TRUE, [s EXCEPT !.objs = Append(@, p)])
      [] kind = "addcon" ->
           LET p == [name |-> Pick(h, 1, <<"c1", "c2", "model_algebra">>), id |-> step, rows |-> ConPoly(c, h), dense |-> h % 2 = 0]
           IN IF p.name \in Names(s.cons) \cup BlockNames(c) THEN Did([k |-> "addcon", part |-> p, j |-> 1], FALSE, s)
              ELSE Did([k |-> "addcon", part |-> p, j |-> 1], TRUE, [s EXCEPT !.cons = Append(@, p)])
      [] kind = "del" ->                    \* the part added last
           IF s.objs # <<>> THEN LET p == s.objs[Len(s.objs)] IN
               Did([k |-> "delobj", name |-> p.name, j |-> 1], TRUE, [s EXCEPT !.objs = Drop(@, p.name), !.bin = Append(@, [k |-> "addobj", part |-> p])])
           ELSE IF s.cons # <<>> THEN LET p == s.cons[Len(s.cons)] IN
               Did([k |-> "delcon", name |-> p.name, j |-> 1], TRUE, [s EXCEPT !.cons = Drop(@, p.name), !.bin = Append(@, [k |-> "addcon", part |-> p])])
           ELSE Did([k |-> "nop", j |-> 1], TRUE, s)
      [] kind = "delobj" ->
           LET n == IF s.objs = <<>> \/ h % 8 = 0 THEN Pick(h, 1, <<"o1", "o2", "o3", "o1">>) ELSE s.objs[Rnd(h, 1, 1, Len(s.objs))].name
               last1 == ~s.time /\ Len(s.objs) = 1
           IN IF n \in Names(s.objs) /\ ~last1 THEN Did([k |-> "delobj", name |-> n, j |-> 1], TRUE, [s EXCEPT !.objs = Drop(@, n), !.bin = Append(@, [k |-> "addobj", part |-> Part(s.objs, n)])])
              ELSE Did([k |-> "delobj", name |-> "nope", j |-> 1], FALSE, s)
      [] kind = "deltime" ->
           IF s.time /\ Len(s.objs) > 0 THEN Did([k |-> "delobj", name |-> "time", j |-> 1], TRUE, [s EXCEPT !.time = FALSE])
           ELSE Did([k |-> "nop", j |-> 1], TRUE, s)
      [] kind = "delcon" ->
           LET n == IF s.cons = <<>> \/ h % 8 = 0 THEN Pick(h, 1, <<"c1", "c2">>) ELSE s.cons[Rnd(h, 1, 1, Len(s.cons))].name IN
           IF n \in Names(s.cons) THEN Did([k |-> "delcon", name |-> n, j |-> 1], TRUE, [s EXCEPT !.cons = Drop(@, n), !.bin = Append(@, [k |-> "addcon", part |-> Part(s.cons, n)])])
           ELSE Did([k |-> "delcon", name |-> n, j |-> 1], FALSE, s)
      [] kind = "readd" ->                  \* a part that was deleted before is added again
           IF s.bin = <<>> THEN Did([k |-> "nop", j |-> 1], TRUE, s)
           ELSE LET b == s.bin[Len(s.bin)] p == b.part
                    used == IF b.k = "addobj" THEN Names(s.objs) ELSE Names(s.cons)
                IN IF p.name \in used THEN Did([k |-> b.k, part |-> p, j |-> 1], FALSE, s)
                   ELSE Did([k |-> b.k, part |-> p, j |-> 1], TRUE,
                            IF b.k = "addobj" THEN [s EXCEPT !.objs = Append(@, p), !.bin = SubSeq(@, 1, Len(@) - 1)]
                            ELSE [s EXCEPT !.cons = Append(@, p), !.bin = SubSeq(@, 1, Len(@) - 1)])
      [] kind = "mesh" ->
           LET p == RandMesh(h, c.nI) IN
           Did([k |-> "mesh", pts |-> p, j |-> 1], TRUE, [s EXCEPT !.cfg.pts = p])
      [] kind = "uniform" ->
           Did([k |-> "mesh", pts |-> <<>>, j |-> 1], TRUE, [s EXCEPT !.cfg.pts = Uniform(c.nI)])
      [] kind = "badmesh" ->
           LET p == BadMesh(Hash(h, 77), c.nI) IN
           IF LegalMesh(c, p) THEN Did([k |-> "mesh", pts |-> p, j |-> 1], TRUE, [s EXCEPT !.cfg.pts = p])
           ELSE Did([k |-> "mesh", pts |-> p, j |-> 1], FALSE, s)
      [] kind = "ms" ->
           LET v == Rnd(h, 1, 1, 4) IN
           IF Free(c) THEN Did([k |-> "nop", j |-> 1], TRUE, s)
           ELSE Did([k |-> "ms", v |-> v, j |-> 1], TRUE, [s EXCEPT !.cfg.ms = v])
      [] kind = "oparam" ->
           LET p == SetPar(m, s.pars[j], np, vals) IN
           Did([k |-> "oparam", path |-> m.params[np].path, n |-> m.params[np].n, vals |-> vals, j |-> j], TRUE,
               [s EXCEPT !.pars[j] = p, !.mpar = p])
      [] kind = "badparam" ->
           Did([k |-> "oparam", path |-> Pick(h, 1, <<"nosub.k", "nosub.deeper.k">>), n |-> 0, vals |-> <<1>>, j |-> j], FALSE, s)
      [] kind = "mparam" ->
           Did([k |-> "mparam", path |-> m.params[np].path, n |-> m.params[np].n, vals |-> vals, j |-> 1], TRUE,
               [s EXCEPT !.mpar = SetPar(m, s.mpar, np, vals)])
      [] kind = "scribble" -> Did([k |-> "scribble", j |-> 1], TRUE, s)
      [] kind = "export"   -> Did([k |-> "export", j |-> 1], TRUE, s)
      [] kind = "remake"   -> Did([k |-> "remake", j |-> 1], TRUE, s)
      [] kind = "build" ->
           IF Len(s.pars) < 3 THEN Did([k |-> "build", j |-> 1], TRUE, [s EXCEPT !.pars = Append(@, s.mpar)])
           ELSE Did([k |-> "nop", j |-> 1], TRUE, s)
      [] OTHER -> Did([k |-> "nop", j |-> 1], TRUE, s)

Kinds == CASE Mode = "C03" -> <<"scales", "scales", "scales", "badscales", "addobj", "addcon", "delobj", "deltime", "delcon", "readd", "readd", "readd",
                                "delobj", "delcon", "noscales", "noscales", "mesh", "oparam", "ms">>
           [] Mode = "C08" -> <<"mesh", "mesh", "badmesh", "badmesh", "uniform", "ms", "ms", "scales", "oparam", "addcon">>
           [] Mode = "C09" -> <<"oparam", "oparam", "mparam", "mparam", "scribble", "build", "export", "remake", "badparam", "mesh", "scales">>
Depth == IF PartWalk THEN Len0 + 2 ELSE Len0
Alphabet == CASE PartWalk -> <<"scales", "addobj", "addcon", "del", "noscales", "readd">>
              [] Mode = "C03" -> <<"scales", "badscales", "addobj", "addcon", "delobj", "mesh", "scales">>
              [] Mode = "C08" -> <<"mesh", "badmesh", "uniform", "ms", "mesh">>
              [] Mode = "C09" -> <<"oparam", "mparam", "scribble", "build", "remake", "oparam">>

--------------------------------------------------------------------------
SchNames == SchemeNames
Cfg0(h) ==
    LET m == IF Mode = "C25" THEN DroneNo ELSE IF Mode = "C09" THEN Pick(h, 1, <<1, 2, 3, 4, 4>>) ELSE Rnd(h, 1, 1, NumModels)
        nI == IF Exhaustive THEN Rnd(h, 2, 1, 2) ELSE Rnd(h, 2, 1, 4)
        cyc == Rnd(h, 3, 0, 2) = 0
        hasin == Len(Models[m].inputs) > 0
    IN [ m |-> m, con |-> Pick(h, 4, ConChoices[m]), cls |-> IF Mode = "C25" THEN "scaled" ELSE Pick(h, 5, <<"fixed", "scaled">>),
         sch |-> Pick(h, 6, SchNames), nI |-> nI, D |-> DW, pts |-> RandMesh(Hash(h, 7), nI), ms |-> 1,
         cyc |-> cyc, noncyc |-> IF cyc /\ hasin THEN Pick(h, 8, <<{}, {1}>>) ELSE {},
         cond |-> Rnd(h, 9, 0, 1) = 1, par |-> Models[m].def, trig |-> IF Mode = "C25" THEN [k \in 1..20 |-> <<0, 5>>] ELSE <<>>, key |-> h ]
Fresh(c0) ==
    LET c == IF c0.cls = "fixed" THEN [c0 EXCEPT !.ms = Rnd(c0.key, 20, 1, 3)] ELSE c0 IN
    [ cfg |-> c, mpar |-> c.par, pars |-> <<c.par>>, sc |-> Ones(c), objs |-> <<>>, cons |-> <<>>, time |-> TRUE, bin |-> <<>> ]

Init ==
    /\ w \in 1..Walks
    /\ step = 0
    /\ st = Fresh(Cfg0(Hash(Seed, w * 13)))
    /\ last = [op |-> [k |-> "init", j |-> 1], ok |-> TRUE]
    /\ hist = <<>>
Take(d) == /\ st' = d.st
           /\ last' = [op |-> d.op, ok |-> d.ok]
           /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
Next ==
    /\ step < Depth
    /\ step' = step + 1 /\ w' = w
    /\ IF Exhaustive
       THEN \E a \in 1..Len(Alphabet) : Take(Do(Alphabet[a], st, Hash(Seed * 3 + w, a * 1009)))
       ELSE LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) IN Take(Do(Pick(h, 1, Kinds), st, Hash(h, 9)))
Spec == Init /\ [][Next]_vars

\* design: a rejected operation changes nothing; what was set is in force ----
RejectedKeeps == [][~last'.ok => st' = st]_vars
TypeOK == /\ LegalMesh(st.cfg, st.cfg.pts)
          /\ \A k \in 1..Len(st.sc) : st.sc[k] > 0
          /\ Cardinality(Names(st.objs)) = Len(st.objs)
          /\ Cardinality(Names(st.cons)) = Len(st.cons)

--------------------------------------------------------------------------
X == LET x == RandPoint(st.cfg, Hash(Seed + w, step + 500)) IN
     IF Mode = "C25" THEN [p \in DOMAIN x |-> IF Angle(st.cfg, p) THEN 0 ELSE x[p]] ELSE x
\* sine and cosine (times 5) of the drone's pitch at the stages
Angles == << <<0, 5>>, <<3, 4>>, <<4, 3>>, <<5, 0>>, <<4, -3>>, <<-3, 4>>, <<0, -5>>, <<-3, -4>>, <<-5, 0>> >>
Trig == IF Mode = "C25" THEN [k \in 1..Stages(st.cfg) |-> Pick(Hash(Seed + w, step + 700), k, Angles)] ELSE <<>>
EvalOf(j) ==
    LET c == [st.cfg EXCEPT !.par = st.pars[j], !.trig = Trig]
        first == j = 1
        own == IF first THEN Blocks(c) ELSE Blocks([Fresh(Cfg0(st.cfg.key)).cfg EXCEPT !.par = st.pars[j]])
        bs == own \o (IF first THEN [k \in 1..Len(st.cons) |-> Block(st.cons[k].name, 1, st.cons[k].rows)] ELSE <<>>)
        objs == (IF st.time \/ ~first THEN <<Objective(c)>> ELSE <<>>) \o (IF first THEN [k \in 1..Len(st.objs) |-> st.objs[k].poly] ELSE <<>>)
        ob == Flat(objs)
        x == X
    IN [ obj |-> Val(ob, x), objgrad |-> Grad(ob, x), objhess |-> Hess(ob, x), par |-> st.pars[j],
         blocks |-> [b \in 1..Len(bs) |->
            [ name |-> bs[b].name, den |-> bs[b].den, val |-> Vals(bs[b], x),
              jac |-> IF WithDer THEN Jacs(bs[b], x) ELSE <<>>,
              hess |-> IF WithDer THEN Hesss(bs[b], x) ELSE <<>>,
              rs |-> IF first THEN RowScales(c, st.sc, bs[b].name) ELSE <<>> ]] ]
\* the model on its own
LocalVal(f, v, t, par) ==
    SumFrom([k \in 1..Len(f) |-> f[k].c * Pow(t, f[k].t) * ProdFrom(f[k].q, par, 1) * ProdFrom(f[k].v, v, 1)], 1)
ModelAt ==
    LET m == Mod(st.cfg)
        h == Hash(Seed + w, step + 900)
        v == [k \in 1..(Len(m.states) + Len(m.inputs)) |-> Rnd(h, k, -3, 3)]
        t == Rnd(h, 40, 0, 3)
        gp == [k \in 1..Len(st.mpar) |-> Rnd(h, 60 + k, -3, 3)]
        all == m.f \o m.o
    IN [ v |-> v, t |-> t, given |-> gp, mpar |-> st.mpar,
         own |-> [k \in 1..Len(all) |-> LocalVal(all[k], v, t, st.mpar)],
         gvn |-> [k \in 1..Len(all) |-> LocalVal(all[k], v, t, gp)] ]
Ans ==
    [ w |-> w, step |-> step, cfg |-> st.cfg, cfg0 |-> Fresh(Cfg0(st.cfg.key)).cfg, last |-> last, hist |-> hist,
      n |-> N(st.cfg), free |-> Free(st.cfg),
      x |-> [k \in 1..N(st.cfg) |-> X[k - 1]], mesh |-> MeshNums(st.cfg), meshden |-> DD(st.cfg),
      s |-> [k \in 1..N(st.cfg) |-> PosScale(st.cfg, st.sc, k - 1)],
      evals |-> [j \in 1..Len(st.pars) |-> EvalOf(j)],
      model |-> IF Mode = "C09" THEN <<ModelAt>> ELSE <<>> ]
Out == EmitJson(Ans, <<w, step, hist>>)
PostModels == TLCGet("stats").distinct > 0 /\ CSVWrite("%1$s", <<ToJson([models |-> Models, schemes |-> Schemes])>>, IOEnv.VERIF_OUT \o ".models")
===========================================================================
