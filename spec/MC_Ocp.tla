------------------------------ MODULE MC_Ocp ------------------------------
(* C05-C07: every small problem configuration, evaluated at pseudo-random   *)
(* integer points.                                                         *)
EXTENDS Ocp, Emit
CONSTANTS Seed, MaxIntervals, Points, WithDer, Sample
VARIABLES cfg, k

\* interval ends over D, pseudo-random but strictly increasing
D == 4
Meshes == << << <<0, 4>> >>,
             << <<0, 1, 4>>, <<0, 2, 4>>, <<0, 3, 4>> >>,
             << <<0, 1, 2, 4>>, <<0, 1, 3, 4>>, <<0, 2, 3, 4>> >>,
             << <<0, 1, 2, 3, 4>> >> >>
NonCyc == << {}, {1}, {2} >>
Cyc == << [on |-> FALSE, non |-> {}], [on |-> TRUE, non |-> {}], [on |-> TRUE, non |-> {1}], [on |-> TRUE, non |-> {2, 3}] >>
Raw == { [m |-> m, c |-> c, cls |-> cls, sch |-> s, nI |-> n, y |-> y, cond |-> cond] :
         m \in 1..NumModels, c \in 1..3, cls \in {"fixed", "scaled"}, s \in 1..Len(SchemeNames),
         n \in 1..MaxIntervals, y \in 1..Len(Cyc), cond \in BOOLEAN }
Key(r) == Hash(Seed + r.m * 31 + r.c, (IF r.cls = "fixed" THEN 0 ELSE 1) + 2 * r.sch + 20 * r.nI + 100 * r.y
                    + (IF r.cond THEN 500 ELSE 0) + 1000 * r.m + 6000 * r.c)
Legal(r) ==
    /\ r.c <= Len(ConChoices[r.m])
    /\ Cyc[r.y].non \subseteq 1..(Len(Models[r.m].states) + Len(Models[r.m].inputs))
    \* at least one cyclic variable
    /\ (Cyc[r.y].on => Cyc[r.y].non # 1..(Len(Models[r.m].states) + Len(Models[r.m].inputs)))
    /\ Key(r) % 100 < Sample
Build(r) ==
    LET h == Key(r) IN
    [ m |-> r.m, con |-> ConChoices[r.m][r.c], cls |-> r.cls, sch |-> SchemeNames[r.sch], nI |-> r.nI,
      D |-> D, pts |-> Pick(h, 1, Meshes[r.nI]), ms |-> IF r.cls = "fixed" THEN Pick(h, 2, <<1, 2, 3>>) ELSE 1,
      cyc |-> Cyc[r.y].on, noncyc |-> Cyc[r.y].non, cond |-> r.cond, par |-> Models[r.m].def, key |-> h ]
Cfgs == { Build(r) : r \in { q \in Raw : Legal(q) } }

Init == cfg \in Cfgs /\ k = 0
Next == k < Points /\ k' = k + 1 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<cfg, k>>

\* the parameters in force when point k is evaluated: changed on the built problem
CfgAt == IF k = 1 /\ cfg.key % 2 = 0 THEN cfg
         ELSE [cfg EXCEPT !.par = [j \in 1..Len(cfg.par) |-> Rnd(cfg.key + 77 * k, j, -3, 4)]]

X == RandPoint(cfg, cfg.key + 131 * k)
SchemesExact == \A s \in DOMAIN Schemes : SchemeExact(Schemes[s])
Design ==
    k > 0 =>
      LET x == X
          bs == Blocks(CfgAt) IN
      /\ CondensedIsFull(CfgAt, x)
      /\ \A b \in 1..Len(bs) : \A r \in 1..Len(bs[b].rows) : EulerOK(bs[b].rows[r], x)

Ans(x, bs) ==
    [ cfg |-> cfg, par |-> CfgAt.par, k |-> k, n |-> N(cfg), x |-> [j \in 1..N(cfg) |-> x[j - 1]],
      mesh |-> MeshNums(cfg), meshden |-> DD(cfg), free |-> Free(cfg),
      obj |-> Val(Objective(cfg), x), objgrad |-> Grad(Objective(cfg), x),
      blocks |-> [b \in 1..Len(bs) |->
         [ name |-> bs[b].name, den |-> bs[b].den, val |-> Vals(bs[b], x),
           jac |-> IF WithDer THEN Jacs(bs[b], x) ELSE <<>>,
           hess |-> IF WithDer THEN Hesss(bs[b], x) ELSE <<>> ]] ]
Out == k > 0 => EmitJson(Ans(X, Blocks(CfgAt)), <<cfg, k>>)
\* the model catalogue, so that the driver builds the very same models
PostModels == TLCGet("stats").distinct > 0 /\ CSVWrite("%1$s", <<ToJson([models |-> Models, schemes |-> Schemes])>>, IOEnv.VERIF_OUT \o ".models")
===========================================================================
