---------------------------- MODULE MC_Layout ----------------------------
(* Enumerates problem shapes, checks the layout design properties on each  *)
(* and exports, per shape, the expected answer to every lookup.            *)
EXTENDS Layout, Json, CSV, IOUtils
CONSTANTS MaxNS, MaxNI, MaxNC, MaxIntervals, MaxStages, MaxGlobals
VARIABLES shape, asked

Orders == { <<1, 2, 3, 4>>, <<2, 1, 3, 4>>, <<4, 3, 1, 2>> }
Std(ns, ni, nc) == << [name |-> "states", size |-> ns], [name |-> "inputs", size |-> ni],
                      [name |-> "states_dot", size |-> ns], [name |-> "con_outputs", size |-> nc] >>
Shapes == { [groups |-> [k \in 1..4 |-> Std(ns, ni, nc)[o[k]]], nI |-> a, nS |-> b, nG |-> c] :
            ns \in 1..MaxNS, ni \in 0..MaxNI, nc \in 0..MaxNC, o \in Orders,
            a \in 1..MaxIntervals, b \in 2..MaxStages, c \in 0..MaxGlobals }

Ans(sh) ==
  [ shape |-> sh, num_dec |-> NumDec(sh), num_stages |-> NumStages(sh),
    num_var_stage |-> NumVarStage(sh), num_all_stage_var |-> NumStageVars(sh),
    globals |-> Globals(sh),
    stage_table |-> StageTable(sh),
    groups |-> [k \in 1..Len(sh.groups) |->
        LET g == sh.groups[k].name IN
        [ name |-> g, size |-> GroupSize(sh, g), offset |-> GroupOffset(sh, g),
          table |-> GroupTable(sh, g),
          neg |-> [m \in 1..NumStages(sh) |-> GroupAtStage(sh, g, -m)],
          all |-> [i \in 1..GroupSize(sh, g) |-> AllStages(sh, g, i - 1)],
          tensor |-> IntervalTensor(sh, g) ]],
    bad_stages |-> << NumStages(sh), NumStages(sh) + 3, -(NumStages(sh)) - 1, -(NumStages(sh)) - 4 >> ]

Init == shape \in Shapes /\ asked = FALSE
Next == asked = FALSE /\ asked' = TRUE /\ UNCHANGED shape
Spec == Init /\ [][Next]_<<shape, asked>>
Inv == LayoutOK(shape)
Emit == asked => CSVWrite("%1$s", <<ToJson(Ans(shape))>>, IOEnv.VERIF_OUT)
==========================================================================
