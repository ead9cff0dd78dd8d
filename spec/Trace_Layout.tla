--------------------------- MODULE Trace_Layout ---------------------------
(* Validates lookups recorded from the real code on random large shapes.   *)
(* The verdict is total: every event gets "ok" or the failing clause.      *)
EXTENDS Layout, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE l

Clause(e) ==
  LET sh == e.shape IN
  CASE e.q = "counts" ->
         IF e.res = << NumDec(sh), NumStages(sh), NumVarStage(sh), NumStageVars(sh) >> THEN "ok" ELSE "counts"
    [] e.q = "index" ->
         IF e.rejected # ~StageOK(sh, e.stage) THEN "stage range"
         ELSE IF e.rejected THEN "ok"
         ELSE IF e.res = Pos(sh, e.group, e.i, e.stage) THEN "ok" ELSE "position"
    [] e.q = "all" -> IF e.res = AllStages(sh, e.group, e.i) THEN "ok" ELSE "all stages"
    [] e.q = "group" ->
         IF e.rejected # ~StageOK(sh, e.stage) THEN "stage range"
         ELSE IF e.rejected THEN "ok"
         ELSE IF e.res = GroupAtStage(sh, e.group, e.stage) THEN "ok" ELSE "group at stage"
    [] e.q = "global" -> IF e.res = GlobalPos(sh, e.i) THEN "ok" ELSE "global position"
    [] e.q = "unflatten" -> IF e.res = GroupAtStage(sh, e.group, e.stage) THEN "ok" ELSE "unflatten"
    [] e.q = "tensor" -> IF e.res = IntervalTensor(sh, e.group)[e.b + 1][e.w + 1] THEN "ok" ELSE "interval view"
    [] e.q = "modelflat" -> IF e.res = FlatIndex(sh, e.group, e.i) THEN "ok" ELSE "model flat index"
    [] OTHER -> "unknown event"

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Report == l <= Len(Trace) =>
   LET v == Clause(Trace[l]) IN
   v # "ok" => CSVWrite("%1$s", <<ToJson([line |-> l, clause |-> v])>>, IOEnv.VERIF_OUT)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
