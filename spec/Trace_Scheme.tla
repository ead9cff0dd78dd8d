--------------------------- MODULE Trace_Scheme ---------------------------
(* Judges quantities measured on the real transcription objects.  Reals     *)
(* arrive as integers in units of 1e-9 (rounded).                           *)
EXTENDS Scheme, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE l
Abs(a) == IF a < 0 THEN -a ELSE a
Clause(e) ==
  CASE e.q = "shape" ->
         IF e.stages = StagesOf(e.scheme, e.n) /\ e.rows = StagesOf(e.scheme, e.n) - 1
            /\ e.ashape = <<e.rows, e.stages>> /\ e.bshape = <<e.rows, e.stages>>
         THEN "ok" ELSE "matrix shape"
    [] e.q = "poly" ->    \* residual of t^k (scaled by the interval) on its own trajectory
         IF e.k <= Order(e.scheme, e.n) THEN (IF \A i \in 1..Len(e.res) : Abs(e.res[i]) <= 50 THEN "ok" ELSE "not exact on a polynomial of its order")
         ELSE IF \E i \in 1..Len(e.res) : Abs(e.res[i]) > 1000 THEN "ok" ELSE "equations do not see the polynomial"
    [] e.q = "node" ->
         IF Len(e.root) = e.n - 1 /\ \A i \in 1..Len(e.root) : Abs(e.root[i]) <= 2000 THEN "ok" ELSE "collocation point is not a Radau root"
    [] e.q = "order" ->
         IF \A i \in 1..(Len(e.nodes) - 1) : e.nodes[i] < e.nodes[i + 1]
         THEN IF e.nodes[1] = 0 /\ e.nodes[Len(e.nodes)] = 1000000000 THEN "ok" ELSE "interval ends"
         ELSE "nodes not increasing"
    \* points of a Legendre family on [-1, 1]: their node polynomial is orthogonal
    \* to all powers below n less the number of ends they include
    [] e.q = "family" ->
         IF e.family \notin Families \/ Len(e.nodes) # e.n THEN "number of points"
         ELSE IF \E i \in 1..(e.n - 1) : e.nodes[i] >= e.nodes[i + 1] THEN "points not increasing"
         ELSE IF ~(e.left = (e.nodes[1] = -1000000000) /\ e.right = (e.nodes[e.n] = 1000000000)) THEN "ends of the interval"
         ELSE IF e.left # LeftEnd(e.family) \/ e.right # RightEnd(e.family) THEN "ends of the family"
         ELSE IF Len(e.moments) # e.n - (IF e.left THEN 1 ELSE 0) - (IF e.right THEN 1 ELSE 0) THEN "moments"
         ELSE IF \A i \in 1..Len(e.moments) : Abs(e.moments[i]) <= 50 THEN "ok" ELSE "points are not those of the family"
    \* interpolation on any points reproduces powers below their number, its
    \* derivative and its integral from the first point on
    [] e.q = "interp" -> IF \A i \in 1..Len(e.res) : Abs(e.res[i]) <= 2000 THEN "ok" ELSE "interpolation is not exact"
    [] OTHER -> "unknown event"
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Report == l <= Len(Trace) =>
   LET v == Clause(Trace[l]) IN
   v # "ok" => CSVWrite("%1$s", <<ToJson([line |-> l, clause |-> v])>>, IOEnv.VERIF_OUT)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ RadauSane
\* coefficient table for the recorder
PostCoef == TLCGet("stats").distinct > 0
            /\ CSVWrite("%1$s", <<ToJson([s \in 1..8 |-> Radau(s)])>>, IOEnv.VERIF_OUT)
===========================================================================
