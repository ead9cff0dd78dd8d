--------------------------- MODULE Trace_IterLog ---------------------------
(* Validates the records of real solves: the announcements observed at the *)
(* boundary to the solver against what was found on disk afterwards, and   *)
(* against the order of announcements IterLog assumes.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES l, cur, rows, temp
tv == <<l, cur, rows, temp>>
E == Trace[l]
Again(e) == e.alg = 0 /\ cur # <<>> /\ cur[1].count = e.count
Init == l = 1 /\ cur = <<>> /\ rows = <<>> /\ temp = <<>>
Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ CASE E.k = "begin" -> cur' = <<>> /\ rows' = <<>> /\ temp' = <<>>
         [] E.k = "iter" ->
              IF Again(E) THEN UNCHANGED <<cur, rows, temp>>
              ELSE LET r == [count |-> E.count, pt |-> E.pt] IN
                   /\ cur' = << [count |-> E.count, pt |-> E.pt, alg |-> E.alg] >> /\ rows' = Append(rows, E.count)
                   /\ temp' = IF E.N > 0 /\ E.count % E.N = 0 THEN Append(temp, r) ELSE temp
         [] OTHER -> UNCHANGED <<cur, rows, temp>>
Spec == Init /\ [][Next]_tv
Last == IF cur = <<>> THEN <<>> ELSE << [count |-> cur[1].count, pt |-> cur[1].pt] >>
Tabs(n) == IF n = 0 THEN <<>>
           ELSE SelectSeq(temp, LAMBDA r : cur = <<>> \/ r.count # cur[1].count) \o Last
\* e.worst: per metrics row, how many of the recorded constraint values of its iteration are at least as large as the one
\* named as the largest (none recorded: 0)
Worst(e) == \A k \in 1..Len(e.worst) :
               LET t == Tabs(e.N) IN e.worst[k].rank = IF \E j \in 1..Len(t) : t[j].count = e.worst[k].count THEN 1 ELSE 0
Clause(e) ==
    CASE e.k = "iter" ->
           IF Again(e) THEN (IF cur[1].alg = 1 THEN "ok" ELSE "environment: repeated count outside restoration")
           ELSE IF e.count = Len(rows) THEN "ok" ELSE "environment: counts are not consecutive"
      [] e.k = "end" ->
           IF e.rows # rows THEN "metrics rows"
           ELSE IF e.tabs # Tabs(e.N) THEN "saved tables"
           ELSE IF e.res # Last THEN "final table"
           ELSE IF ~Worst(e) THEN "largest violation"
           ELSE IF e.temp # 0 THEN "temporary files" ELSE "ok"
      [] OTHER -> "ok"
Report == l <= Len(Trace) =>
    LET v == Clause(E) IN v # "ok" => CSVWrite("%1$s", <<ToJson([line |-> l, clause |-> v])>>, IOEnv.VERIF_OUT)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
