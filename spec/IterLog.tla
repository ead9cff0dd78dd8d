------------------------------ MODULE IterLog ------------------------------
(***************************************************************************)
(* C17.  The records a problem keeps of its solves.  A solve is a sequence *)
(* of evaluations and notifications of the solver:                         *)
(*   trial   the solver evaluates a point it does not keep                 *)
(*   iter    it evaluates a point and announces it as the next iterate     *)
(*   resto   the same during a restoration phase                           *)
(*   leave   on leaving restoration the iterate announced last is          *)
(*           announced again as a regular one                              *)
(*   end     it returns (or reports an error, or is stopped by one)        *)
(* Between solves the settings of the problem change (OcpWalk).            *)
(*                                                                         *)
(* lg = [on, N (stride), run (a solve is going on), pt (point evaluated    *)
(*       last), rows, temp (tables of this solve), cur (the iterate        *)
(*       announced last), seen (all announcements), disk]                  *)
(***************************************************************************)
EXTENDS OcpWalk
VARIABLE lg
lvars == <<w, step, st, last, hist, lg>>

NoDisk == [rows |-> <<>>, tabs |-> <<>>, res |-> <<>>]
\* an announced iterate: count, phase, metrics, the point
Row(alg, count, h, pt) ==
    [alg |-> alg, count |-> count, pt |-> pt, m |-> [k \in 1..9 |-> Rnd(h, 70 + k, -400, 400)]]
Iters(rows) == {rows[k].count : k \in 1..Len(rows)}
Saved(l, count) == l.on /\ l.N > 0 /\ count % l.N = 0

LInit ==
    /\ Init
    /\ LET h == Hash(Seed + 77, w) IN
       lg = [ on |-> h % 9 # 0, N |-> Pick(h, 1, <<1, 2, 3, 0, 5, 1, 4>>), run |-> FALSE, pt |-> 0, rows |-> <<>>, temp |-> <<>>,
              cur |-> <<>>, seen |-> <<>>, disk |-> NoDisk, nsol |-> 0 ]

\* what an announcement does
Announce(l, r) ==
    LET again == r.alg = 0 /\ l.cur # <<>> /\ l.cur[1].count = r.count IN
    IF again THEN [l EXCEPT !.seen = Append(@, r)]
    ELSE [l EXCEPT !.seen = Append(@, r), !.rows = Append(@, r), !.cur = <<r>>,
                   !.temp = IF Saved(l, r.count) THEN Append(@, r) ELSE @]
Begin(l) == [l EXCEPT !.run = TRUE, !.rows = <<>>, !.temp = <<>>, !.cur = <<>>, !.seen = <<>>]
\* tables on disk: those of the stride iterations but the last, then the last
Written(l) ==
    IF ~l.on \/ l.cur = <<>> THEN NoDisk
    ELSE [ rows |-> l.rows,
           tabs |-> IF l.N = 0 THEN <<>>
                    ELSE SelectSeq(l.temp, LAMBDA r : r.count # l.cur[1].count) \o l.cur,
           res |-> l.cur ]
End(l, how) == [l EXCEPT !.run = FALSE, !.nsol = @ + 1, !.disk = IF how = "ok" THEN Written(l) ELSE @]

Cur == [st.cfg EXCEPT !.par = st.pars[1]]
Point(seed) == RandPoint(Cur, seed)
Xs(seed) == [k \in 1..N(Cur) |-> Point(seed)[k - 1]]
Ss == [k \in 1..N(Cur) |-> PosScale(Cur, st.sc, k - 1)]

Count(l) == IF l.cur = <<>> THEN 0 ELSE l.cur[1].count + 1
PtSeed(h) == Rnd(h, 90, 1, 1000000)
LDid(o, l) == [op |-> o, lg |-> l]
LDo(kind, l, h) ==
    LET p == PtSeed(h) IN
    CASE kind = "begin" -> LDid([k |-> "begin", x |-> Xs(p), s |-> Ss], Begin(l))
      [] kind = "trial" -> LDid([k |-> "trial", x |-> Xs(p)], [l EXCEPT !.pt = p])
      [] kind = "iter"  -> LET r == Row(0, Count(l), h, p) IN LDid([k |-> "iter", x |-> Xs(p), row |-> r], Announce([l EXCEPT !.pt = p], r))
      [] kind = "resto" -> LET r == Row(1, Count(l), h, p) IN LDid([k |-> "iter", x |-> Xs(p), row |-> r], Announce([l EXCEPT !.pt = p], r))
      [] kind = "leave" -> LET r == [l.cur[1] EXCEPT !.alg = 0] IN LDid([k |-> "leave", row |-> r], Announce(l, r))
      [] OTHER -> LET how == IF Exhaustive THEN "ok" ELSE Pick(h, 5, <<"ok", "ok", "ok", "ok", "ok", "fail", "stop">>) IN
                  LDid([k |-> "end", how |-> how], End(l, how))

InResto(l) == l.cur # <<>> /\ l.cur[1].alg = 1 /\ l.seen[Len(l.seen)].alg = 1
Offered(l) ==
    IF ~l.run THEN {"begin", "scales", "mesh", "ms", "oparam"}
    ELSE {"trial", "iter", "end"} \cup (IF l.cur # <<>> THEN {"resto"} ELSE {}) \cup (IF InResto(l) THEN {"leave"} ELSE {})
Weighted(l) ==
    IF ~l.run THEN <<"begin", "begin", "begin", "scales", "mesh", "ms", "oparam">>
    ELSE IF InResto(l) THEN <<"leave", "leave", "resto", "resto", "iter", "trial", "end">>
    ELSE <<"iter", "iter", "iter", "iter", "iter", "iter", "trial", "trial">> \o (IF l.cur # <<>> THEN <<"resto">> ELSE <<>>)
         \o (IF w % 3 = 0 THEN <<>> ELSE <<"end">>) \o (IF Len(l.rows) > 22 \/ (w % 3 > 0 /\ l.cur # <<>>) THEN <<"end">> ELSE <<>>)

Settings == {"scales", "mesh", "ms", "oparam"}
LTake(kind, h) ==
    IF kind \in Settings
    THEN LET d == Do(kind, st, h) IN /\ st' = d.st /\ lg' = lg
                                     /\ last' = [op |-> d.op, ok |-> d.ok]
                                     /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
    ELSE LET d == LDo(kind, lg, h) IN
         /\ st' = st /\ lg' = d.lg /\ last' = [op |-> d.op, ok |-> TRUE]
         /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
LNext ==
    /\ step < Len0
    /\ step' = step + 1 /\ w' = w
    /\ IF Exhaustive
       THEN \E kind \in (Offered(lg) \ {"ms", "oparam", "mesh"}) :
               /\ (kind = "scales" => lg.nsol > 0 /\ last.op.k = "end")
               /\ LTake(kind, Hash(Seed * 3 + w, step * 1009 + 5))
       ELSE LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) IN LTake(Pick(h, 1, Weighted(lg)), Hash(h, 9))
LSpec == LInit /\ [][LNext]_lvars

--------------------------------------------------------------------------
(* What the records must be, said without the state of the log: one row    *)
(* per announced iterate in order, one table per stride iterate and one    *)
(* for the last.                                                           *)
Distinct(s) == SelectSeq([k \in 1..Len(s) |-> [r |-> s[k], dup |-> k > 1 /\ s[k].count = s[k - 1].count]], LAMBDA e : ~e.dup)
RecordsFaithful ==
    lg.run => /\ lg.rows = [k \in 1..Len(Distinct(lg.seen)) |-> Distinct(lg.seen)[k].r]
              /\ Cardinality(Iters(lg.rows)) = Len(lg.rows)
              /\ \A k \in 1..Len(lg.rows) : lg.rows[k].count = k - 1
DiskFaithful ==
    LET d == lg.disk IN
    /\ (lg.on /\ lg.N > 0 /\ d.rows # <<>>) =>
          {d.tabs[k].count : k \in 1..Len(d.tabs)} = {c \in Iters(d.rows) : c % lg.N = 0} \cup {d.rows[Len(d.rows)].count}
    /\ d.rows # <<>> => d.res = <<d.rows[Len(d.rows)]>>
    /\ ~lg.on => d = NoDisk
SettingsKeepLog == [][last'.op.k \in {"scales", "mesh", "ms", "oparam"} => lg' = lg]_lvars

--------------------------------------------------------------------------
(* The table of an iterate: one line per stage *)
ConLine(c, k, v) ==            \* the integration equations that end at stage k
    IF k = 0 THEN [i \in 1..NS(c) |-> 0] ELSE [i \in 1..NS(c) |-> v[(k - 1) * NS(c) + i]]
Table(seed) ==
    LET c == Cur
        x == Point(seed)
        bs == Blocks(c)
        v == [b \in 1..Len(bs) |-> Vals(bs[b], x)]
        nv == NumVarStage(Shape(c))
        icn == (Stages(c) - 1) * NS(c)
        cont == IF c.cond THEN SubSeq(v[1], 1, icn) ELSE v[2]
        alg == IF c.cond THEN SubSeq(v[1], icn + 1, Len(v[1])) ELSE v[1]
        na == NC(c) + NR(c) + (IF c.cond THEN 0 ELSE NS(c))
        cyc == IF c.cyc THEN v[Len(v)] ELSE <<>>
    IN [ k \in 1..Stages(c) |->
         [ vars |-> [q \in 1..nv |-> x[(k - 1) * nv + q - 1]],
           outs |-> [q \in 1..Len(Mod(c).o) |-> Val(Place(c, Mod(c).o[q], k - 1), x)],
           icon |-> ConLine(c, k - 1, cont),
           scon |-> [q \in 1..na |-> alg[(k - 1) * na + q]],
           cyc  |-> IF k = Stages(c) THEN cyc ELSE [q \in 1..Len(cyc) |-> 0] ] ]
NamesOf(c, vs) == [k \in 1..Len(vs) |->
    IF vs[k] <= NS(c) THEN "states." \o Mod(c).states[vs[k]] ELSE "inputs." \o Mod(c).inputs[vs[k] - NS(c)]]
Columns ==
    LET c == Cur m == Mod(c)
        ss == StateScales(c, st.sc)
        cs == ConScales(c, st.sc)
        cons == [i \in 1..NC(c) |-> m.outputs[c.con[i]]]
        ress == [i \in 1..NR(c) |-> m.outputs[m.residuals[i]]]
    IN [ vars |-> [q \in 1..NS(c) |-> "states." \o m.states[q]] \o [q \in 1..NI(c) |-> "inputs." \o m.inputs[q]]
                    \o [q \in 1..NS(c) |-> "states_dot." \o m.states[q]] \o [q \in 1..NC(c) |-> "con_outputs." \o cons[q]],
         outs |-> m.outputs, outden |-> MD(c),
         icon |-> m.states, iconden |-> ContDen(c, c.cond), iconsc |-> ss,
         scon |-> (IF c.cond THEN <<>> ELSE m.states) \o cons \o ress,
         sconden |-> MD(c),
         sconsc |-> (IF c.cond THEN <<>> ELSE ss) \o cs \o [i \in 1..NR(c) |-> 4],
         cyc |-> IF c.cyc THEN NamesOf(c, CycVars(c)) ELSE <<>> ]

AtEnd == last.op.k = "end" /\ last.op.how = "ok"
LOut ==
    LET d == lg.disk
        seeds == {d.tabs[k].pt : k \in 1..Len(d.tabs)} \cup {d.res[k].pt : k \in 1..Len(d.res)}
    IN EmitJson([ w |-> w, step |-> step, cfg |-> st.cfg, cfg0 |-> Fresh(Cfg0(st.cfg.key)).cfg, last |-> last,
                  hist |-> IF Exhaustive THEN hist ELSE <<>>, on |-> lg.on, N |-> lg.N,
                  mesh |-> MeshNums(Cur), meshden |-> DD(Cur),
                  end |-> IF AtEnd THEN <<[ rows |-> d.rows, tabs |-> d.tabs, res |-> d.res, cols |-> Columns,
                              tables |-> {[pt |-> p, scale |-> IF Free(Cur) THEN Point(p)[MeshPos(Cur)] ELSE Cur.ms, t |-> Table(p)] : p \in seeds} ]>>
                          ELSE <<>> ],
                <<w, step, hist>>)
===========================================================================
