----------------------------- MODULE SteadyWalk -----------------------------
(***************************************************************************)
(* C21 (and the part of C22 about steady-state problems).  A steady-state  *)
(* problem holds one stage of a model: states, inputs, states_dot and      *)
(* con_outputs, at mesh position zero.  Its equations are the model's at   *)
(* the parameters it was built with; bounds, scales, objectives and added  *)
(* equations come and go.                                                  *)
(*                                                                         *)
(* ps = [par (built with), mpar (the model's now), sc (times 4), lb, ub,   *)
(*       objs, cons, num (iterations announced by the last solve)]         *)
(***************************************************************************)
EXTENDS OcpWalk
VARIABLE ps
svars == <<w, step, st, last, hist, ps>>
INF == 999999

NV(c) == NumVarStage(Shape(c))
SC0(h) ==
    LET c == Cfg0(h) IN [c EXCEPT !.cls = "fixed", !.cyc = FALSE, !.noncyc = {}, !.cond = FALSE, !.sch = "TR", !.nI = 1, !.pts = <<0, DW>>,
                                  !.ms = 1, !.par = [k \in 1..Len(c.par) |-> Rnd(h, 30 + k, -3, 3)]]
AllGroups == <<"states", "inputs", "states_dot", "con_outputs">>
GSize(c, g) == Len(ScNames(c, g))
VarNames(c) == Flat([q \in 1..4 |-> [k \in 1..GSize(c, AllGroups[q]) |-> [g |-> AllGroups[q], n |-> ScNames(c, AllGroups[q])[k]]]])
VarNo(c, g, n) == ScaledVar(c, g, n)          \* 1-based, the same order

SInit == /\ w \in 1..Walks /\ step = 0 /\ hist = <<>>
         /\ last = [op |-> [k |-> "init"], ok |-> TRUE]
         /\ st = Fresh(SC0(Hash(Seed, w * 13)))
         /\ ps = LET c == st.cfg IN
                 [ par |-> c.par, mpar |-> c.par, sc |-> [k \in 1..NV(c) |-> 4], lb |-> [k \in 1..NV(c) |-> -INF],
                   ub |-> [k \in 1..NV(c) |-> INF], objs |-> <<>>, own |-> <<>>, cons |-> <<>>, num |-> -1, twins |-> 1 ]

SDid(o, ok, p) == [op |-> o, ok |-> ok, ps |-> p]
RV(c, h, k) == Rnd(h, k, 0, NV(c) - 1)
SConPoly(c, h) ==
    << << Mono(1, <<RV(c, h, 1)>>), Mono(-3, <<>>) >>,
       << Mono(2, <<RV(c, h, 2), RV(c, h, 3)>>), Mono(1, <<RV(c, h, 4)>>) >> >>
SObjPoly(c, h) ==
    << Mono(Rnd(h, 11, 1, 3), <<RV(c, h, 12)>>), Mono(2, <<RV(c, h, 13), RV(c, h, 13)>>), Mono(-1, <<RV(c, h, 14), RV(c, h, 15)>>) >>
ObjName(o) == <<o.g, o.n, o.wt>>
AllBad == <<"unknown", "group", "zero", "negative">>
AnyVar(c, h) == Pick(h, 4, VarNames(c))
ScVar(c, h) == LET vs == SelectSeq(VarNames(c), LAMBDA v : v.g # "states_dot") IN Pick(h, 4, vs)
SDo(kind, p, h) ==
    LET c == st.cfg
        v == AnyVar(c, h)
        i == VarNo(c, v.g, v.n)
        a == Rnd(h, 5, -6, 6)
        b == Rnd(h, 6, 0, 5)
        np == Rnd(h, 12, 1, Len(Mod(c).params))
    IN
    CASE kind = "scale" -> LET s == ScVar(c, h) k == Pick(h, 7, <<1, 2, 8, 12, 20, 4, 40>>) IN
           SDid([k |-> "scale", g |-> s.g, n |-> s.n, v |-> k], TRUE, [p EXCEPT !.sc[VarNo(c, s.g, s.n)] = k])
      [] kind = "badscale" -> LET s == ScVar(c, h) q == h % 5 IN
           SDid([k |-> "scale", g |-> CASE q = 0 -> "nogroup" [] q = 1 -> "states_dot" [] OTHER -> s.g,
                 n |-> CASE q = 2 -> "nope" [] q = 1 -> Mod(c).states[1] [] OTHER -> s.n,
                 v |-> CASE q = 3 -> 0 [] q = 4 -> -8 [] OTHER -> 8], FALSE, p)
      [] kind = "bounds" -> SDid([k |-> "bounds", g |-> v.g, n |-> v.n, lb |-> a, ub |-> a + b, one |-> FALSE], TRUE, [p EXCEPT !.lb[i] = a, !.ub[i] = a + b])
      [] kind = "tight" -> SDid([k |-> "bounds", g |-> v.g, n |-> v.n, lb |-> a, ub |-> a, one |-> TRUE], TRUE, [p EXCEPT !.lb[i] = a, !.ub[i] = a])
      [] kind = "open" -> LET lo == IF h % 2 = 0 THEN a ELSE -INF IN
           SDid([k |-> "bounds", g |-> v.g, n |-> v.n, lb |-> lo, ub |-> INF, one |-> FALSE], TRUE, [p EXCEPT !.lb[i] = lo, !.ub[i] = INF])
      [] kind = "badbounds" -> LET q == h % 3 IN
           SDid([k |-> "bounds", g |-> IF q = 0 THEN "nogroup" ELSE v.g, n |-> IF q = 1 THEN "nope" ELSE v.n,
                 lb |-> IF q = 2 THEN a + b + 1 ELSE a, ub |-> a + b, one |-> FALSE], FALSE, p)
      [] kind = "addobj" -> LET o == [g |-> v.g, n |-> v.n, wt |-> Rnd(h, 8, -3, 3)]
                                dup == \E k \in 1..Len(p.objs) : p.objs[k] = o IN
           SDid([k |-> "addobj", o |-> o], ~dup, IF dup THEN p ELSE [p EXCEPT !.objs = Append(@, o)])
      [] kind = "dupobj" -> IF p.objs = <<>> THEN SDid([k |-> "nop"], TRUE, p)
           ELSE SDid([k |-> "addobj", o |-> Pick(h, 9, p.objs)], FALSE, p)
      [] kind = "badobj" -> SDid([k |-> "addobj", o |-> [g |-> IF h % 2 = 0 THEN "nogroup" ELSE v.g, n |-> "nope", wt |-> 1]], FALSE, p)
      [] kind = "delobj" -> IF p.objs = <<>> THEN SDid([k |-> "nop"], TRUE, p)
           ELSE LET j == Rnd(h, 9, 1, Len(p.objs)) IN
                SDid([k |-> "delobj", o |-> p.objs[j]], TRUE, [p EXCEPT !.objs = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))])
      \* an objective of one's own, second order
      [] kind = "addown" -> LET e == [name |-> Pick(h, 9, <<"own1", "own2">>), id |-> step, poly |-> SObjPoly(c, h), dense |-> h % 2 = 0] IN
           IF e.name \in Names(p.own) THEN SDid([k |-> "addown", part |-> e], FALSE, p)
           ELSE SDid([k |-> "addown", part |-> e], TRUE, [p EXCEPT !.own = Append(@, e)])
      [] kind = "delown" -> IF p.own = <<>> THEN SDid([k |-> "nop"], TRUE, p)
           ELSE LET e == p.own[Rnd(h, 9, 1, Len(p.own))] IN SDid([k |-> "delown", name |-> e.name], TRUE, [p EXCEPT !.own = Drop(@, e.name)])
      [] kind = "addcon" -> LET e == [name |-> Pick(h, 9, <<"c1", "c2">>), id |-> step, rows |-> SConPoly(c, h), dense |-> h % 2 = 0] IN
           IF e.name \in Names(p.cons) THEN SDid([k |-> "addcon", part |-> e], FALSE, p)
           ELSE SDid([k |-> "addcon", part |-> e], TRUE, [p EXCEPT !.cons = Append(@, e)])
      [] kind = "delcon" -> IF p.cons = <<>> THEN SDid([k |-> "nop"], TRUE, p)
           ELSE LET e == p.cons[Rnd(h, 9, 1, Len(p.cons))] IN SDid([k |-> "delcon", name |-> e.name], TRUE, [p EXCEPT !.cons = Drop(@, e.name)])
      [] kind = "mparam" -> LET vals == RandVals(Mod(c), h, np) IN
           SDid([k |-> "mparam", path |-> Mod(c).params[np].path, n |-> Mod(c).params[np].n, vals |-> vals], TRUE,
                [p EXCEPT !.mpar = SetPar(Mod(c), p.mpar, np, vals)])
      [] kind = "remake" -> SDid([k |-> "remake"], TRUE, p)
      [] kind = "scribble" -> SDid([k |-> "scribble"], TRUE, p)
      [] kind = "twin" -> SDid([k |-> "twin", g |-> v.g, n |-> v.n, v |-> a], TRUE, p)       \* another problem on the same model
      [] kind = "solve" ->
           LET z == [k \in 1..NV(c) |-> Rnd(h, 200 + k, -5, 5)]
               e == [k \in 1..NV(c) |-> Rnd(h, 300 + k, -5, 5)]
               iters == Rnd(h, 10, 0, 4)
               bad == p.cons = <<>> /\ h % 6 = 0
           IN SDid([k |-> "solve", x0 |-> z, sol |-> e, iters |-> iters, status |-> IF bad THEN -13 ELSE Pick(h, 11, <<0, 1, -1, 2, -2, -12>>),
                    opt |-> Rnd(h, 12, 1, 200)], ~bad, [p EXCEPT !.num = iters])
      [] OTHER -> SDid([k |-> "nop"], TRUE, p)
SKinds == <<"scale", "scale", "scale", "badscale", "bounds", "tight", "open", "badbounds", "addobj", "addobj", "dupobj", "badobj", "delobj",
            "addown", "addown", "delown", "addcon", "addcon", "delcon", "mparam", "remake", "scribble", "twin", "solve", "solve">>
SAlphabet == <<"scale", "bounds", "addobj", "solve", "badscale", "badbounds">>
SNext == /\ step < Len0 /\ step' = step + 1 /\ w' = w /\ st' = st
         /\ \E kind \in (IF Exhaustive THEN {SAlphabet[k] : k \in 1..Len(SAlphabet)}
                         ELSE {Pick(Hash(Seed * 5 + w * 101, step * 17 + 3), 1, SKinds)}) :
               LET d == SDo(kind, ps, Hash(Seed * 7 + w, step * 1009 + Len(kind) * 31)) IN
               /\ ps' = d.ps
               /\ last' = [op |-> d.op, ok |-> d.ok]
               /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
SSpec == SInit /\ [][SNext]_svars

\* design ------------------------------------------------------------------
STypeOK == /\ \A k \in 1..Len(ps.sc) : ps.sc[k] > 0
           /\ \A k \in 1..Len(ps.lb) : ps.lb[k] <= ps.ub[k]
           /\ \A j, k \in 1..Len(ps.objs) : j # k => ps.objs[j] # ps.objs[k]
SRejectedKeeps == [][~last'.ok => [ps' EXCEPT !.num = ps.num] = ps]_svars
OneAtATime == [][ Cardinality({k \in 1..Len(ps.sc) : ps.sc[k] # ps'.sc[k]}) <= 1
                  /\ Cardinality({k \in 1..Len(ps.sc) : ps.lb[k] # ps'.lb[k] \/ ps.ub[k] # ps'.ub[k]}) <= 1 ]_svars
SolveKeeps == [][last'.op.k = "solve" => [ps' EXCEPT !.num = ps.num] = ps]_svars

--------------------------------------------------------------------------
SX == LET p == [k \in 0..N(st.cfg) |-> Rnd(Hash(Seed + w, step + 500), k, -3, 3)] IN p
SC == [st.cfg EXCEPT !.par = ps.par]
SBlocks == << Block("model_algebra", MD(SC), DotRows(SC, 0) \o OutRows(SC, 0) \o ResRows(SC, 0)) >>
             \o [k \in 1..Len(ps.cons) |-> Block(ps.cons[k].name, 1, ps.cons[k].rows)]
SRowScale(name) == IF name = "model_algebra"
                   THEN [k \in 1..NS(SC) |-> ps.sc[k]] \o [k \in 1..NC(SC) |-> ps.sc[K3(SC) + k]] \o [k \in 1..NR(SC) |-> 4] ELSE <<>>
SObj == Flat([k \in 1..Len(ps.own) |-> ps.own[k].poly]) \o [k \in 1..Len(ps.objs) |-> Mono(ps.objs[k].wt, <<VarNo(SC, ps.objs[k].g, ps.objs[k].n) - 1>>)]
SOut == EmitJson([ w |-> w, step |-> step, cfg |-> st.cfg, last |-> last, hist |-> hist, n |-> NV(SC), vars |-> VarNames(SC),
                   x |-> [k \in 1..NV(SC) |-> SX[k - 1]], sc |-> ps.sc, lb |-> ps.lb, ub |-> ps.ub, mpar |-> ps.mpar, num |-> ps.num,
                   objs |-> ps.objs, obj |-> Val(SObj, SX), objgrad |-> Grad(SObj, SX), objhess |-> Hess(SObj, SX), feas |-> ps.objs = <<>> /\ ps.own = <<>>,
                   blocks |-> [b \in 1..Len(SBlocks) |->
                      [ name |-> SBlocks[b].name, den |-> SBlocks[b].den, val |-> Vals(SBlocks[b], SX), jac |-> Jacs(SBlocks[b], SX),
                        hess |-> Hesss(SBlocks[b], SX), rs |-> SRowScale(SBlocks[b].name) ]] ],
                 <<w, step, hist>>)
===========================================================================
