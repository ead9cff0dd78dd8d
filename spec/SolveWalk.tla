----------------------------- MODULE SolveWalk -----------------------------
(***************************************************************************)
(* C22.  What crosses the boundary between the user, the problem and the   *)
(* solver.  The user speaks physical values; the solver is given bounds    *)
(* and a starting point divided by the variables' scales (OcpWalk), the    *)
(* bounds in force (Bounds), the constraint bounds and the options of this *)
(* solve over the defaults; the solver's answer comes back multiplied.     *)
(*                                                                         *)
(* sv = [any (time objective or added ones present), clo, chi (bounds of   *)
(*       added equations by name), num (count announced last in the last   *)
(*       solve, -1 none), nsol]                                            *)
(***************************************************************************)
EXTENDS OcpWalk
VARIABLES bst, sv
vvars == <<w, step, st, last, hist, bst, sv>>
B == INSTANCE Bounds WITH st <- bst

BCfg(c) == c
VInit ==
    /\ Init
    /\ LET s0 == B!Start(st.cfg) IN
       /\ bst = s0.st
       /\ sv = [ start |-> s0.op, rows |-> <<>>, num |-> -1, nsol |-> 0 ]

\* options of a solve: the defaults unless the user says otherwise
OptNames == <<"max_iter", "tol", "print_level", "acceptable_tol", "mu_strategy", "hessian_approximation", "output_file", "print_timing_statistics", "warm_start_init_point">>
OptVals(n) ==
    CASE n = "max_iter" -> <<"7", "300">> [] n = "tol" -> <<"0.01", "1e-05">> [] n = "print_level" -> <<"0", "3", "5">>
      [] n = "acceptable_tol" -> <<"0.1">> [] n = "mu_strategy" -> <<"monotone">> [] n = "hessian_approximation" -> <<"limited-memory", "exact">>
      [] n = "output_file" -> <<"", "mine.out">> [] n = "print_timing_statistics" -> <<"no", "yes">> [] OTHER -> <<"yes">>
Options(h) ==
    LET k == Rnd(h, 1, 0, 3)
        picked == [j \in 1..k |-> Pick(h, 20 + j, OptNames)]
    IN { [n |-> OptNames[q], v |-> Pick(h, 40 + q, OptVals(OptNames[q]))] : q \in {q \in 1..Len(OptNames) : \E j \in 1..k : picked[j] = OptNames[q]} }

VDid(o, ok, s, b, v) == [op |-> o, ok |-> ok, st |-> s, b |-> b, sv |-> v]
VDo(kind, h) ==
    LET c == st.cfg
        x(q) == [k \in 1..N(c) |-> IF Free(c) /\ k = N(c) THEN Rnd(h, q + k, 1, 5) ELSE Rnd(h, q + k, -9, 9)]
    IN
    CASE kind \in {"bounds", "badbounds", "bc", "badbc", "set"} ->
           LET d == B!Do(kind, bst, h) IN VDid([k |-> "B", b |-> d.op], d.ok, st, d.st, sv)
      [] kind = "dropall" ->
           VDid([k |-> "dropall", names |-> (IF st.time THEN <<"time">> ELSE <<>>) \o [k \in 1..Len(st.objs) |-> st.objs[k].name]], TRUE,
                [st EXCEPT !.time = FALSE, !.objs = <<>>], bst, sv)
      [] kind = "solve" ->
           LET iters == Rnd(h, 2, 0, 4)
               status == Pick(h, 3, <<0, 0, 1, 2, -1, -2, -3, -13, -13, 6>>)
               opts == IF sv.nsol = 0 THEN {} ELSE Options(h)
           \* warm: solved once more from the answer, with the multipliers that came with it (physical values go in, these as they are)
           IN VDid([k |-> "solve", warm |-> IF status = -13 THEN "" ELSE Pick(h, 7, <<"", "", "all", "lagrange", "bounds">>), x0 |-> IF Rnd(h, 6, 0, 5) = 0 THEN [k \in 1..N(c) |-> 0] ELSE x(100), form |-> Pick(h, 4, <<"pos", "kw", "none", "pos">>), sol |-> x(400), iters |-> iters,
                    status |-> status, opts |-> opts, key |-> Rnd(h, 5, 1, 100000)], status # -13, st, bst,
                   [sv EXCEPT !.num = IF iters = 0 THEN -1 ELSE iters - 1, !.nsol = @ + 1])
      [] OTHER ->
           LET d == Do(kind, st, h)
               rows == CASE d.ok /\ d.op.k = "addcon" -> Append(sv.rows, [name |-> d.op.part.name, lo |-> <<Rnd(h, 60, -5, 0), Rnd(h, 61, -5, 0), -1>>,
                                                                          hi |-> <<Rnd(h, 62, 0, 5), Rnd(h, 63, 1, 5), -1>>])
                         [] d.ok /\ d.op.k = "delcon" -> Drop(sv.rows, d.op.name)
                         [] OTHER -> sv.rows
               d2 == IF d.ok /\ d.op.k = "addcon" THEN [d.op EXCEPT !.part = d.op.part] ELSE d.op
           IN VDid(d2, d.ok, d.st, bst, [sv EXCEPT !.rows = rows])
VKinds == <<"solve", "solve", "solve", "solve", "scales", "scales", "badscales", "noscales", "bounds", "bounds", "badbounds", "bc", "badbc", "set",
            "addobj", "delobj", "dropall", "addcon", "delcon", "readd", "mesh", "badmesh", "ms", "oparam">>
VNext ==
    /\ step < Len0 /\ step' = step + 1 /\ w' = w
    /\ LET h == Hash(Seed * 5 + w * 101, step * 17 + 3)
           d == VDo(Pick(h, 1, VKinds), Hash(h, 9))
       IN /\ st' = d.st /\ bst' = d.b /\ sv' = d.sv
          /\ last' = [op |-> d.op, ok |-> d.ok]
          /\ hist' = hist
VSpec == VInit /\ [][VNext]_vvars

\* design ------------------------------------------------------------------
SolveKeeps == [][last'.op.k = "solve" => st' = st /\ bst' = bst /\ sv'.rows = sv.rows]_vvars
VRejectedKeeps == [][(~last'.ok /\ last'.op.k # "solve") => st' = st /\ bst' = bst /\ sv' = sv]_vvars
\* dividing by positive scales keeps the order of bounds
VOrdered == \A p \in 0..(N(st.cfg) - 1) : B!Lo(bst, p) <= B!Hi(bst, p) /\ PosScale(st.cfg, st.sc, p) > 0

--------------------------------------------------------------------------
VOut == EmitJson([ w |-> w, step |-> step, cfg |-> st.cfg, cfg0 |-> Fresh(Cfg0(st.cfg.key)).cfg, last |-> last, hist |-> <<>>,
                   start |-> sv.start, n |-> N(st.cfg), free |-> Free(st.cfg),
                   x |-> [k \in 1..N(st.cfg) |-> X[k - 1]], mesh |-> MeshNums(st.cfg), meshden |-> DD(st.cfg),
                   s |-> [k \in 1..N(st.cfg) |-> PosScale(st.cfg, st.sc, k - 1)],
                   lo |-> [k \in 1..N(st.cfg) |-> B!Lo(bst, k - 1)], hi |-> [k \in 1..N(st.cfg) |-> B!Hi(bst, k - 1)],
                   nobj |-> Len(st.objs) + (IF st.time THEN 1 ELSE 0), rows |-> sv.rows, num |-> sv.num,
                   evals |-> <<EvalOf(1)>>, model |-> <<>> ], <<w, step, hist>>)
===========================================================================
