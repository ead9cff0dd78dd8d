--------------------------- MODULE ConstructWalk ---------------------------
(***************************************************************************)
(* C26.  Problems come out of configurations.  A configuration names every *)
(* setting or leaves it at its default; it is met in full, or refused when *)
(* it cannot be met.  Several problems live on one model, one after the    *)
(* other; each keeps its own settings, and a construction, refused or not, *)
(* changes neither the model nor the configuration nor the other problems. *)
(*                                                                         *)
(* The constraint outputs are kept by the model: the problems in use are   *)
(* those with the constraint outputs of the last one built; one built with *)
(* others takes the model over (known finding: the earlier ones are then   *)
(* no longer what they were).                                              *)
(*                                                                         *)
(* cs = [built (the problems, oldest first: [cfg, b (bounds), sc, id]),    *)
(*       nid (configurations written so far), old (the last problem that   *)
(*       lost the model in this step)];  st.mpar: the model's parameters   *)
(***************************************************************************)
EXTENDS OcpWalk
VARIABLES bst, cs
cvars == <<w, step, st, last, hist, bst, cs>>
B == INSTANCE Bounds WITH st <- bst

\* what a configuration means where it says nothing
Default == [nI |-> 99, sch |-> "TR", cyc |-> FALSE, noncyc |-> {}, cond |-> FALSE, con |-> <<>>, backend |-> "jax"]

HW == Hash(Seed, w * 13)
M0 == Rnd(HW, 1, 1, NumModels)
Con0 == Pick(HW, 4, ConChoices[M0])
MaxHeld == 3

Cfg(h) ==
    LET full == step = 0 /\ w % 20 = 0          \* everything left at its default
        m == M0
        nI == IF full THEN Default.nI ELSE Rnd(h, 2, 1, 4)
        uni == full \/ Rnd(h, 11, 0, 2) = 0 \/ ~(\E k \in 1..4 : k = nI)
        d == IF full THEN Default.nI ELSE DW
        cyc == ~full /\ Rnd(h, 3, 0, 1) = 0
        allv == 1..(Len(Models[m].states) + Len(Models[m].inputs))
        non == {v \in allv : Rnd(h, 60 + v, 0, 2) = 0}
        cls == Pick(h, 5, <<"fixed", "scaled">>)
    IN [ m |-> m, con |-> IF step > 0 /\ Rnd(h, 24, 0, 3) = 0 THEN Pick(h, 25, ConChoices[m]) ELSE cs.con, cls |-> cls, sch |-> IF full THEN Default.sch ELSE Pick(h, 6, SchNames), nI |-> nI, D |-> d,
         pts |-> IF uni THEN [k \in 1..(nI + 1) |-> ((k - 1) * d) \div nI] ELSE RandMesh(Hash(h, 7), nI),
         ms |-> IF cls = "fixed" THEN Rnd(h, 20, 1, 3) ELSE 1,
         cyc |-> cyc, noncyc |-> IF cyc /\ non # allv THEN non ELSE {}, cond |-> ~full /\ Rnd(h, 9, 0, 1) = 1,
         par |-> st.mpar, trig |-> <<>>, key |-> h ]
Uni(c) == c.pts = [k \in 1..(c.nI + 1) |-> ((k - 1) * c.D) \div c.nI]
\* a problem and the words of its configuration
Words(c, h) ==
    LET full == c.nI = Default.nI
        s0 == B!Start(c)
        ns == IF full THEN 0 ELSE Rnd(h, 21, 0, 4)
        sc == [k \in 1..ns |-> OneScale(c, Hash(h, 100 + k))]
        backend == IF full \/ Rnd(h, 22, 0, 39) = 0 THEN "jax" ELSE IF Rnd(h, 22, 0, 39) < 8 THEN "casadi" ELSE "custom"
        same == [ nI |-> c.nI = Default.nI, sch |-> c.sch = Default.sch, cyc |-> c.cyc = Default.cyc, noncyc |-> c.noncyc = Default.noncyc,
                  cond |-> c.cond = Default.cond, con |-> c.con = Default.con, backend |-> backend = Default.backend,
                  pts |-> Uni(c), bounds |-> s0.op.bounds = <<>>, bcs |-> s0.op.bcs = <<>>, scales |-> sc = <<>>,
                  ms |-> c.cls = "scaled" \/ c.ms = 1 ]
        \* settings at their default may be left out
    IN [ op |-> [ k |-> "build", cfg |-> c, bounds |-> IF full THEN <<>> ELSE s0.op.bounds, bcs |-> IF full THEN <<>> ELSE s0.op.bcs, scales |-> sc,
                  backend |-> backend, omit |-> {f \in DOMAIN same : same[f] /\ (full \/ Hash(h, Len(f) * 7) % 3 > 0)},
                  form |-> Rnd(h, 23, 0, 11), uni |-> Uni(c), reuse |-> 0, bad |-> "", arg |-> 0 ],
         pb |-> [ cfg |-> c, sc |-> ApplyScales(c, Ones(c), sc),
                  b |-> IF full THEN [s0.st EXCEPT !.bcs = <<>>, !.base = B!Unbounded(c)] ELSE s0.st,
                  id |-> cs.nid + 1, ops |-> <<>> ] ]
Held(s, p) == IF s # <<>> /\ s[1].cfg.con # p.cfg.con THEN <<p>>
              ELSE IF Len(s) < MaxHeld THEN Append(s, p) ELSE Append(Tail(s), p)
Lost(s, p) == IF s # <<>> /\ s[1].cfg.con # p.cfg.con THEN <<s[Len(s)]>> ELSE <<>>

\* one thing is wrong
Bads == << "noncyc-unknown", "noncyc-group", "noncyc-bare", "noncyc-con", "scheme-name", "scheme-stages", "scheme-arg", "con-unknown", "con-state",
           "con-twice", "backend", "nI", "mesh", "mesh", "bound", "bound", "bc", "bc", "scale", "scale-sign", "scale-sign", "ms" >>
Spoil(d, h) ==
    LET c == d.op.cfg
        q == Pick(h, 1, Bads)
        other == {k \in 1..Len(Mod(c).states) : \A j \in 1..Len(Mod(c).outputs) : Mod(c).outputs[j] # Mod(c).states[k]}
        kind == IF q = "ms" /\ Free(c) THEN "nI" ELSE IF q = "con-state" /\ other = {} THEN "con-unknown"
                ELSE IF q = "con-twice" /\ c.con = <<>> THEN "con-unknown" ELSE q
        m == BadMesh(Hash(h, 77), c.nI)
        e == B!Corrupt(c, B!Entry(c, Hash(h, 5)), Hash(h, 6))
        e2 == B!CorruptBC(c, B!BC(c, Hash(h, 5)), Hash(h, 6))
        s2 == IF kind = "scale" THEN BadScale(c, Hash(h, 7)) ELSE [OneScale(c, Hash(h, 7)) EXCEPT !.k = Pick(h, 8, <<0, -4, -8>>)]
        bad == IF kind = "mesh" /\ LegalMesh(c, m) THEN "nI" ELSE kind
    IN [ d.op EXCEPT !.bad = bad,
         !.arg = Rnd(h, 9, 0, 5),
         !.cfg = CASE kind = "mesh" -> [c EXCEPT !.pts = m]
                   [] kind \in {"noncyc-unknown", "noncyc-group", "noncyc-bare", "noncyc-con"} -> [c EXCEPT !.cyc = TRUE]
                   [] OTHER -> c,
         !.omit = @ \ (CASE bad = "mesh" -> {"pts"} [] bad = "nI" -> {"nI"} [] bad \in {"bound"} -> {"bounds"} [] bad = "bc" -> {"bcs"}
                         [] bad \in {"scale", "scale-sign"} -> {"scales"} [] bad \in {"scheme-name", "scheme-stages", "scheme-arg"} -> {"sch"}
                         [] bad \in {"con-unknown", "con-state", "con-twice"} -> {"con"} [] bad = "backend" -> {"backend"} [] bad = "ms" -> {"ms"}
                         [] OTHER -> {"cyc", "noncyc"}),
         !.bounds = IF bad = "bound" THEN Append(@, e) ELSE @,
         !.bcs = IF bad = "bc" THEN Append(@, e2) ELSE @,
         !.scales = IF bad \in {"scale", "scale-sign"} THEN Append(@, s2) ELSE @ ]

CDid(o, ok, s, c) == [op |-> o, ok |-> ok, st |-> s, cs |-> c]
CDo(kind, h) ==
    LET m == Models[M0]
        np == Rnd(h, 12, 1, Len(m.params))
        vals == RandVals(m, h, np)
        d == Words(Cfg(h), h)
    IN
    CASE kind = "build" -> CDid(d.op, TRUE, st, [built |-> Held(cs.built, [d.pb EXCEPT !.ops = <<d.op>>]), nid |-> cs.nid + 1, con |-> d.op.cfg.con,
                                                old |-> Lost(cs.built, d.pb)])
      [] kind = "refuse" -> CDid(Spoil(Words([Cfg(h) EXCEPT !.con = cs.con], h), Hash(h, 3)), FALSE, st, cs)
      [] kind = "reuse" ->      \* another problem from the configuration of one that is there
           IF cs.built = <<>> THEN CDid([k |-> "nop"], TRUE, st, cs)
           ELSE LET j == Rnd(h, 13, 1, Len(cs.built))
                    p == [cs.built[j] EXCEPT !.cfg.par = st.mpar, !.cfg.ms = IF @ = 1 THEN 1 ELSE Rnd(h, 20, 2, 4)]
                IN IF p.cfg.nI = Default.nI THEN CDid([k |-> "nop"], TRUE, st, cs)
                   ELSE CDid([p.ops[1] EXCEPT !.reuse = p.id, !.cfg = p.cfg], TRUE, st, [cs EXCEPT !.built = Held(@, p)])
      [] kind = "mparam" ->
           CDid([k |-> "mparam", path |-> m.params[np].path, n |-> m.params[np].n, vals |-> vals], TRUE, [st EXCEPT !.mpar = SetPar(m, @, np, vals)], cs)
      [] kind = "oparam" ->
           IF cs.built = <<>> THEN CDid([k |-> "nop"], TRUE, st, cs)
           ELSE LET j == Rnd(h, 13, 1, Len(cs.built))
                    p == SetPar(m, cs.built[j].cfg.par, np, vals)
                IN CDid([k |-> "oparam", path |-> m.params[np].path, n |-> m.params[np].n, vals |-> vals, j |-> j], TRUE,
                        [st EXCEPT !.mpar = p], [cs EXCEPT !.built[j].cfg.par = p])
CKinds == <<"build", "build", "build", "refuse", "refuse", "refuse", "refuse", "reuse", "mparam", "oparam">>
CInit ==
    /\ w \in 1..Walks /\ step = 0 /\ hist = <<>>
    /\ last = [op |-> [k |-> "init"], ok |-> TRUE]
    /\ LET c == [Cfg0(HW) EXCEPT !.m = M0, !.con = Con0, !.cls = "fixed", !.cyc = FALSE, !.noncyc = {}, !.cond = FALSE, !.par = Models[M0].def] IN
       /\ st = [cfg |-> c, mpar |-> c.par]
       /\ bst = 0
    /\ cs = [built |-> <<>>, nid |-> 0, con |-> Con0, old |-> <<>>]
CNext ==
    /\ step < Len0 /\ step' = step + 1 /\ w' = w /\ hist' = hist /\ bst' = bst
    /\ LET h == Hash(Seed * 5 + w * 101, step * 17 + 3)
           d == CDo(IF step = 0 THEN "build" ELSE Pick(h, 1, CKinds), Hash(h, 9))
       IN st' = d.st /\ cs' = [d.cs EXCEPT !.old = IF d.op.k = "build" /\ d.ok THEN @ ELSE <<>>] /\ last' = [op |-> d.op, ok |-> d.ok]
CSpec == CInit /\ [][CNext]_cvars

\* design ------------------------------------------------------------------
CTypeOK == \A k \in 1..Len(cs.built) : LET p == cs.built[k] IN
              /\ p.cfg.con = cs.con
              /\ p.cfg.pts[1] = 0 /\ p.cfg.pts[Len(p.cfg.pts)] = p.cfg.D
              /\ \A j \in 1..p.cfg.nI : p.cfg.pts[j] < p.cfg.pts[j + 1]
              /\ \A j \in 1..Len(p.sc) : p.sc[j] > 0
              /\ \A q \in 0..(N(p.cfg) - 1) : B!Lo(p.b, q) <= B!Hi(p.b, q)
\* a refused construction changes nothing; a construction leaves the problems before it as they are
CRefusedKeeps == [][~last'.ok => st' = st /\ cs' = [cs EXCEPT !.old = <<>>]]_cvars
OthersKept == [][last'.op.k = "build" /\ last'.ok =>
                   /\ st' = st
                   /\ cs'.con = last'.op.cfg.con
                   /\ (cs'.con # cs.con => Len(cs'.built) = 1)
                   /\ cs'.con = cs.con => \A k \in 1..(Len(cs'.built) - 1) : cs'.built[k] = cs.built[k + Len(cs.built) + 1 - Len(cs'.built)]]_cvars
OnlyOneChanges == [][last'.op.k = "oparam" => \A k \in 1..Len(cs.built) : k # last'.op.j => cs'.built[k] = cs.built[k]]_cvars

--------------------------------------------------------------------------
CEval(p) ==
    LET c == p.cfg
        bs == Blocks(c)
        x == RandPoint(c, Hash(Seed + w, step + 500))
        ob == Objective(c)
    IN [ obj |-> Val(ob, x), objgrad |-> Grad(ob, x), objhess |-> Hess(ob, x), par |-> c.par, n |-> N(c), free |-> Free(c),
         x |-> [k \in 1..N(c) |-> x[k - 1]], mesh |-> MeshNums(c), meshden |-> DD(c), ms |-> c.ms,
         s |-> [k \in 1..N(c) |-> PosScale(c, p.sc, k - 1)],
         lo |-> [k \in 1..N(c) |-> B!Lo(p.b, k - 1)], hi |-> [k \in 1..N(c) |-> B!Hi(p.b, k - 1)],
         blocks |-> [b \in 1..Len(bs) |->
            [ name |-> bs[b].name, den |-> bs[b].den, val |-> Vals(bs[b], x), jac |-> Jacs(bs[b], x), hess |-> Hesss(bs[b], x),
              rs |-> RowScales(c, p.sc, bs[b].name) ]] ]
COut == EmitJson([ w |-> w, step |-> step, cfg |-> st.cfg, last |-> last, hist |-> <<>>,
                   evals |-> [j \in 1..Len(cs.built) |-> CEval(cs.built[j])],
                   lost |-> [j \in 1..Len(cs.old) |-> CEval(cs.old[j])], model |-> <<ModelAt>> ], <<w, step>>)
===========================================================================
