------------------------------ MODULE Assembly ------------------------------
(***************************************************************************)
(* C11.  The registry of model types, configuration trees, and the models  *)
(* assembled from them.  A type name can stand for different classes over   *)
(* time (versions).  All slots are values: models, configurations and       *)
(* parameter trees never change through one another.                        *)
(***************************************************************************)
EXTENDS Trees, Emit
CONSTANTS Seed, Walks, Len0, Exhaustive
VARIABLES w, step, reg, C, M, P, fresh, last, hist
vars == <<w, step, reg, C, M, P, fresh, last, hist>>

TypeNames == <<"VfA", "VfB", "VfC", "VfD">>
Rank(nm) == CHOOSE i \in 1..4 : TypeNames[i] = nm
Vers == 1..2
\* names of the submodels (the same in all versions), and by version their default types and parameters
SubNames(nm) ==
    LET r == Rank(nm) n == IF r = 4 THEN 0 ELSE IF r = 3 THEN Rnd(Seed + w, 40, 0, 1) ELSE Rnd(Seed + w, 40 + r, 1, 2)
    IN  SubSeq(<<"p", "q">>, 1, n)
DefType(nm, ver, s) == TypeNames[Rnd(Hash(Seed + w, ver * 10 + Rank(nm)), IF s = "p" THEN 1 ELSE 2, Rank(nm) + 1, 4)]
DefParams(nm, ver) ==
    LET h == Hash(Seed + w, 500 + ver * 10 + Rank(nm)) n == Rnd(h, 1, 0, 2)
    IN  [i \in 1..n |-> LET sh == Pick(h, 10 + i, << <<>>, <<3>>, <<2, 2>>, <<1>> >>) IN
            [k |-> <<"a", "mass">>[i], sh |-> sh, v |-> [j \in 1..Prod(sh) |-> Rnd(h, 20 + 5 * i + j, 0, 99)]]]
Classes == Flat([r \in 1..4 |-> [v \in 1..2 |->
    LET nm == TypeNames[r] IN
    [name |-> nm, ver |-> v, params |-> DefParams(nm, v),
     subs |-> [i \in 1..Len(SubNames(nm)) |-> <<SubNames(nm)[i], DefType(nm, v, SubNames(nm)[i])>>]]]])

\* configurations: trees with one leaf per node, v = <<rank of the type>>
CNode(path, nm) == [path |-> path, data |-> <<[k |-> "", sh |-> <<>>, v |-> <<Rank(nm)>>]>>]
TypeAt(c, p) == TypeNames[c[At(c, p)].data[1].v[1]]
Names == {TypeNames[i] : i \in 1..4}
\* is a default configuration of class (nm, ver) available, and which
RECURSIVE CanDefault(_, _, _)
CanDefault(nm, ver, path) ==
    \A i \in 1..Len(SubNames(nm)) :
        LET t == DefType(nm, ver, SubNames(nm)[i]) IN reg[t] # 0 /\ CanDefault(t, reg[t], path)
RECURSIVE Default(_, _, _)
Default(nm, ver, path) ==
    <<CNode(path, nm)>> \o Flat([i \in 1..Len(SubNames(nm)) |->
        LET s == SubNames(nm)[i] t == DefType(nm, ver, s) IN Default(t, reg[t], Append(path, s))])

\* building below the root class (nm, ver): every submodel by the registry
RECURSIVE CanBuild(_, _, _)
CanBuild(c, nm, p) ==
    /\ Has(c, p) /\ TypeAt(c, p) = nm
    /\ \A i \in 1..Len(SubNames(nm)) :
          LET q == Append(p, SubNames(nm)[i]) IN Has(c, q) /\ reg[TypeAt(c, q)] # 0 /\ CanBuild(c, TypeAt(c, q), q)
RECURSIVE Built(_, _, _, _)
Built(c, nm, ver, p) ==
    <<[path |-> p, type |-> nm, ver |-> ver, data |-> DefParams(nm, ver)]>> \o
    Flat([i \in 1..Len(SubNames(nm)) |->
        LET q == Append(p, SubNames(nm)[i]) t == TypeAt(c, q) IN Built(c, t, reg[t], q)])
\* the parameter tree of a model, and a model with the parameters of a tree
ParamsOf(m) == [i \in 1..Len(m) |-> [path |-> m[i].path, data |-> m[i].data]]
Covers(p, m) == \A i \in 1..Len(m) : Has(p, m[i].path)
WithParams(m, p) == [i \in 1..Len(m) |-> [m[i] EXCEPT !.data = p[At(p, m[i].path)].data]]
ConfigOf(m) == [i \in 1..Len(m) |-> CNode(m[i].path, m[i].type)]

RName(h) == Pick(h, 1, TypeNames)
RVer(h) == Rnd(h, 2, 1, 2)
RSlot(h) == Rnd(h, 3, 1, 2)
Set(t, i, x) == [t EXCEPT ![i] = x]
Did(o, ok, r, c, m, p, f) == [op |-> o, ok |-> ok, reg |-> r, C |-> c, M |-> m, P |-> p, fresh |-> f]
Rej(o) == Did(o, FALSE, reg, C, M, P, fresh)
Skip == Did([k |-> "skip"], TRUE, reg, C, M, P, fresh)

RegOp(nm, v) == LET o == [k |-> "reg", name |-> nm, ver |-> v] IN
    IF reg[nm] # 0 THEN Rej(o) ELSE Did(o, TRUE, [reg EXCEPT ![nm] = v], C, M, P, fresh)
UnregOp(nm) == LET o == [k |-> "unreg", name |-> nm, ver |-> IF reg[nm] = 0 THEN 1 ELSE reg[nm]] IN
    IF reg[nm] = 0 THEN Rej(o) ELSE Did(o, TRUE, [reg EXCEPT ![nm] = 0], C, M, P, fresh)
Lookup(nm) == LET o == [k |-> "lookup", name |-> nm, ver |-> reg[nm]] IN
    IF reg[nm] = 0 THEN Rej(o) ELSE Did(o, TRUE, reg, C, M, P, fresh)
MkConfig(i, nm) == LET o == [k |-> "mkconfig", i |-> i, name |-> nm] IN
    IF reg[nm] = 0 \/ ~CanDefault(nm, reg[nm], <<>>) THEN Rej(o)
    ELSE Did(o, TRUE, reg, Set(C, i, Default(nm, reg[nm], <<>>)), M, P, fresh)
\* a configuration lacking submodels
Bare(i, nm) == Did([k |-> "bare", i |-> i, name |-> nm], TRUE, reg, Set(C, i, <<CNode(<<>>, nm)>>), M, P, fresh)
EditConfig(i, h) ==
    LET j == 3 - i IN
    IF C[i] = <<>> \/ C[j] = <<>> \/ Len(C[i]) < 2 THEN Skip
    ELSE LET p == C[i][Rnd(h, 4, 2, Len(C[i]))].path
         IN IF Len(C[i]) + Len(C[j]) > 20 THEN Skip
            ELSE Did([k |-> "editconfig", i |-> i, j |-> j, p |-> p], TRUE, reg,
                     Set(Set(C, i, Replaced(C[i], p, C[j])), j, <<>>), M, P, fresh)
BuildOp(i, k) == LET o == [k |-> "build", i |-> i, m |-> k] IN
    IF C[i] = <<>> THEN Skip
    ELSE LET nm == TypeAt(C[i], <<>>) IN
         IF reg[nm] = 0 \/ ~CanBuild(C[i], nm, <<>>) THEN Rej(o)
         ELSE Did(o, TRUE, reg, C, Set(M, k, Built(C[i], nm, reg[nm], <<>>)), P, fresh)
ByName(nm, k) == LET o == [k |-> "byname", name |-> nm, m |-> k] IN
    IF reg[nm] = 0 \/ ~CanDefault(nm, reg[nm], <<>>) THEN Rej(o)
    ELSE Did(o, TRUE, reg, C, Set(M, k, Built(Default(nm, reg[nm], <<>>), nm, reg[nm], <<>>)), P, fresh)
\* the class itself is called, with or without a configuration and parameters
Direct(nm, v, i, k, useP) ==
    LET o == [k |-> "direct", name |-> nm, ver |-> v, i |-> i, m |-> k, useP |-> useP]
        okc == IF i = 0 THEN CanDefault(nm, v, <<>>) ELSE CanBuild(C[i], nm, <<>>)
        c == IF i = 0 THEN Default(nm, v, <<>>) ELSE C[i]
    IN  IF (i > 0 /\ C[i] = <<>>) \/ (useP /\ P = <<>>) THEN Skip
        ELSE IF ~okc THEN Rej(o)
        ELSE LET m == Built(c, nm, v, <<>>) IN
             IF ~useP THEN Did(o, TRUE, reg, C, Set(M, k, m), P, fresh)
             ELSE IF ~Covers(P, m) THEN Rej(o)
             ELSE Did(o, TRUE, reg, C, Set(M, k, WithParams(m, P)), P, FALSE)
GetParams(k) == IF M[k] = <<>> THEN Skip ELSE Did([k |-> "getparams", m |-> k], TRUE, reg, C, M, ParamsOf(M[k]), TRUE)
DefaultsOp(k) == IF M[k] = <<>> THEN Skip
    ELSE Did([k |-> "defaults", m |-> k], TRUE, reg, C, M, [i \in 1..Len(M[k]) |->
                [path |-> M[k][i].path, data |-> DefParams(M[k][i].type, M[k][i].ver)]], TRUE)
EditParams(h) ==
    IF P = <<>> THEN Skip
    ELSE LET p == P[Rnd(h, 5, 1, Len(P))].path d == P[At(P, p)].data IN
         IF d = <<>> THEN Skip
         ELSE LET old == d[Rnd(h, 6, 1, Len(d))]
                  lf == [old EXCEPT !.v = [x \in 1..Len(@) |-> Rnd(h, 90 + x, 100, 199)]]
              IN Did([k |-> "editparams", p |-> p, leaf |-> lf, inplace |-> fresh /\ h % 2 = 0], TRUE, reg, C, M, SetLeaf(P, p, lf), fresh)
PutParams(k) == IF M[k] = <<>> \/ P = <<>> THEN Skip
    ELSE IF ~Covers(P, M[k]) THEN Skip
    ELSE Did([k |-> "putparams", m |-> k], TRUE, reg, C, Set(M, k, WithParams(M[k], P)), P, FALSE)
SubBad(k, h) == IF M[k] = <<>> THEN Skip
    ELSE Rej([k |-> "getsub", m |-> k, p |-> Append(M[k][Rnd(h, 7, 1, Len(M[k]))].path, "zz")])

Do(kind, h) ==
    CASE kind = "reg" -> RegOp(RName(h), RVer(h)) [] kind = "unreg" -> UnregOp(RName(h)) [] kind = "lookup" -> Lookup(RName(h))
      [] kind = "mkconfig" -> MkConfig(RSlot(h), RName(h)) [] kind = "bare" -> Bare(RSlot(h), RName(h))
      [] kind = "mkconfigA" -> MkConfig(RSlot(h), "VfA")
      [] kind = "editconfig" -> EditConfig(RSlot(h), h) [] kind = "build" -> BuildOp(RSlot(h), Rnd(h, 8, 1, 2))
      [] kind = "byname" -> ByName(RName(h), Rnd(h, 8, 1, 2))
      [] kind = "direct" -> Direct(RName(h), RVer(h), Rnd(h, 9, 0, 2), Rnd(h, 8, 1, 2), h % 2 = 0)
      [] kind = "directA" -> Direct("VfA", RVer(h), Rnd(h, 9, 0, 2), Rnd(h, 8, 1, 2), h % 2 = 0)
      [] kind = "getparams" -> GetParams(Rnd(h, 8, 1, 2)) [] kind = "defaults" -> DefaultsOp(Rnd(h, 8, 1, 2))
      [] kind = "editparams" -> EditParams(h) [] kind = "putparams" -> PutParams(Rnd(h, 8, 1, 2))
      [] OTHER -> SubBad(Rnd(h, 8, 1, 2), h)
Kinds == <<"reg", "reg", "reg", "reg", "unreg", "lookup", "mkconfig", "mkconfigA", "mkconfigA", "bare", "editconfig", "editconfig",
           "build", "build", "build", "byname", "byname", "direct", "directA", "getparams", "getparams", "defaults",
           "editparams", "editparams", "putparams", "putparams", "getsub">>
Alphabet == <<"reg", "unreg", "mkconfigA", "editconfig", "build", "byname", "directA", "getparams", "editparams", "putparams">>

Init ==
    /\ w \in 1..Walks /\ step = 0
    /\ reg = [x \in Names |-> IF w % 3 = 0 THEN 0 ELSE IF w % 3 = 1 THEN 1 ELSE Rnd(w, Rank(x), 0, 2)]
    /\ C = [i \in 1..2 |-> <<>>] /\ M = [i \in 1..2 |-> <<>>] /\ P = <<>> /\ fresh = TRUE
    /\ last = [op |-> [k |-> "init"], ok |-> TRUE]
    /\ hist = IF Exhaustive THEN <<[op |-> [k |-> "init", reg |-> reg], ok |-> TRUE]>> ELSE <<>>
Take(d) == /\ reg' = d.reg /\ C' = d.C /\ M' = d.M /\ P' = d.P /\ fresh' = d.fresh /\ last' = [op |-> d.op, ok |-> d.ok]
           /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
Next ==
    /\ step < Len0 /\ step' = step + 1 /\ w' = w
    /\ IF Exhaustive
       THEN \E a \in 1..Len(Alphabet) : \E h \in 1..2 :
               LET d == Do(Alphabet[a], Hash(Seed * 3 + w * 11, 1009 + h)) IN d.op.k # "skip" /\ Take(d)
       ELSE LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) IN Take(Do(Pick(h, 1, Kinds), Hash(h, 9)))
Spec == Init /\ [][Next]_vars

TypeOK ==
    /\ \A i \in 1..2 : (C[i] # <<>> => WellFormed(C[i])) /\ (M[i] # <<>> => WellFormed(ParamsOf(M[i])))
    /\ (P # <<>> => WellFormed(P)) /\ \A x \in Names : reg[x] \in 0..2
\* a model is what its own configuration describes, and rebuilding from it needs only the registry
Described == \A i \in 1..2 : M[i] = <<>> \/
    \A a \in 1..Len(M[i]) : \A s \in 1..Len(SubNames(M[i][a].type)) : Has(M[i], Append(M[i][a].path, SubNames(M[i][a].type)[s]))
AsConfigured == [][(last'.op.k = "build" /\ last'.ok) =>
    LET m == M'[last'.op.m] c == C[last'.op.i] IN
    \A a \in 1..Len(m) : TypeAt(c, m[a].path) = m[a].type /\ m[a].data = DefParams(m[a].type, m[a].ver) /\ m[a].ver = reg[m[a].type]]_vars
RejectedKeeps == [][~last'.ok => UNCHANGED <<reg, C, M, P>>]_vars
Out == EmitJson([w |-> w, step |-> step, classes |-> Classes, last |-> last, hist |-> hist,
                 reg |-> reg, C |-> C, M |-> M, P |-> P], <<w, step, hist>>)
===========================================================================
