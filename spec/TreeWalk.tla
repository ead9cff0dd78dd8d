------------------------------ MODULE TreeWalk ------------------------------
(***************************************************************************)
(* C10.  Histories of operations on two trees (slots 1, 2), a nested        *)
(* dictionary, a flat dictionary and a raveled vector made from them.       *)
(* Every slot is a value: nothing that happens to one slot shows in another.*)
(* T[i] = <<>> means the slot is empty.                                     *)
(***************************************************************************)
EXTENDS Trees, Emit
CONSTANTS Seed, Walks, Len0, Exhaustive
VARIABLES w, step, T, D, F, R, last, hist
vars == <<w, step, T, D, F, R, last, hist>>

\* flavour of the values of a walk
Flavour == CASE w % 5 \in {0, 1, 2} -> "numpy" [] w % 5 = 3 -> "jax" [] OTHER -> "casadi"
Config == w % 7 = 0                                    \* a tree of type names
Shapes == IF Flavour = "casadi" THEN << <<1, 1>>, <<3, 1>>, <<1, 2>>, <<2, 3>>, <<1, 1>>, <<2, 1>> >>
          ELSE << <<>>, <<>>, <<1>>, <<3>>, <<0>>, <<2, 3>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1, 2>> >>
RLeaf(h, k) == LET sh == IF Config THEN <<>> ELSE Pick(h, 1, Shapes) IN
               [k |-> k, sh |-> sh, v |-> [i \in 1..Prod(sh) |-> Rnd(h, 10 + i, 0, 99)]]
KeyNames == <<"a", "b", "p", "mass">>
KidNames == <<"p", "q", "a">>
RData(h) == IF Config THEN <<RLeaf(Hash(h, 50), "")>>
            ELSE LET n == Rnd(h, 1, 0, 3) o == Rnd(h, 2, 0, 3) IN
                 [i \in 1..n |-> RLeaf(Hash(h, 50 + i), KeyNames[((o + i) % 4) + 1])]
\* random tree: the root has up to two children, each of which up to two, and some a third level
RECURSIVE RNodes(_, _, _)
RNodes(h, path, depth) ==
    LET n == IF depth = 0 THEN 0 ELSE Rnd(h, 3, IF depth = 3 THEN 1 ELSE 0, 2) o == Rnd(h, 4, 0, 2) IN
    <<[path |-> path, data |-> RData(h)]>> \o
    Flat([i \in 1..n |-> RNodes(Hash(h, 80 + i), Append(path, KidNames[((o + i) % 3) + 1]), depth - 1)])
RTree(h) == RNodes(h, <<>>, Rnd(h, 9, 1, 3))

RPath(h, t) == t[Rnd(h, 21, 1, Len(t))].path
RSlot(h) == Rnd(h, 22, 1, 2)
Delim(h) == Pick(h, 23, <<".", "/", "::">>)
Did(o, ok, t, d, f, r) == [op |-> o, ok |-> ok, T |-> t, D |-> d, F |-> f, R |-> r]
Skip == Did([k |-> "skip"], TRUE, T, D, F, R)
Set(t, i, x) == [t EXCEPT ![i] = x]
\* pick an existing key of a node if there is one
SetOp(h) ==
    LET i == RSlot(h) IN
    IF T[i] = <<>> \/ Config THEN Skip
    ELSE LET p == RPath(h, T[i]) d == T[i][At(T[i], p)].data IN
         IF d = <<>> THEN Skip
         ELSE LET lf == RLeaf(Hash(h, 30), d[Rnd(h, 31, 1, Len(d))].k)
              IN Did([k |-> "set", i |-> i, p |-> p, leaf |-> lf, delim |-> Delim(h)], TRUE,
                     Set(T, i, SetLeaf(T[i], p, lf)), D, F, R)
SetBad(h) ==
    LET i == RSlot(h) IN
    IF T[i] = <<>> \/ Config THEN Skip
    ELSE LET p == Append(RPath(h, T[i]), "zz")
         IN Did([k |-> "set", i |-> i, p |-> p, leaf |-> RLeaf(Hash(h, 30), "a"), delim |-> Delim(h)], FALSE, T, D, F, R)
GetBad(h) ==
    LET i == RSlot(h) IN
    IF T[i] = <<>> \/ Config THEN Skip
    ELSE LET p == IF h % 2 = 0 THEN RPath(h, T[i]) ELSE Append(RPath(h, T[i]), "zz")
         IN Did([k |-> "get", i |-> i, p |-> p, key |-> "nokey", delim |-> Delim(h)], FALSE, T, D, F, R)
\* slot j moves into slot i (the specification does not say whether it is copied or not)
ReplaceOp(h) ==
    LET i == RSlot(h) j == 3 - i IN
    IF T[i] = <<>> \/ T[j] = <<>> THEN Skip
    ELSE LET p == RPath(h, T[i]) IN
         IF p = <<>> \/ Len(T[i]) + Len(T[j]) > 12 THEN Skip
         ELSE Did([k |-> "replace", i |-> i, p |-> p, j |-> j, delim |-> Delim(h)], TRUE,
                  Set(Set(T, i, Replaced(T[i], p, T[j])), j, <<>>), D, F, R)
ReplaceBad(h) ==
    LET i == RSlot(h) j == 3 - i IN
    IF T[i] = <<>> \/ T[j] = <<>> THEN Skip
    ELSE LET q == RPath(h, T[i])
             p == CASE h % 3 = 0 -> Append(q, "zz") [] h % 3 = 1 -> q \o <<"zz", "p">> [] OTHER -> Append(q, "p")
         IN IF h % 3 = 2 /\ ~Has(T[i], p) THEN Skip
            ELSE Did([k |-> "replace", i |-> i, p |-> p, j |-> IF h % 3 = 2 THEN 0 ELSE j, delim |-> Delim(h)], FALSE, T, D, F, R)
GrowOp(h) ==
    LET i == RSlot(h) j == 3 - i IN
    IF T[i] = <<>> \/ T[j] = <<>> \/ Len(T[i]) + Len(T[j]) > 12 THEN Skip
    ELSE IF Has(T[i], <<"new">>) THEN Skip
         ELSE Did([k |-> "addchild", i |-> i, name |-> "new", j |-> j], TRUE,
                  Set(Set(T, i, Grown(T[i], <<>>, "new", T[j])), j, <<>>), D, F, R)
New(h) == LET i == RSlot(h) t == RTree(Hash(h, 70))
          IN Did([k |-> "new", i |-> i, t |-> t], TRUE, Set(T, i, t), D, F, R)
\* copies to the other representations and back
Out1(h, kind) ==
    LET i == RSlot(h) o == [k |-> kind, i |-> i] IN
    IF T[i] = <<>> THEN Skip
    ELSE CASE kind = "todict" -> Did(o, TRUE, T, T[i], F, R)
           [] kind = "toflat" -> Did(o, TRUE, T, D, T[i], R)
           [] OTHER -> IF Config THEN Skip ELSE Did(o, TRUE, T, D, F, T[i])
Back(h, kind) ==
    LET i == RSlot(h) s == CASE kind = "fromdict" -> D [] kind = "fromflat" -> F [] OTHER -> R IN
    IF s = <<>> THEN Skip ELSE Did([k |-> kind, i |-> i], TRUE, Set(T, i, s), D, F, R)
FlatBad(h) == IF F = <<>> THEN Skip ELSE Did([k |-> "fromflatbad", i |-> RSlot(h)], FALSE, T, D, F, R)
\* changes made to the copies by their owner
Edit(h, kind) ==
    LET s == IF kind = "editdict" THEN D ELSE F IN
    IF s = <<>> THEN Skip
    ELSE LET p == RPath(h, s) d == s[At(s, p)].data IN
         IF d = <<>> THEN Skip
         ELSE LET old == d[Rnd(h, 31, 1, Len(d))]
                  inplace == h % 2 = 0
                  lf == IF inplace THEN [old EXCEPT !.v = [x \in 1..Len(@) |-> Rnd(h, 90 + x, 100, 199)]]
                        ELSE RLeaf(Hash(h, 30), old.k)
                  o == [k |-> kind, p |-> p, leaf |-> lf, inplace |-> inplace]
              IN IF kind = "editdict" THEN Did(o, TRUE, T, SetLeaf(D, p, lf), F, R)
                 ELSE Did(o, TRUE, T, D, SetLeaf(F, p, lf), R)
EditVec(h) ==
    IF R = <<>> THEN Skip
    ELSE LET v == Ravel(R) IN Did([k |-> "editvec"], TRUE, T, D, F, Unravel(R, [x \in 1..Len(v) |-> (3 * v[x] + x) % 1000]))
\* map over the leaves as a JAX tree
MapOp(h) == LET i == RSlot(h) j == 3 - i IN
    IF T[i] = <<>> \/ Config \/ Flavour = "casadi" THEN Skip
    ELSE LET v == Ravel(T[i])
         IN Did([k |-> "treemap", i |-> i, j |-> j, jit |-> h % 4 = 0], TRUE,
                Set(T, j, Unravel(T[i], [x \in 1..Len(v) |-> 2 * v[x] + 1])), D, F, R)

Do(kind, h) ==
    CASE kind = "set" -> SetOp(h) [] kind = "setbad" -> SetBad(h) [] kind = "getbad" -> GetBad(h)
      [] kind = "replace" -> ReplaceOp(h) [] kind = "replacebad" -> ReplaceBad(h) [] kind = "grow" -> GrowOp(h)
      [] kind = "new" -> New(h) [] kind \in {"todict", "toflat", "ravel"} -> Out1(h, kind)
      [] kind \in {"fromdict", "fromflat", "unravel"} -> Back(h, kind)
      [] kind = "flatbad" -> FlatBad(h)
      [] kind \in {"editdict", "editflat"} -> Edit(h, kind) [] kind = "editvec" -> EditVec(h)
      [] OTHER -> MapOp(h)
Kinds == <<"set", "set", "set", "setbad", "getbad", "replace", "replace", "replacebad", "grow", "new", "new", "todict",
           "toflat", "ravel", "todict", "toflat", "ravel", "fromdict", "fromflat", "unravel", "fromdict", "fromflat",
           "unravel", "flatbad", "editdict", "editflat", "editvec", "editdict", "editflat", "treemap">>
Alphabet == <<"set", "replace", "todict", "toflat", "ravel", "fromdict", "fromflat", "unravel", "editdict", "editflat", "editvec">>

Init ==
    /\ w \in 1..Walks /\ step = 0
    /\ T = [i \in 1..2 |-> RTree(Hash(Seed * 7 + i, w))] /\ D = <<>> /\ F = <<>> /\ R = <<>>
    /\ last = [op |-> [k |-> "init"], ok |-> TRUE] /\ hist = <<[op |-> [k |-> "init", T |-> T], ok |-> TRUE]>>
Take(d) == /\ T' = d.T /\ D' = d.D /\ F' = d.F /\ R' = d.R /\ last' = [op |-> d.op, ok |-> d.ok]
           /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE <<>>
Next ==
    /\ step < Len0 /\ step' = step + 1 /\ w' = w
    /\ IF Exhaustive
       THEN \E a \in 1..Len(Alphabet) : \E h \in 1..2 :
               LET d == Do(Alphabet[a], Hash(Seed * 3 + w * 11, 1009 + h)) IN d.op.k # "skip" /\ Take(d)
       ELSE LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) IN Take(Do(Pick(h, 1, Kinds), Hash(h, 9)))
Spec == Init /\ [][Next]_vars

Slots == {T[1], T[2], D, F, R} \ {<<>>}
TypeOK == \A t \in Slots : WellFormed(t)
RoundTrips == \A t \in Slots :
    /\ Filled(t, Leaves(t)) = t
    /\ Unravel(t, Ravel(t)) = t
    /\ \A i \in 1..Len(t) : WellFormed(Sub(t, t[i].path)) /\ (i > 1 => Replaced(t, t[i].path, Sub(t, t[i].path)) = t)
Others(t, p, k) == SelectSeq(Leaves(t), LAMBDA x : ~(x.p = p /\ x.k = k))
SetFrame == [][(last'.op.k = "set" /\ last'.ok) =>
                 LET i == last'.op.i p == last'.op.p k == last'.op.leaf.k IN
                 /\ Others(T'[i], p, k) = Others(T[i], p, k) /\ Leaf(T'[i], p, k) = last'.op.leaf
                 /\ T'[3 - i] = T[3 - i] /\ UNCHANGED <<D, F, R>>]_vars
RejectedKeeps == [][~last'.ok => UNCHANGED <<T, D, F, R>>]_vars
Out == EmitJson([w |-> w, step |-> step, flavour |-> Flavour, config |-> Config, last |-> last, hist |-> hist,
                 T |-> T, D |-> D, F |-> F, R |-> R], <<w, step, hist>>)
===========================================================================
