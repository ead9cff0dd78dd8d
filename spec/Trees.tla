------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* Ordered trees of named values.  A tree is the sequence of its nodes in  *)
(* preorder, a node being [path |-> names from the root, data |-> <<leaf>>] *)
(* and a leaf [k |-> key, sh |-> shape, v |-> row major values].            *)
(***************************************************************************)
EXTENDS Poly

IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Has(t, p) == \E i \in 1..Len(t) : t[i].path = p
At(t, p) == CHOOSE i \in 1..Len(t) : t[i].path = p
HasKey(t, p, k) == Has(t, p) /\ \E j \in 1..Len(t[At(t, p)].data) : t[At(t, p)].data[j].k = k
Leaf(t, p, k) == LET d == t[At(t, p)].data IN d[CHOOSE j \in 1..Len(d) : d[j].k = k]

Inside(t, p) == SelectSeq(t, LAMBDA n : IsPre(p, n.path))
Sub(t, p) == LET s == Inside(t, p) IN [i \in 1..Len(s) |-> [s[i] EXCEPT !.path = SubSeq(@, Len(p) + 1, Len(@))]]
Under(s, p) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.path = p \o @]]
\* the subtree at p gives way to s, in the same place among its siblings
Replaced(t, p, s) ==
    LET a == At(t, p) n == Len(Inside(t, p))
    IN  SubSeq(t, 1, a - 1) \o Under(s, p) \o SubSeq(t, a + n, Len(t))
\* a new last child of the node at p
Grown(t, p, name, s) ==
    LET b == At(t, p) + Len(Inside(t, p)) - 1
    IN  SubSeq(t, 1, b) \o Under(s, Append(p, name)) \o SubSeq(t, b + 1, Len(t))
SetLeaf(t, p, lf) ==
    [t EXCEPT ![At(t, p)].data =
        IF \E j \in 1..Len(@) : @[j].k = lf.k
        THEN [j \in 1..Len(@) |-> IF @[j].k = lf.k THEN lf ELSE @[j]]
        ELSE Append(@, lf)]

\* flat views
Leaves(t) == Flat([i \in 1..Len(t) |-> [j \in 1..Len(t[i].data) |->
                [p |-> t[i].path, k |-> t[i].data[j].k, sh |-> t[i].data[j].sh, v |-> t[i].data[j].v]]])
Ravel(t) == Flat([i \in 1..Len(Leaves(t)) |-> Leaves(t)[i].v])
Prod(sh) == ProdFrom([i \in 1..Len(sh) |-> i], [i \in 1..Len(sh) |-> sh[i]], 1)
RECURSIVE Cut(_, _, _)
Cut(lv, vec, k) ==
    IF k > Len(lv) THEN <<>>
    ELSE LET n == Prod(lv[k].sh) IN
         <<[lv[k] EXCEPT !.v = SubSeq(vec, 1, n)]>> \o Cut(lv, SubSeq(vec, n + 1, Len(vec)), k + 1)
\* the tree of structure t holding the values of the flat list of leaves
Filled(t, lv) ==
    [i \in 1..Len(t) |-> [path |-> t[i].path,
        data |-> [j \in 1..Len(t[i].data) |->
            LET x == lv[CHOOSE q \in 1..Len(lv) : lv[q].p = t[i].path /\ lv[q].k = t[i].data[j].k]
            IN [k |-> x.k, sh |-> x.sh, v |-> x.v]]]]
Unravel(t, vec) == Filled(t, Cut(Leaves(t), vec, 1))

WellFormed(t) ==
    /\ Len(t) > 0 /\ t[1].path = <<>>
    /\ \A i, j \in 1..Len(t) : t[i].path = t[j].path => i = j
    /\ \A i \in 2..Len(t) : Has(t, SubSeq(t[i].path, 1, Len(t[i].path) - 1))
    /\ \A i \in 1..Len(t) : \A j, q \in 1..Len(t[i].data) : t[i].data[j].k = t[i].data[q].k => j = q
    /\ \A i \in 1..Len(t) : \A j \in 1..Len(t[i].data) : Len(t[i].data[j].v) = Prod(t[i].data[j].sh)
===========================================================================
