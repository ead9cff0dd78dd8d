---------------------------- MODULE BoundCases ----------------------------
(***************************************************************************)
(* C19.  Which pairs of values make bounds: two numbers or two              *)
(* one-dimensional arrays of one size, nowhere lower above upper (and       *)
(* nothing that is not a number).  Every pair over a catalogue of values.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Emit
CONSTANT Long
VARIABLES a, b
NaN == 99
Scalars == {[t |-> t, v |-> <<x>>] : t \in {"int", "float", "np"}, x \in {0, 1}}
           \cup {[t |-> "float", v |-> <<x>>] : x \in {-98, 98, NaN}}              \* -inf, inf, nan
Arrays == {[t |-> "arr", v |-> <<x>>] : x \in {0, 1}} \cup {[t |-> "arr", v |-> <<x, y>>] : x, y \in {0, 1, 2}}
          \cup (IF Long THEN {[t |-> "arr", v |-> <<x, y, z>>] : x, y, z \in {0, 1}} ELSE {[t |-> "arr", v |-> <<0, x, 1>>] : x \in {0, 1}})
          \cup {[t |-> "arr", v |-> <<0, NaN>>], [t |-> "arr", v |-> <<-98, 98>>]}
Others == {[t |-> t, v |-> <<x>>] : t \in {"none", "list", "tuple", "arr0", "arr2", "dict"}, x \in {0, 1}}
Values == Scalars \cup Arrays \cup Others
IsNum(u) == u.t \in {"int", "float", "np"}
LeSeq(u, v) == \A k \in 1..Len(u) : u[k] # NaN /\ v[k] # NaN /\ u[k] <= v[k]
Valid(u, v) == \/ IsNum(u) /\ IsNum(v) /\ LeSeq(u.v, v.v)
               \/ u.t = "arr" /\ v.t = "arr" /\ Len(u.v) = Len(v.v) /\ LeSeq(u.v, v.v)
Init == a \in Values /\ b \in Values
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
\* every number or array without nan bounds itself; validity is transitive and never holds between kinds
Design == /\ (IsNum(a) \/ a.t = "arr") /\ ~(\E k \in 1..Len(a.v) : a.v[k] = NaN) => Valid(a, a)
          /\ \A c \in Values : Valid(a, b) /\ Valid(b, c) => Valid(a, c)
          /\ Valid(a, b) => (IsNum(a) <=> IsNum(b))
Out == EmitJson([lo |-> a, hi |-> b, ok |-> Valid(a, b)], <<a, b>>)
===========================================================================
