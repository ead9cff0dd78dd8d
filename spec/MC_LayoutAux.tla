--------------------------- MODULE MC_LayoutAux ---------------------------
(* Expected results of the array helpers the layout views are built from.  *)
EXTENDS Layout, Json, CSV, IOUtils
CONSTANTS MaxLen, MaxBase
VARIABLES case, asked

ConvCases == { [kind |-> "conv", len |-> l, width |-> w, stride |-> s, inner |-> k] :
               l \in 1..MaxLen, w \in 1..MaxLen, s \in 1..MaxLen, k \in 0..2 }
\* only windows that overlap by at most one stride are in the helper's domain
ConvDomain == { c \in ConvCases : c.width <= c.len /\ c.stride <= c.width /\ c.width - c.stride <= c.stride }
OffCases == { [kind |-> "offset", base |-> b, roff |-> r, coff |-> c, blocks |-> n] :
              b \in UNION {[1..m -> 0..2] : m \in 1..MaxBase}, r \in {0, 2, 5}, c \in {1, 3}, n \in 1..3 }
StackCases == { [kind |-> "stack", rows |-> r, cols |-> c, axis |-> a, rep |-> n, inc |-> i] :
                r \in 1..2, c \in 0..2, a \in {-1, 0, 1}, n \in 1..3, i \in {0, 2, 7} }

(* stack_and_increment on base[r][c] = 10r+c (c=0 columns means a 1-d base) *)
Stacked(c) ==
  LET base(r, k) == 10 * r + k
      val(r, k, n) == base(r, k) + n * c.inc IN
  IF c.cols = 0 THEN   \* 1-d base of length rows; axis -1 and 1 coincide
     IF c.axis = 0 THEN [n \in 1..c.rep |-> [r \in 1..c.rows |-> val(r, 0, n - 1)]]
     ELSE [r \in 1..c.rows |-> [n \in 1..c.rep |-> val(r, 0, n - 1)]]
  ELSE IF c.axis = 0 THEN [n \in 1..c.rep |-> [r \in 1..c.rows |-> [k \in 1..c.cols |-> val(r, k, n - 1)]]]
  ELSE IF c.axis = 1 THEN [r \in 1..c.rows |-> [n \in 1..c.rep |-> [k \in 1..c.cols |-> val(r, k, n - 1)]]]
  ELSE [r \in 1..c.rows |-> [k \in 1..c.cols |-> [n \in 1..c.rep |-> val(r, k, n - 1)]]]

Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Ans(c) ==
  CASE c.kind = "conv" -> [case |-> c, ok |-> ConvOK(c.len, c.width, c.stride),
                           windows |-> IF ConvOK(c.len, c.width, c.stride) THEN Conv(c.len, c.width, c.stride) ELSE <<>>]
    [] c.kind = "offset" -> [case |-> c, rows |-> OffsetStruct(c.base, c.roff, c.blocks),
                             cols |-> OffsetStruct(Rev(c.base), c.coff, c.blocks)]
    [] c.kind = "stack" -> [case |-> c, out |-> Stacked(c)]

Init == case \in ConvDomain \cup OffCases \cup StackCases /\ asked = FALSE
Next == asked = FALSE /\ asked' = TRUE /\ UNCHANGED case
Spec == Init /\ [][Next]_<<case, asked>>
\* every window is a run of consecutive rows and every row is covered
ConvSane == (case.kind = "conv" /\ ConvOK(case.len, case.width, case.stride)) =>
   LET W == Conv(case.len, case.width, case.stride) IN
   /\ {W[b][w] : b \in 1..Len(W), w \in 1..case.width} = 0..(case.len - 1)
   /\ \A b \in 1..Len(W) : \A w \in 1..(case.width - 1) : W[b][w + 1] = W[b][w] + 1
Emit == asked => CSVWrite("%1$s", <<ToJson(Ans(case))>>, IOEnv.VERIF_OUT)
===========================================================================
