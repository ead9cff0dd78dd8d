------------------------------ MODULE AeroWalk ------------------------------
(***************************************************************************)
(* C27.  Aerodynamic maps: constants, Gaussian processes over given points  *)
(* (kernel exp(-|x - p|^2)) and networks of tanh layers, each a function of *)
(* the parameters of the instance asked, or of those given for one          *)
(* evaluation.                                                              *)
(*                                                                          *)
(* Exactness: all points of a Gaussian process are integer, so a value is a *)
(* sum of integers times exp(-d), d natural (Gp: the coefficients by d).    *)
(* The weights of the layers of a network but the last are K times integers *)
(* with K so large that tanh is the sign in floating point; the last are    *)
(* eighths, so a value is tanh(k / 8) (Net: k).                             *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS Seed, Walks, Len0
VARIABLES w, step, is, x, last
vars == <<w, step, is, x, last>>

Kind == <<"gp", "mlp", "const", "mlp">>[(w % 4) + 1]
HW == Hash(Seed, w * 29)
NP == Rnd(HW, 1, 1, 5)              \* points of a Gaussian process
NL == Pick(HW, 2, <<1, 2, 3, 3, 4, 11, 12>>)    \* hidden layers
LD == Rnd(HW, 3, 1, 4)              \* their width
NumIn == 3
NumOut == 3
MaxInst == 3

\* parameters: a function from names to matrices (sequences of rows) of integers
RowsOf(h, r, c, lo, hi) == [i \in 1..r |-> [j \in 1..c |-> Rnd(h, 31 * i + j, lo, hi)]]
Hidden(h, r, c) == [i \in 1..r |-> LET d == Rnd(h, i, 1, c) s == 2 - 4 * (Rnd(h, 50 + i, 0, 1)) IN
                       [j \in 1..c |-> IF j = d THEN s ELSE Rnd(h, 31 * i + j, -1, 1)]]
Layer(k) == "weights_layer_" \o ToString(k)
Names == CASE Kind = "const" -> <<"Cx", "Cy", "Cz">>
           [] Kind = "gp" -> <<"gp_points", "alpha">>
           [] OTHER -> <<"air_density">> \o [k \in 1..(NL + 1) |-> Layer(k - 1)]
Value(n, h) ==
    CASE Kind = "const" -> RowsOf(h, 1, 1, -9, 9)
      [] n = "gp_points" -> RowsOf(h, NP, NumIn, -2, 2)
      [] n = "alpha" -> RowsOf(h, NumOut, NP, -4, 4)
      [] n = "air_density" -> RowsOf(h, 1, 1, 1, 9)
      [] n = Layer(NL) -> RowsOf(h, NumOut, LD, -9, 9)
      [] n = Layer(0) -> Hidden(h, LD, NumIn)
      [] OTHER -> Hidden(h, LD, LD)
Range(s) == {s[k] : k \in 1..Len(s)}
Idx(n) == CHOOSE k \in 1..Len(Names) : Names[k] = n
Rand(h) == TLCEval([n \in Range(Names) |-> Value(n, Hash(h, 11 * Idx(n)))])
Point(h) == [i \in 1..NumIn |-> Rnd(h, i, -2, 2)]

\* the functions ---------------------------------------------------------------
SumTo(n, f(_)) == SumFrom([k \in 1..n |-> f(k)], 1)
Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
MatVec(m, v) == [i \in 1..Len(m) |-> SumTo(Len(v), LAMBDA j : m[i][j] * v[j])]
Dist(a, b) == SumTo(Len(a), LAMBDA i : (a[i] - b[i]) * (a[i] - b[i]))
\* coefficients of exp(-d) of output o, and of its derivative in input i (i = 0: the value)
GpTerms(p, v, o, i) ==
    [k \in 1..NP |-> [ d |-> Dist(v, p["gp_points"][k]),
                       c |-> p["alpha"][o][k] * (IF i = 0 THEN 1 ELSE (-2) * (v[i] - p["gp_points"][k][i])) ]]
RECURSIVE Net(_, _, _)
Net(p, k, y) == IF k = NL THEN MatVec(p[Layer(NL)], y) ELSE LET z == TLCEval(MatVec(p[Layer(k)], y)) s == TLCEval([i \in 1..Len(z) |-> Sgn(z[i])]) IN Net(p, k + 1, s)
Map(p, v) ==
    CASE Kind = "const" -> [o \in 1..NumOut |-> << <<[d |-> 0, c |-> p[Names[o]][1][1]]>> >>]
      [] Kind = "gp" -> [o \in 1..NumOut |-> [i \in 1..(NumIn + 1) |-> GpTerms(p, v, o, i - 1)]]
      [] OTHER -> LET y == Net(p, 0, v) IN [o \in 1..NumOut |-> << <<[d |-> 0, c |-> y[o]]>> >>]

\* histories --------------------------------------------------------------------
H == Hash(Seed * 5 + w * 101, step * 17 + 3)
Sub(h) == {n \in Range(Names) : Rnd(h, 200 + Idx(n), 0, 2) = 0}
Did(o, s) == last' = o /\ is' = s
Next ==
    /\ step < Len0 /\ step' = step + 1 /\ w' = w
    /\ x' = [k \in 1..2 |-> Point(Hash(H, 900 + k))]
    /\ LET h == Hash(H, 7)
           j == Rnd(h, 1, 1, Len(is))
           n == Pick(h, 2, Names)
           m == Rnd(h, 3, 0, 9)
       IN CASE m < 4 -> LET v == Value(n, Hash(h, 4)) IN Did([k |-> "set", j |-> j, n |-> n, v |-> v], [is EXCEPT ![j][n] = v])
            [] m = 4 -> LET p == Rand(Hash(h, 4)) IN Did([k |-> "all", j |-> j, p |-> p], [is EXCEPT ![j] = p])
            [] m < 7 -> \* parameters for one evaluation
                 LET p == Rand(Hash(h, 4)) IN Did([k |-> "given", j |-> j, p |-> p, exp |-> [q \in 1..2 |-> Map(p, x'[q])]], is)
            [] m = 7 -> Did([k |-> "scribble", j |-> j], is)
            [] OTHER ->  \* another instance: parameters given when it is made, the rest set afterwards
                 LET p == Rand(Hash(h, 4)) IN
                 IF Len(is) < MaxInst THEN Did([k |-> "new", p |-> p, now |-> Sub(h)], Append(is, p)) ELSE Did([k |-> "none"], is)
Init == /\ w \in 1..Walks /\ step = 0
        /\ LET p == Rand(HW) IN is = <<p>> /\ last = [k |-> "new", p |-> p, now |-> Sub(HW)]
        /\ x = [k \in 1..2 |-> Point(Hash(HW, 900 + k))]
Spec == Init /\ [][Next]_vars

\* design ------------------------------------------------------------------------
TypeOK == \A j \in 1..Len(is) : DOMAIN is[j] = Range(Names)
\* moving the points and the place together changes nothing
ShiftLaw == Kind = "gp" => \A j \in 1..Len(is) :
    LET s == Point(Hash(H, 1))
        q == [is[j] EXCEPT !["gp_points"] = [k \in 1..NP |-> [i \in 1..NumIn |-> @[k][i] + s[i]]]]
    IN Map(q, [i \in 1..NumIn |-> x[1][i] + s[i]]) = Map(is[j], x[1])
\* the order of the points is immaterial: the coefficients as a bag
At(t, d) == SumTo(Len(t), LAMBDA k : IF t[k].d = d THEN t[k].c ELSE 0)
OrderLaw == Kind = "gp" => \A j \in 1..Len(is) :
    LET r(k) == NP + 1 - k
        q == [is[j] EXCEPT !["gp_points"] = [k \in 1..NP |-> @[r(k)]], !["alpha"] = [o \in 1..NumOut |-> [k \in 1..NP |-> @[o][r(k)]]]]
        a == Map(q, x[1]) b == Map(is[j], x[1])
    IN \A o \in 1..NumOut : \A i \in 1..4 : \A d \in 0..60 : At(a[o][i], d) = At(b[o][i], d)
\* a network is odd
OddLaw == Kind = "mlp" => \A j \in 1..Len(is) :
    LET a == Map(is[j], [i \in 1..NumIn |-> -x[1][i]]) b == Map(is[j], x[1]) IN \A o \in 1..NumOut : a[o][1][1].c = -b[o][1][1].c
OneChanges == [][last'.k \in {"set", "all"} => \A j \in 1..Len(is) : j # last'.j => is'[j] = is[j]]_vars
EvaluationKeeps == [][last'.k \in {"given", "scribble"} => is' = is]_vars
Out == EmitJson([ w |-> w, step |-> step, kind |-> Kind, np |-> NP, nl |-> NL, ld |-> LD, last |-> last, x |-> x,
                  is |-> is, exp |-> [j \in 1..Len(is) |-> [k \in 1..2 |-> Map(is[j], x[k])]] ], <<w, step>>)
=============================================================================
