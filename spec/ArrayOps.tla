------------------------------ MODULE ArrayOps ------------------------------
(***************************************************************************)
(* C15.  The array language the models are written in.  The state is a      *)
(* register file of integer arrays; a step applies one operation to         *)
(* registers and literal operands.  What the operation returns is defined   *)
(* here, exactly, from the meaning of the operation in NumPy: row-major      *)
(* order, vectors apart from matrices, axes.  Results that are integer       *)
(* arrays may be kept in a register, so operations are composed.            *)
(*                                                                         *)
(* An array is [nd, r, c, v]: nd 0 (scalar, 1 x 1), 1 (vector of r), 2        *)
(* (matrix r x c), v row-major.  An element of a result is a term            *)
(* [f, a]: f = "q" is the rational a[1]/a[2], other f are functions of        *)
(* rationals evaluated by the replayer.                                      *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS Seed, Walks, Len0
VARIABLES w, step, regs, last
vars == <<w, step, regs, last>>

\* -- arrays ------------------------------------------------------------------
Arr(nd, r, c, v) == [nd |-> nd, r |-> r, c |-> c, v |-> v]
Vec(v) == Arr(1, Len(v), 1, v)
Sca(x) == Arr(0, 1, 1, <<x>>)
MatF(r, c, F(_, _)) == Arr(2, r, c, [q \in 1..(r * c) |-> F(((q - 1) \div c) + 1, ((q - 1) % c) + 1)])
VecF(n, F(_)) == Arr(1, n, 1, [q \in 1..n |-> F(q)])
At(a, i, j) == a.v[(i - 1) * a.c + j]
MapA(a, F(_)) == [a EXCEPT !.v = [q \in 1..Len(a.v) |-> F(a.v[q])]]
SameShape(a, b) == a.nd = b.nd /\ a.r = b.r /\ a.c = b.c
\* one of the operands may be a scalar
Zip(a, b, F(_, _)) ==
    IF a.nd = 0 THEN MapA(b, LAMBDA y : F(a.v[1], y))
    ELSE IF b.nd = 0 THEN MapA(a, LAMBDA x : F(x, b.v[1]))
    ELSE [a EXCEPT !.v = [q \in 1..Len(a.v) |-> F(a.v[q], b.v[q])]]
Tr(a) == MatF(a.c, a.r, LAMBDA i, j : At(a, j, i))
RowOf(a, i) == [j \in 1..a.c |-> At(a, i, j)]
ColOf(a, j) == [i \in 1..a.r |-> At(a, i, j)]
SubRows(a, lo, hi) ==      \* elements lo+1..hi along the first axis
    IF a.nd = 1 THEN Vec(SubSeq(a.v, lo + 1, hi)) ELSE Arr(2, hi - lo, a.c, SubSeq(a.v, lo * a.c + 1, hi * a.c))
SubCols(a, lo, hi) == MatF(a.r, hi - lo, LAMBDA i, j : At(a, i, lo + j))

AbsI(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
B2(b) == IF b THEN 1 ELSE 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* floor division (TLC's \div is the floor)
Q(n, d) ==
    LET g == Gcd(AbsI(n), AbsI(d)) s == Sgn(d) IN
    IF n = 0 THEN [f |-> "q", a |-> <<0, 1>>] ELSE [f |-> "q", a |-> <<(s * n) \div g, (s * d) \div g>>]
Term(f, a) == [f |-> f, a |-> a]
Ints(a) == MapA(a, LAMBDA x : Q(x, 1))
SumV(v) == SumFrom(v, 1)
RECURSIVE ExtFrom(_, _, _)
ExtFrom(v, k, big) == IF k = Len(v) THEN v[k]
                      ELSE LET m == ExtFrom(v, k + 1, big) IN IF big THEN Max2(v[k], m) ELSE Min2(v[k], m)
MaxV(v) == ExtFrom(v, 1, TRUE)
MinV(v) == ExtFrom(v, 1, FALSE)
DotV(x, y) == SumV([q \in 1..Len(x) |-> x[q] * y[q]])
RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN 1 ELSE x * PowI(x, n - 1)

\* -- determinants for solve ------------------------------------------------------
Det(m, n) == IF n = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
             ELSE m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
                  + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Rows(a) == [i \in 1..a.r |-> RowOf(a, i)]
WithCol(m, k, b) == [i \in 1..Len(m) |-> [m[i] EXCEPT ![k] = b[i]]]

MM(a, b) == MatF(a.r, b.c, LAMBDA i, j : DotV(RowOf(a, i), ColOf(b, j)))
\* products in the sense of numpy.dot; the shapes fit
DotA(a, b) ==
    IF a.nd = 1 /\ b.nd = 1 THEN Sca(DotV(a.v, b.v))
    ELSE IF b.nd = 1 THEN VecF(a.r, LAMBDA i : DotV(RowOf(a, i), b.v))
    ELSE IF a.nd = 1 THEN VecF(b.c, LAMBDA j : DotV(a.v, ColOf(b, j)))
    ELSE MM(a, b)
Cross3(x, y) == << x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1] >>
RollI(n, s, i) == (((i - 1 - s) % n) + 1)      \* where element i of the result comes from
DiffV(v) == [i \in 1..(Len(v) - 1) |-> v[i + 1] - v[i]]
RECURSIVE DiffN(_, _)
DiffN(a, n) == IF n = 0 THEN a
               ELSE IF a.nd = 1 THEN DiffN(Vec(DiffV(a.v)), n - 1)
               ELSE DiffN(MatF(a.r, a.c - 1, LAMBDA i, j : At(a, i, j + 1) - At(a, i, j)), n - 1)

\* -- generation ----------------------------------------------------------------
HW == Hash(Seed, w * 29 + 11)
FreshV(h, n, lo, hi) == [q \in 1..n |-> Rnd(h, q * 7, lo, hi)]
FreshLike(h, a) == [a EXCEPT !.v = FreshV(h, Len(a.v), -5, 5)]
FreshShape(h, r, c) == Arr(2, r, c, FreshV(h, r * c, -5, 5))
FreshVec(h, n) == Vec(FreshV(h, n, -5, 5))
First == << FreshVec(Hash(HW, 1), Rnd(HW, 2, 2, 5)), FreshVec(Hash(HW, 3), 3),
            FreshShape(Hash(HW, 4), Rnd(HW, 5, 2, 4), Rnd(HW, 6, 2, 4)),
            FreshShape(Hash(HW, 7), 3, 3), Sca(Rnd(HW, 8, -5, 5)),
            Arr(2, 1, Rnd(HW, 10, 2, 4), FreshV(Hash(HW, 11), Rnd(HW, 10, 2, 4), -5, 5)) >>
\* operands: a register (i > 0) or a literal, which may be given as plain numbers
OpR(i) == [i |-> i, a |-> regs[i], num |-> FALSE]
OpL(h, a) == [i |-> 0, a |-> a, num |-> Rnd(h, 77, 0, 2) = 0]
\* a register chosen among those with property P (literal D otherwise)
RegWith(h, P(_), D) ==
    LET ok == {i \in 1..Len(regs) : P(regs[i])} IN
    IF ok = {} THEN OpL(h, D)
    ELSE LET k == Rnd(h, 3, 0, Cardinality(ok) - 1) IN
         OpR(CHOOSE i \in ok : Cardinality({j \in ok : j < i}) = k)
Full(a) == a.nd = 2 /\ a.r > 1 /\ a.c > 1
AnyR(h) == RegWith(h, LAMBDA a : TRUE, Sca(1))
VecR(h) == RegWith(h, LAMBDA a : a.nd = 1, FreshVec(Hash(h, 5), 3))
MatR(h) == RegWith(h, LAMBDA a : a.nd = 2, FreshShape(Hash(h, 5), 2, 3))
FullR(h) == RegWith(h, Full, FreshShape(Hash(h, 5), 3, 2))
VMR(h) == RegWith(h, LAMBDA a : a.nd = 1 \/ Full(a), FreshVec(Hash(h, 5), 4))
ScaR(h) == IF h % 3 = 0 THEN OpL(h, Sca(Rnd(h, 8, -6, 6))) ELSE RegWith(h, LAMBDA a : a.nd = 0, Sca(2))
\* a partner of the same shape, or a scalar
Mate(h, a) == IF h % 4 = 0 THEN ScaR(Hash(h, 1))
              ELSE IF h % 4 = 1 THEN OpL(h, FreshLike(Hash(h, 2), a))
              ELSE RegWith(Hash(h, 3), LAMBDA b : SameShape(a, b), FreshLike(Hash(h, 4), a))
MateS(h, a) == IF h % 2 = 1 THEN OpL(h, FreshLike(Hash(h, 2), a))
               ELSE RegWith(Hash(h, 3), LAMBDA b : SameShape(a, b), FreshLike(Hash(h, 4), a))

\* outcomes: "ok" the operation returns res; "may" it may also refuse; "rej" it must refuse
R0(op, args, p, st, res) == [op |-> op, args |-> args, p |-> p, st |-> st, res |-> res]
One(op, args, p, a) == R0(op, args, p, "ok", <<Ints(a)>>)
NoP == <<>>
P1(x) == <<x>>

Unary(h) ==
    LET x == AnyR(Hash(h, 1)) a == x.a
        k == Rnd(h, 2, 1, 11)
    IN CASE k = 1 -> One("abs", <<x>>, NoP, MapA(a, AbsI))
         [] k = 2 -> One("neg", <<x>>, NoP, MapA(a, LAMBDA y : -y))
         [] k = 3 -> One("sign", <<x>>, NoP, MapA(a, Sgn))
         [] k = 4 -> One("square", <<x>>, NoP, MapA(a, LAMBDA y : y * y))
         [] k = 5 -> LET d == Pick(h, 3, <<2, 4>>) IN One("floor", <<x>>, P1(d), MapA(a, LAMBDA y : y \div d))
         [] k = 6 -> LET d == Pick(h, 3, <<2, 4>>) IN One("ceil", <<x>>, P1(d), MapA(a, LAMBDA y : -((-y) \div d)))
         [] k = 7 -> One("zeros_like", <<x>>, NoP, MapA(a, LAMBDA y : 0))
         [] k = 8 -> One("logical_not", <<x>>, NoP, MapA(a, LAMBDA y : B2(y = 0)))
         [] k = 9 -> One("fabs", <<x>>, NoP, MapA(a, AbsI))
         [] k = 10 -> LET n == Rnd(h, 3, 2, 3) IN One("power", <<x>>, P1(n), MapA(a, LAMBDA y : PowI(y, n)))
         [] OTHER -> IF a.nd = 2 THEN One("T", <<x>>, NoP, Tr(a)) ELSE One("abs", <<x>>, NoP, MapA(a, AbsI))

Funs == <<"sin", "cos", "tan", "exp", "arctan", "sinh", "cosh", "tanh", "sqrtabs", "log1p", "degrees", "radians",
          "sind", "cosd", "tand", "sin", "cos", "deg2", "expm1", "arcsinh">>
Arcs == <<"arcsin", "arccos", "arcsind", "arccosd", "arctanh">>
Fun(h) ==
    LET x == AnyR(Hash(h, 1)) a == x.a
        m == MaxV([q \in 1..Len(a.v) |-> AbsI(a.v[q])]) + 1
        arc == h % 4 = 0
        d == IF arc THEN m ELSE IF m > 9 THEN m ELSE Rnd(h, 3, 1, 3)
        f == IF arc THEN Pick(h, 4, Arcs) ELSE Pick(h, 4, Funs)
    IN R0("fun", <<x>>, [f |-> f, d |-> d], "ok", <<MapA(a, LAMBDA y : Term(f, Q(y, d).a))>>)
Fun2(h) ==
    LET x == AnyR(Hash(h, 1)) y == Mate(Hash(h, 2), x.a)
        f == Pick(h, 4, <<"arctan2", "hypot", "copysign", "arctan2d", "div">>)
        \* (the angle of a vector along the negative axis depends on the sign of zero)
        b == IF f \in {"arctan2", "arctan2d"} THEN [y EXCEPT !.a = MapA(y.a, LAMBDA t : AbsI(t) + 1), !.i = 0]
             ELSE IF f \in {"div", "copysign"} THEN [y EXCEPT !.a = MapA(y.a, LAMBDA t : IF t = 0 THEN 3 ELSE t), !.i = IF \E q \in 1..Len(y.a.v) : y.a.v[q] = 0 THEN 0 ELSE y.i] ELSE y
    IN R0("fun2", <<x, b>>, [f |-> f, d |-> 1], "ok",
          <<Zip(x.a, b.a, LAMBDA s, t : IF f = "div" THEN Q(s, t) ELSE Term(f, <<s, t>>))>>)

Binary(h) ==
    LET x0 == AnyR(Hash(h, 1)) y0 == Mate(Hash(h, 2), x0.a)
        swap == Rnd(h, 5, 0, 1) = 0 /\ y0.a.nd = 0
        x == IF swap THEN y0 ELSE x0
        y == IF swap THEN x0 ELSE y0
        F2(op, F(_, _)) == One(op, <<x, y>>, NoP, Zip(x.a, y.a, F))
        k == Rnd(h, 4, 1, 17)
    IN CASE k = 1 -> F2("add", LAMBDA s, t : s + t)
         [] k = 2 -> F2("sub", LAMBDA s, t : s - t)
         [] k = 3 -> F2("mul", LAMBDA s, t : s * t)
         [] k \in {4, 5} -> F2("minimum", Min2)
         [] k \in {6, 7} -> F2("maximum", Max2)
         [] k = 8 -> F2("fmin", Min2)
         [] k = 9 -> F2("fmax", Max2)
         [] k = 10 -> F2("logical_and", LAMBDA s, t : B2(s # 0 /\ t # 0))
         [] k = 11 -> F2("logical_or", LAMBDA s, t : B2(s # 0 \/ t # 0))
         [] k = 12 -> F2("less", LAMBDA s, t : B2(s < t))
         [] k = 13 -> F2("greater_equal", LAMBDA s, t : B2(s >= t))
         [] k = 14 -> F2("equal", LAMBDA s, t : B2(s = t))
         [] OTHER ->
              IF \E q \in 1..Len(y.a.v) : y.a.v[q] = 0 THEN F2("add", LAMBDA s, t : s + t)
              ELSE F2(IF k = 15 THEN "mod" ELSE "remainder",
                      LAMBDA s, t : IF t > 0 THEN s % t ELSE -((-s) % (-t)))
\* three operands: condition (x < 0), two branches; bounds of a clip
Ternary(h) ==
    LET x == AnyR(Hash(h, 1)) y == Mate(Hash(h, 2), x.a) z == Mate(Hash(h, 3), x.a)
        lo == Rnd(h, 4, -4, 2) hi == Rnd(h, 5, -2, 4)      \* the upper one wins if they cross
        vlo == OpL(Hash(h, 6), FreshLike(Hash(h, 7), x.a))
        vhi == OpL(Hash(h, 8), FreshLike(Hash(h, 9), x.a))
        k == Rnd(h, 10, 1, 4)
    IN IF k <= 2 THEN
            LET s == Rnd(h, 11, -2, 2)
                A == Zip(x.a, y.a, LAMBDA c, t : IF c < s THEN t ELSE 0)
                B == Zip(x.a, z.a, LAMBDA c, t : IF c < s THEN 0 ELSE t)
            IN One("where", <<x, y, z>>, P1(s), [x.a EXCEPT !.v = [q \in 1..Len(x.a.v) |-> A.v[q] + B.v[q]]])
       ELSE IF k = 3 THEN One("clip", <<x>>, <<lo, hi>>, MapA(x.a, LAMBDA t : Min2(Max2(t, lo), hi)))
       ELSE One("clip3", <<x, vlo, vhi>>, NoP, Zip(Zip(x.a, vlo.a, Max2), vhi.a, Min2))

\* axis: 9 stands for None
Reduce(h) ==
    LET k == Rnd(h, 2, 1, 6)
        x == IF k = 6 THEN AnyR(Hash(h, 1)) ELSE RegWith(Hash(h, 1), LAMBDA b : b.nd > 0, FreshVec(h, 3)) a == x.a
        axis == IF a.nd = 2 THEN Pick(h, 3, <<0, 1, 9>>) ELSE Pick(h, 3, <<0, 9>>)
        n == Len(a.v)
        sums == IF axis = 9 \/ a.nd = 1 THEN Sca(SumV(a.v))
                ELSE IF axis = 0 THEN VecF(a.c, LAMBDA j : SumV(ColOf(a, j)))
                ELSE VecF(a.r, LAMBDA i : SumV(RowOf(a, i)))
        cnt == IF axis = 9 \/ a.nd = 1 THEN n ELSE IF axis = 0 THEN a.r ELSE a.c
    IN CASE k \in {1, 2} -> One("sum", <<x>>, P1(axis), sums)
         [] k = 3 -> R0("mean", <<x>>, P1(axis), "ok", <<MapA(sums, LAMBDA s : Q(s, cnt))>>)
         [] k = 4 -> One(IF h % 2 = 0 THEN "max" ELSE "min", <<x>>, NoP, Sca(IF h % 2 = 0 THEN MaxV(a.v) ELSE MinV(a.v)))
         [] k = 5 -> R0(IF h % 2 = 0 THEN "all" ELSE "any", <<x>>, NoP, "may",
                        <<Ints(Sca(B2(IF h % 2 = 0 THEN \A q \in 1..n : a.v[q] # 0 ELSE \E q \in 1..n : a.v[q] # 0)))>>)
         [] OTHER -> IF a.nd = 0 THEN One("sum", <<x>>, P1(9), a)
                     ELSE R0("mean", <<x>>, P1(axis), "ok", <<MapA(sums, LAMBDA s : Q(s, cnt))>>)

\* numpy.dot / inner / outer and matrix products
Products(h) ==
    LET x == VMR(Hash(h, 1)) a == x.a
        n == IF a.nd = 1 THEN a.r ELSE a.c
        k == Rnd(h, 2, 1, 8)
        wantVec == Rnd(h, 3, 0, 1) = 0
        ydot == IF wantVec THEN RegWith(Hash(h, 4), LAMBDA b : b.nd = 1 /\ b.r = n, FreshVec(Hash(h, 5), n))
                ELSE RegWith(Hash(h, 4), LAMBDA b : Full(b) /\ b.r = n, FreshShape(Hash(h, 5), n, Rnd(h, 6, 2, 4)))
        yinn == IF wantVec THEN RegWith(Hash(h, 4), LAMBDA b : b.nd = 1 /\ b.r = n, FreshVec(Hash(h, 5), n))
                ELSE RegWith(Hash(h, 4), LAMBDA b : Full(b) /\ b.c = n, FreshShape(Hash(h, 5), Rnd(h, 6, 2, 4), n))
        yany == RegWith(Hash(h, 4), LAMBDA b : b.nd = 1 \/ Full(b), FreshVec(Hash(h, 5), 3))
        bad == OpL(Hash(h, 7), FreshVec(Hash(h, 8), n + 1))
    IN CASE k <= 3 -> One("dot", <<x, ydot>>, NoP, DotA(a, ydot.a))
         [] k = 4 -> One("inner", <<x, yinn>>, NoP, DotA(a, IF yinn.a.nd = 1 THEN yinn.a ELSE Tr(yinn.a)))
         [] k = 5 -> One("outer", <<x, yany>>, NoP, MatF(Len(a.v), Len(yany.a.v), LAMBDA i, j : a.v[i] * yany.a.v[j]))
         [] k = 6 -> IF a.nd = 2 THEN One("matmul", <<x, ydot>>, NoP, DotA(a, ydot.a))
                     ELSE One("dot", <<x, ydot>>, NoP, DotA(a, ydot.a))
         [] k = 7 -> R0("dot", <<x, bad>>, NoP, "rej", <<>>)
         [] OTHER -> R0("inner", <<x, bad>>, NoP, "rej", <<>>)

CrossOp(h) ==
    LET k == Rnd(h, 2, 1, 6)
        three(b) == b.nd = 1 /\ b.r = 3
        m == Rnd(h, 3, 2, 4)
        ax(q) == Pick(h, 10 + q, <<0, 1, -1>>)
        mk(q, axq, n) == IF axq = 0 THEN RegWith(Hash(h, 20 + q), LAMBDA b : Full(b) /\ b.r = 3 /\ b.c = n, FreshShape(Hash(h, 30 + q), 3, n))
                         ELSE RegWith(Hash(h, 20 + q), LAMBDA b : Full(b) /\ b.c = 3 /\ b.r = n, FreshShape(Hash(h, 30 + q), n, 3))
        Vs(b, axb, i) == IF axb = 0 THEN ColOf(b, i) ELSE RowOf(b, i)
        Res(b1, a1, b2, a2, n, axc) ==
            IF axc = 0 THEN MatF(3, n, LAMBDA i, j : Cross3(Vs(b1, a1, j), Vs(b2, a2, j))[i])
            ELSE MatF(n, 3, LAMBDA i, j : Cross3(Vs(b1, a1, i), Vs(b2, a2, i))[j])
    IN CASE k \in {1, 2} ->
              LET x == RegWith(Hash(h, 4), three, FreshVec(Hash(h, 5), 3))
                  y == IF h % 3 = 0 THEN OpL(h, FreshVec(Hash(h, 7), 3)) ELSE RegWith(Hash(h, 6), three, FreshVec(Hash(h, 7), 3))
                  av == Pick(h, 8, <<9, 9, 0, -1>>)
              IN One("cross", <<x, y>>, <<av>>, Vec(Cross3(x.a.v, y.a.v)))
         [] k = 3 -> LET x == mk(1, ax(1), m) y == mk(2, ax(1), m) IN
                     One("cross", <<x, y>>, <<ax(1)>>, Res(x.a, ax(1), y.a, ax(1), m, ax(1)))
         [] k = 4 -> LET x == mk(1, ax(1), m) y == mk(2, ax(2), m) IN
                     One("cross", <<x, y>>, <<ax(1), ax(2), ax(3)>>, Res(x.a, ax(1), y.a, ax(2), m, ax(3)))
         [] k = 5 -> LET n == Pick(h, 8, <<2, 4, 5>>) x == OpL(h, FreshVec(Hash(h, 5), n)) y == OpL(Hash(h, 9), FreshVec(Hash(h, 7), n)) IN
                     IF n = 2 THEN R0("cross", <<x, y>>, <<9>>, "may", <<Ints(Sca(x.a.v[1] * y.a.v[2] - x.a.v[2] * y.a.v[1]))>>)
                     ELSE R0("cross", <<x, y>>, <<9>>, "rej", <<>>)
         [] OTHER -> \* planar vectors in a matrix that has three of them the other way round
              LET x == OpL(h, FreshShape(Hash(h, 5), 3, 2)) y == OpL(Hash(h, 9), FreshShape(Hash(h, 7), 3, 2)) IN
              R0("cross", <<x, y>>, <<-1>>, "may",
                 <<Ints(VecF(3, LAMBDA i : At(x.a, i, 1) * At(y.a, i, 2) - At(x.a, i, 2) * At(y.a, i, 1)))>>)

SolveOp(h) ==
    LET n == Rnd(h, 1, 2, 3)
        x0 == RegWith(Hash(h, 2), LAMBDA b : b.nd = 2 /\ b.r = n /\ b.c = n, FreshShape(Hash(h, 3), n, n))
        ok == Det(Rows(x0.a), n) # 0 /\ (\A q \in 1..Len(x0.a.v) : AbsI(x0.a.v[q]) <= 60)
        x == IF ok THEN x0 ELSE OpL(h, IF n = 2 THEN Arr(2, 2, 2, <<2, 1, 1, -3>>) ELSE Arr(2, 3, 3, <<0, 2, 1, 3, 0, -1, 1, 1, 5>>))
        y == IF h % 2 = 0 THEN OpL(h, FreshVec(Hash(h, 4), n)) ELSE OpL(h, FreshShape(Hash(h, 4), n, 2))
        D == Det(Rows(x.a), n)
        e(i, j) == Q(Det(WithCol(Rows(x.a), i, ColOf(y.a, j)), n), D)
    IN R0("solve", <<x, y>>, NoP, "ok",
          << IF y.a.nd = 1 THEN VecF(n, LAMBDA i : e(i, 1)) ELSE MatF(n, 2, e) >>)

NormOp(h) ==
    LET x == VMR(Hash(h, 1)) a == x.a
        \* orders: 0 default, 1, 2, 3, 8 inf, -8 minus inf, 7 "fro"
        N(v, o) == LET b == [q \in 1..Len(v) |-> AbsI(v[q])] IN
                   CASE o \in {0, 2} -> Term("sqrt", <<DotV(v, v), 1>>)
                     [] o = 1 -> Q(SumV(b), 1)
                     [] o = 3 -> Term("cbrt", <<SumV([q \in 1..Len(v) |-> b[q] * b[q] * b[q]]), 1>>)
                     [] o = 8 -> Q(MaxV(b), 1)
                     [] OTHER -> Q(MinV(b), 1)
        ov == Pick(h, 2, <<0, 1, 2, 3, 8, -8>>)
        om == Pick(h, 2, <<0, 7, 1, 8>>)
        axis == Pick(h, 3, <<0, 1, -1, 9, 9>>)
        absr(i) == SumV([j \in 1..a.c |-> AbsI(At(a, i, j))])
        absc(j) == SumV([i \in 1..a.r |-> AbsI(At(a, i, j))])
    IN IF a.nd = 1 THEN R0("norm", <<x>>, <<ov, Pick(h, 4, <<9, 9, 0, -1>>)>>, "ok", <<Arr(0, 1, 1, <<N(a.v, ov)>>)>>)
       ELSE IF axis = 9 THEN
            R0("norm", <<x>>, <<om, 9>>, "ok",
               <<Arr(0, 1, 1, << CASE om \in {0, 7} -> N(a.v, 2)
                                  [] om = 1 -> Q(MaxV([j \in 1..a.c |-> absc(j)]), 1)
                                  [] OTHER -> Q(MaxV([i \in 1..a.r |-> absr(i)]), 1) >>)>>)
       ELSE R0("norm", <<x>>, <<ov, axis>>, "ok",
               << IF axis = 0 THEN VecF(a.c, LAMBDA j : N(ColOf(a, j), ov)) ELSE VecF(a.r, LAMBDA i : N(RowOf(a, i), ov)) >>)

RollOp(h) ==
    LET x == VMR(Hash(h, 1)) a == x.a
        s == Rnd(h, 2, -6, 9)
        axis == IF a.nd = 1 THEN Pick(h, 3, <<9, 0>>) ELSE Pick(h, 3, <<9, 0, 1>>)
    IN One("roll", <<x>>, <<s, axis>>,
           IF axis = 9 \/ a.nd = 1 THEN [a EXCEPT !.v = [q \in 1..Len(a.v) |-> a.v[RollI(Len(a.v), s, q)]]]
           ELSE IF axis = 0 THEN MatF(a.r, a.c, LAMBDA i, j : At(a, RollI(a.r, s, i), j))
           ELSE MatF(a.r, a.c, LAMBDA i, j : At(a, i, RollI(a.c, s, j))))

DiffOp(h) ==
    LET x == VMR(Hash(h, 1)) a == x.a
        len == IF a.nd = 1 THEN a.r ELSE a.c
        n == Rnd(h, 2, 0, Min2(len - 1, 3))
    IN One("diff", <<x>>, P1(n), DiffN(a, n))

Divs(n) == {d \in 1..n : n % d = 0}
NthOf(S, k) == CHOOSE d \in S : Cardinality({e \in S : e < d}) = k
ReshapeOp(h) ==
    LET x == RegWith(Hash(h, 1), LAMBDA b : b.nd > 0, FreshVec(h, 4)) a == x.a
        n == Len(a.v)
        r == NthOf(Divs(n), Rnd(h, 2, 0, Cardinality(Divs(n)) - 1))
        form == Rnd(h, 3, 0, 3)        \* (r, c), (-1, c), (r, -1), a list
    IN IF h % 6 = 0 THEN R0("reshape", <<x>>, <<r, (n \div r) + 1, 0>>, "rej", <<>>)
       ELSE One("reshape", <<x>>, <<r, n \div r, form>>, Arr(2, r, n \div r, a.v))

SplitOp(h) ==
    LET x == VMR(Hash(h, 1)) a == x.a
        axis == IF a.nd = 1 THEN 0 ELSE Rnd(h, 2, 0, 1)
        n == IF axis = 0 THEN a.r ELSE a.c
        bySec == Rnd(h, 3, 0, 1) = 0
        sec == NthOf(Divs(n), Rnd(h, 4, 0, Cardinality(Divs(n)) - 1))
        cuts == LET S == {i \in 1..(n - 1) : Rnd(h, 40 + i, 0, 1) = 0} T == IF S = {} THEN {1} ELSE S
                IN [k \in 1..Cardinality(T) |-> NthOf(T, k - 1)]
        bounds == IF bySec THEN [k \in 1..(sec + 1) |-> (k - 1) * (n \div sec)] ELSE <<0>> \o cuts \o <<n>>
        parts == [k \in 1..(Len(bounds) - 1) |-> Ints(IF axis = 0 THEN SubRows(a, bounds[k], bounds[k + 1]) ELSE SubCols(a, bounds[k], bounds[k + 1]))]
        name == CASE h % 3 = 0 -> "split" [] h % 3 = 1 /\ axis = 0 /\ a.nd = 2 -> "vsplit" [] h % 3 = 1 /\ axis = 1 -> "hsplit" [] OTHER -> "split"
        p == [axis |-> axis, sec |-> IF bySec THEN sec ELSE 0, cuts |-> IF bySec THEN <<>> ELSE cuts]
        badsec == CHOOSE d \in 2..(n + 1) : n % d # 0
    IN IF h % 7 = 0 THEN R0("split", <<x>>, [axis |-> axis, sec |-> badsec, cuts |-> <<>>], "rej", <<>>)
       ELSE IF a.nd = 1 /\ ~bySec /\ h % 2 = 0 THEN R0("vector_split", <<x>>, p, "ok", parts)
       ELSE R0(name, <<x>>, p, "ok", parts)

\* joining: two or three operands
JoinOp(h) ==
    LET k == Rnd(h, 2, 1, 9)
        v == VecR(Hash(h, 1)) m == MatR(Hash(h, 1)) full == FullR(Hash(h, 1))
        \* operands joined to the first
        lenv(q) == Rnd(h, 30 + q, 2, 4)
        ov(q) == IF h % 2 = q - 2 THEN OpL(Hash(h, q), FreshVec(Hash(h, 9 + q), lenv(q))) ELSE VecR(Hash(h, 12 + q))
        sv(q) == MateS(Hash(h, 15 + q), v.a)
        three == Rnd(h, 3, 0, 1) = 0
        ops(x, f(_)) == IF three THEN <<x, f(2), f(3)>> ELSE <<x, f(2)>>
        dn(q) == RegWith(Hash(h, 18 + q), LAMBDA b : b.nd = 2 /\ b.c = m.a.c, FreshShape(Hash(h, 21 + q), lenv(q), m.a.c))
        rt(q) == RegWith(Hash(h, 18 + q), LAMBDA b : b.nd = 2 /\ b.r = full.a.r, FreshShape(Hash(h, 21 + q), full.a.r, lenv(q)))
        JoinV(s) == Vec(Flat([q \in 1..Len(s) |-> s[q].a.v]))
        JoinD(s) == LET vv == Flat([q \in 1..Len(s) |-> s[q].a.v]) IN Arr(2, Len(vv) \div s[1].a.c, s[1].a.c, vv)
        JoinR(s) == LET R(i) == Flat([q \in 1..Len(s) |-> RowOf(s[q].a, i)])
                        cc == SumV([q \in 1..Len(s) |-> s[q].a.c]) IN
                    MatF(s[1].a.r, cc, LAMBDA i, j : R(i)[j])
        Stack(s, ax) == LET n == Len(s) l == s[1].a.r IN
                        IF ax = 0 THEN MatF(n, l, LAMBDA i, j : s[i].a.v[j]) ELSE MatF(l, n, LAMBDA i, j : s[j].a.v[i])
        sax == Pick(h, 4, <<0, 1, -1, -2>>)
        b1 == OpL(h, FreshVec(Hash(h, 50), v.a.r + 1))
        b2 == OpL(h, FreshShape(Hash(h, 50), full.a.r + 1, full.a.c + 1))
    IN CASE k = 1 -> LET s == ops(v, ov) IN One(IF h % 2 = 0 THEN "vector_concat" ELSE "concatenate", s, P1(0), JoinV(s))
         [] k = 2 -> LET s == ops(m, dn) IN One(IF h % 2 = 0 THEN "vstack" ELSE "concatenate", s, P1(0), JoinD(s))
         [] k = 3 -> LET s == ops(full, rt) IN One(IF h % 2 = 0 THEN "hstack" ELSE "concatenate", s, P1(1), JoinR(s))
         [] k = 4 -> LET s == ops(v, sv) IN One("stack", s, P1(sax), Stack(s, IF sax \in {0, -2} THEN 0 ELSE 1))
         [] k = 5 -> LET s == ops(v, sv) IN One("column_stack", s, NoP, Stack(s, 1))
         [] k = 6 -> LET s == ops(v, sv) IN One("row_stack", s, NoP, Stack(s, 0))
         [] k = 7 -> LET s == ops(v, sv) IN One("array", s, NoP, Stack(s, 0))
         [] k = 8 -> R0("stack", <<v, b1>>, P1(sax), "rej", <<>>)
         [] OTHER -> R0(IF h % 2 = 0 THEN "concatenate" ELSE IF h % 4 = 1 THEN "hstack" ELSE "vstack", <<full, b2>>, P1(h % 4 \div 2), "rej", <<>>)

\* arrays made of scalars, and constant arrays
MakeOp(h) ==
    LET k == Rnd(h, 2, 1, 9)
        s(q) == ScaR(Hash(h, 10 + q))
        n == Rnd(h, 3, 2, 4) m == Rnd(h, 4, 2, 3)
        vv == VecR(Hash(h, 5))
        num == Rnd(h, 6, 2, 5)
        s1 == ScaR(Hash(h, 7)) s2 == ScaR(Hash(h, 8))
        pos(o) == [o EXCEPT !.a = Sca(AbsI(o.a.v[1]) + 1), !.i = IF o.a.v[1] = AbsI(o.a.v[1]) + 1 THEN o.i ELSE 0]
        p1 == pos(s1) p2 == pos(s2)
        lo == s1.a.v[1] hi == s2.a.v[1]
        small == AbsI(lo) <= 12 /\ AbsI(hi) <= 12
    IN CASE k \in {1, 2} -> LET ss == [q \in 1..n |-> s(q)] IN One("array", ss, NoP, Vec([q \in 1..n |-> ss[q].a.v[1]]))
         [] k = 3 -> LET ss == [q \in 1..(n * m) |-> s(q)] IN One("array2", ss, <<n, m>>, Arr(2, n, m, [q \in 1..(n * m) |-> ss[q].a.v[1]]))
         [] k = 4 -> One("diag", <<vv>>, NoP, MatF(vv.a.r, vv.a.r, LAMBDA i, j : IF i = j THEN vv.a.v[i] ELSE 0))
         [] k = 5 -> LET reps == Rnd(h, 9, 1, 3) IN One("vector_tile", <<vv>>, P1(reps), MatF(reps, vv.a.r, LAMBDA i, j : vv.a.v[j]))
         [] k = 6 -> IF h % 3 = 0 THEN One("eye", <<>>, P1(n), MatF(n, n, LAMBDA i, j : B2(i = j)))
                     ELSE IF h % 2 = 0 THEN One(IF h % 3 = 1 THEN "zeros" ELSE "ones", <<>>, <<n, m>>, MatF(n, m, LAMBDA i, j : B2(h % 3 # 1)))
                     ELSE One(IF h % 3 = 1 THEN "zeros" ELSE "ones", <<>>, P1(n), VecF(n, LAMBDA i : B2(h % 3 # 1)))
         [] k = 7 -> R0("linspace", <<s1, s2>>, P1(num), "ok", <<VecF(num, LAMBDA i : Q(lo * (num - i) + hi * (i - 1), num - 1))>>)
         [] k = 8 -> IF ~small THEN R0("linspace", <<s1, s2>>, P1(num), "ok", <<VecF(num, LAMBDA i : Q(lo * (num - i) + hi * (i - 1), num - 1))>>)
                     ELSE R0("logspace", <<s1, s2>>, P1(num), "ok", <<VecF(num, LAMBDA i : Term("pow10", Q(lo * (num - i) + hi * (i - 1), num - 1).a))>>)
         [] OTHER -> R0("geomspace", <<p1, p2>>, P1(num), "ok",
                        <<VecF(num, LAMBDA i : Term("geom", <<p1.a.v[1], p2.a.v[1], i - 1, num - 1>>))>>)

\* piecewise linear interpolation of a table at x/2
Interp(h) ==
    LET x == RegWith(Hash(h, 1), LAMBDA b : b.nd < 2, Sca(1))
        n == Rnd(h, 2, 2, 5)
        xp == [q \in 1..n |-> SumV([t \in 1..q |-> IF t = 1 THEN Rnd(h, 3, -4, 0) ELSE Rnd(h, 10 + t, 1, 3)])]
        fp == FreshV(Hash(h, 4), n, -5, 5)
        useL == Rnd(h, 5, 0, 2) = 0  useR == Rnd(h, 6, 0, 2) = 0
        L == IF useL THEN Rnd(h, 7, -9, 9) ELSE fp[1]
        R == IF useR THEN Rnd(h, 8, -9, 9) ELSE fp[n]
        seg(y) == CHOOSE q \in 1..(n - 1) : 2 * xp[q] <= y /\ y <= 2 * xp[q + 1]
        f(y) == IF y < 2 * xp[1] THEN Q(L, 1) ELSE IF y > 2 * xp[n] THEN Q(R, 1)
                ELSE LET q == seg(y) d == xp[q + 1] - xp[q] IN Q(fp[q] * (2 * xp[q + 1] - y) + fp[q + 1] * (y - 2 * xp[q]), 2 * d)
    IN R0("interp", <<x>>, [xp |-> xp, fp |-> fp, l |-> IF useL THEN <<L>> ELSE <<>>, r |-> IF useR THEN <<R>> ELSE <<>>], "ok",
          <<MapA(x.a, f)>>)

\* rotation about an integer axis by an angle of x/4 (a scalar)
Rot(h) ==
    LET x == ScaR(Hash(h, 1)) a == x.a.v[1]
        u == Pick(h, 2, << <<1, 0, 0>>, <<0, 0, 1>>, <<1, 2, 2>>, <<3, 0, -4>>, <<1, 1, 1>>, <<-2, 3, 1>> >>)
        d == DotV(u, u)
        K == << <<0, -u[3], u[2]>>, <<u[3], 0, -u[1]>>, <<-u[2], u[1], 0>> >>
    IN IF h % 3 = 0 THEN R0("rot2", <<x>>, NoP, "ok", <<Arr(2, 2, 2, <<Term("cos", <<a, 4>>), Term("msin", <<a, 4>>), Term("sin", <<a, 4>>), Term("cos", <<a, 4>>)>>)>>)
       ELSE R0("rot3", <<x>>, [u |-> u], "ok",
               <<MatF(3, 3, LAMBDA i, j : Term("rot3", <<a, 4, B2(i = j), K[i][j], u[i] * u[j], d>>))>>)

\* weights of finite differences: exact on polynomials of degree below the number of points
FdOp(h) ==
    LET n == Rnd(h, 1, 2, 4)
        xs == [q \in 1..n |-> SumV([t \in 1..q |-> IF t = 1 THEN Rnd(h, 3, -3, 0) ELSE Rnd(h, 10 + t, 1, 2)])]
        deg == Rnd(h, 2, 1, n)
        x0 == Rnd(h, 4, -2, 2)
        \* the derivative of degree deg at x0 of t^j
        RECURSIVE Fall(_, _)
        Fall(j, k) == IF k = 0 THEN 1 ELSE j * Fall(j - 1, k - 1)
        D(j) == IF j < deg THEN 0 ELSE Fall(j, deg) * PowI(x0, j - deg)
        x == OpL(h, Vec(xs))
    IN IF deg > n - 1 THEN R0("fd", <<x>>, <<x0, deg>>, "rej", <<>>)
       ELSE R0("fd", <<x>>, <<x0, deg>>, "ok", <<Vec([j \in 1..n |-> Q(D(j - 1), 1)])>>)

\* comparisons up to a tolerance
CloseOp(h) ==
    LET x == RegWith(Hash(h, 1), LAMBDA b : b.nd < 2 \/ b.r > 1, Sca(1)) q == Rnd(h, 2, 1, Len(x.a.v))
        y == [x.a EXCEPT !.v[q] = @ + 1]
    IN IF h % 2 = 0 THEN R0("close", <<x, [i |-> 0, a |-> x.a, num |-> h % 3 # 0]>>, NoP, "ok", <<>>)
       ELSE R0("close", <<x, [i |-> 0, a |-> y, num |-> h % 3 # 0]>>, NoP, "rej", <<>>)

\* pieces of an integral by trapezia, cosine spacing, lengths, and what is not offered
MoreOp(h) ==
    LET k == Rnd(h, 2, 1, 6)
        x == VecR(Hash(h, 1)) v == x.a.v n == x.a.r
        ends == Rnd(h, 3, 0, 1)
        y == VMR(Hash(h, 4))
        num == Rnd(h, 6, 2, 6)
        s1 == ScaR(Hash(h, 7)) s2 == ScaR(Hash(h, 8))
        lo == s1.a.v[1] hi == s2.a.v[1]
        z == MateS(Hash(h, 9), x.a)
    IN CASE k \in {1, 2} /\ n > 1 ->
               R0("trapz", <<x>>, P1(ends), "ok",
                  <<VecF(n - 1, LAMBDA i : Q(v[i] + v[i + 1] + ends * (B2(i = 1) * v[1] + B2(i = n - 1) * v[n]), 2))>>)
         [] k = 3 -> R0("cosspace", <<s1, s2>>, P1(num), "ok", <<VecF(num, LAMBDA i : Term("cosp", <<lo, hi, i - 1, num - 1>>))>>)
         [] k = 4 -> R0("dstack", <<x, z>>, NoP, "rej", <<>>)
         [] k = 5 /\ y.a.nd = 1 -> 
               LET d == Pick(h, 5, <<1, -1, 2>>) m == y.a.r + AbsI(d) IN
               R0("diagk", <<y>>, P1(d), "may",
                  <<Ints(MatF(m, m, LAMBDA i, j : IF j - i = d THEN y.a.v[IF d > 0 THEN i ELSE j] ELSE 0))>>)
         [] OTHER -> R0("length", <<y>>, NoP, "ok", <<Ints(Sca(y.a.r))>>)

Choose(h) ==
    LET k == w % 3
        g == Hash(h, 99)
        t == Rnd(h, 98, 1, 24)
    IN CASE t <= 2 -> Unary(g) [] t <= 4 -> Binary(g) [] t = 5 -> Ternary(g) [] t = 6 -> Fun(g) [] t = 7 -> Fun2(g)
         [] t <= 9 -> Reduce(g) [] t <= 11 -> Products(g) [] t = 12 -> CrossOp(g) [] t = 13 -> SolveOp(g)
         [] t = 14 -> NormOp(g) [] t = 15 -> RollOp(g) [] t = 16 -> DiffOp(g) [] t = 17 -> ReshapeOp(g)
         [] t = 18 -> SplitOp(g) [] t <= 20 -> JoinOp(g) [] t = 21 -> MakeOp(g) [] t = 22 -> Interp(g)
         [] t = 23 -> IF g % 3 = 0 THEN Rot(g) ELSE IF g % 3 = 1 THEN FdOp(g) ELSE MakeOp(Hash(g, 1))
         [] OTHER -> IF g % 3 = 0 THEN CloseOp(g) ELSE IF g % 3 = 1 THEN MoreOp(Hash(g, 2)) ELSE JoinOp(g)

\* results that stay small integer arrays of an unambiguous shape are kept
Keep(o) ==
    o.st = "ok" /\ Len(o.res) > 0 /\
    LET a == o.res[(step % Len(o.res)) + 1] IN
    /\ o.op \notin {"interp", "fun", "fun2", "fd", "close", "rot2", "rot3",
                   "mean", "solve", "norm", "linspace", "logspace", "geomspace", "trapz", "cosspace", "length"}
    /\ \A q \in 1..Len(a.v) : a.v[q].f = "q" /\ a.v[q].a[2] = 1 /\ AbsI(a.v[q].a[1]) <= 150
    /\ a.nd = 0 \/ (a.nd = 1 /\ a.r \in 2..6) \/ (a.nd = 2 /\ a.c \in 2..5 /\ a.r \in 1..5)
Kept(o) == LET a == o.res[(step % Len(o.res)) + 1] IN MapA(a, LAMBDA t : t.a[1])
Slot(h) == Rnd(h, 66, 1, 8)

Init == /\ w \in 1..Walks /\ step = 0 /\ regs = First /\ last = [op |-> "init", slot |-> 0]
Next == /\ step < Len0 /\ step' = step + 1 /\ w' = w
        /\ LET h == Hash(Seed * 3 + w * 211, step * 19 + 7)
               o == Choose(h)
               kp == Keep(o)
               sl == IF kp THEN (IF Len(regs) < 9 THEN Len(regs) + 1 ELSE Rnd(h, 66, 1, 9)) ELSE 0
           IN /\ last' = [o |-> o, slot |-> sl, part |-> IF kp THEN (step % Len(o.res)) + 1 ELSE 0]
              /\ regs' = IF sl = 0 THEN regs ELSE IF sl > Len(regs) THEN Append(regs, Kept(o)) ELSE [regs EXCEPT ![sl] = Kept(o)]
Spec == Init /\ [][Next]_vars

WellFormed == /\ \A i \in 1..Len(regs) : Len(regs[i].v) = regs[i].r * regs[i].c /\ (regs[i].nd = 1 => regs[i].c = 1)
              /\ step > 0 => \A k \in 1..Len(last.o.res) : Len(last.o.res[k].v) = last.o.res[k].r * last.o.res[k].c
\* algebra of the definitions above
Laws == \A i, j \in 1..Len(regs) :
    LET a == regs[i] b == regs[j] IN
    /\ Full(a) => Tr(Tr(a)) = a
    /\ (Full(a) /\ Full(b) /\ a.c = b.r) => Tr(DotA(a, b)) = DotA(Tr(b), Tr(a))
    /\ (a.nd = 1 /\ b.nd = 1 /\ a.r = 3 /\ b.r = 3) => DotV(Cross3(a.v, b.v), a.v) = 0
Ans == [w |-> w, step |-> step, regs |-> IF step = 0 THEN regs ELSE <<>>, last |-> [op |-> last], hist |-> <<>>]
Out == EmitJson(Ans, <<w, step>>)
=============================================================================
