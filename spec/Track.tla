------------------------------- MODULE Track -------------------------------
(***************************************************************************)
(* C20.  A track: a table over increasing distances, looked up by linear    *)
(* interpolation from its start; its import from points along the centre    *)
(* line (finite differences of second order, heading as the integral of the *)
(* curvature) and from a curvature table.                                   *)
(* Centre lines are made of steps of length Unit * 1 or Unit * 2 along      *)
(* vectors of length 5, so that all finite differences are integers over    *)
(* fixed denominators.                                                      *)
(***************************************************************************)
EXTENDS Poly

\* where q = qn/qd (from the start of the table) falls: f = num/den in [0, 1] of the way from entry i to entry i + 1
Seg(s, qn, qd) ==
    LET n == Len(s) at(i) == (s[i] - s[1]) * qd IN
    IF qn <= 0 THEN [i |-> 1, num |-> 0, den |-> 1]
    ELSE IF qn >= at(n) THEN [i |-> n - 1, num |-> 1, den |-> 1]
    ELSE LET i == CHOOSE i \in 1..(n - 1) : at(i) <= qn /\ qn < at(i + 1)
         IN [i |-> i, num |-> qn - at(i), den |-> (s[i + 1] - s[i]) * qd]
\* the value there, over den
Look(s, v, qn, qd) ==
    LET g == Seg(s, qn, qd) IN [num |-> (g.den - g.num) * v[g.i] + g.num * v[g.i + 1], den |-> g.den]
\* twice the integral of v along s
RECURSIVE Cum2(_, _, _)
Cum2(s, v, i) == IF i = 1 THEN 0 ELSE Cum2(s, v, i - 1) + (s[i] - s[i - 1]) * (v[i] + v[i - 1])
\* ... as weights of the entries of v, entry by entry
CumW(s, i) ==
    LET n == Len(s) part(k, j) == IF k >= 1 /\ k < i /\ j \in {k, k + 1} THEN s[k + 1] - s[k] ELSE 0
    IN [j \in 1..n |-> part(j - 1, j) + part(j, j)]

--------------------------------------------------------------------------
Dirs == << <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>> >>
\* first derivatives over distance in units, times 48, at every point; h: distances in units between the points
D48(h, f) ==
    LET n == Len(f) IN
    [i \in 1..n |->
        IF i = 1 THEN (f[2] - f[1]) * (48 \div h[1])
        ELSE IF i = n THEN (f[n] - f[n - 1]) * (48 \div h[n - 1])
        ELSE LET a == h[i - 1] b == h[i] IN
             (a * a * f[i + 1] + (b * b - a * a) * f[i] - b * b * f[i - 1]) * (48 \div (a * b * (a + b)))]
\* a centre line: n steps, directions change by at most one place; flat: no turns
RECURSIVE Points(_, _, _)
Points(p, dir, h) == IF h = <<>> THEN <<p>>
                     ELSE <<p>> \o Points(<<p[1] + Dirs[Head(dir)][1] * Head(h), p[2] + Dirs[Head(dir)][2] * Head(h)>>, Tail(dir), Tail(h))
RECURSIVE Turn(_, _, _)
Turn(d, h, n) == IF n = 0 THEN <<>> ELSE
    <<d>> \o Turn(((d - 1 + 12 + (IF h % 5 = 0 THEN 0 ELSE Rnd(h, n, -1, 1))) % 12) + 1, h, n - 1)
RECURSIVE Upto(_, _)
Upto(h, n) == IF n = 0 THEN 0 ELSE Upto(h, n - 1) + h[n]
\* going round, one way
RECURSIVE Round(_, _, _)
Round(d, by, n) == IF n = 0 THEN <<>> ELSE <<d>> \o Round(((d - 1 + 12 + by) % 12) + 1, by, n - 1)
Line(h, lo, hi) ==
    LET round == Rnd(h, 6, 0, 5)
        n == IF round <= 1 THEN Rnd(h, 1, 9, 18) ELSE Rnd(h, 1, lo, hi)
        len == [k \in 1..n |-> IF h % 3 = 0 THEN 1 ELSE Rnd(h, 20 + k, 1, 2)]
        dir == IF round = 0 THEN Round(Rnd(h, 2, 1, 12), 1, n) ELSE IF round = 1 THEN Round(Rnd(h, 2, 1, 12), -1, n)
               ELSE Turn(Rnd(h, 2, 1, 12), Hash(h, 3), n)
        pts == Points(<<Rnd(h, 4, -20, 20), Rnd(h, 5, -20, 20)>>, dir, len)
        x == [k \in 1..(n + 1) |-> pts[k][1]]
        y == [k \in 1..(n + 1) |-> pts[k][2]]
        dx == D48(len, x) dy == D48(len, y)
    IN [ x |-> x, y |-> y, s |-> [k \in 1..(n + 1) |-> Upto(len, k - 1)],
         dx |-> dx, dy |-> dy, ddx |-> D48(len, dx), ddy |-> D48(len, dy),
         left |-> [k \in 1..(n + 1) |-> Rnd(h, 60 + k, 2, 9)], right |-> [k \in 1..(n + 1) |-> Rnd(h, 80 + k, 2, 9)] ]
\* curvature over Unit = 5 metres: (dx*ddy - ddx*dy)/48^3 / ((dx^2 + dy^2)/48^2)^(3/2), with dx = dx/240 per metre etc.
CurvNum(t, k) == t.dx[k] * t.ddy[k] - t.ddx[k] * t.dy[k]
CurvQ(t, k) == t.dx[k] * t.dx[k] + t.dy[k] * t.dy[k]
\* straight lines have no curvature; the derivative of a straight piece is the direction itself
LineOK(t) ==
    LET n == Len(t.x) IN
    /\ t.dx[1] * (t.s[2] - t.s[1]) = 48 * (t.x[2] - t.x[1])
    /\ CurvQ(t, 1) = 240 * 240 /\ CurvQ(t, n) = 240 * 240
    /\ \A k \in 1..n : CurvQ(t, k) > 0
    /\ (\A k \in 1..n : t.dx[k] = t.dx[1] /\ t.dy[k] = t.dy[1]) => \A k \in 1..n : CurvNum(t, k) = 0
Data(t) == [ x |-> t.x, y |-> t.y, s |-> t.s, left |-> t.left, right |-> t.right,
             cnum |-> [k \in 1..Len(t.x) |-> CurvNum(t, k)], cq |-> [k \in 1..Len(t.x) |-> CurvQ(t, k)],
             h0 |-> <<t.dx[1], t.dy[1]>>, hw |-> [k \in 1..Len(t.x) |-> CumW(t.s, k)] ]
===========================================================================
