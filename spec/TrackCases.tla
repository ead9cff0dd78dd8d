---------------------------- MODULE TrackCases ----------------------------
(* C20.  Track tables, their imports, and the motion along a track. *)
EXTENDS Track, Emit
CONSTANTS Seed, Cases
VARIABLE k
Kind == <<"direct", "direct", "curvi", "cart", "const", "motion">>[(k % 6) + 1]
H == Hash(Seed, k * 31)
Queries(s) == [j \in 1..12 |-> [qn |-> IF j <= 3 THEN (s[Rnd(H, 500 + j, 1, Len(s))] - s[1]) * 8
                                       ELSE Rnd(H, 500 + j, -16, (s[Len(s)] - s[1]) * 8 + 16), qd |-> 8]]
Direct ==
    LET n == Rnd(H, 1, 2, 9)
        st == [j \in 1..n |-> Rnd(H, 20 + j, 1, 4)]
        s == [j \in 1..n |-> Rnd(H, 2, -7, 7) + Upto(st, j - 1)]
        v(b) == [j \in 1..n |-> Rnd(H, b + j, -9, 9)]
        side == Rnd(H, 3, 0, 3)                 \* which side distances are given
        curv == v(100) head == v(200)
        left == IF side % 2 = 1 THEN [j \in 1..n |-> Rnd(H, 300 + j, 1, 9)] ELSE [j \in 1..n |-> 5]
        right == IF side >= 2 THEN [j \in 1..n |-> Rnd(H, 400 + j, 1, 9)] ELSE [j \in 1..n |-> 5]
        q == Queries(s)
    IN [ kind |-> "direct", s |-> s, curv |-> curv, head |-> head, left |-> left, right |-> right, side |-> side, q |-> q,
         total |-> s[n] - s[1],
         ecurv |-> [j \in 1..12 |-> Look(s, curv, q[j].qn, 8)], ehead |-> [j \in 1..12 |-> Look(s, head, q[j].qn, 8)],
         eleft |-> [j \in 1..12 |-> Look(s, left, q[j].qn, 8)], eright |-> [j \in 1..12 |-> Look(s, right, q[j].qn, 8)] ]
Curvi ==
    LET n == Rnd(H, 1, 2, 9)
        st == [j \in 1..n |-> Rnd(H, 20 + j, 1, 4)]
        s == [j \in 1..n |-> Rnd(H, 2, -7, 7) + Upto(st, j - 1)]
        curv == [j \in 1..n |-> Rnd(H, 100 + j, -9, 9)]          \* over 64
        h0 == Rnd(H, 4, -9, 9)
        q == Queries(s)
        tab == [j \in 1..n |-> 128 * h0 + Cum2(s, curv, j)]       \* over 128
    IN [ kind |-> "curvi", s |-> s, curv |-> curv, h0 |-> h0, q |-> q, head |-> tab, total |-> s[n] - s[1],
         ecurv |-> [j \in 1..12 |-> Look(s, curv, q[j].qn, 8)], ehead |-> [j \in 1..12 |-> Look(s, tab, q[j].qn, 8)] ]
Cart == LET t == Line(H, 2, 12) q == Queries(t.s) IN
        [ kind |-> "cart", t |-> Data(t), q |-> q, seg |-> [j \in 1..12 |-> Seg(t.s, q[j].qn, 8)], total |-> t.s[Len(t.s)] ]
Const == [ kind |-> "const", curv |-> Rnd(H, 1, -9, 9), h0 |-> Rnd(H, 2, -9, 9), width |-> Rnd(H, 3, 1, 9),
           q |-> [j \in 1..5 |-> Rnd(H, 10 + j, -20, 20)],
           ehead |-> [j \in 1..5 |-> Rnd(H, 2, -9, 9) + Rnd(H, 1, -9, 9) * Rnd(H, 10 + j, -20, 20)] ]
\* motion along the track at angle eta with cosine a/5 and sine b/5:
\* speed along the track V = (vx a - vy b)/5 / (1 - n c); rates per distance follow
Motion ==
    LET d == Pick(H, 1, Dirs)
        vx == Rnd(H, 2, 1, 30) vy == Rnd(H, 3, -6, 6) n == Rnd(H, 4, -5, 5) c == Rnd(H, 5, -3, 3)   \* curvature c/20
        yr == Rnd(H, 6, -4, 4) hd == Rnd(H, 7, -9, 9)
        along == vx * d[1] - vy * d[2]              \* 5 x speed along the tangent
        across == vx * d[2] + vy * d[1]             \* 5 x speed across
        den == 20 - n * c                           \* 20 (1 - n c/20)
    IN [ kind |-> "motion", dir |-> d, vx |-> vx, vy |-> vy, n |-> n, c |-> c, yr |-> yr, hd |-> hd, ok |-> along # 0,
         \* ds/dt = along * 20 / (5 * den)
         time |-> [num |-> 5 * den, den |-> 20 * along], dn |-> [num |-> across * den, den |-> 20 * along],
         \* (yaw rate - c/20 ds/dt) / (ds/dt)
         deta |-> [num |-> yr * 5 * den - c * along, den |-> 20 * along] ]
Ans == CASE Kind = "direct" -> Direct [] Kind = "curvi" -> Curvi [] Kind = "cart" -> Cart
         [] Kind = "const" -> Const [] Kind = "motion" -> Motion
Init == k \in 1..Cases
Next == FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_k
\* design: knots are met exactly, a constant table is constant, two halves of a table agree where they meet
Design ==
    CASE Kind = "direct" ->
           LET d == Direct n == Len(d.s) IN
           /\ \A j \in 1..n : LET r == Look(d.s, d.curv, (d.s[j] - d.s[1]) * 8, 8) IN r.num = d.curv[j] * r.den
           /\ \A j \in 1..12 : LET g == Seg(d.s, d.q[j].qn, 8) IN g.num >= 0 /\ g.num <= g.den /\ g.den > 0 /\ g.i \in 1..(n - 1)
           /\ \A j \in 1..12 : LET r == Look(d.s, d.s, d.q[j].qn, 8) x == Min2(Max2(d.q[j].qn, 0), 8 * d.total)
                               IN 8 * (r.num - d.s[1] * r.den) = x * r.den
      [] Kind = "cart" -> LET t == Line(H, 2, 12) IN
           /\ LineOK(t)
           /\ \A i \in 1..Len(t.s) : SumFrom([j \in 1..Len(t.s) |-> CumW(t.s, i)[j] * CurvNum(t, j)], 1)
                                   = Cum2(t.s, [j \in 1..Len(t.s) |-> CurvNum(t, j)], i)
      [] OTHER -> TRUE
Out == EmitJson(Ans, k)
===========================================================================
