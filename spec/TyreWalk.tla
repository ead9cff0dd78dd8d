------------------------------ MODULE TyreWalk ------------------------------
(***************************************************************************)
(* C23.  Histories of changes of parameters and operating points of the    *)
(* tyre models, and loads of parameter files.  Tame walks use numbers for   *)
(* which the formulas are rational (TLC computes them, Terms!Run); in wild   *)
(* walks a number is a multiple of the default and the program itself is    *)
(* the expected behaviour.                                                 *)
(***************************************************************************)
EXTENDS MagicFormula, Poly, Emit
CONSTANTS Seed, Walks, Len0
VARIABLES w, step, par, inp, obs, last
vars == <<w, step, par, inp, obs, last>>

Kind == CASE w % 8 \in {1, 2, 3, 4} -> "tame" [] w % 8 = 0 -> "pera" [] OTHER -> "wild"
Names == IF Kind = "pera" THEN PeraPar ELSE MFPar
Prog == IF Kind = "pera" THEN Pera ELSE MF

Shape == {"PCX1", "RCX1", "PCY1", "RCY1", "QCZ1", "RVY5"}
Curvs == {"PEX1", "PEX2", "PEX3", "REX1", "REX2", "PEY1", "PEY2", "REY1", "REY2", "QEZ1", "QEZ2", "QEZ3"}
Scales == {"LFZO", "LCX", "LMUX", "LEX", "LKX", "LHX", "LVX", "LCY", "LMUY", "LEY", "LKY", "LHY", "LVY", "LTR", "LRES", "LXAL", "LYKA",
           "LVYKA", "LS", "LMX", "LVMX", "LMY"}
Eps == {"epsilonv", "epsilonx", "epsilonk", "epsilony"}
TameVals(n) ==
    IF n \in Shape THEN <<Z(2), Z(1), Z(2)>>
    ELSE IF n \in Curvs THEN <<Z(0), Z(0), Z(0), Z(0), Z(1)>>
    ELSE IF n \in {"LCX", "LCY"} THEN <<Z(1), Z(1), Z(1), Half>>
    ELSE IF n \in Scales THEN <<Z(1), Z(2), Half, Z(1)>>
    ELSE IF n \in Eps THEN <<Z(0), Z(1), Z(0)>>
    ELSE CASE n \in {"FNOMIN", "UNLOADED_RADIUS", "LONGVL"} -> <<Z(1), Z(2), Z(4)>>
           [] n = "PKX3" -> <<Z(0), Z(0), Z(1)>>
           [] n = "PKY2" -> <<Z(1), Z(2)>>
           [] n = "PKY1" -> <<Z(-1), Z(-2), Z(-4)>>
           [] n \in {"RBX2", "RBY2", "RVY4"} -> <<Z(0), Z(0), Z(1), Z(-1)>>
           [] n \in {"QBZ9", "QBZ10"} -> <<Z(0), Z(0), Z(1)>>
           [] n \in {"PDX1", "PDY1", "PKX1", "QBZ1", "QDZ1"} -> <<Z(1), Z(2), Half>>
           [] OTHER -> <<Z(0), Z(0), Z(1), Half, Z(-1)>>
\* coefficients that may change sign or vanish in a wild walk (the limits of the curvature factors become active)
Free == Curvs \cup {"PEX4", "PEY3", "PEY4", "QEZ4", "QEZ5", "RHX1", "PHX1", "PHX2", "PHY1", "PHY2", "PHY3", "PVX1", "PVX2", "PVY1", "PVY2", "PVY3",
         "PVY4", "RVY1", "RVY2", "RVY3", "QHZ1", "QHZ2", "QHZ3", "QHZ4", "SSZ1", "SSZ2", "SSZ3", "SSZ4", "QDZ3", "QDZ6", "QDZ7", "QDZ8", "QDZ9",
         "QSX1", "QSX2", "QSX3", "QSY1", "QSY2", "QSY3", "QSY4", "QBZ4", "QBZ5", "RBY3", "RHY1", "RHY2"}
ZeroDefault == {"QSY2", "QSY3", "QSY4", "QBZ10", "QEZ3"}
WildVals(n) ==
    IF n \in Free THEN <<Z(0), Z(-4), Z(2), Z(5), Z(8), <<-5, 2>>, Z(1)>>
    ELSE IF n \in ZeroDefault THEN <<Z(0), Z(1), Z(2)>>
    ELSE IF n \in Eps THEN <<Z(1), Z(2), Z(64)>>
    ELSE <<Z(1), <<9, 8>>, <<7, 8>>, <<5, 4>>, <<3, 4>>>>
Vals(n) == IF Kind = "tame" THEN TameVals(n) ELSE WildVals(n)
InVals(n, h) ==
    IF Kind = "tame"
    THEN CASE n = "Fz" -> Pick(h, 3, <<Z(1), Z(2), Z(3), Z(4)>>)
           [] n \in {"kappa", "alpha"} -> Pick(h, 3, <<Z(0), Z(0), <<3, 4>>, <<-3, 4>>, Half, <<-1, 2>>, <<1, 4>>, <<4, 3>>>>)
           [] n = "vx" -> Pick(h, 3, <<Z(1), Z(2), Z(4)>>)
           [] OTHER -> Pick(h, 3, <<Z(0), Z(0), Half, <<-1, 2>>, Z(1)>>)
    ELSE CASE n = "Fz" -> Z(Rnd(h, 3, 500, 9000))
           [] n \in {"kappa", "alpha"} -> Q(Rnd(h, 3, -60, 60), 200)
           [] n = "vx" -> Q(Rnd(h, 3, 40, 700), 8)
           [] OTHER -> Q(Rnd(h, 3, -16, 16), 128)
Start(n, h) ==
    IF Kind = "tame" THEN Pick(h, 3, TameVals(n))
    ELSE IF n \in ZeroDefault THEN Z(0) ELSE IF h % 3 = 0 THEN Pick(h, 3, WildVals(n)) ELSE Z(1)

Outs == IF Kind = "pera" THEN <<"Fx", "Fy">> ELSE MFOut
Value(p, i) == LET e == Run(Prog, 1, p @@ i) IN [k \in 1..Len(Outs) |-> e[Outs[k]]]
Obs(p, i) == IF Kind = "tame" THEN Value(p, i) ELSE <<>>

\* operations -------------------------------------------------------------------
Flip(f, odd) == [n \in DOMAIN f |-> IF n \in odd THEN RNeg(f[n]) ELSE f[n]]
RECURSIVE PowerOf2(_)
PowerOf2(e) == IF e = 0 THEN Z(1) ELSE IF e > 0 THEN RMul(Z(2), PowerOf2(e - 1)) ELSE RMul(Half, PowerOf2(e + 1))
InUnits(f, u) == [n \in DOMAIN f |-> RMul(f[n], PowerOf2(SumFrom([k \in 1..3 |-> u[k] * UnitOf(n)[k]], 1)))]
H == Hash(Seed * 5 + w * 101, step * 17 + 3)
Op == LET m == H % 20
          h == Hash(H, 7)
      IN CASE m < 9 -> LET n == Pick(h, 1, Names) IN [k |-> "par", n |-> n, v |-> Pick(h, 2, Vals(n))]
           [] m < 15 -> LET n == Pick(h, 1, Inputs) IN [k |-> "input", n |-> n, v |-> InVals(n, h)]
           [] m < 16 -> [k |-> "mirror"]
           [] m < 17 -> [k |-> "reverse"]
           [] m < 18 -> [k |-> "units", u |-> [q \in 1..3 |-> Rnd(h, q, -1, 1)]]
           [] OTHER -> [k |-> "file", style |-> Rnd(h, 1, 0, 15), order |-> h]
DoP(p, o) == CASE o.k = "par" -> [p EXCEPT ![o.n] = o.v] [] o.k = "mirror" -> Flip(p, MirrorOdd)
               [] o.k = "reverse" -> Flip(p, ReverseOdd) [] o.k = "units" -> InUnits(p, o.u) [] OTHER -> p
DoI(i, o) == CASE o.k = "input" -> [i EXCEPT ![o.n] = o.v] [] o.k = "mirror" -> Flip(i, MirrorOdd)
               [] o.k = "reverse" -> Flip(i, ReverseOdd) [] o.k = "units" -> InUnits(i, o.u) [] OTHER -> i
Fits(p, i) == \A n \in DOMAIN p : ~IsBad(p[n]) /\ RAbsI(p[n][1]) < 64 /\ p[n][2] < 64

Idx(s, n) == CHOOSE k \in 1..Len(s) : s[k] = n
Init == /\ w \in 1..Walks /\ step = 0
        /\ par = [n \in Set(Names) |-> Start(n, Hash(Hash(Seed, w), 100 + Idx(Names, n)))]
        /\ inp = [n \in Set(Inputs) |-> InVals(n, Hash(Hash(Seed, w), 500 + Idx(Inputs, n)))]
        /\ obs = Obs(par, inp) /\ last = [k |-> "init"]
Next == /\ step < Len0 /\ step' = step + 1 /\ w' = w
        /\ LET p == DoP(par, Op) i == DoI(inp, Op) IN
           IF Fits(p, i) THEN par' = p /\ inp' = i /\ last' = Op /\ obs' = Obs(p, i)
           ELSE UNCHANGED <<par, inp, obs>> /\ last' = [k |-> "none"]
Spec == Init /\ [][Next]_vars

\* -- laws of the formulas (exact values) ------------------------------------------
Same(a, b, odd) == \A k \in 1..Len(a) : ReqOK(a[k], IF Outs[k] \in odd THEN RNeg(b[k]) ELSE b[k])
MirrorLaw == Kind = "tame" => Same(Value(Flip(par, MirrorOdd), Flip(inp, MirrorOdd)), obs, MirrorOddOut)
ReverseLaw == Kind = "tame" => Same(Value(Flip(par, ReverseOdd), Flip(inp, ReverseOdd)), obs, ReverseOddOut)
UnitLaw == Kind = "tame" =>
    LET u == <<Rnd(H, 31, -1, 1), Rnd(H, 32, -1, 1), Rnd(H, 33, -1, 1)>>
        v == Value(InUnits(par, u), InUnits(inp, u))
    IN \A k \in 1..Len(v) : ReqOK(v[k], RMul(obs[k], PowerOf2(SumFrom([q \in 1..3 |-> u[q] * UnitOf(Outs[k])[q]], 1))))
\* side force and longitudinal force vanish with load
NoLoad == Kind = "tame" => LET v == Value(par, [inp EXCEPT !["Fz"] = Z(0)]) IN \A k \in 1..5 : ReqOK(v[k], Z(0))
Out == EmitJson([w |-> w, step |-> step, kind |-> Kind, last |-> last, par |-> par, inp |-> inp, obs |-> obs, outs |-> Outs], <<w, step>>)
PostProg == TLCGet("stats").distinct > 0 /\ CSVWrite("%1$s", <<ToJson([mf |-> MF, pera |-> Pera, mfout |-> MFOut])>>, IOEnv.VERIF_OUT \o ".formulas")
=============================================================================
