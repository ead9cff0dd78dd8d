---------------------------- MODULE MagicFormula ----------------------------
(***************************************************************************)
(* The tyre models as programs over Terms: the Magic Formula 5.2 (Pacejka,  *)
(* Tire and Vehicle Dynamics, 3rd ed., 4.3.2; Besselink et al. 2010 for the *)
(* aligning moment, equation numbers A..) without turn slip and inflation   *)
(* pressure, and the tyre of Perantoni and Limebeer 2014, appendix A.       *)
(***************************************************************************)
EXTENDS Terms

D(n, t) == <<n, t>>
dfz == V("dfz")
gam == V("gamma")
MF ==
 << D("Fz0p", Mul(V("LFZO"), V("FNOMIN"))),                                              \* 4.E1
    D("dfz", Div(Sub(V("Fz"), V("Fz0p")), V("Fz0p"))),                                    \* 4.E2a
    \* pure longitudinal slip
    D("Cx", Mul(V("PCX1"), V("LCX"))),                                                    \* 4.E11
    D("mux", Mul3(Lin("PDX1", "PDX2", dfz), Sub(K(1), Mul(V("PDX3"), Pow2(gam))), V("LMUX"))),   \* 4.E13
    D("Dx", Mul(V("mux"), V("Fz"))),                                                      \* 4.E12
    D("Kxk", Mul4(V("Fz"), Lin("PKX1", "PKX2", dfz), Exp(Mul(V("PKX3"), dfz)), V("LKX"))),       \* 4.E15
    D("Bx", Div(V("Kxk"), Add(Mul(V("Cx"), V("Dx")), Mul(V("epsilonx"), Sign(V("Dx")))))), \* 4.E16
    D("SHx", Mul(Lin("PHX1", "PHX2", dfz), V("LHX"))),                                    \* 4.E17
    D("SVx", Mul4(V("Fz"), Lin("PVX1", "PVX2", dfz), V("LVX"), V("LMUX"))),               \* 4.E18
    D("kappax", Add(V("kappa"), V("SHx"))),                                               \* 4.E10
    D("Ex", AtMost1(Mul3(Add(Lin("PEX1", "PEX2", dfz), Mul(V("PEX3"), Pow2(dfz))),
                         Sub(K(1), Mul(V("PEX4"), Sign(V("kappax")))), V("LEX")))),       \* 4.E14
    D("Fx0", Add(Mul(V("Dx"), SinAt(V("Cx"), Curv(V("Ex"), Mul(V("Bx"), V("kappax"))))), V("SVx"))),  \* 4.E9
    \* combined slip
    D("Bxa", Mul3(V("RBX1"), CosAt(K(1), Mul(V("RBX2"), V("kappa"))), V("LXAL"))),        \* 4.E54
    D("Exa", AtMost1(Lin("REX1", "REX2", dfz))),                                          \* 4.E56
    D("Gxa0", CosAt(V("RCX1"), Curv(V("Exa"), Mul(V("Bxa"), V("RHX1"))))),                \* 4.E52
    D("Gxa", Div(CosAt(V("RCX1"), Curv(V("Exa"), Mul(V("Bxa"), Add(V("alpha"), V("RHX1"))))), V("Gxa0"))),  \* 4.E51
    D("Fx", Mul(V("Gxa"), V("Fx0"))),                                                     \* 4.E50
    \* pure side slip
    D("Kya", Mul4(Mul(V("PKY1"), V("Fz0p")), Sub(K(1), Mul(V("PKY3"), Abs(gam))),
                  SinAt(K(2), Div(V("Fz"), Mul(V("PKY2"), V("Fz0p")))), V("LKY"))),       \* 4.E25
    D("SVyg", Mul4(V("Fz"), Lin("PVY3", "PVY4", dfz), gam, V("LMUY"))),                   \* 4.E28
    D("SHy", Add(Mul(Lin("PHY1", "PHY2", dfz), V("LHY")), Mul(V("PHY3"), gam))),          \* 4.E27
    D("SVy", Add(Mul4(V("Fz"), Lin("PVY1", "PVY2", dfz), V("LVY"), V("LMUY")), V("SVyg"))),  \* 4.E29
    D("alphay", Add(V("alpha"), V("SHy"))),                                               \* 4.E20
    D("Cy", Mul(V("PCY1"), V("LCY"))),                                                    \* 4.E21
    D("muy", Mul3(Lin("PDY1", "PDY2", dfz), Sub(K(1), Mul(V("PDY3"), Pow2(gam))), V("LMUY"))),   \* 4.E23
    D("Dy", Mul(V("muy"), V("Fz"))),                                                      \* 4.E22
    D("Ey", AtMost1(Mul3(Lin("PEY1", "PEY2", dfz),
                         Sub(K(1), Mul(Lin("PEY3", "PEY4", gam), Sign(V("alphay")))), V("LEY")))),  \* 4.E24
    D("By", Div(V("Kya"), Add(Mul(V("Cy"), V("Dy")), Mul(V("epsilony"), Sign(V("Dy")))))), \* 4.E26
    D("Fy0", Add(Mul(V("Dy"), SinAt(V("Cy"), Curv(V("Ey"), Mul(V("By"), V("alphay"))))), V("SVy"))),  \* 4.E19
    \* combined slip
    D("DVyk", Mul4(V("muy"), V("Fz"), Add(Lin("RVY1", "RVY2", dfz), Mul(V("RVY3"), gam)),
                   CosAt(K(1), Mul(V("RVY4"), V("alpha"))))),                             \* 4.E67
    D("SVyk", Mul3(V("DVyk"), SinAt(V("RVY5"), Mul(V("RVY6"), V("kappa"))), V("LVYKA"))), \* 4.E66
    D("SHyk", Lin("RHY1", "RHY2", dfz)),                                                  \* 4.E65
    D("Eyk", AtMost1(Lin("REY1", "REY2", dfz))),                                          \* 4.E64
    D("Byk", Mul3(V("RBY1"), CosAt(K(1), Mul(V("RBY2"), Sub(V("alpha"), V("RBY3")))), V("LYKA"))),  \* 4.E62
    D("Gyk0", CosAt(V("RCY1"), Curv(V("Eyk"), Mul(V("Byk"), V("SHyk"))))),                \* 4.E60
    D("Gyk", Div(CosAt(V("RCY1"), Curv(V("Eyk"), Mul(V("Byk"), Add(V("kappa"), V("SHyk"))))), V("Gyk0"))),  \* 4.E59
    D("Fy", Add(Mul(V("Gyk"), V("Fy0")), V("SVyk"))),                                     \* 4.E58
    D("GSum", Sqrt(Add(Pow2(V("Gxa")), Pow2(V("Gyk"))))),
    \* overturning couple and rolling resistance
    D("Mx", Mul4(V("UNLOADED_RADIUS"), V("Fz"), V("LMX"),
                 Add(Sub(Mul(V("QSX1"), V("LVMX")), Mul(V("QSX2"), gam)), Mul(V("QSX3"), Div(V("Fy"), V("FNOMIN")))))),
    D("vrel", Div(V("vx"), V("LONGVL"))),
    D("My", Neg(Mul4(V("UNLOADED_RADIUS"), V("Fz"), V("LMY"),
                     Add(Add(V("QSY1"), Mul(V("QSY2"), Div(V("Fx"), V("FNOMIN")))),
                         Add(Mul(V("QSY3"), V("vrel")), Mul(V("QSY4"), Pow2(Pow2(V("vrel"))))))))),
    \* aligning moment
    D("SHt", Add(Lin("QHZ1", "QHZ2", dfz), Mul(Lin("QHZ3", "QHZ4", dfz), gam))),          \* 4.E35
    D("Kyap", Add(V("Kya"), Mul(V("epsilonk"), Sign(V("Kya"))))),                         \* 4.E39
    D("alphar", Sum3(V("alpha"), V("SHy"), Div(V("SVy"), V("Kyap")))),                    \* 4.E37, 4.E38
    D("alphat", Add(V("alpha"), V("SHt"))),                                               \* 4.E34
    D("Dt", Mul4(Lin("QDZ1", "QDZ2", dfz), Add(K(1), Add(Mul(V("QDZ3"), gam), Mul(V("QDZ4"), Pow2(gam)))),
                 Mul(V("Fz"), Div(V("UNLOADED_RADIUS"), V("Fz0p"))), V("LTR"))),          \* A60
    D("Bt", Mul(Mul(Add(Lin("QBZ1", "QBZ2", dfz), Mul(V("QBZ3"), Pow2(dfz))),
                    Add(K(1), Add(Mul(V("QBZ4"), gam), Mul(V("QBZ5"), Abs(gam))))), Div(V("LKY"), V("LMUY")))),   \* A58
    D("Et", Mul(Add(Lin("QEZ1", "QEZ2", dfz), Mul(V("QEZ3"), Pow2(dfz))),
                Add(K(1), Mul3(Lin("QEZ4", "QEZ5", gam), Div(K(2), Pi), Atan(Mul3(V("Bt"), V("QCZ1"), V("alphat"))))))),  \* 4.E44
    D("Br", Add(Mul(V("QBZ9"), Div(V("LKY"), V("LMUY"))), Mul3(V("QBZ10"), V("By"), V("Cy")))),  \* 4.E45
    D("Dr", Mul4(Mul(V("Fz"), V("UNLOADED_RADIUS")),
                 Add(Mul(Lin("QDZ6", "QDZ7", dfz), V("LRES")), Mul(Lin("QDZ8", "QDZ9", dfz), gam)),
                 V("LMUY"), CosOf(V("alpha")))),                                          \* 4.E47
    D("stiff", Mul(Pow2(Div(V("Kxk"), V("Kyap"))), Pow2(V("kappa")))),
    D("alphareq", Comb(V("alphar"), V("stiff"))),   \* A54
    D("alphateq", Comb(V("alphat"), V("stiff"))),   \* A55
    D("arm", Mul3(V("UNLOADED_RADIUS"), Add(Lin("SSZ1", "SSZ2", Div(V("Fy"), V("FNOMIN"))), Mul(Lin("SSZ3", "SSZ4", dfz), gam)), V("LS"))),  \* A56
    D("Mzr", Mul(V("Dr"), CosAt(K(1), Mul(V("Br"), V("alphareq"))))),                     \* 4.E75
    D("Vy", Mul(V("vx"), Tan(V("alpha")))),
    D("cosap", Div(V("vx"), Add(Sqrt(Add(Pow2(V("vx")), Pow2(V("Vy")))), V("epsilonv")))),       \* 4.E6
    D("trail", Mul4(V("LFZO"), V("Dt"), CosAt(V("QCZ1"), Curv(V("Et"), Mul(V("Bt"), V("alphateq")))), V("cosap"))),  \* 4.E73
    D("Mz", Add(Sub(V("Mzr"), Mul(V("trail"), Sub(V("Fy"), V("SVyk")))), Mul(V("arm"), V("Fx")))) >>

Inter(a, b) == Add(V(a), Mul(V("at"), Sub(V(b), V(a))))
Pera ==
 << D("at", Div(Sub(V("Fz"), V("Fz1")), Sub(V("Fz2"), V("Fz1")))),
    D("kn", Div(V("kappa"), Inter("kappa1", "kappa2"))),
    D("an", Div(V("alpha"), Inter("alpha1", "alpha2"))),
    D("rho", Sqrt(Add(Add(Pow2(V("an")), Pow2(V("kn"))), KQ(1, 1000000)))),
    D("Sx", Div(Pi, Mul(K(2), Atan(V("Qx"))))),
    D("Sy", Div(Pi, Mul(K(2), Atan(V("Qy"))))),
    D("mx", Mul(Inter("mux1", "mux2"), SinAt(V("Qx"), Mul(V("Sx"), V("rho"))))),
    D("my", Mul(Inter("muy1", "muy2"), SinAt(V("Qy"), Mul(V("Sy"), V("rho"))))),
    D("Fx", Mul3(V("mx"), V("Fz"), Div(V("kn"), V("rho")))),
    D("Fy", Neg(Mul3(V("my"), V("Fz"), Div(V("an"), V("rho"))))) >>

Inputs == <<"Fz", "kappa", "alpha", "vx", "gamma">>
MFOut == <<"Fx", "Fy", "Mx", "My", "Mz", "Kxk", "Gxa", "Kya", "Gyk", "GSum">>
PeraPar == << "Fz1", "Fz2", "mux1", "mux2", "kappa1", "kappa2", "muy1", "muy2", "alpha1", "alpha2", "Qx", "Qy" >>
MFPar ==
 << "FNOMIN", "UNLOADED_RADIUS", "LONGVL", "LFZO", "LCX", "LMUX", "LEX", "LKX", "LHX", "LVX", "LCY", "LMUY", "LEY", "LKY", "LHY", "LVY",
    "LTR", "LRES", "LXAL", "LYKA", "LVYKA", "LS", "LMX", "LVMX", "LMY",
    "PCX1", "PDX1", "PDX2", "PDX3", "PEX1", "PEX2", "PEX3", "PEX4", "PKX1", "PKX2", "PKX3", "PHX1", "PHX2", "PVX1", "PVX2",
    "RBX1", "RBX2", "RCX1", "REX1", "REX2", "RHX1", "QSX1", "QSX2", "QSX3",
    "PCY1", "PDY1", "PDY2", "PDY3", "PEY1", "PEY2", "PEY3", "PEY4", "PKY1", "PKY2", "PKY3", "PHY1", "PHY2", "PHY3",
    "PVY1", "PVY2", "PVY3", "PVY4", "RBY1", "RBY2", "RBY3", "RCY1", "REY1", "REY2", "RHY1", "RHY2",
    "RVY1", "RVY2", "RVY3", "RVY4", "RVY5", "RVY6", "QSY1", "QSY2", "QSY3", "QSY4",
    "QBZ1", "QBZ2", "QBZ3", "QBZ4", "QBZ5", "QBZ9", "QBZ10", "QCZ1", "QDZ1", "QDZ2", "QDZ3", "QDZ4", "QDZ6", "QDZ7", "QDZ8", "QDZ9",
    "QEZ1", "QEZ2", "QEZ3", "QEZ4", "QEZ5", "QHZ1", "QHZ2", "QHZ3", "QHZ4", "SSZ1", "SSZ2", "SSZ3", "SSZ4",
    "epsilonv", "epsilonx", "epsilonk", "epsilony" >>
Set(s) == {s[k] : k \in 1..Len(s)}
ASSUME WellFormed(MF, Set(MFPar) \cup Set(Inputs))
ASSUME WellFormed(Pera, Set(PeraPar) \cup Set(Inputs))

\* -- symmetries ----------------------------------------------------------------
\* seen in a mirror: slip angle and camber, and the coefficients that make a tyre asymmetric, change sign
MirrorOdd == { "alpha", "gamma", "RHX1", "QSX1", "PEY3", "PHY1", "PHY2", "PVY1", "PVY2", "RBY3", "RVY1", "RVY2", "QBZ4", "QDZ3", "QDZ6",
               "QDZ7", "QEZ4", "QHZ1", "QHZ2", "SSZ1" }
MirrorOddOut == { "Fy", "Mx", "Mz" }
\* braking instead of driving
ReverseOdd == { "kappa", "PHX1", "PHX2", "PVX1", "PVX2", "PEX4", "RHY1", "RHY2", "RVY6", "LS", "QSY2" }
ReverseOddOut == { "Fx" }
\* powers of the units of force, length and speed
UnitOf(n) == CASE n \in {"Fz", "FNOMIN", "epsilonx", "epsilony", "epsilonk", "Fx", "Fy", "Kxk", "Kya", "Fz1", "Fz2"} -> <<1, 0, 0>>
               [] n \in {"UNLOADED_RADIUS"} -> <<0, 1, 0>>
               [] n \in {"vx", "LONGVL", "epsilonv"} -> <<0, 0, 1>>
               [] n \in {"Mx", "My", "Mz"} -> <<1, 1, 0>>
               [] OTHER -> <<0, 0, 0>>
=============================================================================
