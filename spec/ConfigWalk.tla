---------------------------- MODULE ConfigWalk ----------------------------
(***************************************************************************)
(* C19.  Histories of configuration objects: built, converted to            *)
(* dictionaries and back, edited in place, used to build problems.          *)
(* K: three places for configurations, D: two for dictionaries; a place is  *)
(* empty (<<>>) or holds one value.  Every place is a value of its own:     *)
(* nothing done to one shows in another.                                    *)
(*                                                                          *)
(* Numbers in bounds and scales are written as text: the driver reads       *)
(* "inf", "pi/4" ... and decimal numbers.                                   *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS Seed, Walks, Len0, Exhaustive
VARIABLES w, step, K, D, last, hist
vars == <<w, step, K, D, last, hist>>

Corners == <<"fl", "fr", "rl", "rr">>
B(g, n, lo, hi) == [g |-> g, n |-> n, lo |-> <<lo>>, hi |-> <<hi>>, arr |-> FALSE]
Sc(g, n, v) == [g |-> g, n |-> n, v |-> v]
C(s, g, n, v) == [s |-> s, g |-> g, n |-> n, v |-> v]
Base == [ cls |-> "Sim", nI |-> 99, pts |-> <<>>, tr |-> [name |-> "Trapezoidal", n |-> 0], cyc |-> FALSE, noncyc |-> <<>>,
          cond |-> FALSE, backend |-> "jax", hess |-> "exact", bcs |-> <<>>, bounds |-> <<>>, scales |-> <<>>,
          con |-> <<>>, log |-> <<>>, track |-> "" ]
LapBase == [Base EXCEPT !.cls = "LTC",
    !.bcs = << C(0, "states", "time", "0") >>,
    !.bounds = << B("states", "time", "0", "inf"), B("states", "eta", "-pi/4", "pi/4"), B("states", "vx", "5", "100"),
                  B("states", "vy", "-10", "10"), B("states", "yaw_rate", "-2pi", "2pi"), B("inputs", "throttle", "0", "1"),
                  B("inputs", "brake", "0", "1"), B("inputs", "steer", "-1", "1") >>
               \o [k \in 1..4 |-> B("states", "wheel_speed_" \o Corners[k], "0.1", "300")]
               \o [k \in 1..4 |-> B("con_outputs", "vehicle.slip_ratio_" \o Corners[k], "-0.05", "0.05")]
               \o [k \in 1..4 |-> B("con_outputs", "vehicle.slip_angle_" \o Corners[k], "-5deg", "5deg")],
    !.scales = << Sc("states", "time", "10"), Sc("states", "vx", "10") >>
               \o [k \in 1..4 |-> Sc("states", "wheel_speed_" \o Corners[k], "50")]
               \o [k \in 1..4 |-> Sc("states_dot", "wheel_speed_" \o Corners[k], "50")],
    !.con = [k \in 1..4 |-> "vehicle.slip_ratio_" \o Corners[k]] \o [k \in 1..4 |-> "vehicle.slip_angle_" \o Corners[k]] ]
\* the ready-made boundary conditions of a lap with a start line
StartLine == << C(0, "states", "time", "0"), C(0, "states", "n", "0"), C(0, "states", "eta", "0"), C(0, "states", "vx", "50"),
                C(0, "states", "vy", "0"), C(0, "states", "yaw_rate", "0") >>
DroneBase == [Base EXCEPT !.cls = "Drone",
    !.bcs = << C(0, "states", "x", "0"), C(0, "states", "x_dot", "0"), C(0, "states", "z", "0"), C(0, "states", "z_dot", "0"),
               C(0, "states", "theta", "0"), C(-1, "states", "x", "0"), C(-1, "states", "x_dot", "0"), C(-1, "states", "z", "5"),
               C(-1, "states", "z_dot", "0"), C(-1, "states", "theta", "2pi") >>,
    !.bounds = << B("states", "x", "-50", "50"), B("states", "x_dot", "-50", "50"), B("states", "z", "-50", "50"),
                  B("states", "z_dot", "-50", "50"), B("states", "theta", "-10pi", "10pi"), B("inputs", "f", "1", "20"),
                  B("inputs", "omega", "-10", "10"), B("global", "mesh_scale", "0.1", "50") >>,
    !.con = <<"sin_theta">> ]
Defaults(cls) == CASE cls = "Sim" -> Base [] cls = "LTC" -> LapBase [] cls = "Drone" -> DroneBase
Names(cls, g) ==
    CASE cls = "Sim" -> (IF g = "states" THEN <<"time", "p">> ELSE <<"u">>)
      [] cls = "LTC" -> (IF g = "states" THEN <<"time", "n", "eta", "vx">> ELSE <<"throttle", "steer", "track_curvature", "track_heading">>)
      [] cls = "Drone" -> (IF g = "states" THEN <<"x", "z", "theta">> ELSE <<"f", "omega">>)
Outs(cls) == CASE cls = "Sim" -> <<"y">> [] cls = "LTC" -> <<"vehicle.ax", "vehicle.Fz_tire_fl", "vehicle.slip_ratio_rr">>
               [] cls = "Drone" -> <<"f_omega", "sin_theta">>
Trs == << [name |-> "Trapezoidal", n |-> 0], [name |-> "ForwardEuler", n |-> 0], [name |-> "LGR", n |-> 0],
          [name |-> "LGR", n |-> 2], [name |-> "LGRIntegral", n |-> 4] >>
StagesOf(c) == IF c.tr.name \in {"LGR", "LGRIntegral"} THEN c.nI * ((IF c.tr.n = 0 THEN 3 ELSE c.tr.n) - 1) + 1 ELSE c.nI + 1
Always == <<"states.time", "inputs.track_heading">>
Missing(l) == SelectSeq(Always, LAMBDA n : ~\E k \in 1..Len(l) : l[k] = n)
\* what a configuration holds after it was given these values
Settle(c) == IF c.cls = "LTC" THEN [c EXCEPT !.noncyc = @ \o Missing(@)] ELSE c

Var(cls, h) == LET g == Pick(h, 1, <<"states", "states", "inputs">>) IN [g |-> g, n |-> Pick(h, 2, Names(cls, g))]
RB(c, h) == LET v == Var(c.cls, Hash(h, 1)) arr == Rnd(h, 3, 0, 3) = 0 n == IF arr THEN StagesOf(c) ELSE 1
                lo == [k \in 1..n |-> Rnd(h, 10 + k, -9, 5)]
            IN [g |-> v.g, n |-> v.n, arr |-> arr, lo |-> [k \in 1..n |-> ToString(lo[k])], hi |-> [k \in 1..n |-> ToString(lo[k] + Rnd(h, 50 + k, 0, 4))]]
RC(c, h) == LET v == Var(c.cls, Hash(h, 2)) IN C(Pick(h, 3, <<0, -1, 1, -2>>), v.g, v.n, ToString(Rnd(h, 4, -5, 5)))
RS(c, h) == LET v == Var(c.cls, Hash(h, 3)) IN Sc(v.g, v.n, ToString(Rnd(h, 4, 1, 9)))
RPts(n, h) == [k \in 1..(n + 1) |-> IF k = 1 THEN 0 ELSE IF k = n + 1 THEN 8 * n ELSE 8 * (k - 1) + Rnd(h, k, -3, 3)]  \* over 8n
FullNames(cls) == [k \in 1..Len(Names(cls, "states")) |-> "states." \o Names(cls, "states")[k]]
                  \o [k \in 1..Len(Names(cls, "inputs")) |-> "inputs." \o Names(cls, "inputs")[k]]
RNon(cls, h, n) == LET f == FullNames(cls) o == Rnd(h, 1, 0, Len(f) - 1) IN
                   [k \in 1..Min2(n, Len(f) - 1) |-> f[((o + k) % Len(f)) + 1]]
\* fields given by the user; form: how the pieces are written
Given(h, cls) == {f \in {"pts", "tr", "cyc", "noncyc", "cond", "hess", "bcs", "bounds", "scales", "con", "log"} :
                    Rnd(Hash(h, Len(f) * 31 + (IF f \in {"tr", "con", "cond"} THEN 7 ELSE 3) + (IF f \in {"log", "hess", "scales"} THEN 11 ELSE 0)), 5, 0, 1) = 1}
Make(h, cls) ==
    LET g == Given(h, cls)
        d == [Defaults(cls) EXCEPT !.nI = Rnd(h, 1, 2, 5), !.backend = "custom", !.track = IF cls = "LTC" THEN Pick(h, 2, <<"A", "B">>) ELSE ""]
        c1 == [d EXCEPT !.tr = IF "tr" \in g THEN Pick(h, 3, Trs) ELSE @,
                        !.pts = IF "pts" \in g THEN RPts(d.nI, Hash(h, 4)) ELSE @,
                        !.cyc = IF "cyc" \in g THEN Rnd(h, 6, 0, 1) = 1 ELSE @,
                        !.noncyc = IF "noncyc" \in g THEN RNon(cls, Hash(h, 7), Rnd(h, 8, 0, 3)) ELSE @,
                        !.cond = IF "cond" \in g THEN Rnd(h, 9, 0, 1) = 1 ELSE @,
                        !.hess = IF "hess" \in g THEN Pick(h, 10, <<"exact", "limited-memory">>) ELSE @,
                        !.con = IF "con" \in g \/ cls = "Sim" THEN SubSeq(Outs(cls), 1, Rnd(h, 11, 0, Len(Outs(cls)))) ELSE @,
                        !.log = IF "log" \in g THEN << [name |-> Pick(h, 12, <<"one", "two">>), dir |-> Pick(h, 13, <<"res", "out/deep">>), every |-> Rnd(h, 14, 0, 3)] >> ELSE @]
        \* default bounds on outputs need those outputs
        c2 == [c1 EXCEPT !.bounds = IF "bounds" \in g \/ ("con" \in g /\ cls = "LTC") THEN [k \in 1..Rnd(h, 15, 0, 3) |-> RB(c1, Hash(h, 100 + k))] ELSE @,
                         !.bcs = IF "bcs" \in g THEN [k \in 1..Rnd(h, 16, 0, 3) |-> RC(c1, Hash(h, 200 + k))] ELSE @,
                         !.scales = IF "scales" \in g THEN [k \in 1..Rnd(h, 17, 0, 3) |-> RS(c1, Hash(h, 300 + k))] ELSE @]
        \* the ready-made pieces, asked for one by one and handed over
        ready == cls = "LTC" /\ Rnd(h, 18, 0, 3) = 0
        c3 == [c1 EXCEPT !.bounds = LapBase.bounds, !.scales = LapBase.scales, !.con = LapBase.con,
                         !.bcs = IF c1.cyc THEN LapBase.bcs ELSE StartLine]
    IN IF ready THEN [c |-> Settle(c3), raw |-> c3, ready |-> TRUE, given |-> g \cup {"bounds", "scales", "con", "bcs"}] ELSE
       [c |-> Settle(c2), raw |-> c2, ready |-> FALSE, given |-> g \cup (IF "con" \in g /\ cls = "LTC" THEN {"bounds"} ELSE {}) \cup (IF cls = "Sim" THEN {"con"} ELSE {})]

\* changes the user makes in place
Edits == <<"noncyc", "bound", "bc", "scale", "pts", "log", "con", "nI">>
Edit(c, e, h) ==
    CASE e = "noncyc" -> LET new == SelectSeq(FullNames(c.cls), LAMBDA n : ~\E k \in 1..Len(c.noncyc) : c.noncyc[k] = n) IN
                         IF Len(new) < 2 THEN <<>> ELSE <<[c EXCEPT !.noncyc = Append(@, new[1])]>>
      [] e = "bound" -> IF c.bounds = <<>> THEN <<>>
                        ELSE LET k == Rnd(h, 1, 1, Len(c.bounds)) IN
                             IF c.bounds[k].arr THEN <<[c EXCEPT !.bounds[k].lo[1] = "-10"]>>
                             ELSE <<[c EXCEPT !.bounds[k].lo[1] = "-11", !.bounds[k].hi[1] = "400"]>>
      [] e = "bc" -> IF c.bcs = <<>> THEN <<>> ELSE LET k == Rnd(h, 1, 1, Len(c.bcs)) IN <<[c EXCEPT !.bcs[k].v = "3"]>>
      [] e = "scale" -> IF c.scales = <<>> THEN <<>> ELSE LET k == Rnd(h, 1, 1, Len(c.scales)) IN <<[c EXCEPT !.scales[k].v = "12"]>>
      [] e = "pts" -> IF c.pts = <<>> THEN <<>> ELSE <<[c EXCEPT !.pts[2] = IF @ = 5 THEN 6 ELSE 5]>>
      [] e = "log" -> IF c.log = <<>> THEN <<>> ELSE <<[c EXCEPT !.log[1].name = "edited"]>>
      [] e = "con" -> <<>>
      [] e = "nI" -> IF c.pts # <<>> \/ (\E k \in 1..Len(c.bounds) : c.bounds[k].arr) THEN <<>> ELSE <<[c EXCEPT !.nI = IF @ = 3 THEN 4 ELSE 3]>>

Did(o, ok, kk, dd) == [op |-> o, ok |-> ok, K |-> kk, D |-> dd]
Skip == Did([k |-> "skip"], TRUE, K, D)
Bads == <<"badbounds", "badbounds", "badfield", "badbcs", "notrack">>
Do(kind, h) ==
    LET cls == Pick(h, 1, <<"Sim", "LTC", "Drone", "LTC", "Sim">>)
        i == Rnd(h, 2, 1, 3) j == Rnd(h, 3, 1, 2)
        m == Make(Hash(h, 4), cls)
        e == Pick(h, 5, Edits)
        form == [conf |-> Pick(h, 6, <<"obj", "dict">>), seq |-> Pick(h, 7, <<"tuple", "list">>), tr |-> Rnd(h, 8, 0, 1), via |-> Pick(h, 9, <<"class", "get">>)]
    IN
    CASE kind = "make" -> Did([k |-> "make", i |-> i, raw |-> m.raw, ready |-> m.ready, given |-> m.given, form |-> form], TRUE, [K EXCEPT ![i] = <<m.c>>], D)
      [] kind = "badmake" -> Did([k |-> "make", i |-> i, raw |-> m.raw, ready |-> m.ready, given |-> m.given, form |-> form,
                                  bad |-> LET b == Pick(h, 10, Bads) IN IF b = "notrack" /\ cls # "LTC" THEN "badbounds" ELSE b], FALSE, K, D)
      [] kind = "todict" -> IF K[i] = <<>> THEN Skip ELSE Did([k |-> "todict", i |-> i, j |-> j], TRUE, K, [D EXCEPT ![j] = K[i]])
      \* the dictionary is used up: the library may keep its pieces
      [] kind = "fromdict" -> IF D[j] = <<>> THEN Skip
                              ELSE Did([k |-> "fromdict", j |-> j, i |-> i], TRUE, [K EXCEPT ![i] = D[j]], [D EXCEPT ![j] = <<>>])
      [] kind = "edit" -> IF K[i] = <<>> THEN Skip
                          ELSE LET r == Edit(K[i][1], e, Hash(h, 11)) IN
                               IF r = <<>> THEN Skip ELSE Did([k |-> "edit", i |-> i, e |-> e, to |-> r[1]], TRUE, [K EXCEPT ![i] = r], D)
      [] kind = "editdict" -> IF D[j] = <<>> THEN Skip
                          ELSE LET r == Edit(D[j][1], e, Hash(h, 11)) IN
                               IF r = <<>> THEN Skip ELSE Did([k |-> "editdict", j |-> j, e |-> e, to |-> r[1]], TRUE, K, [D EXCEPT ![j] = r])
      [] kind = "use" -> IF K[i] = <<>> THEN Skip ELSE Did([k |-> "use", i |-> i], TRUE, K, D)
Kinds == <<"make", "make", "badmake", "todict", "todict", "fromdict", "fromdict", "edit", "edit", "edit", "editdict", "editdict", "use", "use">>
Alphabet == <<"make", "todict", "fromdict", "edit", "editdict", "use">>
Init == /\ w \in 1..Walks /\ step = 0
        /\ D = << <<>>, <<>> >>
        /\ LET m == Make(Hash(Seed, w * 13), <<"Sim", "LTC", "Drone">>[(w % 3) + 1])
               n == Make(Hash(Seed, w * 17 + 5), <<"LTC", "Sim", "LTC", "Drone">>[(w % 4) + 1])
               f == [conf |-> Pick(w, 6, <<"obj", "dict">>), seq |-> Pick(w, 7, <<"tuple", "list">>), tr |-> 0, via |-> "class"]
           IN /\ K = << <<m.c>>, <<n.c>>, <<>> >>
              /\ last = [op |-> [k |-> "init", a |-> [k |-> "make", i |-> 1, raw |-> m.raw, ready |-> m.ready, given |-> m.given, form |-> f],
                                              b |-> [k |-> "make", i |-> 2, raw |-> n.raw, ready |-> n.ready, given |-> n.given, form |-> f]], ok |-> TRUE]
        /\ hist = <<last>>
Take(d) == /\ K' = d.K /\ D' = d.D /\ last' = [op |-> d.op, ok |-> d.ok]
           /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
Next ==
    /\ step < Len0 /\ step' = step + 1 /\ w' = w
    /\ IF Exhaustive
       THEN \E a \in 1..Len(Alphabet) : Take(Do(Alphabet[a], Hash(Seed * 3 + w + step * 41, a * 1009)))
       ELSE LET h == Hash(Seed * 5 + w * 101, step * 17 + 3) IN Take(Do(Pick(h, 1, Kinds), Hash(h, 9)))
Spec == Init /\ [][Next]_vars

RejectedKeeps == [][~last'.ok => K' = K /\ D' = D]_vars
\* a step changes at most the one place it names
Local == [][\A i \in 1..3 : K'[i] # K[i] => last'.op.k \in {"make", "fromdict", "edit"} /\ last'.op.i = i]_vars
LocalD == [][\A j \in 1..2 : D'[j] # D[j] => last'.op.k \in {"todict", "fromdict", "editdict"} /\ last'.op.j = j]_vars
\* there and back is the identity
RoundTrip == [][(last'.op.k = "fromdict" => K'[last'.op.i] = D[last'.op.j]) /\ (last'.op.k = "todict" => D'[last'.op.j] = K[last'.op.i])]_vars
LapOK == \A i \in 1..3 : K[i] # <<>> /\ K[i][1].cls = "LTC" =>
            \A a \in 1..2 : \E k \in 1..Len(K[i][1].noncyc) : K[i][1].noncyc[k] = Always[a]
Out == EmitJson([w |-> w, step |-> step, K |-> K, D |-> D, last |-> last, hist |-> hist], <<w, step, hist>>)
===========================================================================
