---------------------------- MODULE VehicleWalk ----------------------------
(***************************************************************************)
(* C24.  Histories of changes of parameters and operating points on the     *)
(* same model objects; after every step all models are evaluated.          *)
(***************************************************************************)
EXTENDS Vehicle, Poly, Emit
CONSTANTS Seed, Walks, Len0
VARIABLES w, step, sit, obs, last
vars == <<w, step, sit, obs, last>>

Vals(n) ==
    CASE n = "vehicle_mass" -> <<Z(1), Z(2), Z(4), Z(8)>>
      [] n = "Iz" -> <<Z(1), Z(2), Z(4)>>
      [] n \in {"cog_to_fa", "cog_to_ra"} -> <<Z(1), Z(2), Z(3)>>
      [] n = "cog_height" -> <<Half, Z(1), Z(2)>>
      [] n = "mech_balance" -> <<<<1, 4>>, Half, <<3, 4>>>>
      [] n \in {"track_front", "track_rear"} -> <<Z(1), Z(2), Z(4)>>
      [] n = "rolling_radius" -> <<Half, Z(1), Z(2)>>
      [] n = "kd" -> <<Z(0), Z(1), Z(3), Z(6)>>
      [] n = "air_density" -> <<Half, Z(1), Z(2)>>
      [] n = "max_power" -> <<Z(4), Z(8), Z(24), Z(40)>>
      [] n = "max_total_brake_torque" -> <<Z(8), Z(16), Z(40)>>
      [] n = "brake_balance" -> <<<<1, 4>>, Half, <<3, 4>>>>
      [] n = "wheel_inertia" -> <<Z(1), Z(2), Z(4)>>
      [] n = "gravity" -> <<Z(5), Z(8), Z(10)>>
      [] n \in {"Cx", "Cz"} -> <<Half, Z(1), Z(2), Z(3)>>
Names == << "vehicle_mass", "Iz", "cog_to_fa", "cog_to_ra", "cog_height", "mech_balance", "track_front", "track_rear", "rolling_radius",
            "kd", "air_density", "max_power", "max_total_brake_torque", "brake_balance", "wheel_inertia", "gravity", "Cx", "Cz" >>
TyreVals(q) == CASE q = 1 -> <<Z(1), Z(2), Z(3), Half>> [] q = 2 -> <<Z(0), Z(1), Half, Z(-1)>>
                 [] q = 3 -> <<Z(1), Z(2), Z(3)>> [] q = 4 -> <<Z(0), Half, Z(-1), Z(1)>>
StVals(n) == CASE n = "vx" -> <<Z(2), Z(4), Z(8), Z(5)>> [] n = "vy" -> <<Z(0), Z(1), Z(-1), Half, Z(-2)>>
               [] n = "yaw_rate" -> <<Z(0), Half, <<-1, 2>>, Z(1), Z(-1)>> [] OTHER -> <<Z(1), Z(2), Z(3), Z(4), Z(6)>>
InVals(n) == CASE n \in {"throttle", "brake"} -> <<Z(0), Half, Z(1), <<1, 4>>>>
               [] OTHER -> <<Z(0), Z(1), Z(-1), Z(2), Z(-3)>>
KVals(n) == CASE n = "n" -> <<Z(0), Z(1), Z(-1), Half, Z(2)>> [] OTHER -> <<Z(0), <<1, 4>>, <<-1, 4>>, <<1, 8>>, Half, <<-1, 2>>>>
DVals(n) == CASE n = "f" -> <<Z(0), Z(1), Z(5), Z(10)>> [] n = "g" -> <<Z(10), Z(5), Z(2)>> [] OTHER -> <<Z(0), Z(1), Z(-2), Half>>

\* the steering wheel: the largest angle is lock units, the position is a half, a whole, ... of it
Locks == <<1, 2>>
Steer(lock, h, k) == IF lock = 1 THEN Pick(h, k, <<0, 1, -1>>) ELSE Pick(h, k, <<0, 1, -1, 2, -2>>)
Params0(h) == [n \in {Names[k] : k \in 1..Len(Names)} |->
                 LET k == CHOOSE j \in 1..Len(Names) : Names[j] = n IN Pick(h, k, Vals(n))]
Sit0(h) ==
    [ p |-> Params0(h), t |-> [c \in 1..4 |-> [q \in 1..4 |-> Pick(h, 100 + 10 * c + q, TyreVals(q))]],
      lock |-> Pick(h, 90, Locks),
      s |-> [vx |-> Pick(h, 60, <<Z(4), Z(8)>>), vy |-> Pick(h, 61, StVals("vy")), yaw_rate |-> Pick(h, 62, <<Z(0), Half, <<-1, 2>>>>),
             w |-> [c \in 1..4 |-> Pick(h, 62 + c, StVals("w"))]],
      u |-> [throttle |-> Pick(h, 70, InVals("throttle")), brake |-> Pick(h, 71, InVals("brake")), steer |-> 0,
             ax |-> Pick(h, 73, InVals("ax")), ay |-> Pick(h, 74, InVals("ay"))],
      k |-> [n |-> Pick(h, 80, KVals("n")), eta |-> Pick(h, 81, <<0, 1, -1>>), curv |-> Pick(h, 82, <<Z(0), <<1, 4>>, <<-1, 4>>>>), head |-> Pick(h, 83, <<0, 1, 2>>)],
      d |-> [f |-> Pick(h, 84, DVals("f")), th |-> Pick(h, 85, <<0, 1, -1, 2>>), quad |-> Pick(h, 86, <<0, 1, 2, 3>>), g |-> Z(10),
             xd |-> Pick(h, 87, DVals("xd")), zd |-> Pick(h, 88, DVals("zd")), om |-> Pick(h, 89, DVals("om"))] ]

\* forward motion of every contact point and along the track
Valid(x) == /\ \A c \in 1..4 : RPos(Vwx(x.p, x.s, x.u, c))
            /\ RPos(RSub(Z(1), RMul(x.k.n, x.k.curv))) /\ RPos(Progress(x.s, x.k))

SetPar(h) == LET n == Pick(h, 1, Names) IN [k |-> "par", n |-> n, v |-> Pick(h, 2, Vals(n))]
SetTyre(h) == LET q == Rnd(h, 2, 1, 4) IN [k |-> "tyre", c |-> Rnd(h, 1, 1, 4), q |-> q, v |-> Pick(h, 3, TyreVals(q))]
SetState(h) == LET n == Pick(h, 1, <<"vx", "vy", "yaw_rate">>) IN [k |-> "state", n |-> n, v |-> Pick(h, 2, StVals(n))]
SetWheel(h) == [k |-> "wheel", c |-> Rnd(h, 1, 1, 4), v |-> Pick(h, 2, StVals("w"))]
SetIn(h) == LET n == Pick(h, 1, <<"throttle", "brake", "ax", "ay">>) IN [k |-> "input", n |-> n, v |-> Pick(h, 2, InVals(n))]
SetSteer(h) == [k |-> "steer", v |-> Steer(sit.lock, h, 1)]
SetLock(h) == [k |-> "lock", v |-> Pick(h, 1, Locks)]
SetKin(h) == LET n == Pick(h, 1, <<"n", "curv", "eta", "head">>) IN
    [k |-> "kin", n |-> n, v |-> IF n = "head" THEN Pick(h, 2, <<0, 1, 2>>) ELSE IF n = "eta" THEN Pick(h, 2, <<0, 1, -1, 2, -2>>) ELSE Pick(h, 2, KVals(n))]
SetFly(h) == LET n == Pick(h, 1, <<"f", "xd", "zd", "om", "g", "th", "quad">>) IN
    [k |-> "fly", n |-> n, v |-> IF n = "th" THEN Pick(h, 2, <<0, 1, -1, 2, -2>>) ELSE IF n = "quad" THEN Pick(h, 2, <<0, 1, 2, 3>>) ELSE Pick(h, 2, DVals(n))]
Mirror == [k |-> "mirror"]
Do(x, op) ==
    CASE op.k = "par" -> [x EXCEPT !.p[op.n] = op.v]
      [] op.k = "tyre" -> [x EXCEPT !.t[op.c][op.q] = op.v]
      [] op.k = "state" -> IF op.n = "vx" THEN [x EXCEPT !.s.vx = op.v] ELSE IF op.n = "vy" THEN [x EXCEPT !.s.vy = op.v] ELSE [x EXCEPT !.s.yaw_rate = op.v]
      [] op.k = "wheel" -> [x EXCEPT !.s.w[op.c] = op.v]
      [] op.k = "input" -> [x EXCEPT !.u[op.n] = op.v]
      [] op.k = "steer" -> [x EXCEPT !.u.steer = op.v]
      [] op.k = "lock" -> [x EXCEPT !.lock = op.v, !.u.steer = 0]
      [] op.k = "kin" -> [x EXCEPT !.k[op.n] = op.v]
      [] op.k = "fly" -> [x EXCEPT !.d[op.n] = op.v]
      [] OTHER -> [x EXCEPT !.t = Swap(@), !.s = MirS(@), !.u = MirU(@), !.k = [MirK(@) EXCEPT !.head = -@]]
Obs(x) == [car |-> Dyn(x.p, x.t, x.s, x.u), kin |-> Kin(x.s, x.k), fly |-> Fly(x.d)]

Tame(x) == IF Valid(x) THEN x
           ELSE [x EXCEPT !.u.steer = 0, !.s.yaw_rate = Z(0), !.s.vx = Z(4), !.k.eta = 0, !.k.curv = Z(0)]
Init == /\ w \in 1..Walks /\ step = 0
        /\ sit = Tame(Sit0(Hash(Seed, w * 29)))
        /\ obs = Obs(sit) /\ last = [k |-> "init"]
H == Hash(Seed * 5 + w * 101, step * 17 + 3)
Op == LET m == H % 16
          h == Hash(H, 7)
      IN CASE m < 4 -> SetPar(h) [] m < 5 -> SetTyre(h) [] m < 7 -> SetState(h) [] m < 8 -> SetWheel(h)
           [] m < 10 -> SetIn(h) [] m < 11 -> SetSteer(h) [] m < 12 -> SetLock(h) [] m < 13 -> SetKin(h) [] m < 15 -> SetFly(h) [] OTHER -> Mirror
Next == /\ step < Len0 /\ step' = step + 1 /\ w' = w
        /\ LET x == Do(sit, Op) IN
           IF Valid(x) THEN sit' = x /\ last' = Op /\ obs' = Obs(x)
           ELSE sit' = sit /\ last' = [k |-> "none"] /\ obs' = obs
Spec == Init /\ [][Next]_vars

\* -- the laws, on every state ------------------------------------------------
Weight == WeightOK(sit.p, sit.s, obs.car)
Roll == RollOK(sit.p, sit.u, obs.car)
Pitch == PitchOK(sit.p, sit.u, obs.car)
Power == PowerOK(sit.p, sit.s, sit.u, obs.car)
Diff == DiffOK(sit.p, sit.s, obs.car)
Brakes == BrakeOK(sit.p, sit.u, obs.car)
Energy == EnergyOK(sit.p, sit.s, obs.car)
Wheels == WheelOK(sit.p, sit.s, sit.u, obs.car)
Forces == ForceOK(obs.car)
MirrorImage == MirrorOK(sit.p, sit.t, sit.s, sit.u, obs.car)
Speed == SpeedOK(sit.s, sit.k, obs.kin)
Turn == TurnOK(sit.s, sit.k, obs.kin)
KinMirror == KinMirrorOK(sit.s, sit.k, obs.kin)
Thrust == FlyOK(sit.d, obs.fly)
\* mirroring twice changes nothing
Involution == Do(Do(sit, Mirror), Mirror) = sit
Out == EmitJson([w |-> w, step |-> step, last |-> last, sit |-> sit, obs |-> obs], <<w, step>>)
=============================================================================
