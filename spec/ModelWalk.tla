------------------------------ MODULE ModelWalk ------------------------------
(***************************************************************************)
(* C16.  Evaluating a shipped model is a pure function of (configuration,  *)
(* parameters, operating point).  State: two instances of one configuration *)
(* with their own parameters; compiled functions ("handles") that keep the  *)
(* parameters in force when they were made; functions that take parameters  *)
(* as an argument.  Every evaluation names the parameters and points it     *)
(* must be the value of; the backend, the calling form, the batch and the   *)
(* history before it do not matter.                                         *)
(*                                                                         *)
(* A parameter that is not at its default is default * (1 + q/16)           *)
(* (elementwise).  An operating point gives each variable as integer / den. *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS Seed, Walks, Len0, Heavy
VARIABLES w, step, par, hand, last
vars == <<w, step, par, hand, last>>

V(n, lo, hi, den) == [n |-> n, lo |-> lo, hi |-> hi, den |-> den]
TireIn == << V("Fz", 500, 9000, 1), V("kappa", -48, 48, 200), V("alpha", -48, 48, 200), V("vx", 40, 700, 8), V("gamma", -16, 16, 128) >>
AeroIn == << V("front_ride_height", -20, 20, 16), V("rear_ride_height", -20, 20, 16), V("yaw", -20, 20, 16) >>
VehStates == << V("vx", 160, 600, 8), V("vy", -20, 20, 16), V("yaw_rate", -12, 12, 32), V("wheel_speed_fl", 64, 200, 1),
                V("wheel_speed_fr", 64, 200, 1), V("wheel_speed_rl", 64, 200, 1), V("wheel_speed_rr", 64, 200, 1) >>
VehInputs == << V("throttle", 0, 16, 16), V("brake", 0, 16, 16), V("steer", -16, 16, 16), V("ax", -24, 24, 4), V("ay", -40, 40, 4) >>
TrkStates == << V("time", 0, 100, 1), V("n", -16, 16, 4), V("eta", -16, 16, 64) >>
TrkInputs == << V("track_curvature", -16, 16, 256), V("track_heading", -64, 64, 16) >>
KinInputs == << V("vx", 160, 600, 8), V("vy", -20, 20, 16), V("yaw_rate", -12, 12, 32) >> \o TrkInputs
DroneStates == << V("x", -8, 8, 4), V("x_dot", -8, 8, 4), V("z", -8, 8, 4), V("z_dot", -8, 8, 4), V("theta", -64, 64, 16) >>
DroneInputs == << V("f", 0, 80, 4), V("omega", -16, 16, 4) >>

MFPar == << "PCX1", "PDX1", "PDX3", "PEX1", "PEX4", "PKX1", "PKX3", "PHX1", "PVX1", "RBX1", "REX1", "RHX1", "QSX2", "PCY1", "PDY1", "PDY3",
            "PEY1", "PEY3", "PEY4", "PKY1", "PKY2", "PHY3", "PVY4", "RBY1", "RBY2", "REY1", "RVY1", "RVY5", "QBZ1", "QDZ4",
            "QEZ5", "QHZ4", "SSZ2", "FNOMIN", "UNLOADED_RADIUS", "LMUX", "LMUY", "LFZO", "LKY", "LTR", "QSY1", "QDZ9", "LONGVL" >>
PeraPar == << "Fz1", "Fz2", "mux1", "mux2", "muy1", "muy2", "kappa1", "kappa2", "alpha1", "alpha2", "Qx", "Qy" >>
VehPar == << "vehicle_mass", "Iz", "cog_to_fa", "cog_to_ra", "cog_height", "mech_balance", "track_front", "track_rear", "rolling_radius",
             "kd", "air_density", "max_steer_angle", "max_power", "max_total_brake_torque", "brake_balance", "wheel_inertia", "gravity",
             "aero_balance", "some_array" >>
Pre(p, s) == [k \in 1..Len(s) |-> p \o s[k]]
AeroPar(a) == CASE a = "ConstAero" -> << "Cx", "Cz", "Cy" >>
                [] a = "GPAero" -> << "gp_points", "alpha" >>
                [] OTHER -> << "weights_layer_0", "weights_layer_1", "weights_layer_3" >>
\* coefficients that may change sign, so that the model's clamps become active
Shape == {"PEX1", "PEX4", "PEY1", "PEY3", "PEY4", "REX1", "REY1", "RVY1", "QEZ5", "PHX1"}
TirePar(t) == IF t = "PerantoniTire" THEN PeraPar ELSE MFPar

HW == Hash(Seed, w * 13)
Kinds == << "ConstAero", "GPAero", "MLPAero", "MF52", "MF52full", "MF52tir", "MF52full", "PerantoniTire", "MF52full", "TrackPosition2D", "DroneModel",
            "SimpleVehicle", "SimpleVehicleOnTrack" >>
Kind == Kinds[((w - 1) % Len(Kinds)) + 1]
IsVeh == Kind \in {"SimpleVehicle", "SimpleVehicleOnTrack"}
\* submodels of the vehicle
Aero == Pick(HW, 1, << "ConstAero", "GPAero", "MLPAero" >>)
Tire(k) == IF Rnd(HW, 2, 0, 2) = 0 THEN Pick(HW, 3 + k, << "MF52", "PerantoniTire" >>) ELSE Pick(HW, 3, << "MF52", "PerantoniTire" >>)
Corner == << "tire_fl", "tire_fr", "tire_rl", "tire_rr" >>
Sub == IF IsVeh THEN << Aero, Tire(1), Tire(2), Tire(3), Tire(4) >> ELSE <<>>
VehAll(p) == Pre(p, VehPar) \o Pre(p \o "aero.", AeroPar(Aero)) \o Flat([k \in 1..4 |-> Pre(p \o Corner[k] \o ".", TirePar(Tire(k)))])
Params == CASE Kind \in {"ConstAero", "GPAero", "MLPAero"} -> AeroPar(Kind)
            [] Kind \in {"MF52", "MF52full", "MF52tir"} -> MFPar
            [] Kind = "PerantoniTire" -> PeraPar
            [] Kind = "TrackPosition2D" -> <<>>
            [] Kind = "DroneModel" -> << "gravity" >>
            [] Kind = "SimpleVehicle" -> VehAll("")
            [] OTHER -> VehAll("vehicle.")
States == CASE Kind = "TrackPosition2D" -> TrkStates
            [] Kind = "DroneModel" -> DroneStates
            [] Kind = "SimpleVehicle" -> VehStates
            [] Kind = "SimpleVehicleOnTrack" -> TrkStates \o VehStates
            [] OTHER -> <<>>
Inputs == CASE Kind \in {"ConstAero", "GPAero", "MLPAero"} -> AeroIn
            [] Kind \in {"MF52", "MF52full", "MF52tir", "PerantoniTire"} -> TireIn
            [] Kind = "TrackPosition2D" -> KinInputs
            [] Kind = "DroneModel" -> DroneInputs
            [] Kind = "SimpleVehicle" -> VehInputs
            [] OTHER -> VehInputs \o TrkInputs
IsSS == States # <<>>
Batches == IsSS /\ (~IsVeh \/ w <= Heavy)         \* compiling a vehicle is expensive

\* few points per walk, so that points come back after other evaluations
NPts == 4
Zero(d) == IF d.lo <= 0 /\ d.hi >= 0 THEN 0 ELSE d.lo
Point(k) ==
    [vars |-> [g \in 1..2 |->
        LET ds == IF g = 1 THEN States ELSE Inputs IN
        [q \in 1..Len(ds) |->
            LET h == Hash(HW, 100 * k + 31 * g + 1000 * q) IN
            \* the last point has zeros: slip, camber, steering and so on exactly at the symmetric point
            IF k = NPts /\ h % 3 = 0 THEN Zero(ds[q])
            ELSE LET v == Rnd(h, 1, ds[q].lo, ds[q].hi) IN IF v = 0 THEN ds[q].hi ELSE v]],
     mesh |-> Rnd(Hash(HW, k), 9, 0, 500), generic |-> k # NPts]

Default == [p \in 1..Len(Params) |-> 0]
Factor(h, p) ==
    IF Kind \in {"MF52", "MF52full", "MF52tir"} /\ Params[p] \in Shape THEN Pick(h, 3, << -64, -40, 40, 80, -24 >>)
    ELSE Pick(h, 3, << 0, 1, 2, -1, 3 >>)
\* the second instance starts with some parameters away from the defaults
Other == [p \in 1..Len(Params) |-> LET h == Hash(HW, 5000 + p) IN IF h % 4 = 0 THEN Factor(h, p) ELSE 0]
ScalarForms == << "dict", "arrays", "apply", "apply_arrays", "jax", "jax_arrays", "jit", "mx", "sx", "dm", "symparam" >>
BatchForms == << "cas_batch", "jax_batch", "cas_alg", "jax_alg" >>
HandForms == << "mx", "sx", "jit", "export" >>

Init == /\ w \in 1..Walks /\ step = 0 /\ par = << Default, Other >>
        /\ hand = <<>> /\ last = [k |-> "init"]

H == Hash(Seed * 5 + w * 101, step * 17 + 3)
EvalOp(h) ==
    LET i == Rnd(h, 1, 1, 2)
        f == Pick(h, 2, ScalarForms)
        j == IF f \in {"apply", "apply_arrays", "jit", "symparam"} THEN Rnd(h, 3, 1, 2) ELSE i
    IN [k |-> "eval", i |-> i, form |-> f, j |-> j, at |-> par[j], pts |-> << Rnd(h, 4, 1, NPts) >>]
DerOp(h) ==
    LET i == Rnd(h, 1, 1, 2) IN [k |-> "der", i |-> i, j |-> i, at |-> par[i], pts |-> << Rnd(h, 4, 1, NPts - 1) >>]
BatchOp(h) ==
    LET i == Rnd(h, 1, 1, 2)
        j == Rnd(h, 3, 1, 2)
    IN [k |-> "batch", i |-> i, form |-> Pick(h, 2, BatchForms), j |-> j, at |-> par[j],
        pts |-> [q \in 1..Rnd(h, 5, 1, 4) |-> Rnd(h, 10 + q, 1, NPts - 1)]]
SetOp(h) ==
    IF Params = <<>> THEN EvalOp(h)
    ELSE LET p == Rnd(h, 2, 1, Len(Params)) IN
         [k |-> "set", i |-> Rnd(h, 1, 1, 2), p |-> p,
          q |-> Factor(h, p)]
CopyOp(h) == [k |-> "copy", i |-> Rnd(h, 1, 1, 2), style |-> Rnd(h, 2, 0, 1)]
BuildOp(h) == [k |-> "build", i |-> Rnd(h, 1, 1, 2), form |-> Pick(h, 2, IF IsSS /\ ~IsVeh THEN HandForms ELSE << "mx", "sx", "jit" >>)]
CallOp(h) ==
    IF hand = <<>> THEN EvalOp(h)
    ELSE LET c == Rnd(h, 1, 1, Len(hand)) IN
         [k |-> "call", c |-> c, at |-> hand[c], pts |-> << Rnd(h, 4, 1, NPts) >>]
BadOp(h) == [k |-> "bad", i |-> Rnd(h, 1, 1, 2), form |-> Pick(h, 2, << "dict", "arrays", "apply" >>), pts |-> << 1 >>]
Op == LET h == Hash(H, 7)
          m == H % 20
      IN CASE m < 4 -> SetOp(h)
           [] m < 6 -> CopyOp(h)
           [] m < 8 -> IF Len(hand) < 3 THEN BuildOp(h) ELSE CallOp(h)
           [] m < 10 -> CallOp(h)
           [] m < 11 -> BadOp(h)
           [] m < 13 -> DerOp(h)
           [] m < 15 -> IF Batches THEN BatchOp(h) ELSE EvalOp(h)
           [] OTHER -> EvalOp(h)
Next == /\ step < Len0 /\ step' = step + 1 /\ w' = w
        /\ last' = Op
        /\ par' = CASE Op.k = "set" -> [par EXCEPT ![Op.i][Op.p] = Op.q]
                    [] Op.k = "copy" -> [par EXCEPT ![Op.i] = par[3 - Op.i]]
                    [] OTHER -> par
        /\ hand' = IF Op.k = "build" THEN Append(hand, par[Op.i]) ELSE hand
Spec == Init /\ [][Next]_vars

\* design: evaluating changes no parameters, a handle keeps its parameters
EvalKeeps == [][last'.k \notin {"set", "copy"} => par' = par]_vars
HandlesKeep == [][\A c \in 1..Len(hand) : hand'[c] = hand[c]]_vars
TypeOK == /\ \A i \in 1..2 : Len(par[i]) = Len(Params)
          /\ "at" \in DOMAIN last => \E i \in 1..2 : last.at = par[i] \/ \E c \in 1..Len(hand) : last.at = hand[c]
Ans == IF step = 0
       THEN [w |-> w, step |-> 0, kind |-> Kind, sub |-> Sub, params |-> Params, states |-> States, inputs |-> Inputs,
             points |-> [k \in 1..NPts |-> Point(k)], par |-> par, last |-> [op |-> last], hist |-> <<>>]
       ELSE [w |-> w, step |-> step, last |-> [op |-> last], par |-> par, hist |-> <<>>]
Out == EmitJson(Ans, <<w, step>>)
=============================================================================
