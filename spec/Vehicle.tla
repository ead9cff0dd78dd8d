------------------------------ MODULE Vehicle ------------------------------
(***************************************************************************)
(* The shipped vehicle, track and drone models as rational functions.      *)
(* Angles are multiples of atan2(3, 4), whose sine and cosine are rational; *)
(* tyres are stand-ins that respond linearly to slip, differently at every  *)
(* corner and differently under a mirrored slip angle.                      *)
(*                                                                         *)
(* The equations are stated from the balances they have to satisfy; the    *)
(* laws at the end are checked on them by TLC for every behaviour.         *)
(***************************************************************************)
EXTENDS Rat

C == << "fl", "fr", "rl", "rr" >>
\* angle k * atan2(3, 4)
Cos(k) == IF k = 0 THEN Z(1) ELSE IF RAbsI(k) = 1 THEN <<4, 5>> ELSE <<7, 25>>
Sin(k) == IF k = 0 THEN Z(0) ELSE LET s == IF k < 0 THEN -1 ELSE 1 IN
          IF RAbsI(k) = 1 THEN << s * 3, 5 >> ELSE << s * 24, 25 >>

\* corners: x forward, y to the left
Px(p, c) == IF c <= 2 THEN p.cog_to_fa ELSE RNeg(p.cog_to_ra)
Py(p, c) == LET t == RMul(Half, IF c <= 2 THEN p.track_front ELSE p.track_rear) IN
            IF c \in {1, 3} THEN t ELSE RNeg(t)
Mirr(c) == IF c \in {1, 3} THEN Z(1) ELSE Z(-1)

\* p: parameters, t[c]: tyres, s: states, u: inputs (u.steer is the wheel angle in units of atan2(3,4))
DynPressure(p, s) == RProd(<< Half, p.air_density, RAdd(Sq(s.vx), Sq(s.vy)) >>)
Down(p, s) == RAdd(RMul(p.vehicle_mass, p.gravity), RMul(p.Cz, DynPressure(p, s)))
Drag(p, s) == RNeg(RMul(p.Cx, DynPressure(p, s)))
\* wheel loads: weight and downforce by the position of the centre of gravity, the moments of the inertial forces
\* carried by the axles (longitudinal) and by the mechanical balance (lateral)
Load(p, s, u, c) ==
    LET l == RAdd(p.cog_to_fa, p.cog_to_ra)
        front == c <= 2
        share == RDiv(IF front THEN p.cog_to_ra ELSE p.cog_to_fa, l)
        roll == RNeg(RProd(<<u.ay, p.vehicle_mass, p.cog_height>>))
        pitch == RNeg(RProd(<<u.ax, p.vehicle_mass, p.cog_height>>))
        part == IF front THEN p.mech_balance ELSE RSub(Z(1), p.mech_balance)
        lat == RDiv(RMul(roll, part), IF front THEN p.track_front ELSE p.track_rear)
        lon == RMul(Half, RDiv(pitch, l))
    IN RSum(<< RProd(<<Half, share, Down(p, s)>>), RMul(Mirr(c), lat), IF front THEN lon ELSE RNeg(lon) >>)
\* velocity of the contact point in the frame of the wheel
Angle(u, c) == IF c <= 2 THEN u.steer ELSE 0
Vbx(p, s, c) == RSub(s.vx, RMul(s.yaw_rate, Py(p, c)))
Vby(p, s, c) == RAdd(s.vy, RMul(s.yaw_rate, Px(p, c)))
Vwx(p, s, u, c) == RAdd(RMul(Cos(Angle(u, c)), Vbx(p, s, c)), RMul(Sin(Angle(u, c)), Vby(p, s, c)))
Vwy(p, s, u, c) == RSub(RMul(Cos(Angle(u, c)), Vby(p, s, c)), RMul(Sin(Angle(u, c)), Vbx(p, s, c)))
Kappa(p, s, c) == RSub(RDiv(RMul(p.rolling_radius, s.w[c]), s.vx), Z(1))
\* the stand-in tyre: side is the lateral velocity as the tyre sees it (mirrored on the right)
TyreX(t, load, kappa, side) == RSum(<< RProd(<<t[1], load, kappa>>), RMul(t[2], side) >>)
TyreY(t, load, side) == RAdd(RNeg(RMul(t[3], side)), RMul(t[4], load))
Fwx(p, t, s, u, c) == TyreX(t[c], Load(p, s, u, c), Kappa(p, s, c), RMul(Mirr(c), Vwy(p, s, u, c)))
Fwy(p, t, s, u, c) == RMul(Mirr(c), TyreY(t[c], Load(p, s, u, c), RMul(Mirr(c), Vwy(p, s, u, c))))
\* drive and brake torques
DTorque(p, s) == RNeg(RMul(p.kd, RSub(s.w[3], s.w[4])))
Drive(p, s, u, c) ==
    IF c <= 2 THEN Z(0)
    ELSE LET left == RDiv(RAdd(RMul(u.throttle, p.max_power), RMul(DTorque(p, s), s.w[4])), RAdd(s.w[3], s.w[4]))
         IN IF c = 3 THEN left ELSE RSub(left, DTorque(p, s))
Brake(p, u, c) == RProd(<< Half, u.brake, p.max_total_brake_torque, IF c <= 2 THEN p.brake_balance ELSE RSub(Z(1), p.brake_balance) >>)

Dyn(p, t, s, u) ==
    LET load == [c \in 1..4 |-> Load(p, s, u, c)]
        kap == [c \in 1..4 |-> Kappa(p, s, c)]
        vwx == [c \in 1..4 |-> Vwx(p, s, u, c)]
        vwy == [c \in 1..4 |-> Vwy(p, s, u, c)]
        fwx == [c \in 1..4 |-> TyreX(t[c], load[c], kap[c], RMul(Mirr(c), vwy[c]))]
        fwy == [c \in 1..4 |-> RMul(Mirr(c), TyreY(t[c], load[c], RMul(Mirr(c), vwy[c])))]
        \* forces in the frame of the car
        fx == [c \in 1..4 |-> RSub(RMul(Cos(Angle(u, c)), fwx[c]), RMul(Sin(Angle(u, c)), fwy[c]))]
        fy == [c \in 1..4 |-> RAdd(RMul(Sin(Angle(u, c)), fwx[c]), RMul(Cos(Angle(u, c)), fwy[c]))]
        mz == [c \in 1..4 |-> RSub(RMul(Px(p, c), fy[c]), RMul(Py(p, c), fx[c]))]
        ax == RDiv(RAdd(RSum(fx), Drag(p, s)), p.vehicle_mass)
        ay == RDiv(RSum(fy), p.vehicle_mass)
        tq == [c \in 1..4 |-> Drive(p, s, u, c)]
        bt == [c \in 1..4 |-> Brake(p, u, c)]
    IN [ load |-> load, kap |-> kap, vwx |-> vwx, vwy |-> vwy, fwx |-> fwx, fwy |-> fwy, fx |-> fx, fy |-> fy,
         ax |-> ax, ay |-> ay, tq |-> tq, bt |-> bt,
         vx |-> RAdd(ax, RMul(s.yaw_rate, s.vy)), vy |-> RSub(ay, RMul(s.yaw_rate, s.vx)),
         yaw |-> RDiv(RSum(mz), p.Iz),
         w |-> [c \in 1..4 |-> RDiv(RSub(RSub(tq[c], bt[c]), RMul(p.rolling_radius, fwx[c])), p.wheel_inertia)],
         resx |-> RSub(ax, u.ax), resy |-> RSub(ay, u.ay) ]

\* the car on a track: progress along the centre line, offset to the left, heading relative to the track
\* k.n offset, k.eta angle (units of atan2(3,4)), k.curv curvature of the track
Progress(s, k) == RDiv(RSub(RMul(s.vx, Cos(k.eta)), RMul(s.vy, Sin(k.eta))), RSub(Z(1), RMul(k.n, k.curv)))
Sideways(s, k) == RAdd(RMul(s.vx, Sin(k.eta)), RMul(s.vy, Cos(k.eta)))
Turning(s, k) == RSub(s.yaw_rate, RMul(k.curv, Progress(s, k)))
Kin(s, k) == [ds |-> Progress(s, k), dn |-> Sideways(s, k), deta |-> Turning(s, k)]

\* the drone: d.f thrust per mass, d.th angle, d.quad quarter turns added to it
QCos(d) == LET q == d.quad IN IF q = 0 THEN Cos(d.th) ELSE IF q = 1 THEN RNeg(Sin(d.th)) ELSE IF q = 2 THEN RNeg(Cos(d.th)) ELSE Sin(d.th)
QSin(d) == LET q == d.quad IN IF q = 0 THEN Sin(d.th) ELSE IF q = 1 THEN Cos(d.th) ELSE IF q = 2 THEN RNeg(Sin(d.th)) ELSE RNeg(Cos(d.th))
Fly(d) == [ x |-> d.xd, xd |-> RMul(d.f, QSin(d)), z |-> d.zd, zd |-> RSub(RMul(d.f, QCos(d)), d.g), th |-> d.om,
            sin |-> QSin(d), fom |-> RMul(d.f, d.om) ]

\* the situation seen in a mirror along the direction of travel
Swap(q) == << q[2], q[1], q[4], q[3] >>
MirS(s) == [s EXCEPT !.vy = RNeg(@), !.yaw_rate = RNeg(@), !.w = Swap(@)]
MirU(u) == [u EXCEPT !.steer = -@, !.ay = RNeg(@)]
MirK(k) == [k EXCEPT !.n = RNeg(@), !.eta = -@, !.curv = RNeg(@)]

\* -- laws ----------------------------------------------------------------
WeightOK(p, s, o) == ReqOK(RSum(o.load), RAdd(RMul(p.vehicle_mass, p.gravity), RMul(p.Cz, DynPressure(p, s))))
RollOK(p, u, o) == ReqOK(RSum([c \in 1..4 |-> RMul(Py(p, c), o.load[c])]), RNeg(RProd(<<u.ay, p.vehicle_mass, p.cog_height>>)))
PitchOK(p, u, o) == ReqOK(RSum([c \in 1..4 |-> RMul(Px(p, c), o.load[c])]), RNeg(RProd(<<u.ax, p.vehicle_mass, p.cog_height>>)))
PowerOK(p, s, u, o) == ReqOK(RSum([c \in 1..4 |-> RMul(o.tq[c], s.w[c])]), RMul(u.throttle, p.max_power))
DiffOK(p, s, o) == ReqOK(RSub(o.tq[3], o.tq[4]), RNeg(RMul(p.kd, RSub(s.w[3], s.w[4]))))
BrakeOK(p, u, o) == /\ ReqOK(RSum(o.bt), RMul(u.brake, p.max_total_brake_torque))
                    /\ ReqOK(RAdd(o.bt[1], o.bt[2]), RProd(<<u.brake, p.max_total_brake_torque, p.brake_balance>>))
\* kinetic energy of the body grows by the work of the tyres and the air
EnergyOK(p, s, o) ==
    ReqOK(RAdd(RMul(p.vehicle_mass, RAdd(RMul(s.vx, o.vx), RMul(s.vy, o.vy))), RProd(<<p.Iz, s.yaw_rate, o.yaw>>)),
          RAdd(RSum([c \in 1..4 |-> RAdd(RMul(o.fwx[c], o.vwx[c]), RMul(o.fwy[c], o.vwy[c]))]), RMul(Drag(p, s), s.vx)))
\* ... and that of the wheels by the engine, the brakes and the road
WheelOK(p, s, u, o) ==
    ReqOK(RMul(p.wheel_inertia, RSum([c \in 1..4 |-> RMul(s.w[c], o.w[c])])),
          RSub(RMul(u.throttle, p.max_power),
               RSum([c \in 1..4 |-> RMul(s.w[c], RAdd(o.bt[c], RMul(p.rolling_radius, o.fwx[c])))])))
ForceOK(o) == \A c \in 1..4 : ReqOK(RAdd(Sq(o.fx[c]), Sq(o.fy[c])), RAdd(Sq(o.fwx[c]), Sq(o.fwy[c])))
MirrorOK(p, t, s, u, o) ==
    LET m == Dyn(p, Swap(t), MirS(s), MirU(u)) IN
    /\ ReqOK(m.vx, o.vx) /\ ReqOK(m.vy, RNeg(o.vy)) /\ ReqOK(m.yaw, RNeg(o.yaw))
    /\ \A c \in 1..4 : LET d == Swap(<<1, 2, 3, 4>>)[c] IN
        ReqOK(m.w[c], o.w[d]) /\ ReqOK(m.load[c], o.load[d]) /\ ReqOK(m.fx[c], o.fx[d]) /\ ReqOK(m.fy[c], RNeg(o.fy[d]))
SpeedOK(s, k, o) == ReqOK(RAdd(Sq(RMul(o.ds, RSub(Z(1), RMul(k.n, k.curv)))), Sq(o.dn)), RAdd(Sq(s.vx), Sq(s.vy)))
TurnOK(s, k, o) == ReqOK(RAdd(o.deta, RMul(k.curv, o.ds)), s.yaw_rate)
KinMirrorOK(s, k, o) ==
    LET m == Kin(MirS(s), MirK(k)) IN ReqOK(m.ds, o.ds) /\ ReqOK(m.dn, RNeg(o.dn)) /\ ReqOK(m.deta, RNeg(o.deta))
\* thrust is the only force besides gravity
FlyOK(d, o) == ReqOK(RAdd(Sq(o.xd), Sq(RAdd(o.zd, d.g))), Sq(d.f))
=============================================================================
