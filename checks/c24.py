"""C24: histories of VehicleWalk.tla replayed on the shipped vehicle, track and drone models."""
import math

import numpy as np

import walks
from par import pmap

TOL = 1e-9
TH = math.atan2(3, 4)
CORNERS = ("fl", "fr", "rl", "rr")
LAWS = ("Weight", "Roll", "Pitch", "Power", "Diff", "Brakes", "Energy", "Wheels", "Forces", "MirrorImage", "Speed", "Turn",
        "KinMirror", "Thrust", "Involution")


def num(r):
    return r[0] / r[1] if r[1] else None


def div(a, b):
    return None if a is None or b is None else a / b


def probe_tire():
    """The stand-in tyre of Vehicle.tla"""
    import lumos.numpy as lnp
    from lumos.models.base import ModelReturn, model_io
    from lumos.models.composition import ModelMaker
    from lumos.models.tires.base import BaseTire

    def forward(self, inputs):
        p = self._params
        side = inputs["vx"] * lnp.tan(inputs["alpha"])
        fx = p["t1"] * inputs["Fz"] * inputs["kappa"] + p["t2"] * side + 3.0 * inputs["gamma"]
        fy = -p["t3"] * side + p["t4"] * inputs["Fz"] + 5.0 * inputs["gamma"]
        return ModelReturn(outputs=dict(Fx=fx, Fy=fy, Mx=0.0, My=0.0, Mz=0.0))
    cls = type("VfProbeTire", (BaseTire,), dict(
        forward=forward, get_default_params=classmethod(lambda cls: dict(t1=1.0, t2=0.0, t3=1.0, t4=0.0))))
    cls = model_io(inputs=("Fz", "kappa", "alpha", "vx", "gamma"), outputs=("Fx", "Fy", "Mx", "My", "Mz"))(cls)
    try:
        ModelMaker.get_model_class("VfProbeTire")
    except KeyError:
        ModelMaker.add_to_registry(cls)


class Replay:
    def __init__(self, rec):
        from lumos.models.composition import ModelMaker
        from lumos.models.drone_model import DroneModel
        from lumos.models.kinematics import TrackPosition2D
        from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
        from lumos.models.vehicles.simple_vehicle import SimpleVehicle
        probe_tire()

        def make(cls, pre):
            cfg = ModelMaker.make_config(cls.__name__)
            for c in CORNERS:
                cfg.replace_subtree("%stire_%s" % (pre, c), ModelMaker.make_config("VfProbeTire"))
            cfg.replace_subtree(pre + "aero", ModelMaker.make_config("ConstAero"))
            return cls(model_config=cfg)
        self.car, self.lap = make(SimpleVehicle, ""), make(SimpleVehicleOnTrack, "vehicle.")
        self.kin, self.fly = TrackPosition2D(), DroneModel()
        self.n = 0
        self.w = rec["w"]
        self.all_params(rec["sit"])

    # -- parameters ----------------------------------------------------
    def set(self, name, v, models=None):
        for m, pre in ((self.car, ""), (self.lap, "vehicle.")):
            p = m.get_recursive_params()
            p.set_param(pre + name, v)
            m.set_recursive_params(p)

    def name(self, n):
        return "aero." + n if n in ("Cx", "Cz") else n

    def tyres(self, t):
        for c, vs in zip(CORNERS, t):
            for q, v in enumerate(vs):
                self.set("tire_%s.t%d" % (c, q + 1), num(v))

    def drone(self, d):
        p = self.fly.get_recursive_params()
        p.set_param("gravity", num(d["g"]))
        self.fly.set_recursive_params(p)

    def all_params(self, sit):
        for n, v in sit["p"].items():
            self.set(self.name(n), num(v))
        self.set("max_steer_angle", sit["lock"] * TH)
        self.tyres(sit["t"])
        self.drone(sit["d"])

    def step(self, rec):
        op = rec["last"]
        k = op["k"]
        if k == "par":
            self.set(self.name(op["n"]), num(op["v"]))
        elif k == "tyre":
            self.set("tire_%s.t%d" % (CORNERS[op["c"] - 1], op["q"]), num(op["v"]))
        elif k == "lock":
            self.set("max_steer_angle", op["v"] * TH)
        elif k == "mirror":
            self.tyres(rec["sit"]["t"])
        elif k == "fly" and op["n"] == "g":
            self.drone(rec["sit"]["d"])
        self.look(rec)

    # -- evaluation ----------------------------------------------------
    def forward(self, model, states, inputs, mesh, form):
        """states_dot and outputs by name"""
        import lumos.numpy as lnp
        if form == "numpy":
            r = model.forward(states, inputs, mesh)
            return dict(r.states_dot), dict(r.outputs)
        sn, un = model.get_group_names("states"), model.get_group_names("inputs")
        x, u = np.array([states[n] for n in sn]), np.array([inputs[n] for n in un])
        if form == "casadi":
            import casadi as cas
            with lnp.use_backend("casadi"):
                a = [cas.MX.sym("a", x.size), cas.MX.sym("b", u.size), cas.MX.sym("c")]
                r = model.forward_with_arrays(*a)
                f = cas.Function("f", a, [r.states_dot, r.outputs])
            d, o = (np.array(v).ravel() for v in f(x, u, mesh))
        else:
            with lnp.use_backend("jax"):
                r = model.forward_with_arrays(lnp.array(x), lnp.array(u), mesh)
            d, o = np.array(r.states_dot).ravel(), np.array(r.outputs).ravel()
        return dict(zip(sn, d)), dict(zip(model.get_group_names("outputs"), o))

    def cmp(self, what, exp, got, form):
        from ocpkit import Mismatch
        for n, e in exp.items():
            if e is None:
                continue
            if n not in got:
                raise Mismatch("%s: no %s" % (what, n))
            g = float(np.asarray(got[n]).reshape(-1)[0])
            if not abs(g - e) <= TOL * max(1.0, abs(e)):
                raise Mismatch("%s: %s (%s)" % (what, n, form), e, g)
            self.n += 1

    def look(self, rec):
        sit, o = rec["sit"], rec["obs"]
        k, d, car = sit["k"], sit["d"], o["car"]
        s = {n: num(sit["s"][n]) for n in ("vx", "vy", "yaw_rate")}
        s.update({"wheel_speed_" + c: num(v) for c, v in zip(CORNERS, sit["s"]["w"])})
        u = {n: num(sit["u"][n]) for n in ("throttle", "brake", "ax", "ay")}
        u["steer"] = sit["u"]["steer"] / sit["lock"]
        h = (self.w * 7 + rec["step"]) % 12
        form = "casadi" if h in (3, 8) else "jax" if h == 5 else "numpy"
        # the car by itself
        ed = dict(vx=num(car["vx"]), vy=num(car["vy"]), yaw_rate=num(car["yaw"]))
        ed.update({"wheel_speed_" + c: num(v) for c, v in zip(CORNERS, car["w"])})
        eo = dict(ax=num(car["ax"]), ay=num(car["ay"]), drive_torque_rl=num(car["tq"][2]), drive_torque_rr=num(car["tq"][3]),
                  res_ax=num(car["resx"]), res_ay=num(car["resy"]))
        for i, c in enumerate(CORNERS):
            eo["Fx_tire_" + c], eo["Fy_tire_" + c], eo["Fz_tire_" + c] = num(car["fx"][i]), num(car["fy"][i]), num(car["load"][i])
            eo["slip_ratio_" + c] = num(car["kap"][i])
            vx, vy = num(car["vwx"][i]), num(car["vwy"][i])
            eo["slip_angle_" + c] = None if vx is None or vy is None else math.atan2(vy, vx)
        sd, so = self.forward(self.car, s, u, 0.0, form)
        self.cmp("rate of change of the car", ed, sd, form)
        self.cmp("output of the car", eo, so, form)
        # its motion along a track
        ds, dn, de = num(o["kin"]["ds"]), num(o["kin"]["dn"]), num(o["kin"]["deta"])
        eta, head, curv = k["eta"] * TH, k["head"] * TH, num(k["curv"])
        ks = dict(time=1.5, n=num(k["n"]), eta=eta)
        tr = dict(track_curvature=curv, track_heading=head)
        ek = dict(time=div(1.0, ds), n=div(dn, ds), eta=div(de, ds))
        eko = dict(yaw_angle=eta + head, curvature=curv)
        sd, so = self.forward(self.kin, ks, dict(vx=s["vx"], vy=s["vy"], yaw_rate=s["yaw_rate"], **tr), 3.0, form)
        self.cmp("rate of change along the track", ek, sd, form)
        self.cmp("output of the track model", eko, so, form)
        # both together: per distance
        el = dict(ek, **{n: div(v, ds) for n, v in ed.items()})
        sd, so = self.forward(self.lap, dict(s, **ks), dict(u, **tr), 3.0, form)
        self.cmp("rate of change of the car on a track", el, sd, form)
        self.cmp("output of the car on a track", {"vehicle." + n: v for n, v in eo.items()}, so, form)
        self.cmp("output of the car on a track", {"kinematics." + n: v for n, v in eko.items()}, so, form)
        # the drone
        f = o["fly"]
        th = d["th"] * TH + d["quad"] * math.pi / 2
        ds_ = dict(x=2.0, x_dot=num(d["xd"]), z=-1.0, z_dot=num(d["zd"]), theta=th)
        sd, so = self.forward(self.fly, ds_, dict(f=num(d["f"]), omega=num(d["om"])), 0.5, form)
        self.cmp("rate of change of the drone", dict(x=num(f["x"]), x_dot=num(f["xd"]), z=num(f["z"]), z_dot=num(f["zd"]), theta=num(f["th"])), sd, form)
        self.cmp("output of the drone", dict(sin_theta=num(f["sin"]), f_omega=num(f["fom"])), so, form)


def replay(h):
    r = Replay(h[0])
    r.look(h[0])
    for rec in h[1:]:
        r.step(rec)
    return r.n


def brief(h):
    return [r["last"] for r in h]


def job(hs):
    walks.brief = brief
    return walks.replay_all(replay, hs)


def main(chk):
    hs = walks.generate(chk, "VehicleWalk", dict(Seed=chk.seed, Walks=chk.pick(120, 800), Len0=chk.pick(24, 40)),
                        invariants=LAWS + ("Out",), properties=())
    bad = sum(str(r["obs"]).count("[0, 0]") for h in hs for r in h)
    chk.extra["values_not_judged"] = bad
    walks.report(chk, pmap(job, walks.chunked(hs, 3)))
    chk.sample(brief(hs[0]))
