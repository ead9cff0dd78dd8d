"""C19: bound pairs of BoundCases.tla and configuration histories of ConfigWalk.tla on the real classes."""
import copy
import json
import os

import numpy as np

import c20
import walks
from checklib import read_jsonl, short_exc
from ocpkit import Mismatch, rejected, same
from par import pmap

WORDS = {"pi/4": np.pi / 4, "2pi": 2 * np.pi, "10pi": 10 * np.pi, "5deg": np.deg2rad(5), "inf": np.inf}
TRACK = dict(x=[0, 5, 10, 13, 16], y=[0, 0, 0, 4, 8], left=[3, 4, 3, 5, 3], right=[3, 3, 4, 3, 6])


def num(t):
    s = -1.0 if t.startswith("-") else 1.0
    t = t.lstrip("-")
    return s * (WORDS[t] if t in WORDS else float(t))


# -- bound pairs -----------------------------------------------------------
def value(u, style):
    f = {98: np.inf, -98: -np.inf, 99: np.nan}
    v = [f.get(x, x) for x in u["v"]]
    t = u["t"]
    if t == "int":
        return int(v[0])
    if t == "float":
        return float(v[0])
    if t == "np":
        return np.float64(v[0]) if style % 2 else np.int64(v[0])
    if t == "arr":
        return np.array(v, dtype=float) if style % 3 or any(isinstance(x, float) for x in v) else np.array(v, dtype=int)
    return dict(none=None, list=[float(v[0])], tuple=(float(v[0]),), arr0=np.array(float(v[0])), arr2=np.array([[float(v[0])]]),
                dict={"v": float(v[0])})[t]


def same_value(e, o):
    return type(e) is type(o) and np.array_equal(e, o)


def bound_job(cases):
    from lumos.optimal_control.config import BoundConfig, SimConfig
    out = []
    for k, c in cases:
        def run():
            for style in (k, k + 1):
                pair = (value(c["lo"], style), value(c["hi"], style))
                ways = [("BoundConfig", lambda: BoundConfig("states", "p", pair)),
                        ("keywords", lambda: BoundConfig(group="states", name="p", values=list(pair))),
                        ("a dictionary", lambda: SimConfig(bounds=({"group": "states", "name": "p", "values": pair},)).bounds[0]),
                        ("a later dictionary", lambda: SimConfig(bounds=[{"group": "inputs", "name": "u", "values": (0, 1)},
                                                                  {"group": "states", "name": "p", "values": pair}]).bounds[1])]
                for name, fn in ways:
                    if c["ok"]:
                        b = fn()
                        if not isinstance(b, BoundConfig) or b.group != "states" or b.name != "p" or len(b.values) != 2 or \
                                not (same_value(pair[0], b.values[0]) and same_value(pair[1], b.values[1])):
                            raise Mismatch("bounds from %s changed" % name, repr(pair), repr(b))
                    else:
                        rejected("bounds %r from %s" % (pair, name), fn)
                for wrong in ((pair[0],), pair + (pair[1],)):
                    rejected("bounds %r" % (wrong,), lambda: BoundConfig("states", "p", wrong))
            return 8
        try:
            out.append(dict(n=run(), bad=None))
        except Mismatch as m:
            out.append(dict(n=1, bad=dict(what=m.what, expected=m.exp, observed=m.obs, case=c)))
        except Exception as e:
            out.append(dict(n=1, bad=dict(what="%s raised for %s" % (short_exc(e), json.dumps(c)), case=c)))
    return out


# -- canonical form --------------------------------------------------------
def expected(c):
    s = lambda v: num(v)
    return dict(num_intervals=c["nI"], interval_points=None if not c["pts"] else [p / (8.0 * c["nI"]) for p in c["pts"]],
                transcription=[c["tr"]["name"], c["tr"]["n"]], is_cyclic=c["cyc"], non_cyclic_vars=list(c["noncyc"]),
                is_condensed=c["cond"], backend=c["backend"], hessian_approximation=c["hess"],
                boundary_conditions=[[b["s"], b["g"], b["n"], s(b["v"])] for b in c["bcs"]],
                bounds=[[b["g"], b["n"], b["arr"], [s(v) for v in b["lo"]], [s(v) for v in b["hi"]]] for b in c["bounds"]],
                scales=[[b["g"], b["n"], s(b["v"])] for b in c["scales"]],
                con_output_names=list(c["con"]),
                logging_config=None if not c["log"] else [c["log"][0]["name"], c["log"][0]["dir"], c["log"][0]["every"]],
                **(dict(track=c["track"]) if c["cls"] == "LTC" else {}))


def canon(o, what):
    """the same form read off a configuration object or a dictionary made from one"""
    from lumos.optimal_control import config as C
    plain = isinstance(o, dict)

    def piece(p, cls, names):
        if plain:
            if type(p) is not dict or set(p) != set(names):
                raise Mismatch("%s: a %s in the dictionary" % (what, cls.__name__), list(names), repr(p))
            return [p[n] for n in names]
        if not isinstance(p, cls):
            raise Mismatch("%s holds %r instead of a %s" % (what, type(p).__name__, cls.__name__), None, repr(p))
        return [getattr(p, n) for n in names]

    def bnd(p):
        g, n, (lo, hi) = piece(p, C.BoundConfig, ("group", "name", "values"))
        arr = isinstance(lo, np.ndarray)
        return [g, n, arr, np.atleast_1d(lo).tolist(), np.atleast_1d(hi).tolist()]
    get = (lambda n: o[n]) if plain else (lambda n: getattr(o, n))
    tr = get("transcription")
    log = get("logging_config")
    pts = get("interval_points")
    r = dict(num_intervals=get("num_intervals"), interval_points=None if pts is None else np.asarray(pts).tolist(),
             transcription=[tr[0], tr[1].get("num_stages", 0) if len(tr) > 1 else 0], is_cyclic=get("is_cyclic"),
             non_cyclic_vars=list(get("non_cyclic_vars")), is_condensed=get("is_condensed"), backend=get("backend"),
             hessian_approximation=get("hessian_approximation"),
             boundary_conditions=[piece(p, C.BoundaryConditionConfig, ("stage", "group", "name", "value")) for p in get("boundary_conditions")],
             bounds=[bnd(p) for p in get("bounds")],
             scales=[piece(p, C.ScaleConfig, ("group", "name", "value")) for p in get("scales")],
             con_output_names=list(get("con_output_names")),
             logging_config=None if log is None else piece(log, C.LoggingConfig, ("sim_name", "results_dir", "log_every_nth_iter")))
    try:
        r["track"] = get("track")
    except (KeyError, AttributeError):
        pass
    if plain and set(o) != set(r):
        raise Mismatch("%s: keys of the dictionary" % what, sorted(r), sorted(o))
    return r


def compare(what, exp, o):
    obs = canon(o, what)
    if set(exp) != set(obs):
        raise Mismatch("%s: fields" % what, sorted(exp), sorted(obs))
    for k in exp:
        if exp[k] != obs[k]:
            raise Mismatch("%s: %s" % (what, k), exp[k], obs[k])
    return len(exp)


# -- building --------------------------------------------------------------
def classes():
    from lumos.optimal_control.config import SimConfig
    from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
    from lumos.simulations.laptime_simulation import LTCConfig, LaptimeSimulation
    from lumos.simulations.drone_simulation import DroneSimulationConfig, DroneSimulation
    return dict(Sim=(SimConfig, ScaledMeshOCP), LTC=(LTCConfig, LaptimeSimulation), Drone=(DroneSimulationConfig, DroneSimulation))


FIELD = dict(pts="interval_points", tr="transcription", cyc="is_cyclic", noncyc="non_cyclic_vars", cond="is_condensed", hess="hessian_approximation",
             bcs="boundary_conditions", bounds="bounds", scales="scales", con="con_output_names", log="logging_config")


def kwargs(op):
    from lumos.optimal_control import config as C
    c, form = op["raw"], op["form"]
    e = expected(c)
    obj = form["conf"] == "obj"
    seq = tuple if form["seq"] == "tuple" or obj else list          # objects come in tuples (documented)
    mk = lambda cls, **kw: cls(**kw) if obj else kw
    vals = lambda b: (np.array(b[3]), np.array(b[4])) if b[2] else (b[3][0], b[4][0])
    e["interval_points"] = None if e["interval_points"] is None else np.array(e["interval_points"])
    name, n = e["transcription"]
    e["transcription"] = (name, {"num_stages": n}) if n else (name,) if form["tr"] else name
    bad = op.get("bad", "")
    bounds = [dict(group=b[0], name=b[1], values=vals(b)) for b in e["bounds"]]
    if bad == "badbounds":
        bounds.append(dict(group="states", name="p", values=(2.0, 1.0)) if form["tr"] else dict(group="states", name="p", values=(1.0, np.array([2.0]))))
    e["bounds"] = seq(mk(C.BoundConfig, **b) for b in bounds)
    bcs = [dict(stage=b[0], group=b[1], name=b[2], value=b[3]) for b in e["boundary_conditions"]]
    if bad == "badbcs":
        bcs.insert(0, dict(stage=0, group="states", name="p"))
    e["boundary_conditions"] = seq(mk(C.BoundaryConditionConfig, **b) for b in bcs)
    e["scales"] = seq(mk(C.ScaleConfig, group=b[0], name=b[1], value=b[2]) for b in e["scales"])
    e["con_output_names"] = tuple(e["con_output_names"])
    if e["logging_config"] is not None:
        l = e["logging_config"]
        e["logging_config"] = mk(C.LoggingConfig, sim_name=l[0], results_dir=l[1], log_every_nth_iter=l[2])
    given = {FIELD[g] for g in op["given"]} | {"num_intervals", "backend"} | ({"track"} if c["cls"] == "LTC" and bad != "notrack" else set())
    if bad == "badbounds":
        given.add("bounds")
    if bad == "badbcs":
        given.add("boundary_conditions")
    kw = {k: v for k, v in e.items() if k in given}
    if op["ready"] and not bad:
        from lumos.simulations import laptime_simulation as L
        kw.update(bounds=L.get_default_bounds(), scales=L.get_default_scales(), con_output_names=L.get_default_con_output_names(),
                  boundary_conditions=L.get_default_boundary_conditions(is_cyclic=e["is_cyclic"]) if e["is_cyclic"] or not form["tr"]
                  else L.get_default_boundary_conditions(e["is_cyclic"]))
    if bad == "badfield":
        kw["num_interval"] = 3
    return kw


def frozen(v):
    """a comparable picture of what was handed over"""
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.tolist())
    if isinstance(v, dict):
        return ("dict", [(k, frozen(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [frozen(x) for x in v])
    if hasattr(v, "__dataclass_fields__"):
        return (type(v).__name__, frozen(vars(v)))
    return v


def stub_models():
    c20.stub()
    from lumos.models.drone_model import DroneModel as V
    none = (np.zeros(0, dtype=int), np.zeros(0, dtype=int))
    V._implicit_jacobianstructure = lambda self, *a: none
    V._implicit_hessianstructure = lambda self, *a: none
    V._implicit_jac = lambda self, *a: np.zeros(0)
    V._implicit_hess = lambda self, *a: np.zeros(0)


_TOY = []


def toy():
    if not _TOY:
        from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io

        @state_space_io(states=("time", "p"), inputs=("u",), outputs=("y",))
        class ConfigToy(StateSpaceModel):
            @classmethod
            def get_default_params(cls):
                return {"a": 2.0}

            def forward(self, states, inputs, mesh):
                return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", time=1.0, p=inputs["u"] * self._params["a"]),
                                             outputs=self.make_outputs_dict(y=states["p"]))

            def _implicit_jacobianstructure(self):
                return np.zeros(0, dtype=int), np.zeros(0, dtype=int)
            _implicit_hessianstructure = _implicit_jacobianstructure

            def _implicit_jac(self, *a):
                return np.zeros(0)
            _implicit_hess = _implicit_jac
        _TOY.append(ConfigToy)
    return _TOY[0]()


class Replay:
    def __init__(self):
        self.K, self.D, self.no = [None] * 3, [None] * 2, 0
        for name in ("A", "B"):
            if not os.path.exists(name):
                with open(name, "w") as f:
                    f.write("# x_m,y_m,w_tr_right_m,w_tr_left_m\n")
                    for k in range(5):
                        f.write("%d,%d,%d,%d\n" % (TRACK["x"][k] * (2 if name == "B" else 1), TRACK["y"][k], TRACK["right"][k], TRACK["left"][k]))

    def do_make(self, op):
        cfg, ocp = classes()[op["raw"]["cls"]]
        try:
            kw = kwargs(op)
        except Exception:
            if op.get("bad"):
                raise
            raise RuntimeError("the driver cannot build legal pieces")
        before = frozen(kw)
        try:
            new = cfg(**kw) if op["form"]["via"] == "class" else ocp.get_sim_config(**kw)
        finally:
            if frozen(kw) != before:
                self.altered = Mismatch("values given to %s were altered" % cfg.__name__, repr(before), repr(frozen(kw)))
        if type(new) is not cfg:
            raise Mismatch("type of the configuration", cfg.__name__, type(new).__name__)
        self.K[op["i"] - 1] = new

    def do_init(self, op):
        self.do_make(op["a"])
        self.do_make(op["b"])

    def do_todict(self, op):
        cfg = self.K[op["i"] - 1]
        d = cfg.to_dict()
        has_array = cfg.interval_points is not None or any(isinstance(b.values[0], np.ndarray) for b in cfg.bounds)
        e = canon(cfg, "a configuration")
        if not has_array:
            text = json.loads(json.dumps(cfg.to_dict()))
            compare("a configuration from JSON text", e, type(cfg)(**text))
        again = type(cfg)(**cfg.to_dict())
        compare("a configuration through its dictionary", e, again)
        if not has_array and all(isinstance(v, tuple) for v in (cfg.bounds, cfg.scales, cfg.boundary_conditions)) and again != cfg:
            raise Mismatch("a configuration is not equal to itself through a dictionary", repr(cfg), repr(again))
        self.D[op["j"] - 1] = (type(cfg), d)

    def do_fromdict(self, op):
        cls, d = self.D[op["j"] - 1]
        before = frozen(d)
        self.K[op["i"] - 1] = cls(**d)
        if frozen(d) != before:
            raise Mismatch("the dictionary given was altered", repr(before), repr(frozen(d)))
        self.D[op["j"] - 1] = None

    def edit(self, o, op):
        """make the change in place, field by field"""
        plain = isinstance(o, dict)
        get = (lambda p, n: p[n]) if plain else getattr
        put = (lambda p, n, v: p.__setitem__(n, v)) if plain else setattr
        to, e = op["to"], op["e"]
        want = expected(to)
        if e == "noncyc":
            get(o, "non_cyclic_vars").append(want["non_cyclic_vars"][-1])
        elif e == "nI":
            put(o, "num_intervals", want["num_intervals"])
        elif e == "pts":
            get(o, "interval_points")[1] = want["interval_points"][1]
        elif e == "log":
            put(get(o, "logging_config"), "sim_name", want["logging_config"][0])
        elif e == "bound":
            for p, b in zip(get(o, "bounds"), want["bounds"]):
                if b[2]:
                    get(p, "values")[0][0] = b[3][0]
                elif list(get(p, "values")) != [b[3][0], b[4][0]]:
                    put(p, "values", (b[3][0], b[4][0]))
        elif e == "bc":
            for p, b in zip(get(o, "boundary_conditions"), want["boundary_conditions"]):
                if get(p, "value") != b[3]:
                    put(p, "value", b[3])
        elif e == "scale":
            for p, b in zip(get(o, "scales"), want["scales"]):
                if get(p, "value") != b[2]:
                    put(p, "value", b[2])

    def do_edit(self, op):
        self.edit(self.K[op["i"] - 1], op)

    def do_editdict(self, op):
        self.edit(self.D[op["j"] - 1][1], op)

    def do_skip(self, op):
        pass

    def do_use(self, op):
        from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig
        cfg = self.K[op["i"] - 1]
        before = frozen(cfg)
        kind = [k for k, v in classes().items() if v[0] is type(cfg)][0]
        first, res = None, []
        for turn in range(2):
            self.no += 1
            ocp = self.problem(kind, cfg)
            res.append((np.array(ocp.lb), np.array(ocp.ub), ocp.num_con, ocp.num_intervals, ocp.backend, ocp.is_condensed))
            if frozen(cfg) != before:
                raise Mismatch("building a problem altered its configuration", repr(before), repr(frozen(cfg)))
            s = ocp.model.get_group_names("states")[0]
            x = np.asarray(ocp.get_init_guess()) if kind != "Sim" else np.ones(ocp.num_dec)
            ocp.objective(x), ocp.constraints(x)
            ocp.update_bounds((BoundConfig("states", s, (-77.0, 77.0)),))
            ocp.update_boundary_conditions((BoundaryConditionConfig(0, "states", s, 1.0),))
            ocp.set_scales((ScaleConfig("states", s, 3.0),))
            ocp.set_normalized_mesh(np.linspace(0, 1, ocp.num_intervals + 1) ** 2)
            if kind == "LTC":
                ocp.set_track("B")
            for p in list(ocp.model.get_recursive_params().to_flat_dict()[0])[:1]:
                ocp.modify_model_param(p, ocp.model.get_recursive_params().get_param(p))
            ocp.objective(x), ocp.constraints(x)
            if frozen(cfg) != before:
                raise Mismatch("using a problem altered the configuration it was built from", repr(before), repr(frozen(cfg)))
        a, b = res
        if not (np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and a[2:] == b[2:]):
            raise Mismatch("two problems of one configuration differ", repr(a), repr(b))

    def problem(self, kind, cfg):
        from lumos.models.composition import ModelMaker
        cls = classes()[kind][1]
        if kind == "LTC":
            return cls(model_config=ModelMaker.make_config("SimpleVehicleOnTrack"), sim_config=cfg)
        if kind == "Drone":
            return cls(sim_config=cfg)
        if ((self.no - 1) // 2) % 3:
            from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
            return FixedMeshOCP(toy(), cfg, mesh_scale=2.0)
        return cls(toy(), cfg)

    def apply(self, o):
        self.altered = None
        fn = getattr(self, "do_" + o["op"]["k"])
        if o["ok"]:
            fn(o["op"])
        else:
            rejected("illegal configuration (%s)" % o["op"].get("bad"), lambda: fn(o["op"]))
        if self.altered:
            raise self.altered

    def check(self, rec):
        n = 0
        for i in range(3):
            if rec["K"][i]:
                n += compare("configuration %d" % (i + 1), expected(rec["K"][i][0]), self.K[i])
        for j in range(2):
            if rec["D"][j]:
                n += compare("dictionary %d" % (j + 1), expected(rec["D"][j][0]), self.D[j][1])
        return n


def job(hs):
    stub_models()

    def one(h):
        rp, n = Replay(), 0
        for rec in h:
            for o in (rec["hist"] or [rec["last"]]) if len(h) == 1 else [rec["last"]]:
                rp.apply(o)
            n += rp.check(rec)
        return n
    return walks.replay_all(one, hs)


def main(chk):
    out = chk.tmp("bounds.jsonl")
    chk.tlc("BoundCases", constants=dict(Long=not chk.quick), invariants=["Design", "Out"], env={"VERIF_OUT": out}, workers=8)
    cases = sorted(read_jsonl(out), key=lambda c: json.dumps(c, sort_keys=True))
    walks.report(chk, pmap(bound_job, walks.chunked(list(enumerate(cases)), 200)))
    props = ("RejectedKeeps", "Local", "LocalD", "RoundTrip")
    ex = walks.generate(chk, "ConfigWalk", dict(Seed=chk.seed, Walks=chk.pick(6, 24), Len0=3, Exhaustive=True), ("LapOK", "Out"), props)
    rnd = walks.generate(chk, "ConfigWalk", dict(Seed=chk.seed + 1, Walks=chk.pick(200, 1500), Len0=chk.pick(20, 40), Exhaustive=False), ("LapOK", "Out"), props)
    chk.sample([r["last"]["op"]["k"] for r in rnd[0]])
    walks.report(chk, pmap(job, walks.chunked(ex, 40) + walks.chunked(rnd, 5)))
    chk.extra.update(bound_pairs=len(cases), exhaustive_histories=len(ex), random_histories=len(rnd))
