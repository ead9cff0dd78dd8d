"""C20: tracks of TrackCases.tla on the real track classes, histories of LapWalk.tla on real lap-time problems."""
import json
import os

import numpy as np

import ocpstatic
import walks
from c04 import bc, bound, INF
from checklib import read_jsonl
from ocpkit import TRANSCRIPTION, Mismatch, rejected, same
from par import pmap

TRK = 2000000
UNIT = 5.0
HEADS = [("# x_m", "y_m", "w_tr_right_m", "w_tr_left_m"), ("w_tr_left_m", "y_m", "w_tr_right_m", "# x_m"),
         ("y_m", "note", "# x_m", "w_tr_right_m", "w_tr_left_m"), ("# x_m", "y_m", "w_tr_left_m", "w_tr_right_m")]


def table(t):
    """curvature and heading of an imported centre line, from the integers of the specification"""
    curv = np.array(t["cnum"], dtype=float) / np.array(t["cq"], dtype=float) ** 1.5
    head = np.array(t["hw"], dtype=float) @ curv * (UNIT / 2) + np.arctan2(t["h0"][1], t["h0"][0])
    return dict(curv=curv, head=head, left=np.array(t["left"], dtype=float), right=np.array(t["right"], dtype=float))


def between(v, seg):
    return np.array([((g["den"] - g["num"]) * v[g["i"] - 1] + g["num"] * v[g["i"]]) / g["den"] for g in seg])


def ratio(l):
    return np.array([r["num"] / r["den"] for r in l], dtype=float)


# -- track classes ---------------------------------------------------------
def lookups(track, exp, q, what):
    n = 0
    for name, e in exp.items():
        fn = getattr(track, dict(curv="curvature_at", head="heading_at", left="left_distance_at", right="right_distance_at")[name])
        same("%s of %s at %s" % (name, what, q.tolist()), e, fn(q))
        for k in (0, 5, 11):
            same("%s of %s at one point" % (name, what), e[k], fn(float(q[k])))
        n += len(e)
    return n


def case(c):
    from lumos.models import tracks as T
    kind = c["kind"]
    if kind == "direct":
        arr = {k: np.array(c[k], dtype=float) for k in ("s", "curv", "head", "left", "right")}
        kw = {}
        if c["side"] % 2 == 1:
            kw["left_distance"] = arr["left"]
        if c["side"] >= 2:
            kw["right_distance"] = arr["right"]
        keep = {k: v.copy() for k, v in arr.items()}
        t = T.RaceTrack(x=np.zeros(len(c["s"])), y=np.zeros(len(c["s"])), s=arr["s"], curvature=arr["curv"], heading=arr["head"], **kw)
        q = np.array([x["qn"] / x["qd"] for x in c["q"]])
        n = lookups(t, dict(curv=ratio(c["ecurv"]), head=ratio(c["ehead"]), left=ratio(c["eleft"]), right=ratio(c["eright"])), q, "a table")
        same("length", float(c["total"]), t.total_distance)
        for k in arr:
            if not np.array_equal(arr[k], keep[k]):
                raise Mismatch("the table %s given was changed" % k, keep[k].tolist(), arr[k].tolist())
        return n
    if kind == "curvi":
        s, curv = np.array(c["s"], dtype=float), np.array(c["curv"], dtype=float) / 64
        t = T.RaceTrack.from_curvilinear(s, curv, heading0=float(c["h0"]))
        q = np.array([x["qn"] / x["qd"] for x in c["q"]])
        five = np.full(len(q), 5.0)
        n = lookups(t, dict(curv=ratio(c["ecurv"]) / 64, head=ratio(c["ehead"]) / 128, left=five, right=five), q, "a curvature table")
        same("length", float(c["total"]), t.total_distance)
        x, y, head = T.curvilinear_to_cartesian(s, curv, x0=3.0, y0=-2.0, heading0=float(c["h0"]))
        tab = np.array(c["head"], dtype=float) / 128
        same("heading from curvature", tab, head)
        ds = np.diff(s)
        for v, f, v0, nm in ((x, np.cos(tab), 3.0, "x"), (y, np.sin(tab), -2.0, "y")):
            same("%s from curvature" % nm, v0 + np.concatenate([[0.0], np.cumsum(ds * (f[1:] + f[:-1]) / 2)]), v)
        return n + 3 * len(s)
    if kind == "cart":
        t = c["t"]
        e = table(t)
        x, y = np.array(t["x"], dtype=float), np.array(t["y"], dtype=float)
        s, curv, head = T.cartesian_to_curvilinear(x, y)
        same("distances from points", np.array(t["s"]) * UNIT, s)
        same("curvature from points", e["curv"], curv)
        same("heading from points", e["head"], head)
        q = np.array([v["qn"] / v["qd"] for v in c["q"]]) * UNIT
        n = 3 * len(s)
        for given in (True, False):
            tr = T.RaceTrack.from_cartesian(x, y, e["left"] if given else None, e["right"] if given else None)
            exp = {k: between(e[k] if given or k in ("curv", "head") else np.full(len(s), 5.0), c["seg"]) for k in e}
            n += lookups(tr, exp, q, "a centre line")
            same("length", c["total"] * UNIT, tr.total_distance)
        return n
    if kind == "const":
        t = T.ConstCurvTrack(curvature=c["curv"] / 8, start_heading=c["h0"] / 8, half_width=float(c["width"]))
        for q, e in zip(c["q"], c["ehead"]):
            same("heading at constant curvature", e / 8, t.heading_at(float(q)))
            same("constant curvature", c["curv"] / 8, t.curvature_at(float(q)))
        return 10
    if kind == "motion":
        from lumos.models.kinematics import TrackPosition2D
        if not c["ok"]:
            return 0
        m = TrackPosition2D()
        eta = float(np.arctan2(c["dir"][1], c["dir"][0]))
        r = m.forward(dict(time=7.0, n=float(c["n"]), eta=eta),
                      dict(vx=float(c["vx"]), vy=float(c["vy"]), yaw_rate=float(c["yr"]), track_curvature=c["c"] / 20, track_heading=float(c["hd"])), 0.0)
        for k, e in (("time", c["time"]), ("n", c["dn"]), ("eta", c["deta"])):
            same("rate of %s along the track" % k, e["num"] / e["den"], r.states_dot[k])
        same("yaw angle", eta + c["hd"], r.outputs["yaw_angle"])
        same("curvature output", c["c"] / 20, r.outputs["curvature"])
        return 5
    raise RuntimeError(kind)


def case_job(cases):
    out = []
    for c in cases:
        try:
            out.append(dict(n=case(c), bad=None))
        except Mismatch as m:
            out.append(dict(n=1, bad=dict(what="%s [%s]" % (m.what, c["kind"]), expected=m.exp, observed=m.obs, case=c)))
        except Exception as e:
            import traceback
            out.append(dict(n=1, bad=dict(what="%r raised [%s]" % (e, c["kind"]), case=c, trace=traceback.format_exc()[-1500:])))
    return out


# -- lap-time problems -----------------------------------------------------
def csv(op, no):
    """write the track file of an operation, return its path"""
    t, bad = op["t"], op.get("bad", "")
    path = os.path.join(os.getcwd(), "track_%d_%d.csv" % (os.getpid(), no))
    rows = [{"# x_m": str(x), "y_m": "%.1f" % y, "w_tr_left_m": str(l), "w_tr_right_m": str(r), "note": "7"}
            for x, y, l, r in zip(t["x"], t["y"], t["left"], t["right"])]
    head = HEADS[op["fmt"]]
    if bad == "missing":
        return path + ".none"
    if bad == "nocolumn":
        head = [h for h in head if h != "y_m"]
    if bad == "crossing":
        for r in rows:
            r["w_tr_right_m"] = "-20"
    if bad == "duplicate":
        rows.insert(1, rows[0])
    if bad == "nan":
        rows[0]["w_tr_left_m"] = "nan"
    if bad == "onerow":
        rows = rows[:1]
    with open(path, "w") as f:
        f.write(",".join(head) + "\n" + "".join(",".join(r[h] for h in head) + "\n" for r in rows))
    return path


def stub():
    """the custom backend asks the user for model derivatives; here they are not looked at"""
    from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack as V
    none = (np.zeros(0, dtype=int), np.zeros(0, dtype=int))
    V._implicit_jacobianstructure = lambda self, *a: none
    V._implicit_hessianstructure = lambda self, *a: none
    V._implicit_jac = lambda self, *a: np.zeros(0)
    V._implicit_hess = lambda self, *a: np.zeros(0)


def scales(l):
    from lumos.optimal_control.config import ScaleConfig
    return tuple(ScaleConfig(e["g"], e["n"], e["k"] / 4.0) for e in l)


def build(c, op, backend, no):
    from lumos.models.composition import ModelMaker
    from lumos.simulations.laptime_simulation import LaptimeSimulation
    path = csv(op, no)
    cfg = LaptimeSimulation.get_sim_config(
        track=path, num_intervals=c["nI"], interval_points=np.array(op["pts"], dtype=float) / c["D"],
        transcription=TRANSCRIPTION[c["sch"]], is_cyclic=c["cyc"], non_cyclic_vars=list(c["nocyc"]), is_condensed=c["cond"],
        backend=backend, con_output_names=tuple(c["cons"]), scales=scales(op["scales"]), bounds=tuple(bound(e) for e in op["bounds"]),
        boundary_conditions=tuple(bc(e) for e in op["bcs"]))
    return LaptimeSimulation(model_config=ModelMaker.make_config("SimpleVehicleOnTrack"), sim_config=cfg)


def apply(ocp, c, op, no):
    k = op["k"]
    if k == "track":
        path = csv(op, no)
        ocp.set_track(path)
        os.remove(path)
    elif k == "bounds":
        ocp.update_bounds(tuple(bound(e, True) for e in op["l"]))
    elif k == "bc":
        ocp.update_boundary_conditions(tuple(bc(e) for e in op["l"]))
    elif k == "mesh":
        ocp.set_normalized_mesh(np.array(op["pts"], dtype=float) / c["D"])
    elif k == "scales":
        ocp.set_scales(scales(op["l"]))
    elif k == "param":
        ocp.modify_model_param("vehicle.vehicle_mass", float(op["v"]))


def expected_bounds(rec, ocp, e):
    """(lower, upper) of every position; what the track gives filled in"""
    lo, hi = np.array(rec["lo"], dtype=float), np.array(rec["hi"], dtype=float)
    lo[lo <= -INF] = -np.inf
    hi[(hi >= INF) & (hi < TRK)] = np.inf
    for g, n, a, b in (("inputs", "track_curvature", e["curv"], e["curv"]), ("inputs", "track_heading", e["head"], e["head"]),
                       ("states", "n", -e["right"], e["left"])):
        idx = np.asarray(ocp.dec_var_operator.get_var_index_in_dec(g, n))
        for k, i in enumerate(idx):
            if lo[i] == TRK:
                lo[i], hi[i] = a[k], b[k]
    if np.any(lo == TRK) or np.any(hi == TRK):
        raise RuntimeError("layout of the specification and the problem differ")
    return lo, hi


def compare(what, exp, obs):
    obs = np.asarray(obs, dtype=float)
    if obs.shape != exp.shape:
        raise Mismatch(what + " (shape)", exp.shape, obs.shape)
    ok = (exp == obs) | (np.abs(exp - obs) <= 1e-9 * (1 + np.abs(np.where(np.isfinite(exp), exp, 0))))
    if not np.all(ok):
        raise Mismatch("%s at positions %s" % (what, np.nonzero(~ok)[0].tolist()), exp[~ok].tolist(), obs[~ok].tolist())


def check(ocp, rec, rng):
    import ocpkit as K
    c = rec["c"]
    tab = table(rec["trk"])
    e = {k: between(v, rec["seg"]) for k, v in tab.items()}
    dist = np.array(rec["mesh"], dtype=float) / rec["dd"] * rec["total"] * UNIT
    same("distance mesh", dist, ocp.distance_mesh)
    same("mesh", dist, ocp.get_mesh())
    lo, hi = expected_bounds(rec, ocp, e)
    compare("lower bounds", lo, ocp.lb)
    compare("upper bounds", hi, ocp.ub)
    N = rec["stages"]
    # initial guess: along the centre line of the current track at constant speed
    x0 = np.asarray(ocp.get_init_guess())
    same("size of the initial guess", rec["n"], x0.size)
    v = ocp.dec_var_operator.unflatten_var(x0)
    for g, n, exp in (("states", "time", dist / 50), ("states", "n", 0 * dist), ("states", "vx", 0 * dist + 50),
                      ("inputs", "track_curvature", e["curv"]), ("inputs", "track_heading", e["head"]),
                      ("states_dot", "time", 0 * dist + 0.02), ("states_dot", "eta", -e["curv"])):
        obs = x0[np.asarray(ocp.dec_var_operator.get_var_index_in_dec(g, n))]
        same("initial guess of %s.%s" % (g, n), exp, obs)
    # objective: lap time plus the mean squared steering
    x = x0 + rng.uniform(-0.5, 0.5, size=x0.shape)
    t1, t0 = rec["time"]
    steer = np.array(rec["steer"])
    s = np.array(rec["s"], dtype=float) / 4              # the solver's numbers are the physical ones over the scales
    same("objective", x[t1] - x[t0] + np.sum(x[steer] ** 2) / N, ocp.objective(x / s))
    grad = np.zeros(rec["n"])
    grad[t1] += 1
    grad[t0] -= 1
    grad[steer] += 2 * x[steer] / N
    same("gradient", grad * s, ocp.gradient(x / s))
    H = np.zeros((rec["n"], rec["n"]))
    H[steer, steer] = 2 * 3.0 / N * s[steer] ** 2
    if ocp.backend == "custom":
        same("hessian of the objective", H, K.obs_hess(ocp, x / s, np.zeros(ocp.num_con), 3.0))
    # integration equations over the length of the track, cyclic equations
    con = np.asarray(ocp.constraints(x / s))
    off = K.offsets(ocp)
    if not c["cond"]:
        u = ocp.dec_var_operator.unflatten_var(x)
        A, B = np.array(rec["sch"]["A"], dtype=float) / rec["sch"]["K"], np.array(rec["sch"]["B"], dtype=float) / rec["sch"]["K"]
        W = A.shape[0]
        want = []
        for b in range(c["nI"]):
            h = (c["pts"][b + 1] - c["pts"][b]) / c["D"] * rec["total"] * UNIT
            want.append(A @ u.states[b * W:b * W + W + 1] - h * (B @ u.states_dot[b * W:b * W + W + 1]))
        ss = np.array(rec["ss"], dtype=float) / 4
        same("integration equations", np.ravel(want / ss), con[off["continuity"]])
    if c["cyc"]:
        cyc = np.array(rec["cyc"])
        same("cyclic equations", np.abs(x[cyc[:, 1]] - x[cyc[:, 0]]), np.abs(con[off["cyclic"]]))
    elif "cyclic" in off and len(off["cyclic"]):
        raise Mismatch("cyclic equations in a problem that is not cyclic")
    return 2 * rec["n"] + 10 * N


def job(arg):
    recs, exhaustive, backend = arg
    where = []

    def run():
        if backend == "custom":
            stub()
        rng = np.random.RandomState(recs[0]["w"])
        n, ocp = 0, None
        for rec in recs:
            for o in (rec["hist"] if exhaustive else [rec["last"]]):
                where.append(o)
                op = o["op"]
                if op["k"] == "init":
                    ocp = build(rec["c"], op, backend, 0)
                elif o["ok"]:
                    apply(ocp, rec["c"], op, len(where))
                else:
                    rejected("illegal %s" % json.dumps(op)[:200], lambda: apply(ocp, rec["c"], op, len(where)))
            n += check(ocp, rec, rng)
        return n
    r = guarded(run, recs[0]["c"], backend)
    if r["bad"]:
        r["bad"]["history"] = where
        r["bad"]["what"] += " after %d steps, last %s" % (len(where) - 1, json.dumps({k: v for k, v in where[-1]["op"].items() if k not in ("t", "bounds", "bcs")})[:200] if where else "")
    return [r]


def guarded(fn, c, backend):
    from checklib import short_exc
    tag = "%s, %s nI=%d pts=%s%s%s" % (backend, c["sch"], c["nI"], c["pts"], " cyclic" if c["cyc"] else "", " condensed" if c["cond"] else "")
    try:
        return dict(n=fn(), bad=None)
    except Mismatch as m:
        return dict(n=1, bad=dict(what="%s [%s]" % (m.what, tag), expected=m.exp, observed=m.obs, c=c))
    except Exception as e:
        import traceback
        return dict(n=1, bad=dict(what="%s raised [%s]" % (short_exc(e), tag), c=c, trace=traceback.format_exc()[-1500:]))


def main(chk):
    out = chk.tmp("cases.jsonl")
    chk.tlc("TrackCases", constants=dict(Seed=chk.seed, Cases=chk.pick(1500, 20000)), invariants=["Design", "Out"],
            env={"VERIF_OUT": out}, workers=8)
    cases = list(read_jsonl(out))
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    walks.report(chk, pmap(case_job, walks.chunked(cases, 100)))
    ex = walks.generate(chk, "LapWalk", dict(Seed=chk.seed, Walks=chk.pick(2, 8), Len0=3, Exhaustive=True),
                        invariants=("Sane", "Out"), properties=("RejectedKeeps", "TrackKeeps", "BCsHold", "ScalesOnly"))
    rnd = walks.generate(chk, "LapWalk", dict(Seed=chk.seed + 1, Walks=chk.pick(90, 500), Len0=chk.pick(14, 30), Exhaustive=False),
                         invariants=("Sane", "Out"), properties=("RejectedKeeps", "TrackKeeps", "BCsHold", "ScalesOnly"))
    jobs = [(h, True, "custom") for h in ex] + [(h, False, "custom") for h in rnd]
    jobs += [(h, False, "casadi") for h in rnd[:chk.pick(4, 16)]]
    chk.sample([r["last"]["op"]["k"] for r in rnd[0]])
    walks.report(chk, pmap(job, jobs, chunksize=2))
    chk.extra.update(track_cases=len(cases), exhaustive_histories=len(ex), random_histories=len(rnd))
