"""C04: histories of Bounds.tla replayed on real problems; after every step the bounds of every position are compared."""
import json

import numpy as np

import ocpstatic
from checklib import read_jsonl
from par import pmap

SPECS = ocpstatic.SPECS
INF = 1000000


def generate(chk, walks, length, exhaustive, seed):
    out = chk.tmp("bounds_%s_%d.jsonl" % (exhaustive, seed))
    chk.tlc("Bounds", constants=dict(Seed=seed, Walks=walks, Len0=length, Exhaustive=exhaustive),
            invariants=["Ordered", "Out"], properties=["RejectedKeeps", "BCsHold"], postcondition="PostModels",
            env={"VERIF_OUT": out}, workers=8)
    SPECS.clear()
    for d in read_jsonl(out + ".models"):
        SPECS.update({i + 1: m for i, m in enumerate(d["models"])})
    g = {}
    for r in read_jsonl(out):
        key = (r["w"], json.dumps([h["op"] for h in r["hist"]], sort_keys=True)) if exhaustive else r["w"]
        g.setdefault(key, []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g, key=str)]


def num(v):
    if 499000 <= v <= 501000:            # multiples of pi (DroneWalk)
        return (v - 500000) * np.pi
    if -401000 <= v <= -400000:          # tenths
        return (-400000 - v) / 10.0
    return np.inf if v >= INF else -np.inf if v <= -INF else float(v)


def values(e):
    if e["kind"] == "scalar":
        return num(e["lo"][0]), num(e["hi"][0])
    return np.array([num(v) for v in e["lo"]]), np.array([num(v) for v in e["hi"]])


def bound(e, trick=False):
    from lumos.optimal_control.config import BoundConfig
    v = values(e)
    if trick:
        # an object that became inconsistent after it was created
        b = BoundConfig(e["g"], e["n"], (0.0, 0.0))
        b.values = v
        return b
    return BoundConfig(e["g"], e["n"], v)


def bc(e):
    from lumos.optimal_control.config import BoundaryConditionConfig
    return BoundaryConditionConfig(e["s"], e["g"], e["n"], num(e["v"]))


def apply(ocp, spec, op, step):
    k = op["k"]
    if k == "bounds":
        ocp.update_bounds(tuple(bound(e, step % 2 == 0) for e in op["l"]))
    elif k == "bc":
        ocp.update_boundary_conditions(tuple(bc(e) for e in op["l"]))
    elif k == "set":
        fn = {"states": ocp.set_state_bounds, "inputs": ocp.set_input_bounds, "con_outputs": ocp.set_con_output_bounds}[op["g"]]
        fn(op["n"], op["s"], (float(op["lo"]), float(op["hi"])))
    elif k == "scales":
        from lumos.optimal_control.config import ScaleConfig
        ocp.set_scales((ScaleConfig("states", spec["states"][0], 4.0),))
    elif k == "mesh":
        ocp.set_normalized_mesh()
    elif k == "eval":
        x = np.arange(ocp.num_dec, dtype=float)
        ocp.objective(x), ocp.constraints(x), ocp.jacobian(x), ocp.hessian(x, np.ones(ocp.num_con), 1.0)
    elif k == "param":
        p = spec["params"][0]
        ocp.modify_model_param(p["path"], 1.0 if p["n"] == 0 else np.ones(p["n"]))


def job(arg):
    recs, exhaustive, backend = arg
    cfg = recs[0]["cfg"]
    spec = SPECS[cfg["m"]]
    where = []

    def run():
        import ocpkit as K
        n = 0
        ocp = None
        for rec in recs:
            for o in (rec["hist"] if exhaustive else [rec["last"]]):
                where.append(o)
                op = o["op"]
                if op["k"] == "init":
                    ocp = K.make_ocp(cfg, spec, backend, bounds=tuple(bound(e) for e in op["bounds"]),
                                     boundary_conditions=tuple(bc(e) for e in op["bcs"]))
                elif o["ok"]:
                    apply(ocp, spec, op, len(where))
                else:
                    K.rejected("illegal %s" % json.dumps(op), lambda: apply(ocp, spec, op, len(where)))
            lo, hi = np.array([num(v) for v in rec["lo"]]), np.array([num(v) for v in rec["hi"]])
            for what, e, obs in (("lower bounds", lo, ocp.lb), ("upper bounds", hi, ocp.ub)):
                if np.shape(obs) != np.shape(e) or not np.array_equal(e, np.asarray(obs, dtype=float)):
                    bad = [int(i) for i in np.nonzero(np.asarray(obs) != e)[0]] if np.shape(obs) == np.shape(e) else "shape"
                    raise K.Mismatch("%s at positions %s" % (what, bad), e.tolist(), np.asarray(obs).tolist())
            for g in ("states", "inputs", "states_dot", "con_outputs"):
                for name in ocp.model.get_group_names(g):
                    idx = ocp.dec_var_operator.get_var_index_in_dec(g, name)
                    if not np.array_equal(ocp.get_lb(g, name), lo[idx]) or not np.array_equal(ocp.get_ub(g, name), hi[idx]):
                        raise K.Mismatch("get_lb/get_ub of %s.%s" % (g, name))
            if not (np.shape(ocp.cl) == np.shape(ocp.cu) == (ocp.num_con,) and not np.any(ocp.cl) and not np.any(ocp.cu)):
                raise K.Mismatch("constraint bounds are not all zero")
            n += 2 * len(lo)
        return n
    r = ocpstatic.guarded(run, cfg, backend)
    if r["bad"]:
        r["bad"]["history"] = where
        if where:
            r["bad"]["what"] += " after %d steps, last %s" % (len(where) - 1, json.dumps(where[-1]["op"])[:200])
    return r


def main(chk):
    jobs = []
    for k in range(chk.pick(1, 2)):
        jobs += [(g, True, "custom") for g in generate(chk, chk.pick(8, 30), 3, True, chk.seed + 31 * k)]
    hist = len(jobs)
    groups = generate(chk, chk.pick(300, 2000), chk.pick(16, 40), False, chk.seed + 7)
    jobs += [(g, False, "custom") for g in groups]
    jobs += [(g, False, "casadi") for g in groups[:6] if g[0]["cfg"]["sch"] != "ST4"]
    chk.sample([r["last"]["op"] for r in groups[0]][:4])
    ocpstatic.report(chk, pmap(job, jobs, chunksize=4))
    chk.extra["exhaustive_histories"] = hist
    chk.extra["random_histories"] = len(groups)
