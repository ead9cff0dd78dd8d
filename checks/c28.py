"""C28: problems of OptWalk.tla, whose optimum is known by its certificate, solved with the real solver."""
import json

import numpy as np

import ocpstatic
import walks
from checklib import read_jsonl, short_exc
from par import pmap

SPECS = ocpstatic.SPECS
INFTY = 1000000000
# relative to the largest entry of the trajectory
TOL = {"exact": 1e-6, "limited-memory": 1e-5}


INVS = {"OptWalk": ("OSpec", ["Feasible", "Convex", "Stationary", "Complementary", "NoBetter", "NoBetterFree", "OOut"]),
        "OptSteady": ("SSpec", ["SFeasible", "SStationary", "SNoBetter", "SOut"])}


def generate(chk, walks_, length, seed, module="OptWalk"):
    out = chk.tmp("%s_%d.jsonl" % (module, seed))
    spec, invs = INVS[module]
    chk.tlc(module, constants=dict(Mode="C28", Seed=seed, Walks=walks_, Len0=length, Exhaustive=False, WithDer=False),
            spec=spec, invariants=invs,
            postcondition="PostModels", env={"VERIF_OUT": out}, workers=8)
    SPECS.clear()
    for d in read_jsonl(out + ".models"):
        SPECS.update({i + 1: m for i, m in enumerate(d["models"])})
    g = {}
    for r in read_jsonl(out):
        g.setdefault(r["w"], []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g)]


class Replay:
    def __init__(self, rec, backend, results):
        import ocpkit as K
        self.K = K
        self.spec = SPECS[rec["cfg0"]["m"]]
        self.config_hess = ("exact", "limited-memory")[rec["w"] // 3 % 2]
        self.logged = rec["w"] % 8 == 5
        over = {}
        if self.logged:
            from lumos.optimal_control.config import LoggingConfig
            over["logging_config"] = LoggingConfig(log_every_nth_iter=rec["w"] // 8 % 3, sim_name="opt", results_dir="%s_%d_%s" % (results, rec["w"], backend))
        self.ocp = K.make_ocp(rec["cfg0"], self.spec, backend, hessian_approximation=self.config_hess, **over)
        self.last = None

    def cost(self, rec):
        from lumos.optimal_control.nlp import BaseObjective
        p, n = rec["pose"][0], rec["n"]
        H, c = np.array(p["quad"], dtype=float), np.array(p["lin"], dtype=float) / rec["q"]
        kw, hess = {}, lambda x: np.diag(H).ravel()
        if rec["w"] % 3:
            i = np.nonzero(H)[0]
            kw, hess = dict(hessian_structure=(i, i)), lambda x: H[i]
        return BaseObjective(num_in=n, objective=lambda x: float(0.5 * x @ (H * x) + c @ x), gradient=lambda x: H * x + c,
                             hessian=hess, **kw)

    def bounds(self, rec):
        from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig
        p, q, ocp = rec["pose"][0], float(rec["q"]), self.ocp
        lim = []
        for k in ("lo", "hi"):
            a = np.array(p[k], dtype=float)
            f = np.where(a >= INFTY, np.inf, np.where(a <= -INFTY, -np.inf, a / q))
            if rec["free"]:
                f[-1] = a[-1]
            lim.append(f)
        lo, hi = lim
        cfg, spec = rec["cfg"], self.spec
        ns, nu = len(spec["states"]), len(spec["inputs"])
        con = [spec["outputs"][i - 1] for i in cfg["con"]]
        nv = 2 * ns + nu + len(con)
        S = (rec["n"] - (1 if rec["free"] else 0)) // nv
        L, U = lo[:S * nv].reshape(S, nv), hi[:S * nv].reshape(S, nv)
        groups = [("states", spec["states"], 0), ("inputs", spec["inputs"], ns), ("con_outputs", con, 2 * ns + nu)]
        if not cfg["cond"]:
            groups.append(("states_dot", spec["states"], ns + nu))
        bs, bcs = [], []
        for g, names, o in groups:
            for i, n in enumerate(names):
                l, u = L[:, o + i].copy(), U[:, o + i].copy()
                if rec["last"]["op"]["bc"] and g == "states" and l[0] == u[0]:
                    bcs.append(BoundaryConditionConfig(0, g, n, float(l[0])))
                    l[0], u[0] = -np.inf, np.inf
                bs.append(BoundConfig(g, n, (l, u)))
        if rec["free"]:
            bs.append(BoundConfig("global", "mesh_scale", (lo[-1], hi[-1])))
        ocp.update_bounds(tuple(bs))
        if bcs:
            ocp.update_boundary_conditions(tuple(bcs))

    def scales(self, op):
        from lumos.optimal_control.config import ScaleConfig
        if op["k"] == "scales":
            self.ocp.set_scales(tuple(ScaleConfig(e["g"], e["n"], e["k"] / 4.0) for e in op["l"]))

    def run(self, rec):
        K, ocp = self.K, self.ocp
        op, cfg = rec["last"]["op"], rec["cfg"]
        if op["k"] == "init":
            return 0
        if op["first"] or op["k"] == "again":
            self.scales(op["scales"])
        if op["k"] == "pose":
            if op["mesh"]:
                ocp.set_normalized_mesh(np.array(cfg["pts"], dtype=float) / cfg["D"])
                if not rec["free"]:
                    ocp.set_mesh_scale(float(cfg["ms"]))
            if op["par"]:
                K.set_params(ocp, self.spec, cfg["par"])
            if rec["step"] > 1:
                ocp.delete_objective("user")
            if op["drop"]:
                ocp.delete_objective("time")
            ocp.add_objective("user", self.cost(rec))
            self.bounds(rec)
        if not op["first"] and op["k"] == "pose":
            self.scales(op["scales"])
        p, q = rec["pose"][0], float(rec["q"])
        want = np.array(p["x"], dtype=float) / q
        if rec["free"]:
            want[-1] = p["x"][-1]
        x0 = want + np.array(op["start"], dtype=float)
        if rec["free"]:
            x0[-1] = want[-1]
        hess = self.config_hess if op["hess"] == "config" else op["hess"]
        opts = dict(tol=1e-9, max_iter=300, print_level=0, output_file="", print_timing_statistics="no", sb="yes", fixed_variable_treatment="make_parameter",
                    acceptable_iter=0)
        if op["hess"] != "config":
            opts["hessian_approximation"] = op["hess"]
        keep = x0.copy()
        warm = {}
        if op["k"] == "again" and self.last is not None and rec["w"] % 2 and op["scales"]["k"] == "nop":
            # from where the last solve ended
            warm = {k: np.array(self.last[n]) for k, n in (("lagrange", "mult_g"), ("zl", "mult_x_L"), ("zu", "mult_x_U"))}
            opts["warm_start_init_point"] = "yes"
        x, info = ocp.solve(x0, **warm, **opts)
        self.last = info
        self.seen = dict(status=info["status"], iters=info["num_iter"], hess=hess)
        if not np.array_equal(keep, x0):
            raise K.Mismatch("the starting point was changed", keep.tolist(), x0.tolist())
        if hess == "limited-memory" and info["status"] not in (0, 1):
            self.seen["unjudged"] = True
            return 0
        if info["status"] not in (0, 1):
            raise K.Mismatch("the solver did not succeed on a convex problem (status %s, %s)" % (info["status"], info["status_msg"]))
        x = np.asarray(x, dtype=float)
        if x.shape != want.shape:
            raise K.Mismatch("size of the solution", want.shape, x.shape)
        size = 1 + np.abs(want).max()
        err = np.abs(x - want)
        self.seen["err"] = float(err.max() / size)
        if not np.all(np.isfinite(x)) or err.max() > TOL[hess] * size:
            raise K.Mismatch("solution differs from the optimum by %g at position %d" % (err.max(), int(err.argmax())), want.tolist(), x.tolist())
        H, c = np.array(p["quad"], dtype=float), np.array(p["lin"], dtype=float) / q
        f = 0.5 * want @ (H * want) + c @ want
        if rec["timed"]:
            if rec["free"]:
                f += want[-1]
            else:
                i = self.spec["states"].index("time")
                ns, nu = len(self.spec["states"]), len(self.spec["inputs"])
                nv = 2 * ns + nu + len(cfg["con"])
                f += want[len(want) - nv + i] - want[i]
        scale = 1 + abs(f) + np.abs(c) @ np.abs(want)
        if abs(info["obj_val"] - f) > 10 * TOL[hess] * scale:
            raise K.Mismatch("value of the optimum", f, info["obj_val"])
        return len(want) + 1 + (self.log(rec, want, f, size, scale) if self.logged and hess == "exact" else 0)

    def log(self, rec, want, f, size, scale):
        """the records of the solve end at the optimum"""
        import os
        import pandas as pd
        K, ocp, spec = self.K, self.ocp, self.spec
        d = pd.read_csv(os.path.join(ocp.logging_dir, "results.csv"))
        names = ["states." + n for n in spec["states"]] + ["inputs." + n for n in spec["inputs"]]
        ns, nu = len(spec["states"]), len(spec["inputs"])
        nv = 2 * ns + nu + len(rec["cfg"]["con"])
        V = want[:len(want) - (1 if rec["free"] else 0)].reshape(-1, nv)
        tol = 10 * TOL["exact"] * size
        K.same("trajectory in results.csv", V[:, :ns + nu], d[names].values, tol)
        cons = [c for c in d.columns if "_con." in c]
        K.same("constraints in results.csv", np.zeros((len(V), len(cons))), d[cons].values, tol)
        ms = want[-1] if rec["free"] else float(rec["cfg"]["ms"])
        K.same("mesh in results.csv", ms * np.array(rec["mesh"], dtype=float) / rec["meshden"], d["mesh"].values)
        m = pd.read_csv(os.path.join(ocp.logging_dir, "metrics_history.csv"))
        if not np.array_equal(m["iter_count"].values, np.arange(len(m))):
            raise K.Mismatch("iterations in metrics_history.csv", None, m["iter_count"].tolist())
        K.same("last objective in metrics_history.csv", f / scale, m["obj_value"].values[-1] / scale, 100 * TOL["exact"])
        return V.size


class Steady:
    """the same for a steady-state problem"""
    def __init__(self, rec):
        import ocpkit as K
        from lumos.optimal_control.model_solver import ModelSolver
        self.K = K
        cfg = rec["cfg"]
        self.spec = SPECS[cfg["m"]]
        model = K.make_model(self.spec)
        tree = model.get_recursive_params()
        for path, v in K.split_params(self.spec, [float(v) for v in cfg["par"]]):
            tree.set_param(path, v)
        model.set_recursive_params(tree)
        self.ps = ModelSolver(model, "casadi", con_outputs=[self.spec["outputs"][i - 1] for i in cfg["con"]])
        self.mine = []
        self.idx = [int(self.ps.get_var_idx(v["g"], v["n"])) for v in rec["names"]]

    def run(self, rec):
        from lumos.optimal_control.nlp import BaseObjective
        K, ps, op = self.K, self.ps, rec["last"]["op"]
        if op["k"] == "init":
            return 0
        n, names = rec["n"], rec["names"]
        p = rec["pose"][0]

        def put(v):
            out = np.empty(n)
            out[self.idx] = v
            return out

        def scales():
            for e in op["scales"]:
                ps.set_var_scale(e["v"]["g"], e["v"]["n"], e["k"] / 4.0)
        if op["first"]:
            scales()
        H, c = put(p["quad"]), put(p["lin"])
        if op["k"] == "pose":
            for name in self.mine:
                ps.delete_objective(name)
            self.mine = ["cost"]
            i = np.nonzero(H)[0]
            ps.add_objective("cost", BaseObjective(num_in=n, objective=lambda x: float(0.5 * x @ (H * x) + c @ x), gradient=lambda x: H * x + c,
                                                   hessian=lambda x: H[i], hessian_structure=(i, i)))
            for k, wt in p["own"]:
                self.mine.append(ps.add_obj_from_var(names[k]["g"], names[k]["n"], float(wt)))
            for v, lo, hi in zip(names, p["lo"], p["hi"]):
                lo = -np.inf if lo <= -INFTY else float(lo)
                hi = np.inf if hi >= INFTY else float(hi)
                ps.set_bounds(v["g"], v["n"], lo if lo == hi else (lo, hi))
        if not op["first"]:
            scales()
        want, tg = put(p["x"]), put(p["tg"])
        hess = ("exact", "limited-memory")[(rec["w"] + rec["step"]) % 3 == 0]
        x, info = ps.solve(want + put(op["start"]), tol=1e-9, max_iter=300, print_level=0, output_file="", print_timing_statistics="no", sb="yes",
                           fixed_variable_treatment="make_parameter", hessian_approximation=hess, acceptable_iter=0)
        self.seen = dict(status=info["status"], iters=info["num_iter"], hess=hess)
        if info["status"] not in (0, 1):
            if hess == "limited-memory":
                self.seen["unjudged"] = True
                return 0
            raise K.Mismatch("the solver did not succeed on a convex problem (status %s, %s)" % (info["status"], info["status_msg"]))
        size = 1 + np.abs(want).max()
        err = np.abs(np.asarray(x, dtype=float) - want)
        self.seen["err"] = float(err.max() / size)
        if not np.all(np.isfinite(x)) or err.max() > TOL[hess] * size:
            raise K.Mismatch("steady state differs from the optimum by %g" % err.max(), want.tolist(), np.asarray(x).tolist())
        for v, e in zip(names, p["x"]):
            if abs(ps.get_var(x, v["g"], v["n"]) - e) > TOL[hess] * size:
                raise K.Mismatch("get_var of %s.%s" % (v["g"], v["n"]), e, float(ps.get_var(x, v["g"], v["n"])))
        f = 0.5 * want @ (H * want) + (c + tg) @ want
        scale = 1 + abs(f) + np.abs(c + tg) @ np.abs(want)
        if abs(info["obj_val"] - f) > 10 * TOL[hess] * scale:
            raise K.Mismatch("value of the optimum", f, info["obj_val"])
        return 2 * n + 1


def job(arg):
    recs, backend, results = arg
    done, seen = [], []

    def run():
        n = 0
        r = Steady(recs[0]) if backend == "steady" else Replay(recs[0], backend, results)
        for rec in recs:
            done.append(rec["last"]["op"])
            r.seen = None
            try:
                n += r.run(rec)
            finally:
                if r.seen:
                    seen.append(r.seen)
        return n
    res = ocpstatic.guarded(run, recs[0]["cfg"], backend)
    if res["bad"]:
        res["bad"]["history"] = done
        res["bad"]["what"] += " in solve %d" % (len(done) - 1)
    res["seen"] = seen
    return res


def main(chk):
    hs = generate(chk, chk.pick(320, 2000), chk.pick(6, 10), chk.seed + 28)
    res = chk.tmp("opt_logs")
    jobs = [(h, "custom", res) for h in hs]
    jobs += [(h, "casadi", res) for h in hs[:chk.pick(16, 120)]]
    jobs += [(h[:3], "jax", res) for h in hs[20:20 + chk.pick(4, 30)]]
    steady = generate(chk, chk.pick(80, 500), chk.pick(6, 10), chk.seed + 29, "OptSteady")
    jobs += [(h, "steady", res) for h in steady]
    chk.sample([r["last"]["op"]["k"] for r in hs[0]])
    rs = list(pmap(job, jobs, chunksize=2))
    ocpstatic.report(chk, rs)
    seen = [s for r in rs for s in r["seen"]]
    chk.extra["solves"] = len(seen)
    chk.extra["unjudged"] = sum(1 for s in seen if s.get("unjudged"))
    chk.extra["largest_error"] = {k: max([s["err"] for s in seen if s["hess"] == k and "err" in s], default=0) for k in TOL}
    print(chk.extra["solves"], chk.extra["unjudged"], chk.extra["largest_error"])
