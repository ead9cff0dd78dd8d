"""C21: histories of SteadyWalk.tla replayed on real steady-state problems."""
import os
import random

import numpy as np

import ocpstatic
import ocpwalk
import walks
from checklib import read_jsonl
from par import pmap

INF = 999999


def num(v):
    return np.inf if v == INF else -np.inf if v == -INF else float(v)


class Replay(ocpwalk.Replay):
    def __init__(self, rec0):
        import fakesolver
        import ocpkit as K
        from lumos.optimal_control.model_solver import ModelSolver
        self.K, self.backend, self.parts, self.exports = K, "casadi", {}, 0
        self.Solver = ModelSolver
        cfg = self.cfg = self.cfg0 = rec0["cfg"]
        self.spec = ocpwalk.SPECS[cfg["m"]]
        self.model = K.make_model(self.spec)
        t = self.model.get_recursive_params()
        for path, v in K.split_params(self.spec, [float(q) for q in cfg["par"]]):
            t.set_param(path, v)
        self.model.set_recursive_params(t)
        self.con = [self.spec["outputs"][i - 1] for i in cfg["con"]]
        self.pb = self.make()
        self.ocps = [self.pb]
        self.n = rec0["n"]
        self.objnames = {}
        self.keep = []
        self.fake = fakesolver
        fakesolver.install(None)

    def make(self):
        if not self.con and self.cfg["key"] % 2:
            return self.Solver(self.model, "casadi")
        return self.Solver(model=self.model, backend="casadi", con_outputs=list(self.con))

    def do_scale(self, op):
        self.pb.set_var_scale(op["g"], op["n"], op["v"] / 4.0)

    def do_bounds(self, op):
        self.pb.set_bounds(op["g"], op["n"], float(op["lb"]) if op["one"] else (num(op["lb"]), num(op["ub"])))

    def do_addobj(self, op):
        o = op["o"]
        # the default weight is one
        name = self.pb.add_obj_from_var(o["g"], o["n"], weight=float(o["wt"])) if o["wt"] != 1 else self.pb.add_obj_from_var(o["g"], o["n"])
        self.objnames[(o["g"], o["n"], o["wt"])] = name

    def do_delobj(self, op):
        o = op["o"]
        self.pb.delete_objective(self.objnames.pop((o["g"], o["n"], o["wt"])))

    def do_addown(self, op):
        self.pb.add_objective(op["part"]["name"], self.part(op, ocpwalk.real_objective))

    def do_delown(self, op):
        self.pb.delete_objective(op["name"])

    def do_addcon(self, op):
        self.pb.add_constraints(op["part"]["name"], self.part(op, ocpwalk.real_constraints))
        # equations of one's own come without constraint bounds
        self.pb.set_cons()

    def do_delcon(self, op):
        self.pb.delete_constraints(op["name"])
        self.pb.set_cons()

    def do_twin(self, op):
        """another problem on the same model, with settings of its own"""
        other = self.make()
        other.set_bounds(op["g"], op["n"], float(op["v"]))
        other.set_var_scale("states", self.spec["states"][0], 7.0)
        other.add_obj_from_var(op["g"], op["n"], 2.0)
        self.keep.append(other)

    def do_solve(self, op):
        K = self.K
        s = self.s
        seen = {}
        sol = np.array(op["sol"], dtype=float) / s

        def script(nlp, x0):
            seen.update(x0=x0, given=nlp.given, options=dict(nlp.options))
            pb = nlp.problem
            g = np.asarray(pb.constraints(np.array(x0)))
            seen["cons"] = g.size
            seen["obj"] = pb.objective(np.array(x0)), pb.gradient(np.array(x0))
            for k in range(op["iters"]):
                pb.objective(np.array(sol))
                pb.intermediate(0, k, *([0.5] * 9))
            return sol.copy(), dict(status=op["status"], status_msg=b"scripted", x=sol.copy(), g=g, obj_val=3.0, mark=op["opt"])
        self.fake.FakeSolver.script = staticmethod(script)
        try:
            r = self.pb.solve(np.array(op["x0"], dtype=float), max_iter=op["opt"], print_level=0)
        finally:
            if seen:
                self.seen(op, seen)
        x, info = r
        K.same("solution returned", op["sol"], x)
        if info["status"] != op["status"] or info.get("mark") != op["opt"]:
            raise K.Mismatch("information returned", [op["status"], op["opt"]], {k: str(v) for k, v in info.items()})
        n = info["num_iter"]
        if (op["iters"] and n != op["iters"] - 1) or (not op["iters"] and n not in (None, 0, -1)):
            raise K.Mismatch("iteration count returned", op["iters"] - 1, n)

    def seen(self, op, seen):
        K, rec, s = self.K, self.rec, self.s
        g = seen["given"]
        K.same("starting point given to the solver", np.array(op["x0"]) / s, seen["x0"])
        for k in ("lb", "ub"):
            e = np.array([num(v) for v in rec[k]]) / s
            if not np.array_equal(np.isinf(e), np.isinf(g[k])) or not np.array_equal(np.sign(e[np.isinf(e)]), np.sign(g[k][np.isinf(e)])):
                raise K.Mismatch("%s given to the solver" % k, e.tolist(), g[k].tolist())
            f = np.isfinite(e)
            K.same("%s given to the solver" % k, e[f], g[k][f])
        m = sum(len(b["val"]) for b in rec["blocks"])
        K.same("constraint bounds given to the solver", np.zeros(2 * m), np.concatenate([g["cl"], g["cu"]]))
        if (g["n"], g["m"], seen["cons"]) != (rec["n"], m, m):
            raise K.Mismatch("sizes given to the solver", [rec["n"], m, m], [g["n"], g["m"], seen["cons"]])
        if seen["options"].get("max_iter") != op["opt"] or seen["options"].get("print_level") != 0:
            raise K.Mismatch("options given to the solver", op["opt"], str(seen["options"]))
        if rec["feas"]:
            K.same("objective of a feasibility problem", np.zeros(1 + rec["n"]), np.concatenate([[seen["obj"][0]], seen["obj"][1]]))

    def check(self, rec, rng):
        K, pb = self.K, self.pb
        n = 0
        x = np.array(rec["x"], dtype=float)
        s = np.array(rec["sc"], dtype=float) / 4.0
        ev = dict(blocks=rec["blocks"], obj=rec["obj"], objgrad=rec["objgrad"], objhess=rec["objhess"])
        n += self.check_one(pb, rec, ev, x, s, rng, True, "")
        K.same("number of variables", [rec["n"]], [pb.num_dec])
        names = [v["g"] + "." + v["n"] for v in rec["vars"]]
        if list(pb.input_names) != names:
            raise K.Mismatch("names of the variables", names, list(pb.input_names))
        for k, v in enumerate(rec["vars"]):
            K.same("value of %s" % names[k], [x[k]], [pb.get_var(x, v["g"], v["n"])])
            b = pb.get_bounds(v["g"], v["n"])
            e = (num(rec["lb"][k]), num(rec["ub"][k]))
            if tuple(b) != e:
                raise K.Mismatch("bounds of %s" % names[k], e, [float(q) for q in b])
        K.same("parameters stored in the model", rec["mpar"], K.flat_params(self.spec, self.model.get_recursive_params()))
        return n + 2 * len(names)


def one(recs):
    rng = random.Random(recs[0]["cfg"]["key"])
    rp = Replay(recs[0])
    n = 0
    if not recs[0]["hist"]:
        for rec in recs:
            rp.rec, rp.s = rec, np.array(rec["sc"], dtype=float) / 4.0
            rp.apply(rec["last"])
            n += rp.check(rec, rng)
    else:
        raise AssertionError
    return n


def job(hs):
    import logging
    logging.getLogger("lumos").setLevel(logging.ERROR)
    return walks.replay_all(one, hs)


def generate(chk, walks_, length, seed):
    out = chk.tmp("steady.jsonl")
    chk.tlc("SteadyWalk", constants=dict(Mode="C09", Seed=seed, Walks=walks_, Len0=length, Exhaustive=False, WithDer=True),
            invariants=["STypeOK", "SOut"], properties=["SRejectedKeeps", "OneAtATime", "SolveKeeps"], postcondition="PostModels",
            spec="SSpec", env={"VERIF_OUT": out}, workers=8)
    for d in read_jsonl(out + ".models"):
        ocpwalk.SPECS.update({i + 1: m for i, m in enumerate(d["models"])})
    g = {}
    for r in read_jsonl(out):
        g.setdefault(r["w"], []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g)]


def main(chk):
    hs = generate(chk, chk.pick(160, 1000), chk.pick(30, 60), chk.seed)
    hs.sort(key=lambda h: (h[0]["cfg"]["m"], str(h[0]["cfg"]["con"])))
    walks.report(chk, pmap(job, walks.chunked(hs, 4)))
    chk.sample([r["last"]["op"]["k"] for r in hs[0]])
