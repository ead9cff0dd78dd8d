"""C22: histories of SolveWalk.tla; everything that crosses the boundary to the (scripted) solver is compared."""
import os
import random

import numpy as np

import c04
import c21
import ocpstatic
import ocpwalk
import walks
from checklib import read_jsonl
from par import pmap

NUMERIC = {"max_iter": int, "tol": float, "print_level": int, "acceptable_tol": float}
TIMES = dict(nlp_time="Total seconds in NLP function evaluations            =     %.3f\n",
             ipopt_time="Total seconds in IPOPT (w/o function evaluations)    =     %.3f\n")


def option(o):
    return NUMERIC.get(o["n"], str)(o["v"])


class Replay(ocpwalk.Replay):
    def __init__(self, rec0, backend):
        import fakesolver
        import ocpkit as K
        self.K, self.backend, self.parts, self.exports = K, backend, {}, 0
        self.cfg0 = rec0["cfg0"]
        self.spec = ocpwalk.SPECS[self.cfg0["m"]]
        self.model = K.make_model(self.spec)
        st = rec0["start"]
        self.hessian = "exact" if self.cfg0["key"] % 2 else "limited-memory"
        self.ocps = [K.make_ocp(self.cfg0, self.spec, backend, model=self.model, hessian_approximation=self.hessian,
                                bounds=tuple(c04.bound(e) for e in st["bounds"]),
                                boundary_conditions=tuple(c04.bc(e) for e in st["bcs"]))]
        self.n = self.ocps[0].num_dec
        self.fake = fakesolver
        fakesolver.install(None)
        self.defaults = None
        self.step = 0

    def do_B(self, op):
        self.step += 1
        c04.apply(self.ocps[0], self.spec, op["b"], self.step)

    def do_dropall(self, op):
        for n in op["names"]:
            self.ocps[0].delete_objective(n)

    def con_bounds(self, rec):
        """the user's bounds on the added equations, zero on the problem's own"""
        ocp = self.ocps[0]
        off = self.K.offsets(ocp)
        lo, hi = np.zeros(ocp.num_con), np.zeros(ocp.num_con)
        for r in rec["rows"]:
            lo[off[r["name"]]], hi[off[r["name"]]] = r["lo"], r["hi"]
        return lo, hi

    def after_parts(self, rec):
        ocp = self.ocps[0]
        ocp.cl, ocp.cu = self.con_bounds(rec)

    def do_solve(self, op):
        K, ocp, rec = self.K, self.ocps[0], self.rec
        s = np.array(rec["s"], dtype=float) / 4.0
        sol = np.array(op["sol"], dtype=float) / s
        seen = {}

        def script(nlp, x0):
            pb = nlp.problem
            seen.update(x0=x0.copy(), given=nlp.given, options=dict(nlp.options))
            seen["f"] = pb.objective(np.array(x0))
            seen["g"] = np.asarray(pb.gradient(np.array(x0)))
            seen["c"] = np.asarray(pb.constraints(np.array(x0)))
            seen["structure"] = [np.shape(a) for a in pb.jacobianstructure()], np.shape(pb.jacobian(np.array(x0)))
            seen["hstructure"] = [np.shape(a) for a in pb.hessianstructure()], np.shape(pb.hessian(np.array(x0), np.ones(nlp.given["m"]), 1.0))
            for k in range(op["iters"]):
                pb.objective(np.array(sol))
                pb.intermediate(0, k, *([0.25] * 9))
            seen["written"] = None
            f = nlp.options.get("output_file")
            if f and nlp.options.get("print_level", 5) >= 3:
                times = {k: (op["key"] % 1000 + q) / 8.0 for q, k in enumerate(TIMES)}
                with open(f, "w") as out:
                    out.write("Number of Iterations....: 3\n")
                    out.write("".join(TIMES[k] % v for k, v in times.items()))
                seen["written"] = times
            ret = sol.copy()
            info = dict(status=op["status"], status_msg=b"scripted", x=ret, g=seen["c"], obj_val=1.5, mult_g=np.zeros(nlp.given["m"]),
                        mult_x_L=np.zeros(nlp.given["n"]), mult_x_U=np.zeros(nlp.given["n"]), mark=op["key"])
            if op["warm"]:
                r = np.random.RandomState(op["key"])
                info.update({k: r.randint(-9, 10, size=np.shape(info[k])) / 4.0 for k in ("mult_g", "mult_x_L", "mult_x_U")})
                seen["mult"] = {k: info[k].copy() for k in ("mult_g", "mult_x_L", "mult_x_U")}
            return ret, info
        self.fake.FakeSolver.script = staticmethod(script)
        self.fake.FakeSolver.made = []
        x0 = np.array(op["x0"], dtype=float)
        keep = x0.copy()
        user = {o["n"]: option(o) for o in op["opts"]}
        if op["form"] == "none":
            ocp.get_init_guess = lambda: x0
        self.last_seen = (op, seen, user, s)
        for f in os.listdir("."):
            if f.endswith(".out"):
                os.remove(f)
        if op["form"] == "pos":
            r = ocp.solve(x0, **user)
        elif op["form"] == "kw":
            r = ocp.solve(init_guess=x0, **user)
        else:
            r = ocp.solve(**user)
        x, info = r
        K.same("solution returned", op["sol"], x)
        if info["status"] != op["status"] or info.get("mark") != op["key"] or info.get("obj_val") != 1.5:
            raise K.Mismatch("information returned", [op["status"], op["key"]], {k: str(v) for k, v in info.items()})
        n = info["num_iter"]
        if (op["iters"] and n != op["iters"] - 1) or (not op["iters"] and n not in (None, 0, -1)):
            raise K.Mismatch("iteration count returned", op["iters"] - 1, n)
        if seen["written"] and seen["options"].get("print_timing_statistics") == "yes" and seen["options"].get("print_level") >= 4:
            for k, v in seen["written"].items():
                if info.get(k) != v:
                    raise K.Mismatch("%s returned" % k, v, info.get(k))
        if not np.array_equal(x0, keep):
            raise K.Mismatch("the starting point passed in was changed", keep.tolist(), x0.tolist())
        if op["warm"]:
            self.again(op, user, x, info, seen["mult"], s)

    def again(self, op, user, x, info, mult, s):
        """the answer and its multipliers start another solve: the solver gets back what it returned"""
        K, ocp = self.K, self.ocps[0]
        for k, v in mult.items():
            K.same("%s returned" % k, v, info[k])
        names = [n for n in (("lagrange", "mult_g"), ("zl", "mult_x_L"), ("zu", "mult_x_U"))
                 if op["warm"] == "all" or (op["warm"] == "lagrange") == (n[0] == "lagrange")]
        got = {}

        def script(nlp, x0):
            got.update(nlp.solves[-1], n=len(nlp.solves), f=nlp.problem.objective(np.array(x0)))
            return x0 + 1.0, dict(status=0, status_msg=b"scripted", x=x0 + 1.0, g=0.0, obj_val=2.5, mult_g=0.0, mult_x_L=0.0, mult_x_U=0.0)
        self.fake.FakeSolver.script = staticmethod(script)
        user = dict(user, print_level=0)
        x2, info2 = ocp.solve(x, **{n: info[m] for n, m in names}, **user)
        for n, m in names:
            K.same("%s of a warm start" % n, mult[m], np.asarray(got[n], dtype=float))
        for n in {"lagrange", "zl", "zu"} - {n for n, _ in names}:
            if np.size(got[n]):
                raise K.Mismatch("%s of a warm start without them" % n, [], np.asarray(got[n]).tolist())
        K.same("starting point of a warm start", np.array(op["sol"]) / s, got["x"])
        K.same("solution of a warm start", np.array(op["sol"]) + s, x2)
        if info2.get("obj_val") != 2.5 or info2.get("num_iter") not in (None, 0, -1):
            raise K.Mismatch("information of a warm start", 2.5, {k: str(v) for k, v in info2.items()})

    def seen(self):
        """what the solver was given; also when the solve ended with an error"""
        op, seen, user, s = self.last_seen
        K, rec, ocp = self.K, self.rec, self.ocps[0]
        if not seen:
            raise K.Mismatch("the solver was not called")
        g = seen["given"]
        K.same("starting point given to the solver", np.array(op["x0"]) / s, seen["x0"])
        for k, e in (("lb", rec["lo"]), ("ub", rec["hi"])):
            e = np.array([c04.num(v) for v in e]) / s
            inf = np.isinf(e)
            o = g[k]
            if o.shape != e.shape or not np.array_equal(e[inf], o[inf]):
                raise K.Mismatch("%s given to the solver" % k, e.tolist(), o.tolist())
            K.same("%s given to the solver" % k, e[~inf], o[~inf])
        lo, hi = self.con_bounds(rec)
        K.same("constraint bounds given to the solver", np.concatenate([lo, hi]), np.concatenate([g["cl"], g["cu"]]))
        m = sum(len(b["val"]) for b in rec["evals"][0]["blocks"])
        if (g["n"], g["m"], seen["c"].size) != (rec["n"], m, m):
            raise K.Mismatch("sizes given to the solver", [rec["n"], m, m], [g["n"], g["m"], seen["c"].size])
        for k in ("structure", "hstructure"):
            a, b = seen[k]
            if len(a) != 2 or a[0] != b or a[1] != b:
                raise K.Mismatch("sizes of derivative values and structure", a, b)
        if rec["nobj"] == 0:
            K.same("objective of a feasibility problem", np.zeros(1 + rec["n"]), np.concatenate([[seen["f"]], seen["g"]]))
        got = seen["options"]
        if self.defaults is None:
            self.defaults = got
            if got.get("hessian_approximation") != self.hessian:
                raise K.Mismatch("hessian approximation given to the solver", self.hessian, got.get("hessian_approximation"))
        want = dict(self.defaults)
        want.update(user)
        if got != want:
            raise K.Mismatch("options given to the solver", str(want), str(got))
        return 3 * rec["n"] + 2 * m


def one(recs, backend):
    rng = random.Random(recs[0]["cfg"]["key"])
    rp = Replay(recs[0], backend)
    n = 0
    for rec in recs:
        rp.rec = rec
        op, ok = rec["last"]["op"], rec["last"]["ok"]
        if op["k"] == "solve" and not ok:
            rp.K.rejected("a solve that ends with status %d" % op["status"], lambda: rp.do_solve(op))
        else:
            rp.apply(rec["last"])
        if op["k"] == "solve":
            n += rp.seen()
        if op["k"] in ("addcon", "delcon") and ok:
            rp.after_parts(rec)
        n += rp.check(rec, rng, derivatives=op["k"] == "solve")
    return n


def job(arg):
    recs, backend = arg
    import logging
    logging.getLogger("lumos").setLevel(logging.CRITICAL)
    hist = [r["last"]["op"] for r in recs]

    def run():
        return one(recs, backend)
    r = ocpstatic.guarded(run, recs[0]["cfg"], backend)
    if r["bad"]:
        r["bad"]["history"] = hist
    return r


def generate(chk, walks_, length, seed):
    out = chk.tmp("solvewalk.jsonl")
    chk.tlc("SolveWalk", constants=dict(Mode="C22", Seed=seed, Walks=walks_, Len0=length, Exhaustive=False, WithDer=True),
            invariants=["TypeOK", "VOrdered", "VOut"], properties=["SolveKeeps", "VRejectedKeeps"], postcondition="PostModels",
            spec="VSpec", env={"VERIF_OUT": out}, workers=8)
    for d in read_jsonl(out + ".models"):
        ocpwalk.SPECS.update({i + 1: m for i, m in enumerate(d["models"])})
        ocpstatic.SPECS.update(ocpwalk.SPECS)
    g = {}
    for r in read_jsonl(out):
        g.setdefault(r["w"], []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g)]


def main(chk):
    hs = generate(chk, chk.pick(160, 1000), chk.pick(30, 60), chk.seed)
    jobs = [(h, "custom") for h in hs]
    real = [h for h in hs if h[0]["cfg"]["sch"] != "ST4"]
    jobs += [(h, "casadi") for h in real[:chk.pick(6, 30)]] + [(h, "jax") for h in real[6:6 + chk.pick(4, 20)]]
    jobs.sort(key=lambda j: j[1] == "custom")
    ocpstatic.report(chk, pmap(job, jobs, chunksize=2))
    chk.sample([r["last"]["op"]["k"] for r in hs[0]])
    # the same boundary for steady-state problems
    st = c21.generate(chk, chk.pick(48, 200), chk.pick(24, 50), chk.seed + 17)
    walks.report(chk, pmap(c21.job, walks.chunked(st, 4)))
