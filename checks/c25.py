"""C25: histories of DroneWalk.tla on the shipped drone problem (both compiled backends)."""
import random

import numpy as np

import c04
import c22
import ocpstatic
import ocpwalk
from checklib import read_jsonl
from ocpkit import TRANSCRIPTION, standin_available
from par import pmap


class Replay(c22.Replay):
    def __init__(self, rec0, backend):
        import fakesolver
        import ocpkit as K
        from lumos.models.tree_utils import ParameterTree
        from lumos.simulations.drone_simulation import DroneSimulation, DroneSimulationConfig
        self.K, self.backend, self.parts, self.exports = K, backend, {}, 0
        self.cfg0 = cfg = rec0["cfg0"]
        self.spec = spec = ocpwalk.SPECS[cfg["m"]]
        if cfg["sch"] == "ST4" and not standin_available():
            raise K.Skip()
        names = ["states." + n for n in spec["states"]] + ["inputs." + n for n in spec["inputs"]]
        st = rec0["start"]
        self.hessian = "exact" if cfg["key"] % 2 else "limited-memory"
        kw = dict(num_intervals=cfg["nI"], interval_points=np.array(cfg["pts"], dtype=float) / cfg["D"],
                  transcription=TRANSCRIPTION[cfg["sch"]], is_cyclic=cfg["cyc"],
                  non_cyclic_vars=[names[i - 1] for i in sorted(cfg["noncyc"])], is_condensed=cfg["cond"], backend=backend,
                  hessian_approximation=self.hessian)
        con = tuple(spec["outputs"][i - 1] for i in cfg["con"])
        if con != ("sin_theta",) or not st["default"]:
            kw["con_output_names"] = con
        if not st["default"]:
            kw.update(bounds=tuple(c04.bound(e) for e in st["bounds"]), boundary_conditions=tuple(c04.bc(e) for e in st["bcs"]))
        if cfg["key"] % 3:
            kw = dict(sim_config=DroneSimulationConfig(**kw))
        else:
            kw = dict(sim_config=DroneSimulation.get_sim_config(**kw))
        self.ocps = [DroneSimulation(model_params=ParameterTree({"gravity": float(cfg["par"][0])}), **kw)]
        self.model = self.ocps[0].model
        self.n = self.ocps[0].num_dec
        self.fake = fakesolver
        fakesolver.install(None)
        self.defaults = None
        self.step = 0

    def check(self, rec, rng, derivatives=True):
        K, ocp = self.K, self.ocps[0]
        angle = {p: np.arctan2(s, c) + 2 * np.pi * t for p, s, c, t in rec["angles"]}
        x = np.array(rec["x"], dtype=float)
        for p, a in angle.items():
            x[p] = a
        blocks = []
        add = {l["name"]: l["terms"] for l in rec["lin"]}
        for b in rec["evals"][0]["blocks"]:
            v = np.array(b["val"], dtype=float)
            for r, p, c in add.get(b["name"], ()):
                v[r] += c * angle[p]
            blocks.append(dict(b, val=v.tolist()))
        rec = dict(rec, x=x.tolist(), evals=[dict(rec["evals"][0], blocks=blocks)])
        n = super().check(rec, rng, derivatives)
        for name, e, o in (("lower", rec["lo"], ocp.lb), ("upper", rec["hi"], ocp.ub)):
            e, o = np.array([c04.num(v) for v in e]), np.asarray(o, dtype=float)
            if e.shape != o.shape or not np.array_equal(np.isinf(e), np.isinf(o)) or np.any(e[np.isinf(e)] != o[np.isinf(e)]):
                raise K.Mismatch(name + " bounds", e.tolist(), o.tolist())
            K.same(name + " bounds", e[np.isfinite(e)], o[np.isfinite(e)])
        K.same("total time", x[-1], ocp.get_total_time(x))
        return n + 2 * len(x) + 1 + self.guess(rec)

    def guess(self, rec):
        """the starting point is physical, has a duration, and satisfies the model's equations for the current parameters"""
        K, ocp = self.K, self.ocps[0]
        if "get_init_guess" in ocp.__dict__:
            return 0                        # replaced by the test of solve() without starting point
        g = np.asarray(ocp.get_init_guess(), dtype=float)
        if g.shape != (rec["n"],) or not np.all(np.isfinite(g)) or not g[-1] > 0:
            raise K.Mismatch("starting point", rec["n"], g.tolist())
        s = np.array(rec["s"], dtype=float) / 4.0
        c = np.asarray(ocp.constraints(g / s))[K.offsets(ocp)["model_algebra"]]
        if rec["cfg"]["cond"]:
            c = c[(len(rec["mesh"]) - 1) * 5:]
        K.same("model equations at the starting point", np.zeros(len(c)), c)
        return len(g) + len(c)


def job(arg):
    recs, backend = arg
    import logging
    logging.getLogger("lumos").setLevel(logging.CRITICAL)
    logging.getLogger("jax").setLevel(logging.CRITICAL)
    hist = [r["last"]["op"] for r in recs]

    def run():
        rng = random.Random(recs[0]["cfg"]["key"])
        rp = Replay(recs[0], backend)
        n = 0
        for rec in recs:
            rp.rec = rec
            op, ok = rec["last"]["op"], rec["last"]["ok"]
            if op["k"] == "solve" and not ok:
                rp.K.rejected("a solve that ends with status %d" % op["status"], lambda: rp.do_solve(op))
            else:
                rp.apply(rec["last"])
            if op["k"] == "solve":
                n += rp.seen()
                rp.ocps[0].__dict__.pop("get_init_guess", None)
            if op["k"] in ("addcon", "delcon") and ok:
                rp.after_parts(rec)
            n += rp.check(rec, rng, derivatives=True)
        return n
    r = ocpstatic.guarded(run, recs[0]["cfg"], backend)
    if r["bad"]:
        r["bad"]["history"] = hist
    return r


def generate(chk, walks_, length, seed):
    out = chk.tmp("dronewalk.jsonl")
    chk.tlc("DroneWalk", constants=dict(Mode="C25", Seed=seed, Walks=walks_, Len0=length, Exhaustive=False, WithDer=True),
            invariants=["TypeOK", "VOrdered", "UnitCircle", "Hover", "TimeIsScale", "DOut"], properties=["SolveKeeps", "VRejectedKeeps"],
            postcondition="PostModels", spec="DSpec", env={"VERIF_OUT": out}, workers=8)
    for d in read_jsonl(out + ".models"):
        ocpwalk.SPECS.update({i + 1: m for i, m in enumerate(d["models"])})
        ocpstatic.SPECS.update(ocpwalk.SPECS)
    g = {}
    for r in read_jsonl(out):
        g.setdefault(r["w"], []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g)]


def main(chk):
    hs = generate(chk, chk.pick(48, 400), chk.pick(24, 50), chk.seed)
    jobs = [(h, "casadi" if k % 2 else "jax") for k, h in enumerate(hs)]
    ocpstatic.report(chk, pmap(job, jobs, chunksize=1))
    chk.sample([r["last"]["op"]["k"] for r in hs[0]])
    chk.extra["default_configurations"] = sum(h[0]["start"]["default"] for h in hs)
