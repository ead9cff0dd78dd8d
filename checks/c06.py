"""C06: gradient, Jacobian and Hessian are the exact derivatives (Poly.tla) of the equations of Ocp.tla."""
import random

import numpy as np

import ocpstatic
from par import pmap


def job(arg):
    import ocpkit as K
    cases, backend = arg
    cfg = cases[0]["cfg"]
    seen = []

    def run():
        n = 0
        ocp = K.make_ocp(cfg, ocpstatic.SPECS[cfg["m"]], backend)
        rng = random.Random(cfg["key"])
        par = cfg["par"]
        for case in cases:
            x = np.array(case["x"], dtype=float)
            if case["par"] != par:
                par = case["par"]
                K.set_params(ocp, ocpstatic.SPECS[cfg["m"]], case["par"])
            g = np.zeros(case["n"])
            for c, v in case["objgrad"]:
                g[c] += v
            K.same("objective gradient", g, ocp.gradient(x))
            n += K.check_derivatives(ocp, case, x, rng, of=float(rng.randint(0, 3)), frozen_seen=seen)
            n += parts(ocp, case, x)
        return n

    def parts(ocp, case, x):
        """the compressed helpers agree with the aggregate"""
        off = K.offsets(ocp)
        n = 0
        for b in case["blocks"]:
            con = ocp._constraints[b["name"]]
            ex, fr = K.exp_jac(case, b)
            K.either("get_csc_jacobian of %s" % b["name"], ex, fr, con.get_csc_jacobian(x).toarray(), [])
            n += ex.size
        return n
    r = ocpstatic.guarded(run, cfg, backend)
    if seen:
        r["known"] = ["scaled-mesh-time-varying"]
        if not (cfg["cls"] == "scaled" and ocpstatic.SPECS[cfg["m"]]["meshdeg"] > 0):
            r["bad"] = dict(what="derivative with respect to the mesh scale missing [%s]" % ocpstatic.label(cfg), cfg=cfg)
    return r


def main(chk):
    groups = ocpstatic.generate(chk, chk.pick(3, 4), chk.pick(1, 3), True, 100, seed=chk.seed + 1000)
    jobs = [(g, b) for g in groups for b in ocpstatic.backends(chk, g[0]["cfg"], chk.pick(12, 60), chk.pick(4, 30))]
    jobs.sort(key=lambda j: j[1])
    ocpstatic.report(chk, pmap(job, jobs, chunksize=2))
    chk.sample(groups[0][0]["cfg"])
    chk.extra["problems_built"] = {b: sum(1 for j in jobs if j[1] == b) for b in ("custom", "casadi", "jax")}
