"""C05: the constraint vector is the model and scheme equations of Ocp.tla."""
import numpy as np

import ocpstatic
from par import pmap


def job(arg):
    import ocpkit as K
    cases, backend = arg
    cfg = cases[0]["cfg"]

    def run():
        n = 0
        ocp = K.make_ocp(cfg, ocpstatic.SPECS[cfg["m"]], backend)
        if ocp.num_dec != cases[0]["n"]:
            raise K.Mismatch("number of decision variables", cases[0]["n"], ocp.num_dec)
        par = cfg["par"]
        for case in cases:
            x = np.array(case["x"], dtype=float)
            if case["par"] != par:
                par = case["par"]
                K.set_params(ocp, ocpstatic.SPECS[cfg["m"]], case["par"])
            n += K.check_values(ocp, case, x)
            K.same("objective", case["obj"], ocp.objective(x))
            K.same("stage mesh", np.array(case["mesh"]) / case["meshden"] * (case["x"][-1] if case["free"] else cfg["ms"]),
                   ocp.get_mesh_from_dec_var(x))
        K.same("constraint bounds", np.zeros(ocp.num_con), ocp.cl)
        K.same("constraint bounds", np.zeros(ocp.num_con), ocp.cu)
        # arguments are not written to
        K.same("decision vector after evaluation", np.array(cases[-1]["x"], dtype=float), x)
        return n
    return ocpstatic.guarded(run, cfg, backend)


def main(chk):
    groups = ocpstatic.generate(chk, chk.pick(3, 4), chk.pick(2, 4), False, 100)
    jobs = [(g, b) for g in groups for b in ocpstatic.backends(chk, g[0]["cfg"], chk.pick(12, 60), chk.pick(4, 30))]
    jobs.sort(key=lambda j: j[1])
    ocpstatic.report(chk, pmap(job, jobs, chunksize=2))
    schemes(chk)
    chk.sample(groups[0][0]["cfg"])
    chk.extra["problems_built"] = {b: sum(1 for j in jobs if j[1] == b) for b in ("custom", "casadi", "jax")}


def schemes(chk):
    """Order and nodes of the schemes for any number of stages, judged by Trace_Scheme.tla"""
    import schemes as S
    S.check(chk)
