"""C07: condensed problems against CondBlock of Ocp.tla and against the full problem."""
import random

import numpy as np

import ocpstatic
from par import pmap


def job(arg):
    import ocpkit as K
    cases, backend = arg
    cfg = cases[0]["cfg"]
    spec = ocpstatic.SPECS[cfg["m"]]

    def run():
        n = 0
        ocp = K.make_ocp(cfg, spec, backend)
        full = K.make_ocp(dict(cfg, cond=False), spec, backend)
        op = ocp.dec_var_operator
        dots = op.get_group_indcies_in_dec("states_dot")
        K.same("states_dot pinned", np.zeros(len(dots)), ocp.lb[dots])
        K.same("states_dot pinned", np.zeros(len(dots)), ocp.ub[dots])
        rest = np.setdiff1d(np.arange(ocp.num_dec), dots)
        if not (np.array_equal(full.lb[rest], ocp.lb[rest]) and np.array_equal(full.ub[rest], ocp.ub[rest])):
            raise K.Mismatch("bounds of the other variables", full.lb[rest], ocp.lb[rest])
        ns, nst = len(spec["states"]), op.num_stages
        rng = random.Random(cfg["key"])
        par = cfg["par"]
        for case in cases:
            x = np.array(case["x"], dtype=float)
            if case["par"] != par:
                par = case["par"]
                K.set_params(ocp, spec, case["par"])
                K.set_params(full, spec, case["par"])
            n += K.check_values(ocp, case, x)
            n += K.check_derivatives(ocp, case, x, rng)
            # the values held in states_dot make no difference
            y = x.copy()
            y[dots] = [rng.choice([0.0, 7.5, -3.0, 100.0]) for _ in dots]
            K.same("constraints with other states_dot", ocp.constraints(x), ocp.constraints(y))
            n += K.check_derivatives(ocp, case, y, rng)
            J = K.obs_jac(ocp, y)
            K.same("derivatives with respect to states_dot", np.zeros((ocp.num_con, len(dots))), J[:, dots])
            # the full problem at the completed point
            v = op.unflatten_var(x)
            t = ocp.get_mesh_from_dec_var(x)
            ret = ocp.model.batched_forward(v.states, v.inputs, t, ocp.model.get_recursive_params())
            z = x.copy()
            z[dots] = np.asarray(ret.states_dot).ravel()
            cf, cc = full.split_constraints(full.constraints(z)), ocp.split_constraints(ocp.constraints(x))
            alg = np.reshape(cf["model_algebra"], (nst, -1))
            K.same("state derivative rows of the full problem", np.zeros((nst, ns)), alg[:, :ns], 1e-8)
            K.same("condensed against full", np.concatenate([cf["continuity"], alg[:, ns:].ravel()]), cc["model_algebra"], 1e-8)
            if cfg["cyc"]:
                K.same("cyclic against full", cf["cyclic"], cc["cyclic"])
            K.same("objective against full", full.objective(x), ocp.objective(x))
            K.same("gradient against full", full.gradient(x), ocp.gradient(x))
            n += 2 * ocp.num_con
        return n
    return ocpstatic.guarded(run, cfg, backend)


def main(chk):
    groups = [g for g in ocpstatic.generate(chk, chk.pick(3, 4), chk.pick(1, 3), True, 100, seed=chk.seed + 2000)
              if g[0]["cfg"]["cond"]]
    jobs = [(g, b) for g in groups for b in ocpstatic.backends(chk, g[0]["cfg"], chk.pick(12, 60), chk.pick(4, 30))]
    jobs.sort(key=lambda j: j[1])
    ocpstatic.report(chk, pmap(job, jobs, chunksize=2))
    chk.sample(groups[0][0]["cfg"])
    chk.extra["problems_built"] = {b: sum(1 for j in jobs if j[1] == b) for b in ("custom", "casadi", "jax")}
