"""C03, C08, C09: histories of OcpWalk.tla replayed on real problems."""
import json
import os
import random

import numpy as np

import ocpstatic
from checklib import read_jsonl
from par import pmap

SPECS = ocpstatic.SPECS


def generate(chk, mode, walks, length, exhaustive, with_der, seed):
    out = chk.tmp("walk_%s_%s.jsonl" % (mode, exhaustive))
    chk.tlc("OcpWalk", constants=dict(Mode=mode, Seed=seed, Walks=walks, Len0=length, Exhaustive=exhaustive, WithDer=with_der),
            invariants=["TypeOK", "Out"], properties=["RejectedKeeps"], postcondition="PostModels",
            env={"VERIF_OUT": out}, workers=8)
    SPECS.clear()
    for d in read_jsonl(out + ".models"):
        SPECS.update({i + 1: m for i, m in enumerate(d["models"])})
    g = {}
    for r in read_jsonl(out):
        if exhaustive:
            g.setdefault((r["w"], json.dumps([h["op"] for h in r["hist"]], sort_keys=True)), []).append(r)
        else:
            g.setdefault(r["w"], []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g, key=str)]


def poly_val(p, x):
    return float(sum(m["c"] * np.prod([x[i] for i in m["p"]]) for m in p))


def poly_grad(p, x):
    g = np.zeros(len(x))
    for m in p:
        for k, i in enumerate(m["p"]):
            g[i] += m["c"] * np.prod([x[j] for q, j in enumerate(m["p"]) if q != k])
    return g


def poly_hess(p, n):
    H = np.zeros((n, n))          # degree <= 2
    for m in p:
        if len(m["p"]) == 2:
            i, j = m["p"]
            H[i, j] += m["c"]
            H[j, i] += m["c"]
    return H


def real_objective(part, n):
    from lumos.optimal_control.nlp import BaseObjective
    p = part["poly"]
    H = poly_hess(p, n)
    if part["dense"]:
        return BaseObjective(num_in=n, objective=lambda x: poly_val(p, x), gradient=lambda x: poly_grad(p, x),
                             hessian=lambda x: H.ravel())
    r, c = np.nonzero(np.triu(H))
    return BaseObjective(num_in=n, objective=lambda x: poly_val(p, x), gradient=lambda x: poly_grad(p, x),
                         hessian=lambda x: H[r, c], hessian_structure=(r, c))


def real_constraints(part, n):
    from lumos.optimal_control.nlp import BaseConstraints
    rows = part["rows"]
    Hs = [poly_hess(p, n) for p in rows]
    con = lambda x: np.array([poly_val(p, x) for p in rows])
    jac = lambda x: np.array([poly_grad(p, x) for p in rows])
    if part["dense"]:
        return BaseConstraints(num_in=n, num_con=len(rows), constraints=con, jacobian=lambda x: jac(x).ravel(),
                               hessian=lambda x, l: sum(a * H for a, H in zip(l, Hs)).ravel())
    used = np.zeros((len(rows), n), dtype=bool)
    for k, p in enumerate(rows):
        for m in p:
            used[k, m["p"]] = True
    jr, jc = np.nonzero(used)
    hr, hc = np.nonzero(np.triu(sum(np.abs(H) for H in Hs)))
    return BaseConstraints(num_in=n, num_con=len(rows), constraints=con, jacobian=lambda x: jac(x)[jr, jc],
                           hessian=lambda x, l: sum(a * H for a, H in zip(l, Hs))[hr, hc],
                           jacobian_structure=(jr, jc), hessian_structure=(hr, hc))


class Replay:
    def __init__(self, rec0, backend):
        import ocpkit as K
        self.K, self.backend = K, backend
        self.cfg0 = rec0["cfg0"]
        self.spec = SPECS[self.cfg0["m"]]
        self.model = K.make_model(self.spec)
        self.ocps = [K.make_ocp(self.cfg0, self.spec, backend, model=self.model)]
        self.n = self.ocps[0].num_dec
        self.exports = 0
        self.parts = {}

    def part(self, op, make):
        key = op["part"]["name"], op["part"]["id"]
        if key not in self.parts:
            self.parts[key] = make(op["part"], self.n)
        return self.parts[key]

    def apply(self, last):
        op, ok = last["op"], last["ok"]
        fn = getattr(self, "do_" + op["k"])
        if ok:
            fn(op)
        else:
            self.K.rejected("illegal %s" % json.dumps(op), lambda: fn(op))

    def do_init(self, op):
        pass

    do_nop = do_init

    def do_scales(self, op):
        from lumos.optimal_control.config import ScaleConfig
        self.ocps[0].set_scales(tuple(ScaleConfig(e["g"], e["n"], e["k"] / 4.0) for e in op["l"]))

    def do_addobj(self, op):
        self.ocps[0].add_objective(op["part"]["name"], self.part(op, real_objective))

    def do_addcon(self, op):
        self.ocps[0].add_constraints(op["part"]["name"], self.part(op, real_constraints))

    def do_delobj(self, op):
        self.ocps[0].delete_objective(op["name"])

    def do_delcon(self, op):
        self.ocps[0].delete_constraints(op["name"])

    def do_mesh(self, op):
        if op["pts"]:
            self.ocps[0].set_normalized_mesh(np.array(op["pts"], dtype=float) / self.cfg0["D"])
        else:
            self.ocps[0].set_normalized_mesh()

    def do_ms(self, op):
        self.ocps[0].set_mesh_scale(float(op["v"]))

    def val(self, op):
        return float(op["vals"][0]) if op["n"] == 0 else np.array(op["vals"], dtype=float)

    def do_oparam(self, op):
        self.ocps[op["j"] - 1].modify_model_param(op["path"], self.val(op))

    def do_mparam(self, op):
        t = self.model.get_recursive_params()
        t.set_param(op["path"], self.val(op))
        self.model.set_recursive_params(t)

    def do_scribble(self, op):
        """write over everything a handed out tree contains"""
        t = self.model.get_recursive_params()
        for p in self.spec["params"]:
            v = t.get_param(p["path"])
            if p["n"]:
                v[:] = 77.0
            t.set_param(p["path"], 99.0 if not p["n"] else np.full(p["n"], 99.0))
        d = self.model.get_recursive_params().to_dict()
        flat, tree_def = self.model.get_recursive_params().to_flat_dict()
        for k in list(flat):
            flat[k] = -1.0

    def do_export(self, op):
        import casadi
        self.exports += 1
        name = "exported%d.c" % self.exports
        self.model.export_c_code(name, CasType=casadi.SX if self.exports % 2 else casadi.MX)
        if not os.path.getsize(name):
            raise self.K.Mismatch("export wrote nothing")

    def do_remake(self, op):
        self.model.make_model_algebra_cons(self.backend)

    def do_build(self, op):
        self.ocps.append(self.K.make_ocp(self.cfg0, self.spec, self.backend, model=self.model))

    # -- observation
    def check(self, rec, rng, derivatives=True):
        n = 0
        x = np.array(rec["x"], dtype=float)
        for j, (ocp, ev) in enumerate(zip(self.ocps, rec["evals"])):
            s = np.array(rec["s"], dtype=float) / 4.0 if j == 0 else np.ones(len(x))
            n += self.check_one(ocp, rec, ev, x, s, rng, derivatives, "" if j == 0 else " (problem %d)" % (j + 1))
        self.check_mesh(self.ocps[0], rec, x)
        for m in rec["model"]:
            n += self.check_model(m)
        return n + 1

    def check_one(self, ocp, rec, ev, x, s, rng, derivatives, tag):
        K = self.K
        nd = rec["n"]
        xh = x / s
        off = K.offsets(ocp)
        names = [b["name"] for b in ev["blocks"]]
        if sorted(off) != sorted(names):
            raise K.Mismatch("constraint blocks" + tag, sorted(names), sorted(off))
        c = np.asarray(ocp.constraints(xh))
        K.same("number of constraints" + tag, [sum(len(b["val"]) for b in ev["blocks"])], [c.size])
        cs = {}
        for b in ev["blocks"]:
            den = np.array(b["den"], dtype=float)
            rs = np.array(b["rs"], dtype=float) / 4.0 if b["rs"] else np.ones(len(b["val"]))
            cs[b["name"]] = rs
            K.same("constraints of %s%s" % (b["name"], tag), np.array(b["val"], dtype=float) / den / rs, c[off[b["name"]]])
        K.same("objective" + tag, ev["obj"], ocp.objective(xh))
        g = np.zeros(nd)
        for p, v in ev["objgrad"]:
            g[p] += v
        K.same("objective gradient" + tag, g * s, ocp.gradient(xh))
        n = c.size + nd + 1
        if not derivatives or not ev["blocks"][0]["jac"]:
            return n
        case = dict(n=nd, blocks=ev["blocks"])
        J = K.obs_jac(ocp, xh)
        for b in ev["blocks"]:
            f = s[None, :] / cs[b["name"]][:, None]
            ex, fr = K.exp_jac(case, b)
            K.either("jacobian of %s%s" % (b["name"], tag), ex * f, fr * f, J[off[b["name"]]], [])
        lam = np.zeros(c.size)
        bl = {}
        for b in ev["blocks"]:
            l = np.array([rng.randint(-3, 3) for _ in b["val"]], dtype=float)
            lam[off[b["name"]]] = l
            bl[b["name"]] = l / cs[b["name"]]
        of = float(rng.randint(0, 3))
        ex, fr = K.exp_hess(case, bl)
        O = np.zeros((nd, nd))
        for i, j, v in ev["objhess"]:
            O[i, j] += v
        O = O + np.triu(O, 1).T
        ss = s[:, None] * s[None, :]
        K.either("lagrangian hessian" + tag, (ex + of * O) * ss, (fr + of * O) * ss, K.obs_hess(ocp, xh, lam, of), [])
        return n + J.size + O.size

    def check_mesh(self, ocp, rec, x):
        K = self.K
        scale = x[-1] if rec["free"] else rec["cfg"]["ms"]
        exp = np.array(rec["mesh"], dtype=float) / rec["meshden"]
        K.same("mesh from the decision vector", exp * scale, ocp.get_mesh_from_dec_var(x))
        K.same("mesh from a scale", exp * 7.0, ocp.get_mesh_from_scale(7.0))
        if not rec["free"]:
            K.same("fixed mesh", exp * scale, ocp.get_mesh())

    def check_model(self, m):
        K, spec, model = self.K, self.spec, self.model
        K.same("parameters stored in the model", m["mpar"], K.flat_params(spec, model.get_recursive_params()))
        ns, nx = len(spec["states"]), len(spec["states"]) + len(spec["inputs"])
        v = np.array(m["v"], dtype=float)
        st, inp = dict(zip(spec["states"], v[:ns])), dict(zip(spec["inputs"], v[ns:nx]))
        given = model.get_recursive_params()
        for path, val in K.split_params(spec, [float(q) for q in m["given"]]):
            given.set_param(path, val)

        def read(r, what, exp):
            K.same(what, exp, [r.states_dot[n] for n in spec["states"]] + [r.outputs[n] for n in spec["outputs"]])

        def read_a(r, what, exp):
            o = dict(zip(model.names.outputs, np.ravel(r.outputs)))
            sd = dict(zip(model.names.states_dot, np.ravel(r.states_dot)))
            K.same(what, exp, [sd[n] for n in spec["states"]] + [o[n] for n in spec["outputs"]])
        t = float(m["t"])
        a, b = [st[n] for n in model.names.states], [inp[n] for n in model.names.inputs]
        read(model.forward(st, inp, t), "model.forward", m["own"])
        read(model.apply_and_forward(st, inp, t, given), "apply_and_forward", m["gvn"])
        read_a(model.forward_with_arrays(np.array(a), np.array(b), t), "forward_with_arrays", m["own"])
        read_a(model.apply_and_forward_with_arrays(np.array(a), np.array(b), t, given), "apply_and_forward_with_arrays", m["gvn"])
        S, I = np.array([a, a], dtype=float), np.array([b, b], dtype=float).reshape(2, -1)
        r = model.batched_forward(S, I, np.array([t, t]), given)
        for k in range(2):
            read_a(type(r)(*[np.asarray(q)[k] for q in r]), "batched_forward", m["gvn"])
        r = model.batched_forward(S, I, np.array([t, t]))
        for k in range(2):
            read_a(type(r)(*[np.asarray(q)[k] for q in r]), "batched_forward with the stored parameters", m["own"])
        K.same("parameters stored in the model after evaluations", m["mpar"], K.flat_params(spec, model.get_recursive_params()))
        return 5 * len(m["own"])


def job(arg):
    recs, backend, exhaustive = arg
    cfg = recs[0]["cfg0"]
    where = {"hist": []}

    def run():
        n = 0
        rp = Replay(recs[0], backend)
        rng = random.Random(cfg["key"])
        for rec in recs:
            ops = rec["hist"] if exhaustive else [rec["last"]]
            for o in ops:
                where["hist"].append(o)
                rp.apply(o)
            n += rp.check(rec, rng)
        return n
    r = ocpstatic.guarded(run, cfg, backend)
    if r["bad"]:
        r["bad"]["history"] = where["hist"]
        if where["hist"]:
            r["bad"]["what"] += " after %d steps, last %s" % (len(where["hist"]) - 1, json.dumps(where["hist"][-1]["op"])[:160])
    return r


def run(chk, mode, exhaustive, random_, share):
    """exhaustive: list of (walks, depth); random_: (walks, length); share: compiled backends {name: walks}"""
    jobs = []
    for k, (walks, depth) in enumerate(exhaustive):
        for g in generate(chk, mode, walks, depth, True, True, chk.seed + 31 * k):
            jobs.append((g, "custom", True))
    hist = len(jobs)
    groups = generate(chk, mode, random_[0], random_[1], False, True, chk.seed + 7)
    for g in groups:
        jobs.append((g, "custom", False))
    chk.sample([r["last"]["op"] for r in groups[0]][:6])
    for b, walks in share.items():
        short = [g for g in groups if g[0]["cfg"]["sch"] != "ST4"][:walks]
        jobs += [(g, b, False) for g in short]
    jobs.sort(key=lambda j: (j[1] == "custom", j[2]))
    ocpstatic.report(chk, pmap(job, jobs, chunksize=2))
    chk.extra["exhaustive_histories"] = hist
    chk.extra["random_histories"] = len(groups)
    chk.extra["steps_per_random_history"] = random_[1]
    chk.extra["compiled_backend_histories"] = share
