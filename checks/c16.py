"""C16: histories of ModelWalk.tla replayed on the shipped models."""
import os

import numpy as np

import walks
from par import pmap

TOL = 1e-8
GP_POINTS = 16


def configured(kind, sub):
    """(class, constructor arguments) of a configuration"""
    import lumos.models.aero.aero as aero
    from lumos.models.composition import ModelMaker
    from lumos.models.drone_model import DroneModel
    from lumos.models.kinematics import TrackPosition2D
    from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
    from lumos.models.tires.pacejka import MF52
    from lumos.models.tires.perantoni import PerantoniTire
    from lumos.models.vehicles.simple_vehicle import SimpleVehicle
    cls = dict(ConstAero=aero.ConstAero, GPAero=aero.GPAero, MLPAero=aero.MLPAero, MF52=MF52, MF52full=MF52, MF52tir=MF52,
               PerantoniTire=PerantoniTire, TrackPosition2D=TrackPosition2D, DroneModel=DroneModel,
               SimpleVehicle=SimpleVehicle, SimpleVehicleOnTrack=SimpleVehicleOnTrack)[kind]
    kw = {}
    if sub:
        cfg = ModelMaker.make_config(kind)
        pre = "vehicle." if kind == "SimpleVehicleOnTrack" else ""
        for name, t in zip(("aero", "tire_fl", "tire_fr", "tire_rl", "tire_rr"), sub):
            cfg.replace_subtree(pre + name, ModelMaker.make_config(t))
        kw["model_config"] = cfg
    if kind in ("MF52full", "MF52tir"):
        kw["opt_mode"] = False
    return cls, kw


def base_params(kind, model, seed):
    """Parameters to start from: the defaults, with the random networks made small and reproducible"""
    p = model.get_recursive_params()
    if kind == "MF52tir":
        from lumos.models.tires.utils import create_params_from_tir_file
        from checklib import REPO
        # values of the file for the parameters of the model
        f = create_params_from_tir_file(os.path.join(REPO, "data/tires/sharpened.tir"))
        for k in model.get_default_params():
            if k in f:
                p.set_param(k, f[k])
    rng = np.random.default_rng(seed)
    for path in {"GPAero": [""], "MLPAero": [""], "SimpleVehicle": ["aero."], "SimpleVehicleOnTrack": ["vehicle.aero."]}.get(kind, []):
        names = [n for n in ("gp_points", "alpha", "weights_layer_0", "weights_layer_1", "weights_layer_2", "weights_layer_3")]
        shapes = dict(gp_points=(GP_POINTS, 3), alpha=(3, GP_POINTS), weights_layer_0=(6, 3), weights_layer_1=(5, 6),
                      weights_layer_2=(6, 5), weights_layer_3=(3, 6))
        for n in names:
            try:
                p.get_param(path + n)
            except Exception:
                continue
            p.set_param(path + n, rng.normal(size=shapes[n]) * 0.7)
    return p


class Replay:
    def __init__(self, rec):
        self.rec = rec
        self.kind, self.sub, self.names = rec["kind"], rec["sub"], rec["params"]
        self.cls, self.kw = configured(self.kind, self.sub)
        self.base = base_params(self.kind, self.cls(**self.kw), rec["w"])
        self.ss = bool(rec["states"])
        self.m = [self.cls(params=self.tree(at), **self.kw) for at in rec["par"]]
        self.ref, self.refd, self.hand, self.jits, self.alg, self.sym = {}, {}, [], {}, {}, {}
        self.n, self.k = 0, rec["w"]
        self.points = []
        for p in rec["points"]:
            s, u = [{d["n"]: v / d["den"] for d, v in zip(ds, vs)} for ds, vs in zip((rec["states"], rec["inputs"]), p["vars"])]
            self.points.append((s, u, p["mesh"] / 4.0))
        for g in ["inputs"] + (["states"] if self.ss else []):
            if tuple(self.m[0].get_group_names(g)) != tuple(d["n"] for d in rec[g]):
                self.order = False
        self.onames = {g: tuple(self.m[0].get_group_names(g)) for g in self.groups()}

    def groups(self):
        return ("states_dot", "outputs", "residuals") if self.ss else ("outputs",)

    # -- parameters ----------------------------------------------------
    def tree(self, at):
        p = self.base.from_dict(self.base.to_dict())
        for name, q in zip(self.names, at):
            if q:
                p.set_param(name, self.base.get_param(name) * (1 + q / 16.0))
        return p

    # -- arguments -----------------------------------------------------
    def dicts(self, pt, conv=float):
        s, u, mesh = self.points[pt - 1]
        u = {k: conv(v) for k, v in u.items()}
        if not self.ss:
            return [u]
        return [{k: conv(v) for k, v in s.items()}, u, conv(mesh)]

    def arrays(self, pt, conv=np.array):
        m = self.m[0]
        s, u, mesh = self.points[pt - 1]
        u = conv(np.array([u[n] for n in m.get_group_names("inputs")]))
        if not self.ss:
            return [u]
        return [conv(np.array([s[n] for n in m.get_group_names("states")])), u, conv(np.array(mesh)) if conv is not np.array else mesh]

    # -- results -------------------------------------------------------
    def named(self, r):
        from ocpkit import Mismatch
        out = {}
        for g in self.groups():
            d = getattr(r, g)
            if self.ss and g == "residuals":
                d = {n: r.outputs[n] for n in self.onames[g]}
            miss = set(self.onames[g]) - set(d)
            if miss:
                raise Mismatch("%s of %s lack %s" % (g, self.kind, sorted(miss)))
            out[g] = np.array([float(np.asarray(d[n]).reshape(-1)[0]) for n in self.onames[g]])
        return out

    def arrayed(self, r):
        from ocpkit import Mismatch
        out = {}
        for g in self.groups():
            v = np.array(getattr(r, g), dtype=float).reshape(-1)
            if v.size != len(self.onames[g]):
                raise Mismatch("%s of %s: %d values for %d names" % (g, self.kind, v.size, len(self.onames[g])))
            out[g] = v
        return out

    def reference(self, at, pt):
        """The value for these parameters and this point: a fresh instance, NumPy"""
        key = (tuple(at), pt)
        if key not in self.ref:
            m = self.cls(params=self.tree(at), **self.kw)
            self.ref[key] = self.named(m.forward(*self.dicts(pt)))
        return self.ref[key]

    def expect(self, what, at, pt, got):
        from ocpkit import same
        exp = self.reference(at, pt)
        for g in self.groups():
            if g in got:
                e = exp[g]
                scale = np.maximum(1.0, np.abs(e))
                same("%s of %s (%s)" % (g, self.kind, what), e / scale, got[g] / scale, tol=TOL)
                self.n += e.size

    # -- derivatives ---------------------------------------------------
    def fun_jax(self, model, groups):
        import jax.numpy as jnp
        import lumos.numpy as lnp

        def f(x):
            with lnp.use_backend("jax"):
                r = model.forward_with_arrays(*self.split(x))
            return jnp.concatenate([jnp.ravel(getattr(r, g)) for g in groups])
        return f

    def split(self, x):
        if not self.ss:
            return [x]
        ns, ni = len(self.rec["states"]), len(self.rec["inputs"])
        return [x[:ns], x[ns:ns + ni], x[ns + ni]]

    def flat(self, pt):
        return np.concatenate([np.ravel(a) for a in self.arrays(pt)])

    def cas_function(self, model, T):
        import casadi as cas
        import lumos.numpy as lnp
        args = [T.sym("a%d" % k, np.size(a)) for k, a in enumerate(self.arrays(1))]
        with lnp.use_backend("casadi"):
            r = model.forward_with_arrays(*args)
        return cas.Function("f", args, [getattr(r, g) for g in self.groups()])

    def der(self, op):
        import casadi as cas
        import jax
        from ocpkit import same
        pt = op["pts"][0]
        model = self.m[op["i"] - 1]
        x = self.flat(pt)
        groups = self.groups()[:2]
        heavy = self.kind.startswith("Simple")
        f = self.fun_jax(model, groups)
        jj = np.array(jax.jacobian(f)(x)) if not heavy else np.array(jax.jit(jax.jacobian(f))(x))
        T = cas.SX if self.k % 2 else cas.MX
        fun = self.cas_function(model, T)
        xs = T.sym("x", x.size)
        out = fun.call(self.split(xs))
        y = cas.vertcat(*[o for o, g in zip(out, self.groups()) if g in groups])
        jf = cas.Function("j", [xs], [cas.jacobian(y, xs)])
        cj = np.array(jf(x))
        sc = np.maximum(1.0, np.abs(cj))
        same("Jacobian of %s (jax against casadi)" % self.kind, cj / sc, jj / sc, tol=1e-6)
        self.n += cj.size
        if not heavy:
            lam = np.array([((7 * q) % 5 - 2) / 2.0 for q in range(cj.shape[0])])
            hf = cas.Function("h", [xs], [cas.hessian(cas.dot(cas.DM(lam), y), xs)[0]])
            ch = np.array(hf(x))
            jh = np.array(jax.hessian(lambda z: lam @ f(z))(x))
            sc = max(1.0, np.abs(ch).max())
            same("Hessian of %s (jax against casadi)" % self.kind, ch / sc, jh / sc, tol=1e-6)
            self.n += ch.size
        # and both against differences of the values
        d = np.zeros(x.size)
        q = self.k % x.size
        h = 1e-5 * max(1.0, abs(x[q]))
        d[q] = h
        fx = fun.call(self.split(x + d)), fun.call(self.split(x - d))
        yy = [np.concatenate([np.array(o).reshape(-1) for o, g in zip(r, self.groups()) if g in groups]) for r in fx]
        fd = (yy[0] - yy[1]) / (2 * h)
        sc = np.maximum(1.0, np.maximum(np.abs(cj[:, q]), np.abs(yy[0])))
        same("Jacobian of %s (against differences)" % self.kind, cj[:, q] / sc, fd / sc, tol=3e-3)

    # -- forms ---------------------------------------------------------
    def eval(self, op):
        import casadi as cas
        import jax
        import jax.numpy as jnp
        import lumos.numpy as lnp
        m, form, pt = self.m[op["i"] - 1], op["form"], op["pts"][0]
        tree = self.m[op["j"] - 1].get_recursive_params()
        if form in ("dict", "apply"):
            args = self.dicts(pt)
            before = [dict(a) if isinstance(a, dict) else a for a in args]
            r = m.forward(*args) if form == "dict" else m.apply_and_forward(*args, tree)
            if args != before:
                from ocpkit import Mismatch
                raise Mismatch("evaluation changed its arguments", before, args)
            got = self.named(r)
            # what is returned belongs to the caller
            for g in ("outputs",):
                for n in list(getattr(r, g)):
                    getattr(r, g)[n] = -77.0
            return got
        if form in ("arrays", "apply_arrays"):
            args = self.arrays(pt)
            before = [np.array(a) for a in args]
            r = m.forward_with_arrays(*args) if form == "arrays" else m.apply_and_forward_with_arrays(*args, tree)
            for a, b in zip(args, before):
                if not np.array_equal(a, b):
                    from ocpkit import Mismatch
                    raise Mismatch("evaluation changed its arguments", b.tolist(), np.asarray(a).tolist())
            return self.arrayed(r)
        if form == "jax":
            with lnp.use_backend("jax"):
                return self.named(m.forward(*self.dicts(pt, jnp.float64)))
        if form == "jax_arrays":
            with lnp.use_backend("jax"):
                return self.arrayed(m.forward_with_arrays(*self.arrays(pt, jnp.array)))
        if form == "jit":
            # parameters as an argument of the compiled function
            f = self.jits.get(op["i"])
            if f is None:
                f = self.jits[op["i"]] = lnp.use_backend("jax")(jax.jit(m.apply_and_forward_with_arrays))
            return self.arrayed(f(*self.arrays(pt, jnp.array), tree))
        if form in ("mx", "sx"):
            return self.callf(self.cas_function(m, cas.MX if form == "mx" else cas.SX), pt)
        if form == "dm":
            with lnp.use_backend("casadi"):
                r = m.forward_with_arrays(*self.arrays(pt, cas.DM))
            return self.arrayed(r)
        if form == "symparam":
            if op["i"] not in self.sym:
                T = cas.SX if self.k % 3 == 0 else cas.MX
                flat, unravel = m.get_recursive_params().tree_ravel()
                ps = T.sym("p", max(1, len(flat)))
                args = [T.sym("a%d" % k, np.size(a)) for k, a in enumerate(self.arrays(1))]
                with lnp.use_backend("casadi"):
                    r = m.apply_and_forward_with_arrays(*args, unravel(ps))
                self.sym[op["i"]] = cas.Function("f", args + [ps], [getattr(r, g) for g in self.groups()])
            flat, _ = tree.tree_ravel()
            if len(flat) == 0:
                flat = np.zeros(1)
            out = self.sym[op["i"]].call([np.ravel(a) for a in self.arrays(pt)] + [flat])
            return {g: np.array(o, dtype=float).reshape(-1) for g, o in zip(self.groups(), out)}
        raise RuntimeError(form)

    def callf(self, f, pt):
        out = f.call([np.ravel(a) for a in self.arrays(pt)])
        return {g: np.array(o, dtype=float).reshape(-1) for g, o in zip(self.groups(), out)}

    def build(self, op):
        import casadi as cas
        import jax
        import lumos.numpy as lnp
        m, form = self.m[op["i"] - 1], op["form"]
        if form in ("mx", "sx"):
            f = self.cas_function(m, cas.MX if form == "mx" else cas.SX)
            return lambda pt: self.callf(f, pt)
        if form == "jit":
            import jax.numpy as jnp
            frozen = m.get_recursive_params()
            f = lnp.use_backend("jax")(jax.jit(lambda *a: m.apply_and_forward_with_arrays(*a, frozen)))
            return lambda pt: self.arrayed(f(*self.arrays(pt, jnp.array)))
        if form == "export":
            import subprocess
            name = "exp%d_%d.c" % (self.rec["w"], len(self.hand))
            m.export_c_code(name, CasType=cas.SX if self.k % 2 else cas.MX)
            so = os.path.abspath(name[:-2] + ".so")
            subprocess.run(["gcc", "-fPIC", "-shared", name, "-o", so], check=True)
            os.remove(name)
            f = cas.external("forward", so)
            flat, _ = m.get_recursive_params().tree_ravel()

            def call(pt):
                out = f.call([np.ravel(a) for a in self.arrays(pt)] + [flat])
                return dict(zip(("states_dot", "outputs", "con_outputs", "residuals"),
                                [np.array(o, dtype=float).reshape(-1) for o in out]))
            return call
        raise RuntimeError(form)

    def batch(self, op):
        from ocpkit import same
        i, form, pts, at = op["i"], op["form"], op["pts"], op["at"]
        m = self.m[i - 1]
        backend = "casadi" if form.startswith("cas") else "jax"
        # what make_model_algebra_cons offers is that of the last backend
        if getattr(self, "made", {}).get(i) != backend:
            m.make_model_algebra_cons(backend)
            self.made = dict(getattr(self, "made", {}))
            self.made[i] = backend
        tree = self.m[op["j"] - 1].get_recursive_params()
        cols = [self.arrays(p) for p in pts]
        s, u = [np.array([c[q] for c in cols]) for q in range(2)]
        mesh = np.array([c[2] for c in cols])
        if form.endswith("batch"):
            r = m.batched_forward(s, u, mesh, tree)
            for q, p in enumerate(pts):
                self.expect("batched, %s" % backend, at, p, {g: np.array(getattr(r, g), dtype=float).reshape(len(pts), -1)[q] for g in self.groups()})
            return
        # the equations of the problem: derivatives and constraint outputs against unknowns, residuals
        nsd, nco = m.get_num_vars("states_dot"), m.get_num_vars("con_outputs")
        rng = np.random.default_rng(self.k)
        sd, co = rng.integers(-5, 6, size=(len(pts), nsd)) * 1.0, rng.integers(-5, 6, size=(len(pts), nco)) * 1.0
        x = np.hstack([s, u, sd, co])
        alg = m.model_algebra
        if backend == "casadi":
            params = tree.tree_ravel()[0]
        else:
            params = tree
        r = np.array(alg.mapped_constraints(x, mesh, params), dtype=float).reshape(len(pts), -1)
        onames = list(self.onames["outputs"])
        for q, p in enumerate(pts):
            e = self.reference(at, p)
            co_e = np.array([e["outputs"][onames.index(n)] for n in m.get_group_names("con_outputs")])
            exp = np.concatenate([e["states_dot"] - sd[q], co_e - co[q], e["residuals"]])
            sc = np.maximum(1.0, np.abs(exp))
            same("model algebra of %s (%s)" % (self.kind, backend), exp / sc, r[q] / sc, tol=TOL)
            self.n += exp.size
        if self.kind.startswith("Simple") and backend == "jax":
            return
        # derivatives of the compiled equations against those of a CasADi function of the model
        import casadi as cas
        j = np.array(alg.mapped_jacobian(x, mesh, params), dtype=float).reshape(len(pts), -1)
        rows, cols_ = [np.ravel(v) for v in alg.jacobian_structure] if not callable(getattr(alg, "jacobianstructure", None)) else [np.ravel(v) for v in alg.jacobianstructure()]
        fresh = self.cls(params=self.tree(at), **self.kw)
        import lumos.numpy as lnp
        T = cas.SX
        xs, ms = T.sym("x", x.shape[1]), T.sym("m")
        ns, ni = s.shape[1], u.shape[1]
        with lnp.use_backend("casadi"):
            fr = fresh.forward_with_arrays(xs[:ns], xs[ns:ns + ni], ms)
        out = fr.outputs
        con = [out[onames.index(n)] - xs[ns + ni + nsd + q] for q, n in enumerate(m.get_group_names("con_outputs"))]
        res = [out[onames.index(n)] for n in self.onames["residuals"]]
        y = cas.vertcat(fr.states_dot - xs[ns + ni:ns + ni + nsd], *con, *res)
        jf = cas.Function("j", [xs, ms], [cas.jacobian(y, xs)])
        for q in range(len(pts)):
            e = np.array(jf(x[q], mesh[q]))
            d = np.zeros(e.shape)
            np.add.at(d, (rows, cols_), j[q])
            sc = np.maximum(1.0, np.abs(e))
            same("derivatives of the algebra of %s (%s)" % (self.kind, backend), e / sc, d / sc, tol=1e-6)
            self.n += e.size

    # -- one step ------------------------------------------------------
    def do(self, op, par):
        from ocpkit import Mismatch, rejected
        self.k += 1
        k = op["k"]
        if k == "set":
            m, name = self.m[op["i"] - 1], self.names[op["p"] - 1]
            val = self.base.get_param(name) * (1 + op["q"] / 16.0) if op["q"] else self.base.get_param(name)
            p = m.get_recursive_params()
            p.set_param(name, val)
            m.set_recursive_params(p)
        elif k == "copy":
            m, o = self.m[op["i"] - 1], self.m[2 - op["i"]]
            if op["style"]:
                # through a new instance
                self.m[op["i"] - 1] = self.cls(params=o.get_recursive_params(), **self.kw)
                for d in (self.jits, self.sym):
                    d.pop(op["i"], None)
                self.made = {q: v for q, v in getattr(self, "made", {}).items() if q != op["i"]}
            else:
                m.set_recursive_params(o.get_recursive_params())
        elif k == "eval":
            self.expect(op["form"], op["at"], op["pts"][0], self.eval(op))
        elif k == "build":
            self.hand.append((op["form"], self.build(op)))
        elif k == "call":
            form, f = self.hand[op["c"] - 1]
            self.expect("compiled earlier, " + form, op["at"], op["pts"][0], f(op["pts"][0]))
        elif k == "der":
            self.der(op)
        elif k == "batch":
            self.batch(op)
        elif k == "bad":
            m = self.m[op["i"] - 1]
            if op["form"] == "arrays":
                args = self.arrays(1)
                q = self.k % min(2, len(args))
                args[q] = args[q][:-1]
                if self.kind not in ("ConstAero",) and args[q].size:
                    rejected("too few values", lambda: m.forward_with_arrays(*args))
            else:
                args = self.dicts(1)
                name = {"TrackPosition2D": "vx", "DroneModel": "f"}.get(self.kind) or list(args[-2 if self.ss else -1])[0]
                if self.kind != "ConstAero":
                    args[-2 if self.ss else -1].pop(name)
                    if op["form"] == "dict":
                        rejected("an evaluation without " + name, lambda: m.forward(*args))
                    else:
                        rejected("an evaluation without " + name, lambda: m.apply_and_forward(*args, m.get_recursive_params()))
        # parameters of both instances
        for i in range(2):
            exp = self.tree(par[i])
            got = self.m[i].get_recursive_params()
            for q, name in enumerate(self.names):
                if not np.array_equal(np.asarray(exp.get_param(name), float), np.asarray(got.get_param(name), float)):
                    raise Mismatch("%s of instance %d after %s" % (name, i + 1, k), exp.get_param(name), got.get_param(name))
        self.n += 1


def one(h):
    r = Replay(h[0])
    for rec in h[1:]:
        r.do(rec["last"]["op"], rec["par"])
    return r.n


def job(hs):
    import logging
    logging.getLogger("lumos").setLevel(logging.ERROR)
    return walks.replay_all(one, hs)


def main(chk):
    hs = walks.generate(chk, "ModelWalk", dict(Seed=chk.seed, Walks=chk.pick(130, 780), Len0=chk.pick(14, 30), Heavy=chk.pick(26, 130)),
                        invariants=("TypeOK", "Out"), properties=("EvalKeeps", "HandlesKeep"))
    hs.sort(key=lambda h: 0 if h[0]["sub"] else 1)
    walks.report(chk, pmap(job, walks.chunked(hs, 1)))
    chk.sample({"histories": len(hs), "example": [r["last"]["op"]["k"] for r in hs[0]]})
