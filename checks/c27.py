"""C27: histories of AeroWalk.tla replayed on the aerodynamic maps."""
import numpy as np

import walks
from par import pmap

LARGE = 24.0                       # tanh(24 k) is the sign of k
TOL = 1e-11


def real(kind, nl, name, v):
    """a parameter as the model has it"""
    a = np.array(v, dtype=float)
    if kind == "const":
        return float(a[0, 0]) / 4
    if name == "air_density":
        return float(a[0, 0])
    if name.startswith("weights"):
        return a / 8 if name == "weights_layer_%d" % nl else a * LARGE
    return a


def expected(kind, exp):
    """[value of each output], [[derivative of each output in each input]] or None"""
    s = lambda ts: float(sum(t["c"] * np.exp(-float(t["d"])) for t in ts))
    if kind == "const":
        return [o[0][0]["c"] / 4 for o in exp], [[0.0] * 3] * 3
    if kind == "gp":
        return [s(o[0]) for o in exp], [[s(t) for t in o[1:]] for o in exp]
    return [float(np.tanh(o[0][0]["c"] / 8.0)) for o in exp], None


class Replay:
    def __init__(self, rec):
        from lumos.models.aero import aero
        self.kind, self.nl, self.w = rec["kind"], rec["nl"], rec["w"]
        base = dict(const=aero.ConstAero, gp=aero.GPAero, mlp=aero.MLPAero)[self.kind]
        self.cls = type("VfAero%d" % rec["w"], (base,), dict(num_points=rec["np"], num_layers=rec["nl"], layer_dim=rec["ld"]))
        self.models = []
        self.n = 0

    def real(self, p):
        return {n: real(self.kind, self.nl, n, v) for n, v in p.items()}

    def tree(self, m, p):
        t = m.get_recursive_params()
        for n, v in p.items():
            t.set_param(n, v)
        return t

    def step(self, rec):
        from lumos.models.tree_utils import ParameterTree
        op = rec["last"]
        k = op["k"]
        if k == "new":
            p = self.real(op["p"])
            # the sizes are those of the class
            dflt = self.cls.get_default_params()
            sizes = {n: np.shape(v) for n, v in p.items()}
            if {n: np.shape(v) for n, v in dflt.items()} != sizes:
                from ocpkit import Mismatch
                raise Mismatch("sizes of the default parameters of the %s map" % self.kind, sizes, {n: np.shape(v) for n, v in dflt.items()})
            now = {n: p[n] for n in op["now"]}
            m = self.cls(params=ParameterTree({**self.cls.get_default_params(), **now})) if now else self.cls()
            m.set_recursive_params(self.tree(m, {n: v for n, v in p.items() if n not in now}))
            self.models.append(m)
        elif k == "set":
            m = self.models[op["j"] - 1]
            m.set_recursive_params(self.tree(m, {op["n"]: real(self.kind, self.nl, op["n"], op["v"])}))
        elif k == "all":
            m = self.models[op["j"] - 1]
            m.set_recursive_params(self.tree(m, self.real(op["p"])))
        elif k == "given":
            m = self.models[op["j"] - 1]
            t = self.tree(m, self.real(op["p"]))
            for x, e in zip(rec["x"], op["exp"]):
                self.look(m, x, e, rec["step"] + op["j"], t)
        elif k == "scribble":
            m = self.models[op["j"] - 1]
            t = m.get_recursive_params()
            for n in list(self.real(rec["is"][op["j"] - 1])):
                v = t.get_param(n)
                if np.ndim(v):
                    v[...] = 7.0
                t.set_param(n, 5.0 * v if np.ndim(v) else 5.0)
            r = m.forward(dict(front_ride_height=0.5, rear_ride_height=0.5, yaw=0.25)).outputs
            for n in list(r):
                r[n] = 1e6
        for j, m in enumerate(self.models):
            for q, x in enumerate(rec["x"]):
                self.look(m, x, rec["exp"][j][q], self.w + rec["step"] + j + q, None)
            if rec["step"] % 5 == 4:
                self.batch(m, rec["x"], rec["exp"][j], None)
        for j, m in enumerate(self.models):
            t = m.get_recursive_params()
            for n, v in self.real(rec["is"][j]).items():
                if not np.array_equal(np.asarray(t.get_param(n)), np.asarray(v)):
                    from ocpkit import Mismatch
                    raise Mismatch("parameter %s of instance %d" % (n, j + 1), np.asarray(v).tolist(), np.asarray(t.get_param(n)).tolist())
                self.n += 1

    def close(self, what, exp, obs):
        from ocpkit import Mismatch
        e, o = np.asarray(exp, dtype=float), np.asarray(obs, dtype=float)
        if e.shape != o.shape or not np.all(np.abs(e - o) <= TOL * (1 + np.abs(e))):
            raise Mismatch("%s of the %s map" % (what, self.kind), e.tolist(), o.tolist())
        self.n += e.size

    def look(self, m, x, exp, h, t):
        import lumos.numpy as lnp
        names = ["front_ride_height", "rear_ride_height", "yaw"]
        x = [float(v) for v in x]
        vals, der = expected(self.kind, exp)
        outs = ["Cx", "Cy", "Cz"]
        d = dict(zip(names, x))
        if h % 2:
            d = dict(reversed(list(d.items())))
        fwd = (lambda i: m.apply_and_forward(i, params=t)) if t is not None else m.forward
        arr = (lambda a: m.apply_and_forward_with_arrays(a, params=t)) if t is not None else m.forward_with_arrays
        form = h % 9
        if form in (3, 6):
            with lnp.use_backend("jax"):
                r = fwd(d).outputs
        else:
            r = fwd(d).outputs
        if sorted(r) != sorted(outs):
            from ocpkit import Mismatch
            raise Mismatch("outputs of the %s map" % self.kind, outs, sorted(r))
        self.close("coefficients", vals, [np.asarray(r[n]).reshape(()) for n in outs])
        if form == 4:
            import casadi as cas
            with lnp.use_backend("casadi"):
                a = cas.MX.sym("a", 3)
                y = arr(a).outputs
                f = cas.Function("f", [a], [y, cas.jacobian(y, a)])
            v, J = f(np.array(x))
            self.close("coefficients (CasADi)", vals, np.array(v).ravel())
            if der is not None:
                self.close("derivatives (CasADi)", der, np.array(J))
        elif form == 7:
            import jax
            with lnp.use_backend("jax"):
                f = lambda a: arr(a).outputs
                self.close("coefficients (jax)", vals, jax.jit(f)(np.array(x)))
                if der is not None and self.kind == "gp":
                    self.close("derivatives (jax)", der, jax.jacfwd(f)(np.array(x)))
        else:
            self.close("coefficients (arrays)", vals, np.ravel(arr(np.array(x)).outputs))

    def batch(self, m, xs, exps, t):
        import jax
        import lumos.numpy as lnp
        with lnp.use_backend("jax"):
            y = jax.vmap(lambda a: m.forward_with_arrays(a).outputs)(np.array(xs, dtype=float))
        self.close("coefficients at several places", [expected(self.kind, e)[0] for e in exps], y)


def replay(h):
    r = Replay(h[0])
    for rec in h:
        r.step(rec)
    return r.n


def brief(h):
    return [dict(kind=h[0]["kind"], np=h[0]["np"], nl=h[0]["nl"], ld=h[0]["ld"])] + [dict(r["last"], x=r["x"]) for r in h]


def job(hs):
    walks.brief = brief
    return walks.replay_all(replay, hs)


def main(chk):
    hs = walks.generate(chk, "AeroWalk", dict(Seed=chk.seed, Walks=chk.pick(120, 1600), Len0=chk.pick(16, 40)),
                        invariants=("TypeOK", "ShiftLaw", "OrderLaw", "OddLaw", "Out"), properties=("OneChanges", "EvaluationKeeps"))
    walks.report(chk, pmap(job, walks.chunked(hs, 3)))
    chk.sample([r["last"]["k"] for r in hs[0]])
