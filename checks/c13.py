"""C13: histories of Scopes.tla replayed on the real backend switch."""
import numpy as np

import walks
from par import pmap

_LIB = {}


class Unwind(Exception):
    pass


class UnwindK(KeyboardInterrupt):
    pass


class UnwindS(SystemExit):
    pass


class UnwindI(StopIteration):
    pass


class UnwindG(GeneratorExit):
    pass


KINDS = {"Exception": Unwind, "KeyboardInterrupt": UnwindK, "SystemExit": UnwindS, "StopIteration": UnwindI, "GeneratorExit": UnwindG}
ALL = tuple(KINDS.values())


class Runner:
    def __init__(self, rec):
        import lumos.numpy as lnp
        self.lnp = lnp
        self.targets = rec["targets"]
        self.scopes = [lnp.use_backend(b) for b in self.targets]
        self.funcs = [self.decorated(s) for s in self.scopes]
        self.holder = self.method_class()
        self.n = 0

    def decorated(self, scope):
        @scope
        def f(body):
            return body()
        return f

    def method_class(self):
        class Holder:
            pass
        for k, s in enumerate(self.scopes):
            setattr(Holder, "m%d" % k, s(lambda self, body: body()))
        return Holder()

    def module(self):
        import jax.numpy as jnp
        import lumos.numpy.casadi_numpy as cnp
        return {"numpy": np, "jax": jnp, "casadi": cnp}

    def see(self, what, exp):
        from ocpkit import Mismatch
        got = self.lnp.get_backend()
        if got != exp:
            raise Mismatch("backend " + what, exp, got)
        m = self.module()[exp]
        for name in ("sin", "hstack", "where"):
            if getattr(self.lnp, name) is not getattr(m, name):
                raise Mismatch("lumos.numpy.%s %s" % (name, what), exp, repr(getattr(self.lnp, name)))
        self.n += 1

    def body(self):
        """Perform operations until the innermost frame is left normally."""
        while self.i < len(self.ops):
            rec = self.ops[self.i]
            self.i += 1
            op = rec["op"]
            what = "after operation %d %s" % (self.i, {k: v for k, v in op.items()})
            if op["k"] == "set":
                self.lnp.set_backend(op["b"])
            elif op["k"] == "lib":
                self.lib(op["what"])
            elif op["k"] == "enter":
                self.enter(op, what, rec["cur"])
                continue
            elif op["k"] == "leave":
                self.pending = (what, rec["cur"])
                if op["how"] == "normal":
                    return
                e = KINDS[op["how"]]()
                e.left = op["n"]
                raise e
            self.see(what, rec["cur"])
        # the history is over: all frames that are open are left one by one

    def enter(self, op, what, exp):
        o, kind = op["o"] - 1, op["kind"]
        self.open += 1
        depth = self.open

        def inside():
            self.see(what, exp)
            self.body()
        try:
            if kind == "with":
                with self.scopes[o]:
                    inside()
            elif kind == "func":
                self.funcs[o](inside)
            elif kind == "method":
                getattr(self.holder, "m%d" % o)(inside)
            elif kind == "lambda":
                self.lnp.use_backend(self.targets[o])(lambda: inside())()
            else:
                with self.lnp.use_backend(self.targets[o]):
                    inside()
        except ALL as e:
            self.open -= 1
            e.left -= 1
            if e.left:
                raise
        else:
            self.open -= 1
        if self.pending:
            self.see(*self.pending)
            self.pending = None
        else:
            self.see("after leaving frame %d at the end" % depth, self.saved[depth - 1])

    def run(self, ops, saved):
        self.ops, self.saved, self.i, self.open, self.pending = ops, saved, 0, 0, None
        self.lnp.set_backend("numpy")
        try:
            self.see("at the start", "numpy")
            self.body()
            if self.open:
                raise AssertionError
        finally:
            self.lnp.set_backend("numpy")
        return self.n

    def lib(self, what):
        """Library calls that use scopes of their own; some fail"""
        from ocpkit import Mismatch, rejected
        L = library()
        n = 1 + self.n % 3
        x, mesh = np.ones((n, 1)), np.arange(float(n))
        if what in ("jax", "casadi"):
            m = L[what]
            p = m.get_recursive_params()
            p = p if what == "jax" else p.tree_ravel()[0]
            m.model_algebra.mapped_constraints(np.ones((n, 4)), mesh, p)
        elif what == "batched":
            for m in (L["jax"], L["casadi"]):
                m.batched_forward(x, x, mesh, m.get_recursive_params())
        elif what == "broken":
            m = L["broken"]()
            rejected("model that raises", lambda: m.make_model_algebra_cons("casadi"))
            m.make_model_algebra_cons("jax")
            rejected("model that raises", lambda: m.batched_forward(x, x, mesh, m.get_recursive_params()))
            rejected("model that raises", lambda: m.model_algebra.mapped_constraints(np.ones((n, 4)), mesh, m.get_recursive_params()))
        elif what == "structure":
            L["jax"].forward_with_arrays(self.lnp.array([1.0]), self.lnp.array([2.0]), 0.0)
        bad = [s for s in L["seen"] if s[0] != s[1]]
        L["seen"].clear()
        if bad:
            raise Mismatch("backend while the library evaluates", bad[0][0], bad[0][1])


def library():
    if _LIB:
        return _LIB
    import lumos.numpy as lnp
    from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
    seen = []

    @state_space_io(states=("x",), inputs=("u",), outputs=("y",), con_outputs=("y",))
    class VfScope(StateSpaceModel):
        @classmethod
        def get_default_params(cls):
            return {"k": 2.0}

        def forward(self, states, inputs, mesh):
            exp = {"SX": "casadi", "MX": "casadi"}.get(type(states["x"]).__name__,
                                                        "jax" if "Tracer" in type(states["x"]).__name__ else lnp.get_backend())
            seen.append((exp, lnp.get_backend()))
            return StateSpaceModelReturn(states_dot={"x": self._params["k"] * inputs["u"]},
                                         outputs={"y": lnp.sin(states["x"])})

    @state_space_io(states=("x",), inputs=("u",), outputs=("y",), con_outputs=("y",))
    class VfBroken(StateSpaceModel):
        def forward(self, states, inputs, mesh):
            raise Unwind("planned")
    _LIB.update(seen=seen, jax=VfScope(), casadi=VfScope(), broken=VfBroken)
    _LIB["jax"].make_model_algebra_cons("jax")
    _LIB["casadi"].make_model_algebra_cons("casadi")
    return _LIB


def one(h):
    r = Runner(h[0])
    steps = h[0]["hist"] if h[0]["hist"] else [rec["last"] for rec in h]
    return r.run([s for s in steps if s["op"]["k"] not in ("init", "skip")], h[-1]["saved"])


def job(hs):
    import logging
    import os
    logging.getLogger("lumos").setLevel(logging.ERROR)
    d = os.path.join(os.environ["VERIF_SCRATCH"], "c13-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    return walks.replay_all(one, hs)


def main(chk):
    props = ("InForce", "Restores")
    hs = walks.generate(chk, "Scopes", dict(Seed=chk.seed, Walks=chk.pick(2, 4), Len0=chk.pick(4, 5), Exhaustive=True), properties=props)
    longest = max(len(h[0]["hist"]) for h in hs)
    hs = [h for h in hs if len(h[0]["hist"]) == longest]
    hs += walks.generate(chk, "Scopes", dict(Seed=chk.seed, Walks=chk.pick(500, 5000), Len0=chk.pick(40, 60), Exhaustive=False), properties=props)
    walks.report(chk, pmap(job, walks.chunked(hs, max(20, len(hs) // 64))))
    chk.sample({"histories": len(hs), "example": walks.brief(hs[-1])[:6]})
