"""C12: histories of SubCalls.tla replayed on real models that call submodels."""
import os

import numpy as np

import walks
from par import pmap

TYPES = {}
BACKENDS = ["numpy", "jax", "casadi"]


class Boom(Exception):
    pass


class Run:
    """what the nodes of the current evaluation are to do"""
    scr = {}
    cnt = {}
    tag = 0


def has_par(shape_no, i):
    """the root of the fourth shape has no parameter of its own"""
    return (shape_no, i) != (3, 1)


def node_class(shape_no, shape, i):
    """The model class of node i (1-based) of a shape of SubCalls.tla"""
    key = (shape_no, i)
    if key in TYPES:
        return TYPES[key]
    from lumos.models.base import (Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io)
    from lumos.models.composition import ModelMaker
    nd = shape[i - 1]
    kids = [(k["n"], k["i"]) for k in nd["kids"]]
    for _, j in kids:
        node_class(shape_no, shape, j)
    own = ["y%d" % (k + 1) for k in range(nd["n"])]
    name = "VfCall%d_%d_%d" % (os.getpid(), shape_no, i)

    def get_default_submodel_config(cls):
        return {n: "VfCall%d_%d_%d" % (os.getpid(), shape_no, j) for n, j in kids}

    def get_default_params(cls):
        return {"k": 1.0} if has_par(shape_no, i) else {}

    def run(self, x, z):
        n = Run.cnt[i] = Run.cnt.get(i, 0) + 1
        acc, out = 0.0, None
        p = self._params.get("k", 0.0)

        def own_out(upto):
            return {own[k]: (k + 1) * x + 3 * z + p + acc + Run.tag for k in range(upto)}

        def call(a):
            if a["c"] == 0:
                return self.call_submodel("no_such_part", inputs={"x": x, "w": 1.0})
            kn, j = kids[a["c"] - 1]
            kw = {"inputs": {"w": 1.0, "x": x + a["x"]}}
            if shape[j - 1]["st"]:
                kw["states"] = {"s": float(a["x"])}
                kw["mesh"] = 0.0
            if a["miss"] == "input":
                del kw["inputs"]["x"]
            elif a["miss"] == "state" and "states" in kw:
                kw["states"] = {}
            elif a["miss"] == "extra":
                kw["inputs"]["extra"] = 5.0
            return self.call_submodel(kn, **kw)
        for a in Run.scr[i][n - 1]:
            if a["a"] == "raise":
                raise (KeyboardInterrupt() if a["miss"] == "interrupt" else Boom())
            if a["a"] == "collect":
                out = self.make_outputs_dict(**own_out(len(own) - (a["miss"] == "own")))
                continue
            r = None
            if a["on"] == "raise":
                r = call(a)
            else:
                try:
                    r = call(a)
                except (Exception, KeyboardInterrupt):
                    if a["on"] == "retry":
                        r = call(a)
            if r is not None:
                acc = acc + r.outputs["y1"]
        return out if out is not None else own_out(len(own))

    if nd["st"]:
        def forward(self, states, inputs, mesh):
            out = run(self, inputs.get("x", 0.0), states.get("s", 0.0))
            pick = lambda g: {n: out[n] for n in self.get_group_names(g) if n in out}
            return StateSpaceModelReturn(states_dot={"s": 10 * inputs.get("x", 0.0) + Run.tag}, outputs=out,
                                         con_outputs=pick("con_outputs"), residuals=pick("residuals"))
        base = StateSpaceModel
    else:
        def forward(self, inputs):
            out = run(self, inputs.get("x", 0.0), 0)
            return ModelReturn(outputs=out, residuals={n: out[n] for n in self.get_group_names("residuals") if n in out})
        base = Model
    d = dict(forward=forward, get_default_submodel_config=classmethod(get_default_submodel_config),
             get_default_params=classmethod(get_default_params))
    if shape_no % 2:                                   # forward inherited from a class that is no model
        mixin = type("Mixin" + name, (), {"forward": d.pop("forward")})
        c = type(name, (mixin, base), d)
    else:
        c = type(name, (base,), d)
    res = tuple(own[r - 1] for r in nd["res"])
    io = dict(inputs=("x", "w"), outputs=tuple(own), residuals=res)
    c = state_space_io(states=("s",), con_outputs=(), **io)(c) if nd["st"] else model_io(**io)(c)
    ModelMaker.add_to_registry(c)
    TYPES[key] = c
    return c


def paths(shape):
    out = {1: ""}

    def go(i):
        for k in shape[i - 1]["kids"]:
            out[k["i"]] = (out[i] + "." if out[i] else "") + k["n"]
            go(k["i"])
    go(1)
    return out


class Replay:
    def __init__(self, rec):
        self.shape_no = (rec["w"] - 1) % 6
        self.shape = rec["shape"]
        self.names = rec["names"]
        self.root = node_class(self.shape_no, self.shape, 1)()
        self.paths = paths(self.shape)
        self.n = 0
        self.k = rec["w"]
        self.con = []

    def model(self, i):
        return self.root.get_submodel(self.paths[i]) if i > 1 else self.root

    def set_all(self, tree, v):
        for i, p in self.paths.items():
            if not has_par(self.shape_no, i):
                continue
            tree.set_param((p + "." if p else "") + "k", float(v))
        return tree

    def step(self, last):
        op = last["op"]
        if op["k"] == "setcon":
            self.root.set_con_outputs(tuple(op["con"]))
            self.con = op["con"]
        elif op["k"] == "setpar":
            self.root.set_recursive_params(self.set_all(self.root.get_recursive_params(), op["v"]))
        elif op["k"] == "eval":
            self.eval(op, last)

    def eval(self, op, last):
        from ocpkit import Mismatch, same
        import lumos.numpy as lnp
        i = op["i"]
        m, st = self.model(i), self.shape[i - 1]["st"]
        Run.scr = {j + 1: s for j, s in enumerate(op["scr"])}
        Run.cnt = {}
        Run.tag = op["tag"]
        self.k += 1
        way = op["way"]
        what = "evaluation by %s of %s" % (way, self.paths[i] or "the model")
        ins, states = {"x": float(op["x"]), "w": 1.0}, {"s": float(op["z"])}
        backend = BACKENDS[self.k % 3] if way in ("array", "applyarray", "implicit") else "numpy"
        args = {"params": self.set_all(self.root.get_recursive_params(), op["p"])} if way.startswith("apply") else {}
        before = self.root.get_recursive_params().to_flat_dict()[0]

        def call():
            with lnp.use_backend(backend):
                if way in ("array", "applyarray", "implicit"):
                    ins_a = m.make_vector("inputs", **dict(reversed(list(ins.items()))))
                    st_a = m.make_vector("states", **states) if st else None
                if way == "dict":
                    return m.forward(states, ins, 0.0) if st else m.forward(ins)
                if way == "apply":
                    return m.apply_and_forward(states, ins, 0.0, **args) if st else m.apply_and_forward(ins, **args)
                if way == "array":
                    return m.forward_with_arrays(st_a, ins_a, 0.0) if st else m.forward_with_arrays(ins_a)
                if way == "applyarray":
                    return (m.apply_and_forward_with_arrays(st_a, ins_a, 0.0, **args) if st
                            else m.apply_and_forward_with_arrays(ins_a, **args))
                return m.implicit(st_a, ins_a, lnp.array([1.0]), lnp.array([2.0 + k for k in range(len(self.con))]), 0.0)
        try:
            r = call()
        except (Exception, KeyboardInterrupt) as e:
            r = None
            if last["ok"]:
                raise Mismatch(what + " failed", "result", "%s: %s" % (type(e).__name__, e))
        self.n += 1
        after = self.root.get_recursive_params().to_flat_dict()[0]
        if before != after:
            raise Mismatch(what + " changed the parameters", before, after)
        if not last["ok"]:
            if r is not None:
                raise Mismatch(what + " succeeded", "an error", repr(r)[:300])
            return
        if lnp.get_backend() != "numpy":
            raise Mismatch(what + " left the backend", "numpy", lnp.get_backend())
        onames, rnames = self.names[i - 1]["o"], self.names[i - 1]["r"]
        num = lambda v: [float(np.asarray(x).reshape(())) for x in v]
        vec = lambda v: np.asarray(v, dtype=float).reshape(-1)
        if way in ("dict", "apply"):
            for part, names, vals in (("outputs", onames, last["vals"]), ("residuals", rnames, last["res"]),
                                      ("con_outputs", self.con, last["con"])):
                if part == "con_outputs" and (not st or i > 1):
                    continue
                got = getattr(r, part)
                for n, v in zip(names, vals):
                    if bool(v) != (n in got):
                        raise Mismatch("%s: %s of %s" % (what, part, n), "present" if v else "absent", sorted(got))
                    if v:
                        same("%s: %s %s" % (what, part, n), v[0], num([got[n]])[0])
                        self.n += 1
            if st:
                same(what + ": states_dot", 10 * op["x"] + op["tag"], num([r.states_dot["s"]])[0])
        elif way == "implicit":
            exp = [10 * op["x"] + op["tag"] - 1] + [v[0] - 2 - k for k, v in enumerate(last["con"])] + [v[0] for v in last["res"]]
            same(what, exp, vec(r))
        else:
            same(what + ": outputs", [v[0] for v in last["vals"]], vec(r.outputs))
            same(what + ": residuals", [v[0] for v in last["res"]], vec(r.residuals))
            if st:
                same(what + ": states_dot", [10 * op["x"] + op["tag"]], vec(r.states_dot))
                if i == 1:
                    same(what + ": con_outputs", [v[0] for v in last["con"]], vec(r.con_outputs))
            if len(onames):
                n = onames[self.k % len(onames)]
                same(what + ": get_output", last["vals"][self.k % len(onames)][0], num([m.get_output(r.outputs, n)])[0])
        self.n += 1

    def static(self, first):
        """names, their places, vectors and dictionaries by name"""
        from ocpkit import Mismatch, rejected, same
        import lumos.numpy as lnp
        plain = {j + 1: [[dict(a="call", c=k + 1, miss="none", on="raise", x=1) for k in range(len(nd["kids"]))]
                         + [dict(a="collect", miss="none")]] * 9 for j, nd in enumerate(self.shape)}
        for i in self.paths:
            m, st = self.model(i), self.shape[i - 1]["st"]
            who = self.paths[i] or "the model"
            groups = {"inputs": ["x", "w"], "outputs": self.names[i - 1]["o"], "residuals": self.names[i - 1]["r"]}
            if st:
                groups.update(states=["s"], states_dot=["s"])
                groups["con_outputs"] = self.con if i == 1 else []
            for g, names in groups.items():
                if list(m.get_group_names(g)) != list(names):
                    raise Mismatch("%s: names of %s" % (who, g), names, list(m.get_group_names(g)))
                if m.get_num_vars(g) != len(names):
                    raise Mismatch("%s: number of %s" % (who, g), len(names), m.get_num_vars(g))
                same("%s: constant %s" % (who, g), [2.5] * len(names), m.make_const_vector(g, 2.5))
                if m.make_const_dict(g, 2.5) != {n: 2.5 for n in names}:
                    raise Mismatch("%s: constant %s" % (who, g))
                if np.shape(m.make_random_vector(g)) != (len(names),):
                    raise Mismatch("%s: random %s" % (who, g))
                vals = {n: float(3 * q + 1) for q, n in enumerate(names)}
                shuffled = dict(sorted(vals.items(), key=lambda kv: hash((kv[0], self.k)) % 97))
                same("%s: vector of %s" % (who, g), list(vals.values()), m.make_vector(g, **shuffled))
                same("%s: vector of %s with another name" % (who, g), list(vals.values()), m.make_vector(g, nobody=9.0, **shuffled))
                got = m.make_dict(g, **shuffled)
                if {n: got[n] for n in names} != vals:
                    raise Mismatch("%s: dictionary of %s" % (who, g), vals, got)
                for q, n in enumerate(names):
                    if m.get_var_index(g, n) != q:
                        raise Mismatch("%s: place of %s in %s" % (who, n, g), q, m.get_var_index(g, n))
                    less = {a: b for a, b in vals.items() if a != n}
                    rejected("%s: vector of %s without %s" % (who, g, n), lambda: m.make_vector(g, **less))
                    rejected("%s: dictionary of %s without %s" % (who, g, n), lambda: m.make_dict(g, **less))
                    self.n += 3
                rejected("%s: place of an unknown name in %s" % (who, g), lambda: m.get_var_index(g, "nobody"))
            if m.get_input(np.array([7.0, 8.0]), "w") != 8.0 or (st and m.get_state(np.array([4.0]), "s") != 4.0):
                raise Mismatch("%s: input or state by name" % who)
            for b in (BACKENDS if first else []):
                a = lambda g, cut: lnp.array([float(q) for q in range(len(groups[g]) - cut)])
                with lnp.use_backend(b):
                    Run.scr, Run.cnt, Run.tag = plain, {}, 0
                    if st:
                        m.forward_with_arrays(a("states", 0), a("inputs", 0), 0.0)
                    else:
                        m.forward_with_arrays(a("inputs", 0))
                    Run.cnt = {}
                    if st:
                        rejected("%s: %s array without the last input" % (who, b),
                                 lambda: m.forward_with_arrays(a("states", 0), a("inputs", 1), 0.0))
                        rejected("%s: %s array without the last state" % (who, b),
                                 lambda: m.forward_with_arrays(a("states", 1), a("inputs", 0), 0.0))
                    else:
                        rejected("%s: %s array without the last input" % (who, b), lambda: m.forward_with_arrays(a("inputs", 1)))
                self.n += 1
            if st:
                off = 0
                for g in m.implicit_inputs:
                    n = groups[g]
                    if list(m.get_group_indices_in_flat(g)) != list(range(off, off + len(n))):
                        raise Mismatch("%s: places of %s among all" % (who, g), list(range(off, off + len(n))),
                                       list(m.get_group_indices_in_flat(g)))
                    for q, a in enumerate(n):
                        if m.get_var_index_in_flat(g, a) != off + q:
                            raise Mismatch("%s: place of %s among all" % (who, a))
                    off += len(n)


def one(h):
    r = Replay(h[0])
    r.static(True)
    steps = h[0]["hist"] if h[0]["hist"] else [rec["last"] for rec in h]
    for s in steps:
        r.step(s)
    r.static(False)
    return r.n


def job(hs):
    import logging
    logging.getLogger("lumos").setLevel(logging.ERROR)
    return walks.replay_all(one, hs)


def main(chk):
    hs = walks.generate(chk, "SubCalls", dict(Seed=chk.seed, Walks=6 * chk.pick(2, 3), Len0=chk.pick(2, 3), Exhaustive=True),
                        properties=("FailureClears", "Fresh"))
    hs += walks.generate(chk, "SubCalls", dict(Seed=chk.seed, Walks=chk.pick(600, 6000), Len0=chk.pick(16, 30), Exhaustive=False),
                         properties=("FailureClears", "Fresh"))
    # only complete histories need replaying: every operation of a history is compared
    longest = max(len(h[0]["hist"]) for h in hs)
    hs = [h for h in hs if not h[0]["hist"] or len(h[0]["hist"]) == longest]
    walks.report(chk, pmap(job, walks.chunked(hs, 40)))
    chk.sample({"histories": len(hs), "example": walks.brief(hs[-1])[:4]})
