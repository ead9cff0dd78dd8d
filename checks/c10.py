"""C10: histories of TreeWalk.tla replayed on real parameter and configuration trees."""
import numpy as np

import walks
from par import pmap

def real(v):
    """A number x of the specification stands for x / 2"""
    return np.array(v, dtype=float) / 2


NAMES = ["ConstAero", "GPAero", "MF52", "Perantoni Tire", "Vehicle_2D", ""]


def value(lf, flavour, config):
    if config:
        return NAMES[lf["v"][0] % 5] + str(lf["v"][0])
    v, sh = lf["v"], tuple(lf["sh"])
    a = real(v).reshape(sh)
    if flavour == "casadi":
        import casadi as cas
        return cas.DM(a)
    if sh == ():
        if v[0] % 4 == 0:
            return v[0] // 2                       # an integer before fractions: nothing may be rounded
        return [float(a), a][v[0] % 2]
    if flavour == "jax" and v and v[0] % 2:
        import jax.numpy as jnp
        return jnp.array(a)
    return a


def as_list(x):
    import casadi as cas
    if isinstance(x, (cas.DM, cas.SX, cas.MX)):
        sh = list(x.shape)
        m = np.array(cas.DM(x)) if not isinstance(x, cas.MX) else np.array(cas.evalf(x))
        return sh, m.reshape(-1).tolist()
    return list(np.shape(x)), np.asarray(x, dtype=float).reshape(-1).tolist()


class Replay:
    def __init__(self, rec):
        from lumos.models.tree_utils import ConfigTree, ParameterTree
        self.flavour, self.config = rec["flavour"], rec["config"]
        self.cls = ConfigTree if self.config else ParameterTree
        self.T, self.D, self.F, self.R = [None, None], None, None, None
        self.n = 0
        self.direct = 0

    def val(self, lf):
        return value(lf, self.flavour, self.config)

    # building --------------------------------------------------------------
    def nested(self, t):
        d = None
        for n in t:
            node = {"data": self.val(n["data"][0]) if self.config else {l["k"]: self.val(l) for l in n["data"]},
                    "children": {}}
            if not n["path"]:
                d = node
            else:
                q = d
                for p in n["path"][:-1]:
                    q = q["children"][p]
                q["children"][n["path"][-1]] = node
        return d

    def build(self, t):
        self.direct += 1
        d = self.nested(t)
        if self.direct % 2:
            tree = self.cls.from_dict(d)
            self.scribble(d)                       # the tree must not notice
            return tree
        return self.construct(d)

    def construct(self, d):
        return self.cls(d["data"], children={k: self.construct(v) for k, v in d["children"].items()})

    def scribble(self, d):
        if self.config:
            d["data"] = "scribbled"
        else:
            for k in list(d["data"]):
                self.overwrite(d["data"], k, -7777)
            d["data"]["scribble"] = 1.0
        for c in d["children"].values():
            self.scribble(c)
        d["children"]["scribble"] = {"data": "x" if self.config else {}, "children": {}}

    def overwrite(self, d, k, v):
        x = d[k]
        if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
            x[...] = v
        elif hasattr(x, "numel"):
            x[:, :] = v
        else:
            d[k] = v

    def put(self, d, k, lf, inplace):
        x = d[k]
        if inplace and isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
            x[...] = real(lf["v"]).reshape(lf["sh"])
        elif inplace and hasattr(x, "numel") and x.numel():
            import casadi as cas
            x[:, :] = cas.DM(real(lf["v"]).reshape(lf["sh"]))
        else:
            d[k] = self.val(lf)

    # operations ------------------------------------------------------------
    def apply(self, op, ok):
        from ocpkit import Mismatch, rejected
        k = op["k"]
        if k == "skip":
            return
        if k == "init":
            self.T = [self.build(t) for t in op["T"]]
            return
        i = op.get("i", 1) - 1
        delim = op.get("delim", ".")
        path = delim.join(op.get("p", []))
        if k == "set":
            f = lambda: self.T[i].set_param(delim.join(op["p"] + [op["leaf"]["k"]]), self.val(op["leaf"]), **self.kw(delim))
        elif k == "get":
            f = lambda: self.T[i].get_param(delim.join(op["p"] + [op["key"]]), **self.kw(delim))
        elif k == "replace":
            s = {"data": {}, "children": {}} if op["j"] == 0 else self.T[op["j"] - 1]
            f = lambda: self.T[i].replace_subtree(path, s, **self.kw(delim))
        elif k == "addchild":
            f = lambda: self.T[i].add_child(op["name"], self.T[op["j"] - 1])
        elif k == "new":
            f = lambda: self.T.__setitem__(i, self.build(op["t"]))
        elif k == "todict":
            f = lambda: setattr(self, "D", self.T[i].to_dict())
        elif k == "toflat":
            f = lambda: setattr(self, "F", self.T[i].to_flat_dict())
        elif k == "ravel":
            f = lambda: setattr(self, "R", list(self.T[i].tree_ravel()))
        elif k == "fromdict":
            f = lambda: self.T.__setitem__(i, self.cls.from_dict(self.D))
        elif k == "fromflat":
            f = lambda: self.T.__setitem__(i, self.cls.from_flat_dict(self.F[1], self.F[0]))
        elif k == "fromflatbad":
            f = lambda: self.cls.from_flat_dict(self.F[1], {**self.F[0], "zz.yy.a": self.F and (NAMES[0] if self.config else 1.0)})
        elif k == "unravel":
            f = lambda: self.T.__setitem__(i, self.R[1](self.R[0]))
        elif k == "editdict":
            def f():
                node = self.D
                for p in op["p"]:
                    node = node["children"][p]
                if self.config:
                    node["data"] = self.val(op["leaf"])
                else:
                    self.put(node["data"], op["leaf"]["k"], op["leaf"], op["inplace"])
        elif k == "editflat":
            f = lambda: self.put(self.F[0], ".".join(op["p"] + ([] if self.config else [op["leaf"]["k"]])), op["leaf"], op["inplace"])
        elif k == "editvec":
            def f():
                v = self.R[0]
                if hasattr(v, "numel"):
                    import casadi as cas
                    for q in range(v.numel()):
                        v[q] = (3 * int(round(2 * float(v[q]))) + q + 1) % 1000 / 2
                else:
                    if not v.flags.writeable or v.dtype.kind != "f":
                        v = np.array(v, dtype=float)             # a tree of integers has a vector of integers
                    v[...] = (6 * v + np.arange(1, v.size + 1)) % 1000 / 2
                self.R[0] = v
        elif k == "treemap":
            def f():
                import jax
                fn = lambda t: jax.tree_util.tree_map(lambda x: 2 * x + 0.5, t)
                self.T[op["j"] - 1] = (jax.jit(fn) if op["jit"] else fn)(self.T[i])
        else:
            raise AssertionError(k)
        if ok:
            f()
            if k in ("replace", "addchild"):
                self.T[op["j"] - 1] = None
        else:
            rejected("%s at %r" % (k, path), f)

    def kw(self, delim):
        return {} if delim == "." else {"delimiter": delim}

    # observations ----------------------------------------------------------
    def see(self, what, x, lf):
        from ocpkit import Mismatch
        self.n += 1
        if self.config:
            exp = self.val(lf)
            if x != exp:
                raise Mismatch(what, exp, x)
            return
        sh, v = as_list(x)
        # casadi has no arrays of other than two dimensions
        esh = list(lf["sh"])
        if sh != esh or v != real(lf["v"]).tolist():
            raise Mismatch(what, [esh, real(lf["v"]).tolist()], [sh, v])

    def see_dict(self, what, d, t):
        from ocpkit import Mismatch
        nodes = []

        def walk(d, path):
            nodes.append((path, d["data"]))
            for c in d["children"]:
                walk(d["children"][c], path + [c])
        walk(d, [])
        if [p for p, _ in nodes] != [n["path"] for n in t]:
            raise Mismatch(what + ": nodes", [n["path"] for n in t], [p for p, _ in nodes])
        for (p, data), n in zip(nodes, t):
            if self.config:
                self.see("%s: type at %s" % (what, p), data, n["data"][0])
                continue
            if list(data) != [l["k"] for l in n["data"]]:
                raise Mismatch("%s: keys at %s" % (what, p), [l["k"] for l in n["data"]], list(data))
            for l in n["data"]:
                self.see("%s: value at %s.%s" % (what, p, l["k"]), data[l["k"]], l)

    def see_flat(self, what, f, t):
        from ocpkit import Mismatch
        exp = [(".".join(n["path"] + ([] if self.config else [l["k"]])), l) for n in t for l in n["data"]]
        if list(f) != [k for k, _ in exp]:
            raise Mismatch(what + ": keys", [k for k, _ in exp], list(f))
        for k, l in exp:
            self.see("%s: value of %s" % (what, k), f[k], l)

    def observe(self, rec):
        from ocpkit import Mismatch
        for i in (0, 1):
            t, tree = rec["T"][i], self.T[i]
            if not t:
                continue
            name = "tree %d" % (i + 1)
            self.see_dict(name + " as dictionary", tree.to_dict(), t)
            flat, tdef = tree.to_flat_dict()
            self.see_flat(name + " as flat dictionary", flat, t)
            self.see_dict(name + " rebuilt from its flat dictionary", self.cls.from_flat_dict(tdef, flat).to_dict(), t)
            if self.config:
                continue
            for q, n in enumerate(t):
                d = [".", "/", "->"][(q + rec["step"]) % 3]
                for l in n["data"]:
                    self.see("%s: get_param %s %s" % (name, n["path"], l["k"]),
                             tree.get_param(d.join(n["path"] + [l["k"]]), **self.kw(d)), l)
            vec, un = tree.tree_ravel()
            exp = [x / 2 for n in t for l in n["data"] for x in l["v"]]
            got = as_list(vec)[1]
            if got != exp:
                raise Mismatch(name + ": raveled vector", exp, got)
            if exp:
                self.see_dict(name + " unraveled", un(vec).to_dict(), t)
            if self.flavour != "casadi":
                import jax
                leaves, td = jax.tree_util.tree_flatten(tree)
                for lv, l in zip(leaves, [l for n in t for l in n["data"]]):
                    self.see(name + ": leaves", lv, l)
                self.see_dict(name + " rebuilt from its leaves", jax.tree_util.tree_unflatten(td, leaves).to_dict(), t)
                if exp and all(len(l["sh"]) <= 2 for n in t for l in n["data"]):
                    self.cross(name, un, exp, t)
        if self.flavour != "casadi" and not self.config and rec["T"][0] and rec["T"][1]:
            import jax
            a, b = (jax.tree_util.tree_structure(x) for x in self.T)
            sa, sb = ([(n["path"], [l["k"] for l in n["data"]]) for n in t] for t in rec["T"])
            if (a == b) != (sa == sb):
                raise Mismatch("tree structures compare %s" % ("equal" if a == b else "different"), [sa, sb], [str(a), str(b)])
        if rec["D"]:
            self.see_dict("dictionary made from a tree", self.D, rec["D"])
        if rec["F"]:
            self.see_flat("flat dictionary made from a tree", self.F[0], rec["F"])
        if rec["R"] and self.R[0] is not None and sum(len(l["v"]) for n in rec["R"] for l in n["data"]):
            self.see_dict("raveled vector put back in its tree", self.R[1](self.R[0]).to_dict(), rec["R"])

    def cross(self, name, un, exp, t):
        """The structure of a numpy tree filled with casadi numbers (as done when a model is exported)"""
        import casadi as cas
        from ocpkit import Mismatch
        for flat in (cas.DM(exp), cas.MX(cas.DM(exp))):
            tree = un(flat)
            for n in t:
                for l in n["data"]:
                    sh, v = as_list(tree.get_param(".".join(n["path"] + [l["k"]])))
                    e = list(l["sh"])
                    e = [1, 1] if e == [] else e + [1] if len(e) == 1 else e
                    if v != real(l["v"]).tolist() or (l["v"] and sh != e):
                        raise Mismatch("%s filled with casadi values: %s %s" % (name, n["path"], l["k"]), [e, real(l["v"]).tolist()], [sh, v])
                    self.n += 1


def one(h):
    r = Replay(h[0])
    if len(h) == 1:                            # exhaustive: the operations and the final record
        for x in h[0]["hist"]:
            r.apply(x["op"], x["ok"])
        r.observe(h[0])
    else:
        r.apply({"k": "init", "T": h[0]["T"]}, True)
        r.observe(h[0])
        for rec in h[1:]:
            r.apply(rec["last"]["op"], rec["last"]["ok"])
            r.observe(rec)
    return r.n


def job(hs):
    return walks.replay_all(one, hs)


def main(chk):
    inv = ["TypeOK", "RoundTrips", "Out"]
    props = ["RejectedKeeps", "SetFrame"]
    a = walks.generate(chk, "TreeWalk", dict(Seed=chk.seed, Walks=chk.pick(400, 4000), Len0=chk.pick(14, 30), Exhaustive=False), inv, props)
    b = walks.generate(chk, "TreeWalk", dict(Seed=chk.seed, Walks=chk.pick(3, 15), Len0=3, Exhaustive=True), inv, props)
    chk.extra.update(random_histories=len(a), exhaustive_histories=len(b))
    chk.sample({"history": walks.brief(a[0])})
    chk.sample({"history": walks.brief(b[-1])})
    walks.report(chk, pmap(job, walks.chunked(a, 10) + walks.chunked(b, 100)))
