"""C11: histories of Assembly.tla replayed on the real registry and real models."""
import numpy as np

import walks
from par import pmap

RANK = ["VfA", "VfB", "VfC", "VfD"]


def arr(lf):
    return float(lf["v"][0]) if not lf["sh"] else np.array(lf["v"], dtype=float).reshape(lf["sh"])


def make_class(c, plain):
    from lumos.models.base import Model, StateSpaceModel, model_io, state_space_io
    from lumos.models.composition import CompositeModel
    base = CompositeModel if plain else StateSpaceModel if c["name"] == "VfA" else Model

    def get_default_submodel_config(cls):
        return {s: t for s, t in c["subs"]}

    def get_default_params(cls):
        return {l["k"]: arr(l) for l in c["params"]}
    d = {"get_default_submodel_config": classmethod(get_default_submodel_config),
         "get_default_params": classmethod(get_default_params)}
    k = type(c["name"], (base,), d)
    if not plain:
        k = state_space_io()(k) if base is StateSpaceModel else model_io()(k)
    return k


class Replay:
    def __init__(self, rec):
        from lumos.models.composition import ModelMaker
        self.MM = ModelMaker
        plain = rec["w"] % 2 == 0
        self.cls = {(c["name"], c["ver"]): make_class(c, plain) for c in rec["classes"]}
        self.C, self.M, self.P = [None, None], [None, None], None
        self.reg = {}
        self.n = 0

    def close(self):
        for nm in RANK:
            try:
                self.MM.remove_from_registry(self.MM.get_model_class(nm))
            except Exception:
                pass

    def apply(self, op, ok):
        from lumos.models.tree_utils import ConfigTree
        from ocpkit import rejected
        k = op["k"]
        MM = self.MM
        if k == "skip":
            return
        if k == "init":
            for nm, v in op["reg"].items():
                if v:
                    MM.add_to_registry(self.cls[nm, v])
            return
        i, m = op.get("i", 0) - 1, op.get("m", 0) - 1
        if k == "reg":
            f = lambda: MM.add_to_registry(self.cls[op["name"], op["ver"]])
        elif k == "unreg":
            f = lambda: MM.remove_from_registry(self.cls[op["name"], op["ver"]])
        elif k == "lookup":
            f = lambda: self.is_class(MM.get_model_class(op["name"]), op["name"], op["ver"], "registered type")
        elif k == "mkconfig":
            f = lambda: self.C.__setitem__(i, MM.make_config(op["name"]))
        elif k == "bare":
            f = lambda: self.C.__setitem__(i, ConfigTree(data=op["name"]))
        elif k == "editconfig":
            f = lambda: self.C[i].replace_subtree(".".join(op["p"]), self.C[op["j"] - 1])
        elif k == "build":
            f = lambda: self.M.__setitem__(m, MM.make_model_from_config(self.C[i]))
        elif k == "byname":
            f = lambda: self.M.__setitem__(m, MM.make_model_from_name(op["name"]))
        elif k == "direct":
            kw = {}
            if i >= 0:
                kw["model_config"] = self.C[i]
            if op["useP"]:
                kw["params"] = self.P
            f = lambda: self.M.__setitem__(m, self.cls[op["name"], op["ver"]](**kw))
        elif k == "getparams":
            f = lambda: setattr(self, "P", self.M[m].get_recursive_params())
        elif k == "defaults":
            f = lambda: setattr(self, "P", self.M[m].get_recursive_default_params())
        elif k == "editparams":
            def f():
                path = ".".join(op["p"] + [op["leaf"]["k"]])
                old = self.P.get_param(path)
                if op["inplace"] and isinstance(old, np.ndarray) and old.ndim:
                    old[...] = arr(op["leaf"])
                else:
                    self.P.set_param(path, arr(op["leaf"]))
        elif k == "putparams":
            f = lambda: self.M[m].set_recursive_params(self.P)
        elif k == "getsub":
            f = lambda: self.M[m].get_submodel(".".join(op["p"]))
        else:
            raise AssertionError(k)
        if ok:
            f()
            if k == "editconfig":
                self.C[op["j"] - 1] = None
        else:
            rejected("%s %s" % (k, {x: y for x, y in op.items() if x != "k"}), f)

    def is_class(self, cls, name, ver, what):
        from ocpkit import Mismatch
        self.n += 1
        if cls is not self.cls[name, ver]:
            got = [k for k, v in self.cls.items() if v is cls] or cls
            raise Mismatch(what, [name, ver], got)

    def nodes(self, d):
        out = []

        def walk(d, path):
            out.append((path, d["data"]))
            for c in d["children"]:
                walk(d["children"][c], path + [c])
        walk(d, [])
        return out

    def see_params(self, what, tree, t):
        from ocpkit import Mismatch
        ns = self.nodes(tree.to_dict())
        if [p for p, _ in ns] != [n["path"] for n in t]:
            raise Mismatch(what + ": paths", [n["path"] for n in t], [p for p, _ in ns])
        for (p, d), n in zip(ns, t):
            self.n += 1
            if list(d) != [l["k"] for l in n["data"]]:
                raise Mismatch("%s: parameters at %s" % (what, p), [l["k"] for l in n["data"]], list(d))
            for l in n["data"]:
                if list(np.shape(d[l["k"]])) != l["sh"] or np.ravel(d[l["k"]]).tolist() != [float(x) for x in l["v"]]:
                    raise Mismatch("%s: %s at %s" % (what, l["k"], p), l, np.array(d[l["k"]]).tolist())

    def observe(self, rec):
        from ocpkit import Mismatch
        for nm, v in rec["reg"].items():
            try:
                got = self.MM.get_model_class(nm)
            except Exception:
                got = None
            self.n += 1
            if v == 0 and got is not None:
                raise Mismatch("%s is registered" % nm, None, got)
            if v:
                self.is_class(got, nm, v, "registered under %s" % nm)
        for i in (0, 1):
            c = rec["C"][i]
            if c:
                got = self.nodes(self.C[i].to_dict())
                exp = [(n["path"], RANK[n["data"][0]["v"][0] - 1]) for n in c]
                self.n += 1
                if got != exp:
                    raise Mismatch("configuration %d" % (i + 1), exp, got)
            m = rec["M"][i]
            if m:
                what = "model %d" % (i + 1)
                for q, n in enumerate(m):
                    d = "./"[(q + rec["step"]) % 2]
                    sub = self.M[i].get_submodel(d.join(n["path"]), delimiter=d) if n["path"] else self.M[i]
                    self.is_class(type(sub), n["type"], n["ver"], "%s: type at %s" % (what, n["path"]))
                    below = [dict(x, path=x["path"][len(n["path"]):]) for x in m if x["path"][:len(n["path"])] == n["path"]]
                    self.see_params("%s at %s" % (what, n["path"]), sub.get_recursive_params(), below)
                    dflt = [dict(x, data=self.defaults(x, rec)) for x in below]
                    self.see_params("%s defaults at %s" % (what, n["path"]), sub.get_recursive_default_params(), dflt)
        if rec["P"]:
            self.see_params("parameter tree", self.P, rec["P"])

    def defaults(self, x, rec):
        return [c["params"] for c in rec["classes"] if (c["name"], c["ver"]) == (x["type"], x["ver"])][0]


def one(h):
    r = Replay(h[0])
    try:
        if h[0]["hist"]:
            for x in h[0]["hist"]:
                r.apply(x["op"], x["ok"])
            r.observe(h[0])
        else:
            r.apply({"k": "init", "reg": h[0]["reg"]}, True)
            r.observe(h[0])
            for rec in h[1:]:
                r.apply(rec["last"]["op"], rec["last"]["ok"])
                r.observe(rec)
    finally:
        r.close()
    return r.n


def job(hs):
    return walks.replay_all(one, hs)


def shipped(_):
    """The types the library ships are registered, and by name build what they say, all the way down"""
    from ocpkit import Mismatch
    import lumos.models  # noqa: registers
    from lumos.models import ModelMaker
    n = 0
    try:
        for nm in ("SimpleVehicleOnTrack", "SimpleVehicle", "MF52", "PerantoniTire", "ConstAero", "MLPAero", "TrackPosition2D"):
            cfg = ModelMaker.make_config(nm)
            a, b = ModelMaker.make_model_from_config(cfg), ModelMaker.make_model_from_config(cfg)

            def walk(c, m1, m2, path):
                nonlocal n
                n += 1
                if type(m1).__name__ != c["data"] or type(m2).__name__ != c["data"]:
                    raise Mismatch("%s: type at %s" % (nm, path), c["data"], type(m1).__name__)
                if m1 is m2:
                    raise Mismatch("%s: two models share the submodel at %s" % (nm, path))
                for k, v in c["children"].items():
                    walk(v, m1.get_submodel(k), m2.get_submodel(k), path + [k])
            walk(cfg.to_dict(), a, b, [])
            try:
                ModelMaker.add_to_registry(type(a))
            except Exception:
                pass
            else:
                raise Mismatch("%s was registered a second time" % nm)
        return [dict(n=n, bad=None)]
    except Mismatch as m:
        return [dict(n=1, bad=dict(what=m.what, expected=m.exp, observed=m.obs))]


def main(chk):
    inv = ["TypeOK", "Described", "Out"]
    props = ["RejectedKeeps", "AsConfigured"]
    a = walks.generate(chk, "Assembly", dict(Seed=chk.seed, Walks=chk.pick(400, 4000), Len0=chk.pick(20, 40), Exhaustive=False), inv, props)
    b = walks.generate(chk, "Assembly", dict(Seed=chk.seed, Walks=chk.pick(3, 6), Len0=chk.pick(3, 4), Exhaustive=True), inv, props)
    chk.extra.update(random_histories=len(a), exhaustive_histories=len(b))
    chk.sample({"history": walks.brief(a[0])})
    chk.sample({"history": walks.brief(b[-1])})
    walks.report(chk, pmap(shipped, [0]))
    walks.report(chk, pmap(job, walks.chunked(a, 10) + walks.chunked(b, 100)))
