"""C14: histories of MapWalk.tla replayed on lmap and cmap."""
from collections import namedtuple

import numpy as np

import walks
from par import pmap


def value(e, x):
    r = 0.0
    for m in e:
        t = float(m["c"])
        for v in m["v"]:
            t = t * x[v - 1]
        r = r + t
    return r


class Replay:
    def __init__(self, rec):
        import lumos.numpy as lnp
        self.fn, self.kind = rec["fn"], rec["kind"]
        self.n = 0
        # results that are integers where they happen to be whole
        self.half = self.kind == 0 and rec["w"] // 4 % 2 == 1
        self.k = rec["w"]
        shared = [i["shared"] for i in self.fn["ins"]]
        # the three ways to say which arguments are mapped
        axes = [None if s else 0 for s in shared]
        if not any(shared) and rec["form"] == 0:
            axes = 0
        elif rec["form"] == 1:
            axes = tuple(axes)
        kw = {} if axes == 0 and self.k % 3 else {"in_axes": axes}
        if self.kind < 2:
            self.one = self.python_fn()
            self.mapped = lnp.lmap(self.one, **kw)
        else:
            self.one = self.casadi_fn()
            if self.k % 2:
                kw["num_workers"] = 3
            self.mapped = lnp.cmap(self.one, sparse=self.kind == 3, **kw)

    def flat(self, args):
        x = []
        for a, i in zip(args, self.fn["ins"]):
            if (i["r"], i["c"]) == (1, 1):
                x.append(a if np.ndim(a) == 0 else a[0] if np.ndim(a) == 1 else a[0, 0])
            elif i["c"] == 1:
                x += [a[q] for q in range(i["r"])]
            else:
                x += [a[q, s] for q in range(i["r"]) for s in range(i["c"])]
        return x

    def python_fn(self):
        outs = self.fn["outs"]
        names = ["o%d" % k for k in range(len(outs))]
        Named = namedtuple("Named", names)
        style = self.k % 3

        def fn(*args):
            if len(args) != len(self.fn["ins"]):
                raise TypeError("arguments")
            for a, i in zip(args, self.fn["ins"]):
                if np.size(a) != i["r"] * i["c"]:
                    raise TypeError("size")
            x = self.flat(args)
            if self.kind == 1:
                import jax.numpy as np_
            else:
                np_ = np
            r = []
            for o in outs:
                v = np_.array([value(e, x) for e in o["e"]])
                if self.half:
                    v = v / 2
                    v = v.astype(int) if np.all(v == np.round(v)) else v
                r.append((v[0].item() if self.half else v[0]) if (o["r"], o["c"]) == (1, 1) else v if o["c"] == 1 else v.reshape(o["r"], o["c"]))
            if len(r) == 1 and style == 0:
                return r[0]
            return Named(*r) if style == 1 else tuple(r)
        self.style = "named" if style == 1 else "single" if style == 0 and len(outs) == 1 else "tuple"
        return fn

    def casadi_fn(self):
        import casadi as cas
        T = cas.SX if self.k % 2 else cas.MX
        args = [T.sym("a%d" % k, i["r"], i["c"]) for k, i in enumerate(self.fn["ins"])]
        x = [a[q, s] for a, i in zip(args, self.fn["ins"]) for q in range(i["r"]) for s in range(i["c"])]
        outs = []
        for o in self.fn["outs"]:
            # an entry without monomials is a structural zero
            cols = [cas.vertcat(*[value(o["e"][q * o["c"] + s], x) if o["e"][q * o["c"] + s] else T(1, 1)
                                  for q in range(o["r"])]) for s in range(o["c"])]
            outs.append(cas.horzcat(*cols))
        return cas.Function("f", args, outs)

    def arg(self, k, rows, shared):
        i = self.fn["ins"][k]
        a = np.array(rows, dtype=float)
        if (i["r"], i["c"]) == (1, 1):
            a = a[:, 0]
            if not shared and (self.k + k) % 4 == 0:
                a = a[:, None]
        elif i["c"] > 1:
            a = a.reshape(-1, i["r"], i["c"])
        if shared:
            a = a[0]
            if a.ndim == 0 and self.k % 2:
                a = float(a)
        if self.kind == 1:
            import jax.numpy as jnp
            a = jnp.array(a)
        return a

    def call(self, op):
        from ocpkit import Mismatch, rejected, same
        ins = self.fn["ins"]
        args = [self.arg(k, op["arg"][k], i["shared"]) for k, i in enumerate(ins)]
        self.k += 1
        copies = [np.array(a) for a in args]
        if op["k"] == "bad":
            k = self.k % len(ins)
            i = ins[k]
            bad = list(args)
            # two more numbers than the argument has (and never a size that CasADi would broadcast or repeat)
            shape = (i["r"] * i["c"] + 2,) if i["shared"] else (op["n"], i["r"] * i["c"] + 2)
            bad[k] = np.zeros(shape)
            if self.kind >= 2:
                if i["r"] * i["c"] > 1 and (not i["shared"] or i["c"] > 1):
                    rejected("call with argument %d of the wrong size" % k, lambda: self.mapped(*bad))
            else:
                rejected("call with argument %d of the wrong size" % k, lambda: self.mapped(*bad))
            if len(ins) > 1:
                rejected("call without the last argument", lambda: self.mapped(*args[:-1]))
            self.n += 1
            return
        r = self.mapped(*args)
        for a, c in zip(args, copies):
            if not np.array_equal(np.array(a), c):
                raise Mismatch("mapping changed an argument", c.tolist(), np.array(a).tolist())
        outs = self.fn["outs"]
        if self.kind == 3:
            o = outs[0]
            nz = [q * o["c"] + s for s in range(o["c"]) for q in range(o["r"]) if o["e"][q * o["c"] + s]]
            exp = np.array([[row[q] for q in nz] for row in op["out"][0]], dtype=float).reshape(op["n"], len(nz))
            same("sparse result", exp, r)
            self.n += exp.size
            return
        if self.kind == 2:
            rs = r if len(outs) > 1 else (r,)
            if len(outs) > 1 and not (isinstance(r, tuple) and len(r) == len(outs)):
                raise Mismatch("container of the results", "tuple of %d" % len(outs), repr(type(r)))
            for o, e, got in zip(outs, op["out"], rs):
                # CasADi results of matrix functions come column by column
                exp = np.array(e, dtype=float).reshape(op["n"], o["r"], o["c"]).transpose(0, 2, 1).reshape(op["n"] * o["c"], o["r"])
                same("dense result", exp, got)
                self.n += exp.size
            return
        rs = (r,) if self.style == "single" else tuple(r)
        if self.style == "named":
            if type(r).__name__ != "Named" or r._fields != tuple("o%d" % k for k in range(len(outs))):
                raise Mismatch("container of the results", "Named", repr(type(r)))
        elif self.style == "tuple" and (type(r) is not tuple or len(r) != len(outs)):
            raise Mismatch("container of the results", "tuple of %d" % len(outs), repr(type(r)))
        for o, e, got in zip(outs, op["out"], rs):
            shape = (op["n"],) if (o["r"], o["c"]) == (1, 1) else (op["n"], o["r"]) if o["c"] == 1 else (op["n"], o["r"], o["c"])
            same("result", np.array(e, dtype=float).reshape(shape) / (2 if self.half else 1), got)
            self.n += int(np.prod(shape))
        self.kept = getattr(self, "kept", [])
        self.kept.append((rs, [np.array(x) for x in rs]))
        for a, b in self.kept[-4:]:
            for p, q in zip(a, b):
                if not np.array_equal(np.array(p), q):
                    raise Mismatch("an earlier result changed", q.tolist(), np.array(p).tolist())


def one(h):
    r = Replay(h[0])
    for rec in h[1:]:
        r.call(rec["last"]["op"])
    return r.n


def job(hs):
    import logging
    logging.getLogger("lumos").setLevel(logging.ERROR)
    return walks.replay_all(one, hs)


def main(chk):
    hs = walks.generate(chk, "MapWalk", dict(Seed=chk.seed, Walks=chk.pick(800, 6000), Len0=chk.pick(8, 14)),
                        invariants=("OnePerElement", "Out"), properties=())
    walks.report(chk, pmap(job, walks.chunked(hs, 20)))
    chk.sample({"histories": len(hs), "functions": len(hs), "example": hs[-1][0]["fn"]["ins"]})
