"""C15: programs of ArrayOps.tla run on every backend."""
import math

import numpy as np

import walks
from par import pmap

INF = float("inf")


def term(t):
    f, a = t["f"], t["a"]
    if f == "q":
        return a[0] / a[1]
    if f == "cbrt":
        return (a[0] / a[1]) ** (1 / 3)
    if f == "geom":
        return a[0] * (a[1] / a[0]) ** (a[2] / a[3])
    if f == "cosp":
        return (a[0] + a[1]) / 2 - (a[1] - a[0]) / 2 * math.cos(math.pi * a[2] / a[3])
    if f == "rot3":
        th = a[0] / a[1]
        return math.cos(th) * a[2] + math.sin(th) * a[3] / math.sqrt(a[5]) + (1 - math.cos(th)) * a[4] / a[5]
    if f in ("arctan2", "arctan2d", "hypot", "copysign"):
        x, y = a
        r = dict(arctan2=math.atan2, arctan2d=math.atan2, hypot=math.hypot, copysign=math.copysign)[f](x, y)
        return math.degrees(r) if f == "arctan2d" else r
    x = a[0] / a[1]
    return dict(sin=math.sin, cos=math.cos, tan=math.tan, exp=math.exp, arctan=math.atan, sinh=math.sinh, cosh=math.cosh,
                tanh=math.tanh, sqrtabs=lambda v: math.sqrt(abs(v)), log1p=lambda v: math.log(1 + abs(v)), degrees=math.degrees,
                radians=math.radians, sind=lambda v: math.sin(math.radians(v)), cosd=lambda v: math.cos(math.radians(v)),
                tand=lambda v: math.tan(math.radians(v)), deg2=lambda v: math.degrees(math.atan(v)), expm1=math.expm1,
                arcsinh=math.asinh, arcsin=math.asin, arccos=math.acos, arcsind=lambda v: math.degrees(math.asin(v)),
                arccosd=lambda v: math.degrees(math.acos(v)), arctanh=math.atanh, sqrt=math.sqrt, pow10=lambda v: 10 ** v,
                msin=lambda v: -math.sin(v))[f](x)


def numeric(a, vals=None):
    v = np.array(a["v"] if vals is None else vals, dtype=float)
    return v[0] if a["nd"] == 0 else v if a["nd"] == 1 else v.reshape(a["r"], a["c"])


class NotHere(Exception):
    """the operation does not exist for this backend"""


# operations of the CasADi backend only, and operations that are not meant for plain NumPy arrays there
CAS_ONLY = {"sind", "cosd", "tand", "arcsind", "arccosd", "arctan2d", "rot2", "rot3", "fd", "trapz", "cosspace", "length"}
NOT_PLAIN = {"hstack", "vstack", "column_stack", "row_stack", "split", "hsplit", "vsplit", "zeros_like", "interp",
             "vector_split", "vector_concat", "vector_tile", "close"}
# elementwise operations that NumPy hands to its operands, where MX does not take plain arrays
PLAIN_NUMPY = {"minimum", "maximum", "fmin", "fmax", "fun2", "logical_and", "logical_or", "mod", "remainder", "clip3", "where"}
CASADI_ONLY_ARGS = {"column_stack", "row_stack", "vector_tile", "vector_split"}
MAY_REFUSE = {("all", "MX"), ("any", "MX"), ("interp", "SX")}
OPERATORS = {"add", "sub", "mul", "less", "greater_equal", "equal", "matmul", "div", "neg", "power", "T"}


def ax(v):
    return None if v == 9 else v


def perform(m, o, A, fl, k):
    """the operation as a model would write it; m is lumos.numpy under the backend"""
    op, p = o["op"], o["p"]
    x = A[0] if A else None
    if op in ("add", "sub", "mul", "less", "greater_equal", "equal"):
        y = A[1]
        if fl == "MX":
            # comparisons of MX with structural zeros are CasADi's own
            import casadi
            x, y = casadi.densify(casadi.MX(x)), casadi.densify(casadi.MX(y))
        if k % 2 or op in ("sub", "mul", "less"):
            return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "less": lambda: x < y,
                    "greater_equal": lambda: x >= y, "equal": lambda: x == y}[op]()
        return getattr(m, op)(x, y)
    if op == "matmul":
        return A[0] @ A[1]
    if op == "neg":
        return -x
    if op == "T":
        return x.T
    if op == "power":
        return x ** p[0] if k % 2 else m.power(x, p[0])
    if op == "square":
        return x * x
    if op in ("floor", "ceil"):
        return getattr(m, op)(x / p[0])
    if op == "fun":
        f = p["f"]
        y = x / p["d"]
        if f == "sqrtabs":
            return m.sqrt(m.abs(y))
        if f == "log1p":
            return m.log(1 + m.abs(y))
        if f == "deg2":
            return m.degrees(m.arctan(y))
        return getattr(m, f)(y)
    if op == "fun2":
        return x / A[1] if p["f"] == "div" else getattr(m, p["f"])(x, A[1])
    if op == "where":
        return m.where(x < p[0], A[1], A[2])
    if op == "clip":
        return m.clip(x, p[0], p[1])
    if op == "clip3":
        return m.clip(*A)
    if op in ("sum", "mean"):
        return getattr(m, op)(x) if p[0] == 9 and k % 2 else getattr(m, op)(x, axis=ax(p[0]))
    if op in ("dot",):
        return m.dot(*A)
    if op in ("inner", "outer"):
        return getattr(m if fl in ("np", "jax") else m.linalg, op)(*A)
    if op == "cross":
        if len(p) == 3:
            return m.cross(*A, axisa=p[0], axisb=p[1], axisc=p[2])
        return m.cross(*A) if p[0] == 9 else m.cross(*A, axis=p[0])
    if op == "solve":
        return m.linalg.solve(*A)
    if op == "norm":
        kw = {}
        if p[0] != 0 or k % 2:
            kw["ord"] = {0: None, 8: INF, -8: -INF, 7: "fro"}.get(p[0], p[0])
        if p[1] != 9:
            kw["axis"] = p[1]
        return m.linalg.norm(x, **kw)
    if op == "roll":
        return m.roll(x, p[0]) if p[1] == 9 and k % 2 else m.roll(x, p[0], axis=ax(p[1]))
    if op == "diff":
        return m.diff(x) if p[0] == 1 and k % 2 else m.diff(x, n=p[0])
    if op == "reshape":
        s = {0: (p[0], p[1]), 1: (-1, p[1]), 2: (p[0], -1), 3: [p[0], p[1]]}[p[2]]
        return m.reshape(x, s)
    if op in ("split", "hsplit", "vsplit", "vector_split"):
        how = p["sec"] or list(p["cuts"])
        if op == "split":
            return m.split(x, how, axis=p["axis"])
        return getattr(m, op)(x, how)
    if op == "concatenate":
        return m.concatenate(A, axis=p[0]) if p[0] or k % 2 else m.concatenate(tuple(A))
    if op == "stack":
        return m.stack(A, axis=p[0])
    if op in ("hstack", "vstack", "column_stack", "row_stack", "vector_concat"):
        return getattr(m, op)(A if k % 2 else tuple(A))
    if op == "array":
        return m.array(list(A))
    if op == "array2":
        return m.array([list(A[i * p[1]:(i + 1) * p[1]]) for i in range(p[0])])
    if op == "vector_tile":
        return m.vector_tile(x, p[0])
    if op in ("zeros", "ones"):
        return getattr(m, op)(p[0] if len(p) == 1 else (p[0], p[1]))
    if op == "eye":
        return m.eye(p[0])
    if op in ("linspace", "logspace", "geomspace"):
        return getattr(m, op)(A[0], A[1], p[0])
    if op == "trapz":
        return m.trapz(x, modify_endpoints=True) if p[0] else m.trapz(x)
    if op == "cosspace":
        return m.cosspace(A[0], A[1], p[0])
    if op == "length":
        return m.length(x)
    if op == "dstack":
        return m.dstack(tuple(A))
    if op == "diagk":
        return m.diag(x, k=p[0])
    if op == "interp":
        kw = {}
        if p["l"]:
            kw["left"] = float(p["l"][0])
        if p["r"]:
            kw["right"] = float(p["r"][0])
        return m.interp(x / 2, np.array(p["xp"], dtype=float), np.array(p["fp"], dtype=float), **kw)
    if op == "rot2":
        return m.rotation_matrix_2D(x / 4)
    if op == "rot3":
        return m.rotation_matrix_3D(x / 4, np.array(p["u"], dtype=float))
    if op == "fd":
        return m.finite_difference_coefficients(x, x0=p[0], derivative_degree=p[1])
    if op == "close":
        return m.assert_allclose(A[0], A[1], rtol=1e-6, atol=1e-6)
    if op in ("minimum", "maximum", "fmin", "fmax", "logical_and", "logical_or", "logical_not", "mod", "remainder", "sign",
              "abs", "fabs", "max", "min", "all", "any", "zeros_like", "diag"):
        return getattr(m, op)(*A)
    raise ValueError(op)


class Run:
    def __init__(self, h, fl):
        import casadi as cas
        self.cas, self.fl, self.n = cas, fl, 0
        self.syms, self.vals, self.late = [], [], []
        self.regs = [self.make(a, "r%d" % k) for k, a in enumerate(h[0]["regs"])]
        self.exp = [numeric(a) for a in h[0]["regs"]]

    def make(self, a, name, num=False, const=False):
        cas, v = self.cas, numeric(a)
        if num == "DM":
            return cas.DM(v)
        if self.fl in ("np", "CN") or num:
            return np.array(v) if a["nd"] or self.fl == "np" else float(v)
        if self.fl == "jax":
            import jax.numpy as jnp
            return jnp.array(v)
        d = cas.DM(v)
        if self.fl == "DM":
            return d
        T = getattr(cas, self.fl)
        if const:
            return T(d)
        s = T.sym(name, *d.shape)
        self.syms.append(s)
        self.vals.append(d)
        return s

    def check(self, what, exp, got):
        """exp: NumPy value; got: what the backend returned"""
        from ocpkit import Mismatch
        cas = self.cas
        self.n += 1
        if isinstance(got, cas.SX) and got.is_constant():
            got = cas.DM(got)
        if isinstance(got, (cas.SX, cas.MX)):
            self.late.append((what, exp, got))
            return
        cn = isinstance(got, cas.DM)
        g = np.array(got)
        if g.dtype == object:
            raise Mismatch(what + ": not an array of numbers", exp.tolist(), repr(got)[:200])
        self.compare(what, exp, g.astype(float), cn or self.fl not in ("np", "jax"))

    def compare(self, what, exp, g, cn):
        from ocpkit import Mismatch
        shapes = {np.shape(exp)} if not cn else {np.shape(exp), (np.size(exp), 1) if np.ndim(exp) < 2 else np.shape(exp)}
        if g.shape not in shapes:
            raise Mismatch("%s: shape %s" % (what, g.shape), np.array(exp).tolist(), g.tolist())
        e = np.array(exp).reshape(g.shape)
        if not np.all(np.abs(g - e) <= 1e-9 * (1 + np.abs(e))):
            raise Mismatch(what, e.tolist(), g.tolist())

    def step(self, rec, lnp):
        from ocpkit import Mismatch
        o, fl = rec["last"]["op"]["o"], self.fl
        slot, part = rec["last"]["op"]["slot"], rec["last"]["op"]["part"]
        op = o["op"]
        exps = [numeric(a, [term(t) for t in a["v"]]) for a in o["res"]]
        f = o["p"]["f"] if op in ("fun", "fun2") else op
        skip = (fl in ("np", "jax") and f in CAS_ONLY) or (fl == "CN" and op in NOT_PLAIN) or (op == "close" and fl not in ("np", "SX"))
        # NumPy and JAX accept more than what the operation has to accept, and refuse some of it differently
        skip = skip or (fl == "jax" and (op == "row_stack" or (op == "interp" and len(o["p"]["l"]) != len(o["p"]["r"]))))
        skip = skip or (fl in ("np", "jax", "CN") and o["st"] != "ok" and op != "close")
        if not skip:
            num_ok = op not in OPERATORS and op not in CASADI_ONLY_ARGS and fl not in ("np", "jax", "CN") and op != "fun" and f != "div"
            A = []
            for q, a in enumerate(o["args"]):
                if op == "close":
                    A.append(self.make(a["a"], "", num=q == 1 and a["num"], const=True))
                elif a["i"]:
                    A.append(self.regs[a["i"] - 1])
                else:
                    A.append(self.make(a["a"], "s%d_%d" % (rec["step"], q), num=("DM" if fl == "MX" and op in PLAIN_NUMPY else True) if a["num"] and num_ok or op == "fd" else False))
            what = "%s with %s" % (self.describe(o), fl)
            try:
                r = perform(lnp, o, A, fl, rec["w"] + rec["step"])
            except Exception as e:
                if o["st"] == "ok" and (op, fl) not in MAY_REFUSE:
                    raise Mismatch("%s raised %s: %s" % (what, type(e).__name__, str(e)[:150]),
                                   [np.array(e).tolist() for e in exps])
                return
            if o["st"] == "rej":
                raise Mismatch(what + " was accepted", "rejected", repr(r)[:300])
            if op == "close":
                self.n += 1
                return
            if op == "fd":
                # the weights are applied to the powers of the points
                x = numeric(o["args"][0]["a"])
                wts = np.array(r, dtype=float)
                self.check(what, exps[0], np.array([wts @ x ** j for j in range(len(x))]))
                return
            if op in ("split", "hsplit", "vsplit", "vector_split"):
                if len(r) != len(exps):
                    raise Mismatch(what + ": %d parts" % len(r), [e.tolist() for e in exps], [str(q) for q in r])
            else:
                r = [r]
            for e, g in zip(exps, r):
                self.check(what, e, g)
            kept = r[part - 1] if slot else None
        else:
            kept = None
        if slot:
            e = exps[part - 1]
            if isinstance(kept, self.cas.SX) and fl != "SX":
                # constant arrays (zeros, eye, ...) are SX
                kept = self.cas.DM(kept)
            if kept is None:
                kept = self.make(dict(o["res"][part - 1], v=[t["a"][0] for t in o["res"][part - 1]["v"]]), "k%d" % rec["step"])
            elif fl == "np":
                kept = np.array(kept, dtype=float)
            elif fl == "jax":
                import jax.numpy as jnp
                kept = jnp.array(kept, dtype=float)
            elif fl == "CN":
                kept = np.array(kept, dtype=float).reshape(np.shape(e))
                kept = float(kept) if kept.ndim == 0 else kept
            elif not isinstance(kept, (self.cas.DM, self.cas.SX, self.cas.MX)):
                kept = self.cas.DM(np.array(kept, dtype=float))
            if slot > len(self.regs):
                self.regs.append(kept)
                self.exp.append(e)
            else:
                self.regs[slot - 1], self.exp[slot - 1] = kept, e

    @staticmethod
    def describe(o):
        def one(a):
            return "scalar" if a["nd"] == 0 else "vector(%d)" % a["r"] if a["nd"] == 1 else "matrix(%d,%d)" % (a["r"], a["c"])
        return "%s(%s%s)" % (o["op"], ", ".join(one(a["a"]) for a in o["args"]), "; %s" % (o["p"],) if o["p"] else "")

    def finish(self):
        for k, (e, r) in enumerate(zip(self.exp, self.regs)):
            self.check("operand %d after all operations" % (k + 1), e, r)
        if self.late:
            f = self.cas.Function("f", self.syms, [g for _, _, g in self.late])
            for (what, e, _), v in zip(self.late, f.call(self.vals)):
                self.compare(what, e, np.array(v), True)


def one(h):
    import lumos.numpy as lnp
    w = h[0]["w"]
    n = 0
    fls = ["DM", "SX", "MX", "np", "CN"] + (["jax"] if w % 8 == 0 else [])
    for fl in fls:
        backend = {"np": "numpy", "jax": "jax"}.get(fl, "casadi")
        with lnp.use_backend(backend):
            r = Run(h, fl)
            for rec in h[1:]:
                r.step(rec, lnp)
            r.finish()
            n += r.n
    return n


def job(hs):
    import logging
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    logging.getLogger("lumos").setLevel(logging.ERROR)
    return walks.replay_all(one, hs)


def one_row(shift):
    """what roll makes of the row 1 2 3 by default"""
    import casadi as cas
    import lumos.numpy as lnp
    with lnp.use_backend("casadi"):
        return np.array(cas.DM(lnp.roll(cas.DM([[1, 2, 3]]), shift))).tolist()


def main(chk):
    for shift, got in zip((1, 2), pmap(one_row, [1, 2])):
        if got != [[3, 1, 2], [2, 3, 1]][shift - 1:shift]:
            chk.violation("roll of one row by %d" % shift, dict(observed=got), key="roll-one-row" if got == [[1, 2, 3]] else None)
    hs = walks.generate(chk, "ArrayOps", dict(Seed=chk.seed, Walks=chk.pick(900, 8000), Len0=chk.pick(14, 22)),
                        invariants=("WellFormed", "Laws", "Out"), properties=())
    walks.report(chk, pmap(job, walks.chunked(hs, 20)))
    ops = {}
    for h in hs:
        for r in h[1:]:
            o = r["last"]["op"]["o"]
            ops[o["op"]] = ops.get(o["op"], 0) + 1
    chk.sample({"programs": len(hs), "operations": ops})
