"""C23: histories of TyreWalk.tla replayed on the tyre models; expected values are those of the programs of MagicFormula.tla."""
import math
import os
import random

import numpy as np

import walks
from checklib import read_jsonl
from par import pmap

PROG = {}
TOL = 1e-8
EPS = dict(epsilonv=1e-6, epsilonx=1e-3, epsilonk=1e-6, epsilony=1e-3)


def num(r):
    return r[0] / r[1]


# -- floating point interpreter of Terms.tla ---------------------------------------
def ev(t, env, F):
    k = t[0]
    if k == "v":
        return env[t[1]]
    if k == "k":
        return F(t[1]) / F(t[2])
    if k == "pi":
        return F(np.pi)
    x = ev(t[1], env, F)
    if k in UNARY:
        return UNARY[k](x)
    y = ev(t[2], env, F)
    return BINARY[k](x, y)


UNARY = dict(neg=lambda x: -x, sq=lambda x: x * x, sqrt=np.sqrt, exp=np.exp, abs=np.abs, sign=np.sign,
             atmost1=lambda x: x if x < 1 else x * 0 + 1, tan=np.tan, atan=np.arctan, cos=np.cos)
BINARY = dict(add=lambda x, y: x + y, sub=lambda x, y: x - y, mul=lambda x, y: x * y, div=lambda x, y: x / y,
              sinat=lambda c, y: np.sin(c * np.arctan(y)), cosat=lambda c, y: np.cos(c * np.arctan(y)),
              comb=lambda a, s: np.arctan(np.sqrt(np.tan(a) * np.tan(a) + s)) * np.sign(a),
              curv=lambda e, y: y - e * (y - np.arctan(y)))


def run(prog, env, F):
    e = {k: F(v) for k, v in env.items()}
    with np.errstate(all="ignore"):
        for name, t in prog:
            e[name] = ev(t, e, F)
    return e


class Replay:
    def __init__(self, rec):
        from lumos.models.tires.pacejka import MF52
        from lumos.models.tires.perantoni import PerantoniTire
        self.kind, self.w, self.n = rec["kind"], rec["w"], 0
        self.exact = self.judged = 0
        if self.kind == "pera":
            self.prog, self.models = PROG["pera"], [(PerantoniTire(), ("Fx", "Fy"))]
        else:
            self.prog = PROG["mf"]
            names = PROG["mfout"]
            self.models = [(MF52(), [n for n in names if n not in ("Mx", "My", "Mz")]), (MF52(opt_mode=False), names)]
        self.default = dict(type(self.models[0][0]).get_default_params())
        self.write(rec["par"])

    def value(self, n, r):
        if self.kind == "tame":
            return num(r)
        d = self.default[n]
        return (d if d else 1.0 / 64) * num(r)

    def write(self, par, source=None):
        vals = {n: self.value(n, r) for n, r in par.items()}
        for m, _ in self.models:
            p = m.get_recursive_params()
            for n, v in vals.items():
                p.set_param(n, v)
            m.set_recursive_params(p)

    def file(self, rec):
        """The parameters through a parameter file"""
        from ocpkit import Mismatch
        from lumos.models.tires.utils import create_params_from_tir_file, read_tir_file
        op = rec["last"]
        st, rng = op["style"], random.Random(op["order"])
        vals = {n: self.value(n, r) for n, r in rec["par"].items() if n not in EPS}
        names = sorted(self.default)
        rng.shuffle(names)
        lines = ["[MDI_HEADER]", "FILE_TYPE                ='tir'", "FILE_FORMAT              ='ASCII'"]
        exp = {}
        for i, n in enumerate(n for n in names if n not in EPS):
            v = vals.get(n, self.default[n])
            if i % 17 == 3:
                lines += ["$" + "-" * 30 + "section", "[SECTION_%d]" % i]
            if i % 29 == 5:
                lines.append("TYRESIDE_%d = 'left'   $left, right" % i)
            text = repr(float(v)) if st & 1 else "%+.17e" % v
            lines.append("%s%s%s%s" % (n.ljust(25 if st & 2 else 0), "= " if st & 4 else "=", text,
                                       ("%s$%s" % (" " * 5, "Scale factor, some / text") if i % 2 else "") if st & 8 else "  "))
            exp[n] = float(v)
        with open("tyre.tir", "w") as f:
            f.write("\n".join(lines) + ("\n" if st & 2 else ""))
        got = read_tir_file("tyre.tir")
        if got != exp:
            d = sorted(set(got.items()) ^ set(exp.items()))[:6]
            raise Mismatch("contents of a parameter file", exp=[x for x in d if x in exp.items()], obs=[x for x in d if x in got.items()])
        full = create_params_from_tir_file("tyre.tir")
        os.remove("tyre.tir")
        if {k: v for k, v in full.items() if k in exp} != exp:
            raise Mismatch("parameters of a parameter file")
        if set(full) != set(self.default):
            raise Mismatch("names of the parameters of a parameter file", sorted(self.default), sorted(full))
        self.n += len(exp)
        for m, _ in self.models:
            p = m.get_recursive_params()
            for n, v in full.items():
                p.set_param(n, v if n not in EPS else self.value(n, rec["par"][n]))
            m.set_recursive_params(p)

    def step(self, rec):
        op = rec["last"]
        if op["k"] == "par":
            for m, _ in self.models:
                p = m.get_recursive_params()
                p.set_param(op["n"], self.value(op["n"], op["v"]))
                m.set_recursive_params(p)
        elif op["k"] in ("mirror", "reverse", "units"):
            self.write(rec["par"])
        elif op["k"] == "file" and self.kind != "pera":
            self.file(rec)
        self.look(rec)

    def forward(self, m, inputs, form):
        import lumos.numpy as lnp
        with np.errstate(all="ignore"):
            if form == "numpy":
                return {k: float(np.asarray(v).reshape(-1)[0]) for k, v in m.forward(inputs).outputs.items()}
            x = np.array([inputs[n] for n in m.get_group_names("inputs")])
            if form == "casadi":
                import casadi as cas
                with lnp.use_backend("casadi"):
                    a = cas.MX.sym("a", x.size)
                    f = cas.Function("f", [a], [m.forward_with_arrays(a).outputs])
                o = np.array(f(x)).ravel()
            else:
                with lnp.use_backend("jax"):
                    o = np.array(m.forward_with_arrays(lnp.array(x)).outputs).ravel()
            return dict(zip(m.get_group_names("outputs"), o))

    def look(self, rec):
        from ocpkit import Mismatch
        inputs = {n: num(v) for n, v in rec["inp"].items()}
        env = dict(self.default)
        env.update({n: self.value(n, r) for n, r in rec["par"].items()})
        env.update(inputs)
        a, b = run(self.prog, env, np.float64), run(self.prog, env, np.longdouble)
        exact = dict(zip(rec["outs"], rec["obs"])) if rec["obs"] else {}
        h = (self.w * 7 + rec["step"]) % 12
        form = "casadi" if h in (3, 8) else "jax" if h == 5 else "numpy"
        for m, names in self.models:
            try:
                got = self.forward(m, inputs, form)
            except ZeroDivisionError:
                if all(math.isfinite(float(v)) for v in a.values()):
                    raise
                continue
            for n in names:
                if n not in got:
                    raise Mismatch("%s has no output %s" % (type(m).__name__, n))
                self.judged += 1
                e = exact.get(n)
                if e and e[1] and math.isfinite(float(a[n])):
                    self.exact += 1
                    COUNT[n] = COUNT.get(n, 0) + 1
                    self.same(n, num(e), got[n], form + ", exact", 1e-9)
                # the sign of a slip angle that vanishes is not judged
                if n == "Mz" and inputs["kappa"] and min(abs(a["alphar"]), abs(a["alphat"])) < 1e-9:
                    continue
                x, y = float(a[n]), float(b[n])
                if not (math.isfinite(x) and math.isfinite(y)) or abs(x - y) > 1e-11 * max(1.0, abs(y)):
                    continue
                self.same(n, y, got[n], form, TOL)

    def same(self, what, e, g, form, tol):
        from ocpkit import Mismatch
        if not abs(g - e) <= tol * max(1.0, abs(e)):
            raise Mismatch("%s of the tyre (%s)" % (what, form), e, g)
        self.n += 1


def replay(h):
    r = Replay(h[0])
    r.look(h[0])
    for rec in h[1:]:
        r.step(rec)
    STAT[0] += r.exact
    STAT[1] += r.judged
    return r.n


STAT = [0, 0]
COUNT = {}


def brief(h):
    return [dict(par=h[0]["par"], inp=h[0]["inp"])] + [r["last"] for r in h]


def job(hs):
    walks.brief = brief
    STAT[:] = 0, 0
    COUNT.clear()
    res = walks.replay_all(replay, hs)
    return res, list(STAT), dict(COUNT)


def main(chk):
    hs = walks.generate(chk, "TyreWalk", dict(Seed=chk.seed, Walks=chk.pick(160, 1200), Len0=chk.pick(30, 60)),
                        invariants=("MirrorLaw", "ReverseLaw", "UnitLaw", "NoLoad", "Out"), properties=(), postcondition="PostProg")
    for d in read_jsonl(chk.tmp("TyreWalk_None.jsonl") + ".formulas"):
        PROG.update(d)
    tot, by = [0, 0], {}

    def results():
        for res, st, c in pmap(job, walks.chunked(hs, 3)):
            tot[0] += st[0]
            tot[1] += st[1]
            for n, k in c.items():
                by[n] = by.get(n, 0) + k
            yield res
    walks.report(chk, results())
    chk.extra["values_expected_exactly"] = tot[0]
    chk.extra["values_expected_exactly_by_output"] = by
    chk.extra["values_observed"] = tot[1]
    chk.sample([r["last"] for r in hs[0]])
