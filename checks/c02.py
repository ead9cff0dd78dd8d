"""C02: histories of Composite.tla replayed on real composite problems built from the same polynomials."""
import json
import random

import numpy as np

from checklib import read_jsonl, short_exc
from par import pmap


def generate(chk, walks, length, exhaustive, seed):
    out = chk.tmp("comp_%s_%d.jsonl" % (exhaustive, seed))
    chk.tlc("Composite", constants=dict(Seed=seed, Walks=walks, Len0=length, Exhaustive=exhaustive),
            invariants=["Distinct", "Sums", "Out"], properties=["RejectedKeeps"], env={"VERIF_OUT": out}, workers=8)
    g = {}
    for r in read_jsonl(out):
        if exhaustive and r["step"] < length:
            continue
        key = (r["w"], json.dumps([h["op"] for h in r["hist"]], sort_keys=True)) if exhaustive else r["w"]
        g.setdefault(key, []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g, key=str)]


def val(p, x):
    return float(sum(m["c"] * np.prod([x[i] for i in m["p"]]) for m in p))


def grad(p, x):
    g = np.zeros(len(x))
    for m in p:
        for k, i in enumerate(m["p"]):
            g[i] += m["c"] * np.prod([x[j] for q, j in enumerate(m["p"]) if q != k])
    return g


def hess(p, x):
    H = np.zeros((len(x), len(x)))
    for m in p:
        for a, i in enumerate(m["p"]):
            for b, j in enumerate(m["p"]):
                if a != b:
                    H[i, j] += m["c"] * np.prod([x[q] for k, q in enumerate(m["p"]) if k not in (a, b)])
    return H


def hess_struct(polys, n, kind):
    used = np.zeros((n, n), dtype=bool)
    for p in polys:
        for m in p:
            for a, i in enumerate(m["p"]):
                for b, j in enumerate(m["p"]):
                    if a != b:
                        used[i, j] = True
    return np.nonzero(np.triu(used) if kind == "upper" else used)


def constraints(part):
    from lumos.optimal_control.nlp import BaseConstraints, LinearConstraints
    n, rows = part["n"], part["rows"]
    con = lambda x: np.array([val(p, x) for p in rows], dtype=float)
    J = lambda x: np.array([grad(p, x) for p in rows], dtype=float).reshape(len(rows), n)
    used = np.zeros((len(rows), n), dtype=bool)
    for k, p in enumerate(rows):
        for m in p:
            used[k, m["p"]] = True
    kw = {}
    if part["jac"] in ("dense", "matrix") and not part["lin"]:
        jac = J if part["jac"] == "matrix" else lambda x: J(x).ravel()
        if part["jac"] == "matrix":      # structure in the shape of the values
            kw["jacobian_structure"] = tuple(np.indices((len(rows), n)))
    elif part["jac"] == "repeated":
        r, c = np.nonzero(used)
        r, c = np.concatenate([r, r]), np.concatenate([c, c])
        jac = lambda x: J(x)[r, c] * np.where(np.arange(len(r)) < len(r) // 2, 0.25, 0.75)
        kw["jacobian_structure"] = (r, c)
    else:
        r, c = np.nonzero(used)
        jac = lambda x: J(x)[r, c]
        kw["jacobian_structure"] = (r, c)
    if part["lin"]:
        return LinearConstraints(num_in=n, num_con=len(rows), constraints=con, jacobian=jac, cache_jacobian=part["cached"], **kw)
    Hs = lambda x, l: sum((a * hess(p, x) for a, p in zip(l, rows)), np.zeros((n, n)))
    if part["hess"] == "dense":
        h = lambda x, l: Hs(x, l).ravel()
    else:
        hr, hc = hess_struct(rows, n, part["hess"])
        h = lambda x, l: Hs(x, l)[hr, hc]
        kw["hessian_structure"] = (hr, hc)
    return BaseConstraints(num_in=n, num_con=len(rows), constraints=con, jacobian=jac, hessian=h, **kw)


def objective(part):
    from lumos.optimal_control.nlp import BaseObjective
    n, p = part["n"], part["poly"]
    kw = {}
    if part["hess"] == "dense":
        h = lambda x: hess(p, x).ravel()
    else:
        hr, hc = hess_struct([p], n, part["hess"])
        h = lambda x: hess(p, x)[hr, hc]
        kw["hessian_structure"] = (hr, hc)
    return BaseObjective(num_in=n, objective=lambda x: val(p, x), gradient=lambda x: grad(p, x), hessian=h, **kw)


def apply(K, prob, last):
    op = last["op"]
    k = op["k"]
    fn = None
    if k == "addcon":
        c = constraints(op["part"])
        fn = lambda: prob.add_constraints(op["part"]["name"], c)
    elif k == "addobj":
        o = objective(op["part"])
        fn = lambda: prob.add_objective(op["part"]["name"], o)
    elif k == "delcon":
        fn = lambda: prob.delete_constraints(op["name"])
    elif k == "delobj":
        fn = lambda: prob.delete_objective(op["name"])
    if fn is None:
        return k
    if last["ok"]:
        fn()
    else:
        K.rejected(json.dumps(op)[:200], fn)
    return None


def look(K, prob, rec, which):
    x, n = np.array(rec["x"], dtype=float), rec["n"]
    m = len(rec["val"])
    lam, of = np.array(rec["lam"], dtype=float), float(rec["of"])
    if which == "counts":
        if prob.num_con != m or not isinstance(prob.num_con, int):
            raise K.Mismatch("num_con", m, repr(prob.num_con))
        if prob.num_dec != n:
            raise K.Mismatch("num_dec", n, prob.num_dec)
    elif which == "values":
        K.same("constraints", rec["val"], prob.constraints(x))
        K.same("objective", rec["obj"], prob.objective(x))
        g = np.zeros(n)
        for i, v in rec["grad"]:
            g[i] += v
        K.same("gradient", g, prob.gradient(x))
    elif which == "jstruct":
        J = np.zeros((m, n))
        for r, row in enumerate(rec["jac"]):
            for c, v in row:
                J[r, c] += v
        K.same("jacobian", J, K.obs_jac(prob, x))
    elif which == "split":
        v = np.arange(100, 100 + m)
        s = prob.split_constraints(v)
        if list(s) != rec["names"]:
            raise K.Mismatch("names of the split", rec["names"], list(s))
        for name, o, k in zip(rec["names"], rec["offsets"], rec["sizes"]):
            K.same("split of %s" % name, v[o:o + k], s[name])
    elif which in ("heval", "hstruct"):
        H = np.zeros((n, n))
        for i, j, v in rec["hess"]:
            H[i, j] += v
        H = H + np.triu(H, 1).T
        # both orders of asking
        if which == "heval":
            vals = np.asarray(prob.hessian(x, lam, of))
            r, c = prob.hessianstructure()
        else:
            r, c = prob.hessianstructure()
            vals = np.asarray(prob.hessian(x, lam, of))
        r, c = np.asarray(r), np.asarray(c)
        if not (r.shape == c.shape == vals.shape and vals.ndim == 1):
            raise K.Mismatch("hessian has %s values for %s structure entries" % (vals.shape, r.shape))
        if r.size and (np.any(r > c) and np.any(r < c)):
            raise K.Mismatch("hessian structure mixes triangles", None, [r.tolist(), c.tolist()])
        O = np.zeros((n, n))
        np.add.at(O, (r, c), vals)
        K.same("hessian", H, np.triu(O) + np.tril(O, -1).T + np.triu(O, 1).T + np.tril(O, -1))
    return 1


LOOKS = ("counts", "values", "jstruct", "split", "heval", "hstruct")


def job(arg):
    recs, exhaustive = arg
    import ocpkit as K
    from lumos.optimal_control.nlp import CompositeProblem
    done = []
    n = 0
    try:
        prob = CompositeProblem(num_in=recs[0]["n"])
        rng = random.Random(recs[0]["w"])
        for rec in recs:
            for last in (rec["hist"] if exhaustive else [rec["last"]]):
                done.append(last)
                k = apply(K, prob, last)
                if exhaustive and k == "heval":
                    x, m = np.ones(rec["n"]), prob.num_con
                    prob.hessian(x, np.ones(m), 1.0)
                elif exhaustive and k == "hstruct":
                    prob.hessianstructure()
                elif k in LOOKS:
                    n += look(K, prob, rec, k)
            if exhaustive:
                todo = list(LOOKS)
                rng.shuffle(todo)
            else:
                # some steps are not observed, so that cached data survives operations
                todo = [q for q in LOOKS if rng.random() < 0.4]
            for q in todo:
                n += look(K, prob, rec, q)
        return dict(n=n, bad=None)
    except K.Mismatch as e:
        return dict(n=n, bad=dict(what="%s after %s" % (e.what, json.dumps(done[-1])[:200]), expected=e.exp, observed=e.obs, history=done))
    except Exception as e:
        return dict(n=n, bad=dict(what="%s raised after %s" % (short_exc(e), json.dumps(done[-1] if done else None)[:200]), history=done))


def main(chk):
    import ocpstatic
    jobs = [(g, True) for g in generate(chk, 3, chk.pick(4, 5), True, chk.seed)]
    hist = len(jobs)
    groups = generate(chk, chk.pick(400, 3000), chk.pick(30, 60), False, chk.seed + 7)
    jobs += [(g, False) for g in groups]
    chk.sample([h["op"] for h in jobs[hist // 2][0][0]["hist"]])
    ocpstatic.report(chk, pmap(job, jobs, chunksize=50))
    chk.extra["exhaustive_histories"] = hist
    chk.extra["random_histories"] = len(groups)
