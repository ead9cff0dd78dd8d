"""Measures the transcription objects; the verdict is Trace_Scheme.tla's."""
import random

from checklib import read_jsonl, validate_trace, short_exc


def check(chk):
    out = chk.tmp("radau.jsonl")
    empty = chk.tmp("empty.ndjson")
    open(empty, "w").write('{"q": "order", "nodes": [0, 1000000000]}\n')
    chk.tlc("Trace_Scheme", postcondition="PostCoef", env={"VERIF_OUT": out, "VERIF_TRACE": empty}, workers=1)
    coef = next(read_jsonl(out))
    import numpy as np
    from lumos.optimal_control.transcription import make_transcription
    rng = random.Random(chk.seed)
    q = lambda v: [int(round(float(t) * 1e9)) for t in np.ravel(v)]
    events = []
    opts = [("ForwardEuler", 2, {}), ("Trapezoidal", 2, {}), ("LGR", 3, {}), ("LGRIntegral", 3, {})]
    opts += [(s, n, {"num_stages": n}) for s in ("LGR", "LGRIntegral") for n in range(2, chk.pick(7, 9))]
    for name, n, kw in opts:
        try:
            t = make_transcription(name, dict(kw))
            A, B = t.get_continuity_matrices()
            events.append(dict(q="shape", scheme=name, n=n, stages=int(t.num_stages_per_interval),
                               rows=int(t.num_constraints_per_interval), ashape=list(A.shape), bshape=list(B.shape)))
            nodes = np.array([0.0, 1.0])
            if name.startswith("LGR"):
                nodes = np.asarray(t.interp_points, dtype=float)
                events.append(dict(q="node", scheme=name, n=n,
                                   root=q([np.polyval(coef[n - 2][::-1], c) for c in np.asarray(t.collocation_points)])))
            events.append(dict(q="order", scheme=name, n=n, nodes=q(nodes)))
            for k in range(0, n + 3):
                for _ in range(chk.pick(2, 6)):
                    h = rng.choice([0.25, 0.5, 1.0, 2.0]) * rng.randint(1, 3)
                    # x = (t/h)^k on [0, h]: values at nodes nodes**k, derivative k nodes^(k-1) / h
                    x = nodes ** k
                    xd = (k * nodes ** (k - 1) if k else 0 * nodes) / h
                    events.append(dict(q="poly", scheme=name, n=n, k=k, res=q(A @ x - B @ xd * h)))
                    events.append(dict(q="poly", scheme=name, n=n, k=k, res=q(t.continuity_con(x, xd, h))))
            chk.ok()
        except Exception as e:
            chk.violation("scheme %s with %d stages raised %s" % (name, n, short_exc(e)), {"scheme": name, "n": n})
    families(chk, rng, q, events)
    # nontriviality is asked for one degree above the order only
    keep = []
    for e in events:
        if e["q"] == "poly" and e["k"] > {"ForwardEuler": 1, "Trapezoidal": 2, "LGR": e["n"] - 1, "LGRIntegral": e["n"]}[e["scheme"]] + 1:
            continue
        keep.append(e)
    for r in validate_trace(chk, "Trace_Scheme", keep):
        e = keep[r["line"] - 1]
        chk.violation("scheme %s (%d stages): %s (%s)" % (e["scheme"], e["n"], r["clause"], e.get("k", "")), e)
    chk.steps += len(keep)


def families(chk, rng, q, events):
    """Legendre points and interpolation on points of any kind"""
    import numpy as np
    from numpy.polynomial import polynomial as P
    from lumos.optimal_control import collocation as C
    for name in ("LG", "LGR", "LGL"):
        for n in range(2 if name == "LGL" else 1, chk.pick(8, 10)):
            t = np.asarray(C.get_collocation_points(n, scheme=getattr(C.CollocationEnum, name)), dtype=float)
            left, right = abs(t[0] + 1) < 1e-9, abs(t[-1] - 1) < 1e-9
            mom = []
            for k in range(max(0, len(t) - left - right)):
                m = P.polyint(P.polymul([0.0] * k + [1.0], P.polymul([2.0 ** n], P.polyfromroots(t))))
                mom.append(P.polyval(1.0, m) - P.polyval(-1.0, m))
            events.append(dict(q="family", family=name, scheme=name, n=n, nodes=q(t), left=bool(left), right=bool(right), moments=q(mom)))
    for bad in ("LGR", None, 3):
        try:
            C.get_collocation_points(3, scheme=bad)
        except Exception:
            chk.ok()
        else:
            chk.violation("collocation points of an unknown family %r" % (bad,), {"family": repr(bad)})
    for _ in range(chk.pick(40, 400)):
        n = rng.randint(1, 6)
        s = np.array(sorted(rng.sample(range(-8, 9), n)), dtype=float) / 8
        at = np.array([rng.randint(-16, 16) / 16 for _ in range(rng.randint(1, 5))])
        D, I = C.build_lagrange_differential_matrix(s, at), C.build_lagrange_integration_matrix(s, at)
        B = C.make_lagrange_basis(s)
        res = [np.ravel([b(s) for b in B] - np.eye(n)), [float(len(B) - n)] * 2]
        res.append([0.0 if np.shape(M) == (len(at), n) else 1.0 for M in (D, I)])
        for k in range(n):
            res.append(D @ s ** k - (k * at ** (k - 1) if k else 0 * at))
            res.append(I @ s ** k - (at ** (k + 1) - s[0] ** (k + 1)) / (k + 1))
        events.append(dict(q="interp", scheme="interpolation", n=n, points=q(s), res=q(np.concatenate(res))))
