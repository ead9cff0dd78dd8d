"""Histories generated by a walk specification (variables w, step, last, hist; see TreeWalk.tla)."""
import json

from checklib import read_jsonl, short_exc


def generate(chk, module, constants, invariants=("TypeOK", "Out"), properties=("RejectedKeeps",), name=None, **kw):
    """A list of histories; each is the list of its records in order.

    An exhaustive run yields one history per state, holding the operations (hist) and the final record only.
    """
    out = chk.tmp("%s_%s.jsonl" % (name or module, constants.get("Exhaustive")))
    chk.tlc(module, constants=constants, invariants=list(invariants), properties=list(properties),
            env={"VERIF_OUT": out}, workers=8, **kw)
    if constants.get("Exhaustive"):
        rs = list(read_jsonl(out))
        rs.sort(key=lambda r: (r["w"], len(r["hist"]), json.dumps(r["hist"], sort_keys=True)))
        return [[r] for r in rs]
    g = {}
    for r in read_jsonl(out):
        g.setdefault(r["w"], []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g)]


def chunked(hs, n):
    return [hs[i:i + n] for i in range(0, len(hs), n)]


def replay_all(fn, histories, label=None):
    """fn(history) -> number of observations; used inside a worker"""
    from ocpkit import Mismatch
    import traceback
    res = []
    for h in histories:
        try:
            res.append(dict(n=fn(h), bad=None))
        except Mismatch as m:
            res.append(dict(n=1, bad=dict(what=m.what, expected=m.exp, observed=m.obs, history=brief(h))))
        except Exception as e:
            res.append(dict(n=1, bad=dict(what="%s raised" % short_exc(e), history=brief(h),
                                          trace=traceback.format_exc()[-1500:])))
    return res


def brief(h):
    if len(h) == 1 and h[0].get("hist"):
        return [x["op"] for x in h[0]["hist"]]
    return [r["last"]["op"] for r in h]


def report(chk, results):
    for rs in results:
        for r in rs:
            chk.steps += r["n"]
            if r["bad"]:
                chk.violation(r["bad"]["what"], r["bad"])
            else:
                chk.ok()
