"""C05, C06, C07: configurations enumerated by MC_Ocp.tla, compared with the real problems."""
import json
import random

from checklib import read_jsonl

SPECS = {}


def generate(chk, max_intervals, points, with_der, sample, seed=None):
    out = chk.tmp("ocp.jsonl")
    chk.tlc("MC_Ocp", constants=dict(Seed=chk.seed if seed is None else seed, MaxIntervals=max_intervals, Points=points,
                                     WithDer=with_der, Sample=sample),
            invariants=["SchemesExact", "Design", "Out"], postcondition="PostModels",
            env={"VERIF_OUT": out}, workers=8)
    global SPECS
    SPECS.clear()
    for d in read_jsonl(out + ".models"):
        SPECS.update({i + 1: m for i, m in enumerate(d["models"])})
    groups = {}
    for case in read_jsonl(out):
        groups.setdefault(json.dumps(case["cfg"], sort_keys=True), []).append(case)
    return [sorted(groups[k], key=lambda c: c["k"]) for k in sorted(groups)]


def backends(chk, cfg, share_cas, share_jax):
    """the backends a configuration is replayed on: always custom, a share on the compiled ones"""
    h = cfg["key"]
    b = ["custom"]
    if (h // 7) % 100 < share_cas:
        b.append("casadi")
    if (h // 11) % 100 < share_jax:
        b.append("jax")
    return b


def report(chk, results, key=None):
    for r in results:
        chk.steps += r["n"]
        if r["bad"]:
            chk.violation(r["bad"]["what"], r["bad"], key=r["bad"].get("key"))
        else:
            chk.ok()
        for k in r.get("known", ()):
            chk.violation("derivative with the mesh position held fixed", r, key=k)


def guarded(fn, cfg, backend):
    from ocpkit import Mismatch, Skip
    from checklib import short_exc
    try:
        return dict(n=fn(), bad=None)
    except Skip:
        return dict(n=0, bad=None)
    except Mismatch as m:
        return dict(n=1, bad=dict(what="%s [%s, %s]" % (m.what, backend, label(cfg)), cfg=cfg, backend=backend,
                                  expected=m.exp, observed=m.obs))
    except Exception as e:
        import traceback
        return dict(n=1, bad=dict(what="%s raised [%s, %s]" % (short_exc(e), backend, label(cfg)), cfg=cfg,
                                  backend=backend, trace=traceback.format_exc()[-1500:]))


def label(cfg):
    return "%s con=%s %s %s nI=%d pts=%s%s%s" % (SPECS[cfg["m"]]["name"], cfg["con"], cfg["cls"], cfg["sch"], cfg["nI"],
                                              cfg["pts"], " cyclic-%s" % cfg["noncyc"] if cfg["cyc"] else "",
                                              " condensed" if cfg["cond"] else "")
