"""C26: histories of ConstructWalk.tla replayed: problems are constructed from configurations, one after the other on one model, or refused."""
import json
import random

import numpy as np

import c04
import ocpstatic
import ocpwalk
from checklib import read_jsonl
from par import pmap

SPECS = ocpstatic.SPECS


def generate(chk, walks, length):
    out = chk.tmp("construct.jsonl")
    chk.tlc("ConstructWalk", constants=dict(Mode="C09", Seed=chk.seed, Walks=walks, Len0=length, Exhaustive=False, WithDer=True),
            spec="CSpec", invariants=["CTypeOK", "COut"], properties=["CRefusedKeeps", "OthersKept", "OnlyOneChanges"],
            postcondition="PostModels", env={"VERIF_OUT": out}, workers=8)
    SPECS.clear()
    for d in read_jsonl(out + ".models"):
        SPECS.update({i + 1: m for i, m in enumerate(d["models"])})
    g = {}
    for r in read_jsonl(out):
        g.setdefault(r["w"], []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g)]


def frozen(v):
    """a deep picture of a configuration"""
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.tolist())
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in sorted(v.items())}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [frozen(x) for x in v]
    if hasattr(v, "__dataclass_fields__"):
        return (type(v).__name__, {k: frozen(getattr(v, k)) for k in v.__dataclass_fields__})
    return v


class Replay(ocpwalk.Replay):
    def __init__(self, rec0):
        import ocpkit as K
        self.K = K
        self.spec = SPECS[rec0["cfg"]["m"]]
        self.model = K.make_model(self.spec)
        self.held = []               # (problem, id of its configuration)
        self.configs = {}            # id: (configuration, picture)
        self.nid = 0
        self.changed = None
        self.con = None
        self.lost, self.lost_bad = None, 0

    def words(self, op):
        """what SimConfig is given"""
        from lumos.optimal_control.config import ScaleConfig
        c, spec, f, bad, arg = op["cfg"], self.spec, op["form"], op["bad"], op["arg"]
        names = ["states." + n for n in spec["states"]] + ["inputs." + n for n in spec["inputs"]]
        tr = self.K.TRANSCRIPTION[c["sch"]]
        if bad == "scheme-name":
            tr = [("LGR4",), ("",), ("lgr", {"num_stages": 3}), ("ForwardEuler2",), ("Trapezoid",), ("LGRintegral", {"num_stages": 3})][arg]
        elif bad == "scheme-stages":
            tr = (["LGR", "LGRIntegral"][arg % 2], {"num_stages": [0, 1, -1][arg % 3]})
        elif bad == "scheme-arg":
            tr = [("LGR", {"nodes": 3}), ("LGRIntegral", {"stages": 2}), ("Trapezoidal", {"num_stages": 3}), ("ForwardEuler", {"num_stages": 2}),
                  ("LGR", {"num_stages": 3, "order": 2}), ("Trapezoidal", {"theta": 0.5})][arg]
        if c["sch"] == "LGR3" and not bad and f % 2:
            tr = ("LGR",)                                            # three stages is what it has by itself
        if len(tr) == 1:
            tr = [tr[0], tr, list(tr)][f % 3]
        elif f % 3 == 2:
            tr = list(tr)
        con = [spec["outputs"][i - 1] for i in c["con"]]
        con += {"con-unknown": ["nope"], "con-state": [n for n in spec["states"] if n not in spec["outputs"]][:1], "con-twice": con[:1]}.get(bad, [])
        if bad == "con-unknown" and arg % 2:
            con = con[::-1]
        non = [names[i - 1] for i in sorted(c["noncyc"])]
        if f % 4 == 1:
            non = non[::-1]
        if bad.startswith("noncyc-"):
            non.insert(arg % (len(non) + 1), {"unknown": "states.nope" if arg % 2 else "inputs.nope", "group": ["nogroup.", "outputs.", "state."][arg % 3] + spec["states"][0],
                                              "bare": spec["states"][0], "con": "con_outputs.nope"}[bad[7:]])
        pts = np.array(c["pts"], dtype=float) / c["D"]
        if op["uni"] and f % 2 and bad != "mesh":
            pts = None                                               # uniform is what no points mean
        nI = c["nI"]
        if bad == "nI":
            nI, pts = [0, -1, -3][arg % 3], None
        d = dict(num_intervals=nI, interval_points=pts, transcription=tr, is_cyclic=bool(c["cyc"]), non_cyclic_vars=non,
                 is_condensed=bool(c["cond"]), backend=op["backend"], con_output_names=con if f % 2 else tuple(con),
                 bounds=tuple(c04.bound(e) for e in op["bounds"]), boundary_conditions=tuple(c04.bc(e) for e in op["bcs"]),
                 scales=tuple(ScaleConfig(e["g"], e["n"], e["k"] / 4.0) for e in op["scales"]))
        if bad == "backend":
            d["backend"] = ["tensorflow", "", "JAX", "numpy2", None, "custom "][arg]
        short = dict(nI="num_intervals", sch="transcription", cyc="is_cyclic", noncyc="non_cyclic_vars", cond="is_condensed", con="con_output_names",
                     backend="backend", pts="interval_points", bounds="bounds", bcs="boundary_conditions", scales="scales")
        for k in op["omit"]:
            d.pop(short.get(k), None)
        if f % 5 == 4:
            for k in ("bounds", "boundary_conditions", "scales"):
                if k in d:
                    d[k] = list(d[k])
        return d

    def do_build(self, op):
        from lumos.optimal_control.config import SimConfig
        from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
        from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
        c = op["cfg"]
        if c["sch"] == "ST4" and not self.K.standin_available():
            raise self.K.Skip()
        if op["reuse"]:
            ident = op["reuse"]
            sc = self.configs[ident][0]
        else:
            sc = SimConfig(**self.words(op))
            if op["form"] in (3, 8):
                sc = SimConfig(**sc.to_dict())
            ident = None
        picture = frozen(sc)
        args = (self.model, sc) if op["form"] % 3 else ()
        kw = {} if args else dict(model=self.model, sim_config=sc)
        if c["cls"] == "fixed" and "ms" not in op["omit"]:
            kw["mesh_scale"] = float([0, -1, -2][op["arg"] % 3] if op["bad"] == "ms" else c["ms"])
        try:
            ocp = (FixedMeshOCP if c["cls"] == "fixed" else ScaledMeshOCP)(*args, **kw)
        finally:
            if frozen(sc) != picture:
                self.changed = (picture, frozen(sc))
        if ident is None:
            self.nid += 1
            ident = self.nid
            self.configs[ident] = (sc, picture)
        if self.held and c["con"] != self.con:
            self.lost, self.held = self.held[-1], []                 # the model serves other constraint outputs now
        self.con = c["con"]
        self.held = (self.held + [ocp])[-3:]

    def do_oparam(self, op):
        self.held[op["j"] - 1].modify_model_param(op["path"], self.val(op))

    def check(self, rec, rng):
        K = self.K
        n = 0
        if len(self.held) != len(rec["evals"]):
            raise K.Mismatch("harness: problems held", len(rec["evals"]), len(self.held))
        for j, (ocp, ev) in enumerate(zip(self.held, rec["evals"])):
            tag = " (problem %d of %d)" % (j + 1, len(self.held))
            if ocp.num_dec != ev["n"]:
                raise K.Mismatch("number of variables" + tag, ev["n"], ocp.num_dec)
            x = np.array(ev["x"], dtype=float)
            n += self.check_one(ocp, ev, ev, x, np.array(ev["s"], dtype=float) / 4.0, rng, len(x) < 200, tag)
            for what, e, o in (("lower", ev["lo"], ocp.lb), ("upper", ev["hi"], ocp.ub)):
                e = np.array([c04.num(v) for v in e])
                if np.shape(o) != e.shape or not np.array_equal(e, np.asarray(o, dtype=float)):
                    raise K.Mismatch(what + " bounds" + tag, e.tolist(), np.asarray(o).tolist())
            mesh = np.array(ev["mesh"], dtype=float) / ev["meshden"]
            K.same("mesh" + tag, mesh * (x[-1] if ev["free"] else ev["ms"]), ocp.get_mesh_from_dec_var(x))
            n += 3
        for ev in rec["lost"]:
            x = np.array(ev["x"], dtype=float)
            try:
                self.check_one(self.lost, ev, ev, x, np.array(ev["s"], dtype=float) / 4.0, rng, len(x) < 200, " (constraint outputs changed)")
            except Exception:
                self.lost_bad += 1
            self.lost = None
        if self.changed:
            raise K.Mismatch("the construction changed the configuration", *self.changed)
        for ident, (sc, picture) in self.configs.items():
            if frozen(sc) != picture:
                raise K.Mismatch("configuration %d changed" % ident, picture, frozen(sc))
        for m in rec["model"] if self.held else ():
            n += self.check_model(m)
        return n


def job(recs):
    hist, lost = [], []

    def run():
        n = 0
        rp = Replay(recs[0])
        rng = random.Random(recs[0]["w"])
        for rec in recs:
            hist.append(rec["last"])
            rp.apply(rec["last"])
            n += rp.check(rec, rng)
        lost.append(rp.lost_bad)
        return n
    r = ocpstatic.guarded(run, recs[0]["cfg"], "")
    r["lost"] = sum(lost)
    if r["bad"]:
        r["bad"]["history"] = hist
        r["bad"]["what"] = r["bad"]["what"].split(" [")[0] + " after %d steps, last %s" % (len(hist) - 1, json.dumps(hist[-1]["op"])[:300])
    return r


def main(chk):
    groups = generate(chk, chk.pick(160, 1200), chk.pick(12, 20))
    chk.sample([r["last"]["op"] for r in groups[0]][:4])
    res = list(pmap(job, groups, chunksize=2))
    ocpstatic.report(chk, res)
    if any(r["lost"] for r in res):
        chk.violation("a problem is no longer what it was once its model has served one with other constraint outputs", key="constraint-outputs-on-the-model")
    chk.extra["histories"] = len(groups)
    chk.extra["constructions"] = sum(r["last"]["op"]["k"] == "build" for g in groups for r in g)
    chk.extra["refused"] = sum(not r["last"]["ok"] for g in groups for r in g)
    chk.extra["models taken over by other constraint outputs"] = sum(len(r["lost"]) for g in groups for r in g)
