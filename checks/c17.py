"""C17: histories of IterLog.tla replayed on problems whose solver is scripted; traces of real solves."""
import csv
import json
import os
import random
import shutil

import numpy as np

import ocpstatic
import ocpwalk
import walks
from checklib import read_jsonl
from par import pmap

METRICS = ("obj_value", "inf_pr", "inf_du", "mu", "d_norm", "regularization_size", "alpha_du", "alpha_pr", "ls_trials")


class Solve:
    """Plays the events between begin and end"""

    def __init__(self):
        self.events = []

    def __call__(self, nlp, x0):
        import fakesolver
        pb = nlp.problem
        x = x0
        for e in self.events:
            if e["k"] in ("trial", "iter"):
                x = np.array(e["x"], dtype=float) / self.s
                pb.objective(np.array(x))
                if e["k"] == "trial":
                    pb.constraints(np.array(x))
                    continue
                self.kept = x
            if e["k"] in ("iter", "leave"):
                r = e["row"]
                ret = pb.intermediate(r["alg"], r["count"], *[v / 8.0 for v in r["m"]])
                if ret is not None and not ret:
                    raise AssertionError("the notification asks the solver to stop")
            if e["k"] == "end":
                if e["how"] == "stop":
                    raise fakesolver.Stopped()
                return np.array(self.kept), dict(status=0 if e["how"] == "ok" else -13, status_msg=b"scripted", x=np.array(self.kept),
                                       g=np.zeros(nlp.given["m"]), obj_val=0.0)


class Replay(ocpwalk.Replay):
    def __init__(self, rec0, tag):
        import ocpkit as K
        import fakesolver
        from lumos.optimal_control.config import LoggingConfig
        self.K, self.backend, self.parts, self.exports = K, "custom", {}, 0
        self.cfg0 = rec0["cfg0"]
        self.spec = ocpwalk.SPECS[self.cfg0["m"]]
        self.model = K.make_model(self.spec)
        self.dir = os.path.join(os.environ["VERIF_SCRATCH"], "logs", tag)
        self.on, self.N = rec0["on"], rec0["N"]
        over = {"logging_config": LoggingConfig(sim_name="s" + tag, results_dir=self.dir, log_every_nth_iter=self.N)} if self.on else {}
        os.makedirs(self.dir)
        self.here = os.path.join(self.dir, "cwd")
        os.makedirs(self.here)
        os.chdir(self.here)
        self.ocps = [K.make_ocp(self.cfg0, self.spec, "custom", model=self.model, **over)]
        self.n = self.ocps[0].num_dec
        self.solve = Solve()
        fakesolver.install(self.solve)

    def do_begin(self, op):
        self.begin = op
        self.solve = Solve()
        self.solve.s = np.array(op["s"], dtype=float) / 4.0
        self.solve.kept = np.array(op["x"], dtype=float) / self.solve.s

    def event(self, op):
        self.solve.events.append(op)
    do_trial = do_iter = do_leave = event

    def do_end(self, op):
        import fakesolver
        self.solve.events.append(op)
        fakesolver.FakeSolver.script = staticmethod(self.solve)
        x0 = np.array(self.begin["x"], dtype=float)
        kw = dict(print_level=0)
        if op["how"] == "stop":
            try:
                self.ocps[0].solve(x0, **kw)
            except fakesolver.Stopped:
                return
            raise self.K.Mismatch("an exception of the solver did not reach the caller")
        if op["how"] == "fail":
            self.K.rejected("a solve that ends with status -13", lambda: self.ocps[0].solve(x0, **kw))
            return
        self.ocps[0].solve(x0, **kw)

    def close(self):
        os.chdir(os.environ["VERIF_SCRATCH"])
        shutil.rmtree(self.dir)

    # -- what is on disk
    def check_disk(self, rec):
        K = self.K
        e = rec["end"][0]
        if not self.on:
            left = [f for _, _, fs in os.walk(self.dir) for f in fs]
            if left:
                raise K.Mismatch("files written though logging is off", [], left)
            return 1
        d = self.ocps[0].logging_dir
        files = sorted(os.listdir(d))
        extra = [f for f in files if f not in ("metrics_history.csv", "results.csv", "all_iters.parquet")]
        if extra:
            raise K.Mismatch("temporary files remain", [], extra)
        n = self.check_metrics(e, os.path.join(d, "metrics_history.csv"), rec)
        want = ["metrics_history.csv"] * bool(e["rows"]) + ["results.csv"] * bool(e["res"]) + ["all_iters.parquet"] * bool(e["tabs"])
        miss = [f for f in want if f not in files]
        stale = [f for f in files if f not in want and f != "metrics_history.csv"]
        if miss or stale:
            raise K.Mismatch("files of the log", want, files)
        import pandas as pd
        tab = {t["pt"]: t for t in e["tables"]}
        if e["res"]:
            n += self.check_table(pd.read_csv(os.path.join(d, "results.csv")), e["res"], tab, e["cols"], rec, "results.csv")
        if e["tabs"]:
            n += self.check_table(pd.read_parquet(os.path.join(d, "all_iters.parquet")), e["tabs"], tab, e["cols"], rec, "all_iters.parquet")
        return n

    def columns(self, cols, t, rec):
        """name -> expected values, for one table"""
        out = {}
        for q, name in enumerate(cols["vars"]):
            out[name] = [r["vars"][q] for r in t["t"]]
        for q, name in enumerate(cols["outs"]):
            out["outputs." + name] = [r["outs"][q] / cols["outden"] for r in t["t"]]
        for q, name in enumerate(cols["icon"]):
            out["interval_con." + name] = [r["icon"][q] / cols["iconden"] / (cols["iconsc"][q] / 4.0) for r in t["t"]]
        for q, name in enumerate(cols["scon"]):
            # an output that is both a constraint output and a residual gives two columns of one name
            name = "stage_con." + name
            while name in out:
                name += ".1"
            out[name] = [r["scon"][q] / cols["sconden"] / (cols["sconsc"][q] / 4.0) for r in t["t"]]
        for q, name in enumerate(cols["cyc"]):
            out["cyclic_con." + name] = [r["cyc"][q] for r in t["t"]]
        out["mesh"] = [m / rec["meshden"] * t["scale"] for m in rec["mesh"]]
        return out

    def check_table(self, df, rows, tab, cols, rec, where):
        K = self.K
        per = len(rec["mesh"])
        counts = [r["count"] for r in rows]
        K.same("iterations in " + where, [c for c in counts for _ in range(per)], df["iter"])
        n = len(df)
        for k, r in enumerate(rows):
            exp = self.columns(cols, tab[r["pt"]], rec)
            if set(df.columns) != set(exp) | {"iter"}:
                raise K.Mismatch("columns of " + where, sorted(exp) + ["iter"], sorted(df.columns))
            part = df.iloc[k * per:(k + 1) * per]
            for name, e in exp.items():
                K.same("%s of iteration %d in %s" % (name, r["count"], where), e, part[name].to_numpy())
                n += len(e)
        return n

    def check_metrics(self, e, path, rec):
        K = self.K
        if not os.path.exists(path):
            got = []
        else:
            with open(path) as f:
                text = f.read()
            got = list(csv.DictReader(text.splitlines())) if text.strip() else []
        K.same("iterations in the metrics", [r["count"] for r in e["rows"]], [int(float(g["iter_count"])) for g in got])
        tab = {t["pt"]: t for t in e["tables"]}
        saved = {r["count"]: r for r in e["tabs"]}
        for r, g in zip(e["rows"], got):
            K.same("alg_mod of iteration %d" % r["count"], [r["alg"]], [float(g["alg_mod"])])
            for name, v in zip(METRICS, r["m"]):
                K.same("%s of iteration %d" % (name, r["count"]), [v / 8.0], [float(g[name])])
            if self.N == 0:
                continue
            name, mesh = g["max_violation_con_name"], float(g["max_violation_mesh"])
            if r["count"] not in saved:
                if name != "NotRecorded" or mesh != -1:
                    raise K.Mismatch("violation attributed to iteration %d, whose constraints were not recorded" % r["count"],
                                     "NotRecorded", [name, mesh])
                continue
            exp = self.columns(e["cols"], tab[saved[r["count"]]["pt"]], rec)
            cons = {k: np.abs(v) for k, v in exp.items() if k.split(".")[0] in ("interval_con", "stage_con", "cyclic_con")}
            top = max(v.max() for v in cons.values())
            ok = [(k, exp["mesh"][i]) for k, v in cons.items() for i in range(len(v)) if v[i] >= top - 1e-9 * (1 + top)]
            if not any(name == k and abs(mesh - m) <= 1e-9 * (1 + abs(m)) for k, m in ok):
                raise K.Mismatch("largest violation of iteration %d" % r["count"], ok, [name, mesh])
        return len(got) * 11 + 1


def job(arg):
    recs, tag = arg
    import logging
    logging.getLogger("lumos").setLevel(logging.ERROR)
    hist = []

    def run():
        n = 0
        rp = Replay(recs[0], tag)
        try:
            for rec in recs:
                for o in (rec["hist"] if rec["hist"] else [rec["last"]]):
                    hist.append(o["op"])
                    if o["op"]["k"] == "init":
                        continue
                    rp.apply(o)
                if rec["end"]:
                    n += rp.check_disk(rec)
        finally:
            rp.close()
        return n
    r = ocpstatic.guarded(run, recs[0]["cfg"], "custom")
    if r["bad"]:
        r["bad"]["history"] = hist
        r["bad"]["what"] += " after %s" % " ".join(o["k"] if o["k"] != "end" else "end:" + o["how"] for o in hist)[-200:]
    return r


def generate(chk, walks_, length, exhaustive, seed):
    out = chk.tmp("iterlog_%s.jsonl" % exhaustive)
    chk.tlc("IterLog", constants=dict(Mode="C17", Seed=seed, Walks=walks_, Len0=length, Exhaustive=exhaustive, WithDer=False),
            invariants=["RecordsFaithful", "DiskFaithful", "LOut"], properties=["SettingsKeepLog"], postcondition="PostModels", spec="LSpec",
            env={"VERIF_OUT": out}, workers=8)
    for d in read_jsonl(out + ".models"):
        ocpwalk.SPECS.update({i + 1: m for i, m in enumerate(d["models"])})
    rs = [r for r in read_jsonl(out) if r["cfg"]["sch"] != "none"]
    if exhaustive:
        # maximal histories: the end of a solve observed
        return [[r] for r in sorted(rs, key=lambda r: json.dumps(r["hist"], sort_keys=True)) if r["end"]]
    g = {}
    for r in rs:
        g.setdefault(r["w"], []).append(r)
    return [sorted(g[k], key=lambda r: r["step"]) for k in sorted(g)]


def real_job(arg):
    """solves with the real solver; every announcement and the files afterwards as trace events"""
    cfg, seed = arg
    import logging
    logging.getLogger("lumos").setLevel(logging.CRITICAL)
    import pandas as pd
    import ocpkit as K
    from lumos.optimal_control.config import BoundConfig, LoggingConfig, ScaleConfig
    rng = random.Random(seed)
    spec = ocpwalk.SPECS[cfg["m"]]
    d = os.path.join(os.environ["VERIF_SCRATCH"], "real%d" % seed)
    os.makedirs(d)
    os.chdir(d)
    N = rng.choice([1, 2, 3, 7])
    sc = {n: rng.choice([1.0, 2.0, 5.0]) for n in spec["states"]}
    lo = rng.choice([0.5, 1.0, 2.5])
    bounds = [BoundConfig("inputs", n, (-rng.choice([0.5, 2.0, 5.0]), lo)) for n in spec["inputs"]]
    bounds += [BoundConfig("states", n, (-rng.choice([0.5, 3.0]), rng.choice([1.0, 4.0]))) for n in spec["states"] if n != "time"]
    if cfg["cls"] == "scaled":
        bounds.append(BoundConfig("global", "mesh_scale", (0.2, rng.choice([1.0, 3.0]))))
    ocp = K.make_ocp(cfg, spec, "custom", bounds=tuple(bounds), hessian_approximation="limited-memory",
                     scales=tuple(ScaleConfig("states", n, v) for n, v in sc.items()),
                     logging_config=LoggingConfig(sim_name="real%d" % seed, results_dir=d, log_every_nth_iter=N))
    scale = np.ones(ocp.num_dec)
    nvs = ocp.num_dec // ocp.num_stages
    for k, n in enumerate(spec["states"]):
        scale[k:nvs * ocp.num_stages:nvs] = sc[n]
    ev, pts = [], []

    def objective(x, f=ocp.objective):
        pts.append(np.array(x, dtype=float))
        return f(x)

    def intermediate(alg, count, *rest, f=ocp.intermediate):
        ev.append(dict(k="iter", alg=int(alg), count=int(count), pt=len(pts) - 1, N=N))
        return f(alg, count, *rest)
    ocp.objective, ocp.intermediate = objective, intermediate
    for solve in range(2):
        ev.append(dict(k="begin"))
        x0 = np.array([rng.uniform(-2, 3) for _ in range(ocp.num_dec)])
        x0[-1] = 1.0
        first = len(pts)
        try:
            sol, info = ocp.solve(x0, hessian_approximation=("exact", "limited-memory")[seed % 2], fixed_variable_treatment="make_parameter",
                                  print_level=0, sb="yes", max_iter=25, print_timing_statistics="no")
        except RuntimeError:
            ev.append(dict(k="aborted"))
            continue
        files = os.listdir(ocp.logging_dir)
        m = pd.read_csv(os.path.join(ocp.logging_dir, "metrics_history.csv")) if "metrics_history.csv" in files else None
        announced = {e["count"]: e["pt"] for e in reversed(ev[max(i for i, e in enumerate(ev) if e["k"] == "begin"):]) if e["k"] == "iter"}
        names = [n for n in ocp.dec_var_operator.stage_var_names]

        def tables(path):
            if os.path.basename(path) not in files:
                return []
            df = pd.read_csv(path) if path.endswith("csv") else pd.read_parquet(path)
            out = []
            for c, part in df.groupby("iter", sort=False):
                vals = part[names].to_numpy()
                # which of the evaluated points of this solve is it?  the announced one is tried first
                cand = ([announced[c]] if c in announced else []) + list(range(first, len(pts)))
                pt = next((q for q in cand if np.allclose((pts[q] * scale)[:vals.size], vals.ravel(), rtol=1e-9, atol=1e-12)), -1)
                out.append(dict(count=int(c), pt=pt))
            return out
        worst = []
        if m is not None and "max_violation_con_name" in m:
            df = pd.read_parquet(os.path.join(ocp.logging_dir, "all_iters.parquet")) if "all_iters.parquet" in files else None
            for _, g in m.iterrows():
                c, name, at = int(g["iter_count"]), g["max_violation_con_name"], float(g["max_violation_mesh"])
                rank = 0
                if name != "NotRecorded" or at != -1:
                    part = df[df["iter"] == c]
                    cons = np.abs(part[[q for q in part.columns if "_con." in q]].to_numpy())
                    here = np.abs(part[name].to_numpy()[np.abs(part["mesh"].to_numpy() - at) <= 1e-12 * (1 + abs(at))]) if name in part else []
                    rank = max(1, int((cons > max(here)).sum()) + 1) if len(here) else -1
                worst.append(dict(count=c, rank=rank))
        ev.append(dict(k="end", N=N, worst=worst, rows=[] if m is None else [int(c) for c in m["iter_count"]],
                       tabs=tables(os.path.join(ocp.logging_dir, "all_iters.parquet")),
                       res=tables(os.path.join(ocp.logging_dir, "results.csv")),
                       temp=len([f for f in files if f.startswith("iter_")])))
    os.chdir(os.environ["VERIF_SCRATCH"])
    return ev


def main(chk):
    chk.assumptions.append("the scripted solver announces iterates the way the installed Ipopt does: counts increase by one, "
                           "an iterate repeats only on leaving restoration")
    ex = generate(chk, chk.pick(6, 12), chk.pick(6, 8), True, chk.seed)
    rn = generate(chk, chk.pick(120, 700), chk.pick(40, 80), False, chk.seed + 3)
    hs = [(h, "%s%d" % (t, k)) for t, l in (("e", ex), ("r", rn)) for k, h in enumerate(l)]
    ocpstatic.report(chk, pmap(job, hs, chunksize=4))
    chk.extra["exhaustive_histories"] = len(ex)
    chk.extra["random_histories"] = len(rn)
    chk.sample([o["last"]["op"]["k"] for o in rn[0]])

    # real solves: what the solver announces and what is on disk afterwards, checked by TLC
    cfgs = [h[0]["cfg0"] for h in rn if h[0]["cfg0"]["sch"] != "ST4" and ocpwalk.SPECS[h[0]["cfg0"]["m"]]["name"] != "One"]
    jobs = [(c, chk.seed * 1000 + k) for k, c in enumerate(cfgs[:chk.pick(24, 90)])]
    events, phases, reps = [], 0, 0
    for ev in pmap(real_job, jobs):
        events += ev
    from checklib import validate_trace
    for r in validate_trace(chk, "Trace_IterLog", events):
        near = events[max(0, r["line"] - 8):r["line"]]
        if r["clause"].startswith("environment"):
            chk.extra["environment"] = r["clause"]
            continue
        chk.violation("records of a real solve: %s" % r["clause"], near)
    ann = [e for e in events if e["k"] == "iter"]
    chk.extra["real_solves"] = dict(solves=len([e for e in events if e["k"] == "end"]), announcements=len(ann),
                                    in_restoration=len([e for e in ann if e["alg"] == 1]), aborted=len([e for e in events if e["k"] == "aborted"]))
    chk.ok(len([e for e in events if e["k"] == "end"]))
    chk.steps += len(events)
