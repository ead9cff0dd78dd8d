"""C01: every lookup on real DecVarOperator objects against Layout.tla."""
import os
from collections import namedtuple

import numpy as np

from checklib import read_jsonl, short_exc

# the groups have names in common, at different places
SHIFT = {"states": 0, "inputs": 1, "states_dot": 0, "con_outputs": 2}


def var_name(group, i):
    return "q%d" % (SHIFT[group] + i)


def main(chk):
    out = chk.tmp("layout.jsonl")
    c = chk.pick(dict(MaxNS=2, MaxNI=2, MaxNC=1, MaxIntervals=3, MaxStages=4, MaxGlobals=2),
                 dict(MaxNS=3, MaxNI=2, MaxNC=2, MaxIntervals=4, MaxStages=5, MaxGlobals=2))
    chk.tlc("MC_Layout", constants=c, invariants=["Inv", "Emit"], env={"VERIF_OUT": out}, workers=8)
    from lumos.optimal_control.utils import DecVarOperator, batch_conv1d, create_offset_structure, stack_and_increment

    def group_names(name, size):
        return tuple(var_name(name, i) for i in range(size))

    for exp in read_jsonl(out):
        sh = exp["shape"]
        try:
            check_shape(chk, exp, sh, DecVarOperator, group_names)
            chk.ok()
        except Mismatch as m:
            chk.violation("layout %s: %s" % (m.what, sh), {"shape": sh, "expected": m.exp, "observed": m.obs})
        except Exception as e:
            chk.violation("layout lookup raised %s for %s" % (short_exc(e), sh), {"shape": sh})
    aux(chk, batch_conv1d, create_offset_structure, stack_and_increment)
    random_shapes(chk, DecVarOperator, group_names)
    chk.sample({"shape": sh, "num_dec": exp["num_dec"], "groups": exp["groups"][0]["table"]})


class Mismatch(Exception):
    def __init__(self, what, exp, obs):
        self.what, self.exp, self.obs = what, exp, obs


def eq(chk, what, exp, obs):
    chk.steps += 1
    e = np.asarray(exp)
    o = np.asarray(obs)
    if e.size == 0 and o.size == 0:
        if e.ndim and o.ndim and e.shape[0] and e.shape[0] != o.shape[0]:
            raise Mismatch(what, e.tolist(), o.tolist())
        return
    if e.shape != o.shape or not np.array_equal(e, o):
        raise Mismatch(what, e.tolist(), o.tolist())


def rejects(chk, what, fn):
    chk.steps += 1
    try:
        r = fn()
    except Exception:
        return
    raise Mismatch(what + " accepted", "rejected", repr(r))


def check_shape(chk, exp, sh, DecVarOperator, group_names):
    sizes = {g["name"]: g["size"] for g in sh["groups"]}
    IO = namedtuple("IO", ["states", "states_dot", "inputs", "outputs", "con_outputs", "residuals"])
    names = IO(group_names("states", sizes["states"]), group_names("states_dot", sizes["states"]),
               group_names("inputs", sizes["inputs"]), (), group_names("con_outputs", sizes["con_outputs"]), ())
    gl = tuple("glob%d" % j for j in range(sh["nG"]))
    op = DecVarOperator(model_var_names=names, num_intervals=sh["nI"], num_stages_per_interval=sh["nS"],
                        stage_var_groups=tuple(g["name"] for g in sh["groups"]), global_var_names=gl)
    eq(chk, "num_dec", exp["num_dec"], op.num_dec)
    eq(chk, "num_stages", exp["num_stages"], op.num_stages)
    eq(chk, "num_var_stage", exp["num_var_stage"], op.num_var_stage)
    eq(chk, "num_all_stage_var", exp["num_all_stage_var"], op.num_all_stage_var)
    eq(chk, "num_global_var", sh["nG"], op.num_global_var)
    N = exp["num_stages"]
    ident = np.arange(exp["num_dec"], dtype=float)
    x = ident * 3 + 1
    back = op.unflatten_var(x)
    for g in exp["groups"]:
        gname = g["name"]
        table = np.array(g["table"], dtype=int).reshape(N, g["size"])
        eq(chk, "unflatten " + gname, table * 3 + 1, getattr(back, gname))
        tens = np.array(g["tensor"], dtype=int).reshape(sh["nI"], sh["nS"], g["size"])
        eq(chk, "interval view " + gname, tens * 3 + 1, op.get_interval_tensor(x, gname))
        for st in range(N):
            eq(chk, "group at stage " + gname, table[st], op.get_group_indices_at_stage(gname, st))
            eq(chk, "group at negative stage " + gname, np.array(g["neg"][st], dtype=int),
               op.get_group_indices_at_stage(gname, -(st + 1)))
        eq(chk, "group in dec " + gname, table.ravel(), op.get_group_indcies_in_dec(gname))
        for i in range(g["size"]):
            nm = var_name(gname, i)
            eq(chk, "index in group", i, op.get_var_index_in_group(gname, nm))
            eq(chk, "all stages", g["all"][i], op.get_var_index_in_dec(gname, nm))
            eq(chk, "get_var all stages", np.array(g["all"][i]) * 3 + 1, op.get_var(x, gname, nm))
            for st in range(N):
                eq(chk, "index at stage", table[st][i], op.get_var_index_in_dec(gname, nm, st))
                eq(chk, "index at negative stage", g["neg"][st][i], op.get_var_index_in_dec(gname, nm, -(st + 1)))
                eq(chk, "get_var", table[st][i] * 3 + 1, op.get_var(x, gname, nm, st))
                eq(chk, "get_var negative", g["neg"][st][i] * 3 + 1, op.get_var(x, gname, nm, stage=-(st + 1)))
            for st in exp["bad_stages"]:
                rejects(chk, "stage %d of %s" % (st, gname), lambda: op.get_var_index_in_dec(gname, nm, st))
        for st in exp["bad_stages"]:
            rejects(chk, "group stage %d" % st, lambda: op.get_group_indices_at_stage(gname, st))
        rejects(chk, "unknown name", lambda: op.get_var_index_in_dec(gname, "nosuch", 0))
        rejects(chk, "unknown name", lambda: op.get_var_index_in_group(gname, "nosuch"))
    rejects(chk, "unknown group", lambda: op.get_var_index_in_dec("nogroup", "q0", 0))
    rejects(chk, "unknown global", lambda: op.get_var_index_in_dec("global", "nosuch"))
    for j, nm in enumerate(gl):
        eq(chk, "global index", exp["globals"][j], op.get_var_index_in_dec("global", nm))
        eq(chk, "global in group", j, op.get_var_index_in_group("global", nm))
        eq(chk, "global value", exp["globals"][j] * 3 + 1, op.get_var(x, "global", nm))
        eq(chk, "unflatten global", exp["globals"][j] * 3 + 1, getattr(back, nm))
    eq(chk, "stage table", np.array(exp["stage_table"]) * 3 + 1, op.get_stage_var_array(x))
    eq(chk, "flatten(unflatten)", x, op.flatten_var(**back._asdict()))
    # flatten from scratch: values are the owning positions
    kw = {g["name"]: np.array(g["table"], dtype=float).reshape(N, g["size"]) for g in exp["groups"]}
    kw.update({nm: float(exp["globals"][j]) for j, nm in enumerate(gl)})
    eq(chk, "flatten", ident, op.flatten_var(**kw))
    want = [g["name"] + "." + var_name(g["name"], i) for g in exp["groups"] for i in range(g["size"])]
    chk.steps += 1
    if list(op.stage_var_names) != want:
        raise Mismatch("stage_var_names", want, list(op.stage_var_names))
    sv, gv = op.split_stage_and_global_vars(x)
    eq(chk, "split stage", x[: exp["num_all_stage_var"]], sv)
    eq(chk, "split global", x[exp["num_all_stage_var"]:], gv)
    eq(chk, "merge", x, op.merge_stage_and_global_vars(np.asarray(sv), np.asarray(gv)))
    chk.steps += 1
    if bool(op.has_global_var()) != (sh["nG"] > 0):
        raise Mismatch("has_global_var", sh["nG"] > 0, op.has_global_var())


def aux(chk, batch_conv1d, create_offset_structure, stack_and_increment):
    out = chk.tmp("aux.jsonl")
    chk.tlc("MC_LayoutAux", constants=dict(MaxLen=chk.pick(7, 10), MaxBase=2), invariants=["ConvSane", "Emit"],
            env={"VERIF_OUT": out}, workers=8)
    for exp in read_jsonl(out):
        c = exp["case"]
        try:
            if c["kind"] == "conv":
                n, k = c["len"], c["inner"]
                x = np.arange(n, dtype=float) if k == 0 else np.arange(n * k, dtype=float).reshape(n, k)
                if not exp["ok"]:
                    rejects(chk, "uneven cut", lambda: batch_conv1d(x, c["width"], c["stride"]))
                else:
                    want = x[np.array(exp["windows"], dtype=int)]
                    for b in ("numpy", "jax"):
                        eq(chk, "batch_conv1d", want, np.asarray(batch_conv1d(x, c["width"], c["stride"], backend=b)))
            elif c["kind"] == "offset":
                r, q = create_offset_structure(np.array(c["base"]), np.array(c["base"][::-1]), c["roff"], c["coff"], c["blocks"])
                eq(chk, "offset rows", exp["rows"], r)
                eq(chk, "offset cols", exp["cols"], q)
            else:
                if c["cols"] == 0:
                    base = np.array([10 * (r + 1) for r in range(c["rows"])])
                else:
                    base = np.array([[10 * (r + 1) + k + 1 for k in range(c["cols"])] for r in range(c["rows"])])
                eq(chk, "stack_and_increment", exp["out"], stack_and_increment(base, c["axis"], c["rep"], c["inc"]))
            chk.ok()
        except Mismatch as m:
            chk.violation("helper %s: %s" % (m.what, c), {"case": c, "expected": m.exp, "observed": m.obs})
        except Exception as e:
            chk.violation("helper raised %s for %s" % (short_exc(e), c), {"case": c})


def random_shapes(chk, DecVarOperator, group_names):
    """Record lookups on random larger shapes; Trace_Layout.tla judges them."""
    import random
    import lumos.numpy as lnp
    from lumos.models.base import StateSpaceModel, StateSpaceIO
    rng = random.Random(chk.seed)
    events = []
    for _ in range(chk.pick(60, 600)):
        sizes = {"states": rng.randint(1, 7), "inputs": rng.randint(0, 5), "con_outputs": rng.randint(0, 4)}
        sizes["states_dot"] = sizes["states"]
        order = ["states", "inputs", "states_dot", "con_outputs"]
        native = rng.random() < 0.5
        if not native:
            rng.shuffle(order)
        sh = {"groups": [{"name": g, "size": sizes[g]} for g in order], "nI": rng.randint(1, 40),
              "nS": rng.randint(2, 7), "nG": rng.randint(0, 3)}
        IO = namedtuple("IO", ["states", "states_dot", "inputs", "outputs", "con_outputs", "residuals"])
        names = IO(group_names("states", sizes["states"]), group_names("states_dot", sizes["states"]),
                   group_names("inputs", sizes["inputs"]), (), group_names("con_outputs", sizes["con_outputs"]), ())
        gl = tuple("glob%d" % j for j in range(sh["nG"]))
        try:
            op = DecVarOperator(names, sh["nI"], sh["nS"], tuple(order), gl)
            N = sh["nI"] * (sh["nS"] - 1) + 1
            events.append(dict(q="counts", shape=sh, res=[op.num_dec, op.num_stages, op.num_var_stage, op.num_all_stage_var]))
            x = np.arange(op.num_dec)
            vars_ = op.unflatten_var(x)
            for _ in range(chk.pick(12, 30)):
                g = rng.choice([g for g in order if sizes[g]])
                i = rng.randrange(sizes[g])
                st = rng.randint(-N - 3, N + 3)
                try:
                    res, rej = int(op.get_var_index_in_dec(g, var_name(g, i), st)), False
                except Exception:
                    res, rej = -1, True
                events.append(dict(q="index", shape=sh, group=g, i=i, stage=st, res=res, rejected=rej))
                try:
                    res, rej = [int(v) for v in op.get_group_indices_at_stage(g, st)], False
                except Exception:
                    res, rej = [], True
                events.append(dict(q="group", shape=sh, group=g, stage=st, res=res, rejected=rej))
                k = rng.randrange(N)
                events.append(dict(q="unflatten", shape=sh, group=g, stage=k, res=[int(v) for v in getattr(vars_, g)[k]]))
                b, w = rng.randrange(sh["nI"]), rng.randrange(sh["nS"])
                events.append(dict(q="tensor", shape=sh, group=g, b=b, w=w,
                                   res=[int(v) for v in op.get_interval_tensor(x, g)[b][w]]))
                if N < 60:
                    events.append(dict(q="all", shape=sh, group=g, i=i,
                                       res=[int(v) for v in op.get_var_index_in_dec(g, var_name(g, i))]))
            for j in range(sh["nG"]):
                events.append(dict(q="global", shape=sh, i=j, res=int(op.get_var_index_in_dec("global", gl[j]))))
            if native:
                M = type("ToyLayout", (StateSpaceModel,), {
                    "_direct_names": StateSpaceIO(states=names.states, states_dot=names.states, inputs=names.inputs,
                                                  outputs=names.con_outputs, con_outputs=names.con_outputs, residuals=()),
                    "forward": lambda self, states, inputs, mesh: None})
                m = M()
                for g in order:
                    for i, v in enumerate(m.get_group_indices_in_flat(g)):
                        events.append(dict(q="modelflat", shape=sh, group=g, i=i, res=int(v)))
                        events.append(dict(q="modelflat", shape=sh, group=g, i=i,
                                           res=int(m.get_var_index_in_flat(g, var_name(g, i)))))
            chk.ok()
        except Exception as e:
            chk.violation("lookup raised %s for shape %s" % (short_exc(e), sh), {"shape": sh})
    from checklib import validate_trace
    for r in validate_trace(chk, "Trace_Layout", events):
        e = events[r["line"] - 1]
        chk.violation("recorded lookup rejected by clause '%s': %s" % (r["clause"], e), e)
    chk.steps += len(events)
    chk.sample(events[1])
