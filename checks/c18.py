"""C18: schedules of BuildWalk.tla carried out by real processes that share working directories.

The builders are real processes running the real code.  The compiler found on their PATH is a stand-in that asks
the driver at every stage (started, half written, all written, returned) and runs the real compiler; builders can
also be stopped before any file operation of theirs and in the middle of what they write (c18_stop.c, which knows
nothing of how the code is written).
"""
import ctypes
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

import walks
from par import pmap

SHIM = r"""#!/bin/bash
real=REAL
[ -z "$VF_CTL" ] && exec "$real" "$@"
out=""; args=(); src=""; nolink=""
while [ $# -gt 0 ]; do
  case "$1" in
    -o) out="$2"; shift;;
    -o*) out="${1#-o}";;
    -c|-S|-E|--version|-v|-dumpversion|-print*) nolink=1; args+=("$1");;
    *.c) src="$1"; args+=("$1");;
    *) args+=("$1");;
  esac
  shift
done
if [ -z "$src" ] || [ -n "$nolink" ]; then
  [ -n "$out" ] && exec "$real" "${args[@]}" -o "$out"
  exec "$real" "${args[@]}"
fi
[ -z "$out" ] && out=a.out
tmp="$VF_CTL/out.$$"
say() { echo "$1" > "$VF_CTL/ev"; }
say "start $$"
compiled=""
comp() { if [ -z "$compiled" ]; then "$real" "${args[@]}" -o "$tmp" || { say "broken"; exit 1; }; compiled=1; fi; }
while read -r cmd < "$VF_CTL/cmd"; do
  case "$cmd" in
    half) comp; n=$(stat -c %s "$tmp"); head -c $((n / 2)) "$tmp" > "$out"; say half;;
    whole) comp; cat "$tmp" > "$out"; chmod 755 "$out"; say whole;;
    ok) comp; cmp -s "$tmp" "$out" || cat "$tmp" > "$out"; chmod 755 "$out"; rm -f "$tmp"; exit 0;;
    exit) rm -f "$tmp"; exit 1;;
    signal) rm -f "$tmp"; kill -9 $$;;
    nothing) rm -f "$tmp" "$out"; exit 0;;
  esac
done
exit 1
"""

TABLE = {}
WAIT = 40.0


# -- in the builder ----------------------------------------------------------
def make_model(e):
    from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
    n, const, late, big = TABLE["n"], TABLE["const"][e - 1], TABLE["late"][e - 1], TABLE["big"][e - 1]

    def get_default_params(cls):
        return {"q": 1.0 + (e >= 6), "unused": float(e)}

    def forward(self, states, inputs, mesh=0.0):
        s, u, q = states["s"], inputs["u"], self._params["q"]
        f = const * s + q if e == 5 else const * s + u * s + q
        r = s
        if big:
            for i in range(1, n + 1):
                r = r + (s + i) * (u - i)
        r = r - u * late
        g = u * u * const + q * s
        y = s * s + const * u
        return StateSpaceModelReturn(states_dot={"s": f}, outputs={"y": y, "g": g, "r": r}, con_outputs={"g": g}, residuals={"r": r})
    cls = type("VfOther" if e == 6 else "VfLib", (StateSpaceModel,),
               {"get_default_params": classmethod(get_default_params), "forward": forward})
    cls = state_space_io(states=("s",), inputs=("u",), outputs=("y", "g", "r"), con_outputs=("g",), residuals=("r",))(cls)
    return cls()


class Builder:
    def __init__(self, rfd, wfd, ctl, base):
        self.r = os.fdopen(rfd, "r")
        self.w = wfd
        self.held = []
        self.stop = ctypes.CDLL(os.environ["VERIF_C18_STOP"])
        self.stop.vf_init(rfd, wfd, os.path.join(ctl, "post").encode(), base.encode())

    def say(self, **kw):
        os.write(self.w, (json.dumps(kw) + "\n").encode())

    def values(self):
        import lumos.numpy as lnp
        from lumos.models.base import StateSpaceModelReturn
        out = []
        for m in self.held:
            rows = []
            for s, u, q in TABLE["pts"]:
                p = m.get_recursive_params()
                p.set_param("q", float(q))
                fp, _ = p.tree_ravel()
                x = np.zeros(m.num_implicit_var)
                gi = m.get_group_indices_in_flat
                x[gi("states")] = s
                x[gi("inputs")] = u
                a = m.model_algebra
                k = len(x)
                xs, ms = np.array([x, x]), np.zeros(2)
                con = np.asarray(a.mapped_constraints(xs, ms, fp), dtype=float)
                jac = np.zeros((2, a.num_con, k))
                jr, jc = a.jacobianstructure()
                jv = np.asarray(a.mapped_jacobian(xs, ms, fp), dtype=float)
                hr, hc = a.hessianstructure()
                hes = np.zeros((a.num_con, k, k))
                for j in range(2):
                    jac[j][jr, jc] = jv[j]
                for i in range(a.num_con):
                    mu = np.zeros((2, a.num_con))
                    mu[:, i] = 1.0
                    hv = np.asarray(a.mapped_hessian(xs, mu, ms, fp), dtype=float)[1]
                    h = np.zeros((k, k))
                    h[hr, hc] = hv
                    hes[i] = h
                st, inp = np.full((2, 1), float(s)), np.full((2, 1), float(u))
                ret = m.batched_forward(st, inp, ms, p)
                si, ui = int(gi("states")[0]), int(gi("inputs")[0])
                rows.append(dict(
                    con=con.tolist(), jac=jac[:, :, [si, ui]].tolist(),
                    hes=[[h[si, si], h[si, ui] + (h[ui, si] if abs(h[ui, si] - h[si, ui]) > 0 else 0), h[ui, ui]] for h in hes],
                    fwd=[np.asarray(v, dtype=float).ravel().tolist() for v in ret]))
            out.append(rows)
        return out

    def serve(self):
        for line in self.r:
            c = json.loads(line)
            if c["c"] == "build":
                os.chdir(c["dir"])
                m = make_model(c["e"])
                self.stop.vf_arm(ctypes.c_long(c["pre"]))
                try:
                    m.make_model_algebra_cons("casadi")
                    n = self.stop.vf_disarm()
                    self.held.append(m)
                    self.say(s="built", n=n)
                except Exception as e:
                    self.stop.vf_disarm()
                    self.say(s="error", what="%s: %s" % (type(e).__name__, str(e)[:300]))
            elif c["c"] == "values":
                try:
                    self.say(s="values", v=self.values())
                except Exception as e:
                    import traceback
                    self.say(s="failed", what=traceback.format_exc()[-600:])


# -- the driver ---------------------------------------------------------------
class Bad(Exception):
    def __init__(self, what, exp=None, obs=None):
        self.what, self.exp, self.obs = what, exp, obs


class Proc:
    """A builder and its compiler as the driver sees them"""

    def __init__(self, base, shims):
        self.ctl = tempfile.mkdtemp(prefix="ctl_", dir=base)
        for n in ("ev", "cmd"):
            os.mkfifo(os.path.join(self.ctl, n))
        self.ev = os.open(os.path.join(self.ctl, "ev"), os.O_RDWR | os.O_NONBLOCK)
        self.cmd = os.open(os.path.join(self.ctl, "cmd"), os.O_RDWR | os.O_NONBLOCK)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setsid()
                os.close(w1)
                os.close(r2)
                os.environ["VF_CTL"] = self.ctl
                os.environ.pop("LD_PRELOAD", None)
                os.environ["PATH"] = shims + ":" + os.environ["PATH"]
                null = os.open(os.environ.get("VERIF_C18_LOG", os.devnull), os.O_RDWR | os.O_APPEND)
                os.dup2(null, 1)
                os.dup2(null, 2)
                Builder(r1, w2, self.ctl, base).serve()
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(3)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = {self.r: b"", self.ev: b""}
        self.queue = []
        self.gcc = None       # a compiler waits for instructions
        self.failed = False   # the compiler of the current build was made to fail
        self.busy = False     # a build is under way
        self.stopped = False  # stopped at a file operation
        self.held, self.d = [], None

    def unarm(self):
        try:
            os.remove(os.path.join(self.ctl, "post"))
        except FileNotFoundError:
            pass

    def send(self, **kw):
        try:
            os.write(self.w, (json.dumps(kw) + "\n").encode())
        except BrokenPipeError:
            pass

    def tell(self, cmd):
        os.write(self.cmd, (cmd + "\n").encode())

    def next(self, timeout=WAIT):
        """The next thing that happens: a dict with s = stopped/built/error/values/failed/gcc/half/whole/broken/dead/quiet"""
        end = time.time() + timeout
        while not self.queue:
            left = end - time.time()
            if left <= 0:
                return {"s": "quiet"}
            ready, _, _ = select.select([self.r, self.ev], [], [], left)
            for fd in ready:
                b = os.read(fd, 65536)
                if not b and fd == self.r:
                    return {"s": "dead"}
                self.buf[fd] += b
                *lines, self.buf[fd] = self.buf[fd].split(b"\n")
                for l in lines:
                    if fd == self.r:
                        self.queue.append(json.loads(l))
                    else:
                        k, *rest = l.decode().split()
                        self.queue.append({"s": "gcc" if k == "start" else k, "pid": int(rest[0]) if rest else None})
        return self.queue.pop(0)

    def close(self):
        for fd in (self.w, self.r, self.ev, self.cmd):
            os.close(fd)


class Driver:
    def __init__(self, base, shims):
        self.base = tempfile.mkdtemp(prefix="run_", dir=base)
        self.shims = shims
        self.dirs = {d: os.path.join(self.base, "dir%d" % d) for d in (1, 2)}
        for d in self.dirs.values():
            os.mkdir(d)
        self.p = {}
        self.n = 0
        self.killed = []
        self.compiles = 0
        self.stops = 0
        self.ops = 0

    # what can be seen of one builder
    def settle(self, p, until, auto=False, label=""):
        """Let builder p go on until one of `until`; with auto its compiler is let through"""
        P = self.p[p]
        end = time.time() + 90
        if P.gcc is not None and "gcc" in until:
            return {"s": "gcc"}
        if P.gcc is not None and auto:
            P.through = True
            P.tell("ok")
            P.gcc = None
        while True:
            ev = P.next(min(WAIT, max(0.1, end - time.time())))
            s = ev["s"]
            if s == "dead":
                os.waitpid(P.pid, 0)
                P.close()
                del self.p[p]
                raise Bad("a builder of equations %s crashed%s" % (P.e, label))
            if s == "quiet":
                if time.time() >= end:
                    raise Bad("a builder of equations %s neither finished nor reported an error%s" % (P.e, label))
                if not auto:
                    return ev
                continue
            if s == "gcc":
                P.gcc = ev["pid"]
                self.compiles += 1
                if not P.armed:
                    self.arm(P, 0)  # no stop that was ordered for the time before the compiler
                if auto or P.through:
                    P.through = True
                    P.tell("ok")
                    P.gcc = None
                    continue
            if s == "broken":
                P.gcc = None
                raise Bad("the compiler could not compile the source of equations %s%s" % (P.e, label))
            if s == "stopped":
                P.stopped = True
                self.stops += 1
                if auto:
                    self.go(P)
                    continue
            if s == "built":
                self.ops = max(self.ops, ev["n"])
            if s in ("built", "error"):
                P.busy, P.stopped, P.gcc = False, False, None
                self.done(P, ev, label)
                return ev
            if s in until:
                return ev
            if s in ("half", "whole"):
                continue

    def go(self, P):
        P.stopped = False
        P.send(c="go")

    def done(self, P, ev, label):
        self.n += 1
        if ev["s"] == "built":
            P.held.append(P.e)
            self.values(P, label)
        elif not P.failed:
            raise Bad("building equations %s failed though the compiler did not%s" % (P.e, label), "built", ev["what"])

    def values(self, P, label=""):
        if not P.held:
            return
        P.send(c="values")
        ev = P.next(60)
        if ev["s"] == "dead":
            raise Bad("a process crashed evaluating the model it had built%s" % label, P.held)
        if ev["s"] != "values":
            raise Bad("a built model could not be evaluated%s" % label, P.held, ev)
        for e, rows in zip(P.held, ev["v"]):
            for pt, exp, row in zip(TABLE["pts"], TABLE["vals"][e - 1], rows):
                self.n += 1
                self.compare(e, pt, exp, row, label)

    def compare(self, e, pt, exp, row, label):
        f, g, r, y = exp["f"], exp["g"], exp["r"], exp["y"]
        where = "of a model with equations %s at %s%s" % (e, pt, label)
        # the forward pass: states_dot, outputs, con_outputs, residuals of two equal stages
        fwd = [[f] * 2, [y, g, r] * 2, [g] * 2, [r] * 2]
        for nm, a, b in zip(("states_dot", "outputs", "con_outputs", "residuals"), fwd, row["fwd"]):
            if sorted(a) != sorted(b):
                raise Bad("%s %s" % (nm, where), a, b)
        # the algebra at states_dot = con_outputs = 0, whatever the sign convention
        for c in row["con"]:
            if not (abs(c[0]) == abs(f) and abs(c[1]) == abs(g) and c[2] == r):
                raise Bad("constraints %s" % where, [f, g, r], c)
        sg = [1 if row["con"][0][i] == v else -1 for i, v in enumerate((f, g, r))]  # none of them is zero but r
        d = (exp["df"], exp["dg"], exp["dr"])
        h = (exp["hf"], exp["hg"], exp["hr"])
        for i in range(3):
            for jac in row["jac"]:
                if not np.allclose(np.array(jac[i]) * sg[i], d[i], rtol=1e-12, atol=0):
                    raise Bad("Jacobian row %d %s" % (i + 1, where), d[i], jac[i])
            got = np.abs(row["hes"][i])
            if not np.allclose(got, np.abs(h[i]), rtol=1e-12, atol=0):
                raise Bad("Hessian of equation %d %s" % (i + 1, where), h[i], row["hes"][i])

    # the operations of the specification
    def step(self, rec):
        op, exp = rec["op"], rec["exp"]
        k = op["k"]
        label = " (at %s)" % json.dumps(op, sort_keys=True)
        if k in ("skip", "init"):
            return
        if k == "clean":
            for f in os.listdir(self.dirs[op["d"]]):
                if ".so" in f:
                    os.remove(os.path.join(self.dirs[op["d"]], f))
            return
        if k == "finish":
            return self.finish()
        p = op["p"]
        P = self.p.get(p)
        if k == "begin":
            if P is None:
                P = self.p[p] = Proc(self.base, self.shims)
            if P.busy:
                self.settle(p, (), auto=True, label=label)
            P.e, P.d, P.busy, P.failed, P.through, P.armed = op["e"], op["d"], True, False, False, False
            P.unarm()
            P.send(c="build", e=op["e"], dir=self.dirs[op["d"]], pre=op["n"])
            return self.advance(p, exp, label)
        if P is None:
            return
        if k == "kill":
            return self.kill(p, op["how"])
        if k == "eval":
            return self.values(P, label)
        if not P.busy:
            return
        if k == "go":
            if P.stopped:
                self.go(P)
            return self.advance(p, exp, label)
        # instructions for the compiler
        if P.gcc is None:
            if P.stopped and k in ("end", "fail"):
                return
            ev = self.settle(p, ("gcc", "stopped"), label=label)
            if P.gcc is None:
                return
        if k in ("half", "whole"):
            P.tell(k)
            self.settle(p, (k,), label=label)
        elif k == "fail":
            P.failed = True
            P.tell(op["how"])
            P.gcc, P.through = None, True
            self.settle(p, (), auto=True, label=label)
        elif k == "end":
            # a builder that waits for its compiler cannot read; it is told before the compiler returns
            if op["n"]:
                self.arm(P, op["n"])
            P.tell("ok")
            P.gcc, P.through = None, True
            self.advance(p, exp, label)

    def arm(self, P, n):
        P.armed = True
        with open(os.path.join(P.ctl, "post.new"), "w") as f:
            f.write(str(n))
        os.rename(os.path.join(P.ctl, "post.new"), os.path.join(P.ctl, "post"))

    def advance(self, p, exp, label):
        P = self.p[p]
        if exp == "built":
            self.settle(p, (), auto=True, label=label)
        elif exp == "stopped":
            self.settle(p, ("stopped", "gcc"), label=label)
        elif exp == "compiler":
            self.settle(p, ("gcc",), label=label)

    def kill(self, p, how):
        P = self.p.pop(p)
        if how == "alone" and P.gcc is not None:
            os.kill(P.pid, signal.SIGKILL)
            os.waitpid(P.pid, 0)
            P.tell("ok")
            end = time.time() + 20
            while time.time() < end and running(P.gcc):
                time.sleep(0.02)
        else:
            os.killpg(P.pid, signal.SIGKILL)
            os.waitpid(P.pid, 0)
        P.close()

    def finish(self):
        # first those that hold a compiler, and everybody to the end (they could be waiting for one another)
        for p in sorted(self.p):
            P = self.p[p]
            if P.busy:
                P.through = True
                if P.gcc is not None:
                    P.tell("ok")
                    P.gcc = None
                if P.stopped:
                    self.go(P)
        for p in sorted(self.p):
            if self.p[p].busy:
                self.settle(p, (), auto=True, label=" (at the end)")
        for p in sorted(self.p):
            self.values(self.p[p], " (at the end)")

    def after(self, todo):
        """Later runs: a new process builds everything again in the same directories"""
        for d in (1, 2):
            es = sorted({e for dd, e in todo if dd == d})
            if es:
                P = self.p["later"] = Proc(self.base, self.shims)
                for e in es:
                    P.e, P.d, P.busy, P.failed, P.through, P.armed = e, d, True, False, True, False
                    P.unarm()
                    P.send(c="build", e=e, dir=self.dirs[d], pre=0)
                    self.settle("later", (), auto=True, label=" (a later run)")
                self.kill("later", "group")

    def close(self):
        for p in list(self.p):
            try:
                self.kill(p, "group")
            except Exception:
                pass
        shutil.rmtree(self.base, ignore_errors=True)


def running(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] != "Z"
    except OSError:
        return False


def work(histories, table):
    """Carry out schedules; in a process of its own, which c18_stop.c was loaded into and builders are forked from"""
    TABLE.update(table)
    import casadi  # noqa: F401
    import lumos.models.base  # noqa: F401
    import logging
    logging.disable(logging.CRITICAL)
    base = os.path.join(os.getcwd(), "c18")
    shims = os.path.join(base, "bin")
    os.makedirs(shims)
    for c in ("gcc", "cc", "clang", "tcc", "c99", "x86_64-linux-gnu-gcc"):
        real = shutil.which(c)
        if real:
            with open(os.path.join(shims, c), "w") as f:
                f.write(SHIM.replace("REAL", real))
            os.chmod(os.path.join(shims, c), 0o755)
    out = []
    for h in histories:
        if any(o["bad"] and "neither" in o["bad"]["what"] for o in out):
            break  # each of these takes long
        D = Driver(base, shims)
        recs = h[0]["hist"] if len(h) == 1 and h[0].get("hist") else [r["last"] for r in h]
        bad = None
        try:
            todo = set()
            for rec in recs:
                if rec["op"]["k"] == "begin":
                    todo.add((rec["op"]["d"], rec["op"]["e"]))
                D.step(rec)
            D.after(todo)
        except Bad as b:
            bad = dict(what=b.what, expected=b.exp, observed=b.obs, schedule=[r["op"] for r in recs])
        finally:
            D.close()
        out.append(dict(n=max(1, D.n), bad=bad, compiles=D.compiles, stops=D.stops, ops=D.ops))
    shutil.rmtree(base, ignore_errors=True)
    return out


def job(args):
    histories, table, lib = args
    d = tempfile.mkdtemp(prefix="c18_", dir=os.environ["VERIF_SCRATCH"])
    with open(os.path.join(d, "in.json"), "w") as f:
        json.dump([histories, table], f)
    env = dict(os.environ, LD_PRELOAD=lib, VERIF_C18_STOP=lib,
               PYTHONPATH=os.pathsep.join(x for x in sys.path if x))
    r = subprocess.run([sys.executable, os.path.abspath(__file__)], cwd=d, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError(r.stdout[-3000:])
    with open(os.path.join(d, "out.json")) as f:
        out = json.load(f)
    shutil.rmtree(d, ignore_errors=True)
    return out


def main(chk):
    import tlc
    # the protocol: the way lumos does it, and three that must fail
    consts = dict(Procs={1, 2, 3}, Eqs={1, 2}, Builds=chk.pick(4, 5))
    chk.tlc("Build", constants=dict(consts, Way="private"), properties=["Stable"],
            invariants=["TypeOK", "OwnEquations", "OnlyOwnFailure", "Visible"], workers=8)
    for way, inv in (("shared", "OwnEquations"), ("direct", "OnlyOwnFailure"), ("byname", "OwnEquations")):
        try:
            tlc.run("Build", constants=dict(consts, Way=way), invariants=[inv], workers=4)
        except tlc.TLCError as e:
            if "%s is violated" % inv not in str(e):
                raise
        else:
            raise RuntimeError("the specification does not tell the way '%s' from a sound one" % way)
    walk = walks.generate(chk, "BuildWalk", dict(Seed=chk.seed, Walks=chk.pick(64, 500), Len0=chk.pick(18, 24), Exhaustive=False),
                          invariants=("TypeOK", "NeedsOne", "Out"), properties=("StaysPut", "HeldStays"))
    points = walks.generate(chk, "BuildWalk", dict(Seed=chk.seed, Walks=1, Len0=6, Exhaustive=True),
                            invariants=("TypeOK", "NeedsOne", "Out"), properties=("StaysPut", "HeldStays"), name="points")
    points = [h for h in points if h[0]["step"] == 6]
    table = walk[0][0]["hist"][0]
    for h in walk:
        for r in h:
            r["hist"] = []
    hs = points + walk
    chk.sample([r["op"] for r in points[len(points) // 2][0]["hist"]])
    chk.sample([r["last"]["op"] for r in walk[0]])
    lib = chk.tmp("stop.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", lib, os.path.join(os.path.dirname(os.path.abspath(__file__)), "c18_stop.c"),
                    "-ldl"], check=True)
    n = chk.pick(8, 64)
    jobs = [(hs[i::n], table, lib) for i in range(n)]
    compiles = stops = ops = 0
    for rs in pmap(job, jobs):
        walks.report(chk, [rs])
        compiles += sum(r["compiles"] for r in rs)
        stops += sum(r["stops"] for r in rs)
        ops = max([ops] + [r["ops"] for r in rs])
    chk.extra["points_schedules"] = len(points)
    chk.extra["random_schedules"] = len(walk)
    chk.extra["compilations"] = compiles
    chk.extra["stops_at_file_operations"] = stops
    chk.extra["file_operations_of_a_build"] = ops
    chk.assumptions += ["file operations are seen where the C library is called for them; kernel and disk caches are not (no power failures)",
                        "files in the directory come from builders only: libraries damaged by others are not considered"]


if __name__ == "__main__":
    with open("in.json") as f_in:
        got = work(*json.load(f_in))
    with open("out.json", "w") as f_out:
        json.dump(got, f_out)
