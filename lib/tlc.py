"""Running TLC and reading what it reports."""
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """The machinery failed (spec error, TLC crash), never a verdict on the code."""


def fmt(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(fmt(x) for x in sorted(v, key=str)) + "}"
    raise TypeError(v)


def run(module, constants=None, invariants=(), properties=(), constraint=None, spec="Spec",
        init=None, simulate=None, depth=None, seed=None, workers=4, env=None, timeout=800,
        deadlock=False, view=None, postcondition=None, action_constraint=None, heap="6g",
        coverage=False):
    """Run TLC on spec/<module>.tla; returns dict(generated, distinct, depth, out).

    constants: name -> python value, or name -> ("subst", "Name") for a substitution.
    """
    d = tempfile.mkdtemp(prefix="tlc_", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        lines = []
        if init:
            lines += ["INIT %s" % init[0], "NEXT %s" % init[1]]
        else:
            lines.append("SPECIFICATION %s" % spec)
        for k, v in (constants or {}).items():
            if isinstance(v, tuple) and v and v[0] == "subst":
                lines.append("CONSTANT %s <- %s" % (k, v[1]))
            else:
                lines.append("CONSTANT %s = %s" % (k, fmt(v)))
        for i in invariants:
            lines.append("INVARIANT %s" % i)
        for p in properties:
            lines.append("PROPERTY %s" % p)
        if constraint:
            lines.append("CONSTRAINT %s" % constraint)
        if action_constraint:
            lines.append("ACTION_CONSTRAINT %s" % action_constraint)
        if view:
            lines.append("VIEW %s" % view)
        if postcondition:
            lines.append("POSTCONDITION %s" % postcondition)
        lines.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write("\n".join(lines) + "\n")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
               "-config", module + ".cfg", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m2 = re.findall(r"The number of states generated: (\d+)", out)
            if m2:
                gen = dist = int(m2[-1])
        dep = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        bad = p.returncode != 0 or "Error:" in out
        if bad:
            raise TLCError("TLC failed on %s (rc %d)\n%s" % (module, p.returncode, out[-6000:]))
        return {"generated": gen, "distinct": dist, "depth": int(dep[-1]) if dep else 0, "out": out}
    finally:
        shutil.rmtree(d, ignore_errors=True)
