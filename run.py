#!/opt/venv/bin/python
"""run.py <property id>: run one check.  Exit 0 held, 1 violated, 2 machinery failure."""
import importlib
import os
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    pid = sys.argv[1]
    env = {"JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1",
           "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "JAX_ENABLE_X64": "1", "TF_CPP_MIN_LOG_LEVEL": "3",
           "PYTHONWARNINGS": "ignore"}
    if os.environ.get("VERIF_REEXEC") != "1":
        e = dict(os.environ)
        e.update(env)
        e["VERIF_REEXEC"] = "1"
        os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], e)
    sys.dont_write_bytecode = True
    repo = os.environ.get("LUMOS_REPO", "/repo")
    sys.path[:0] = [repo, os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
    os.environ["PYTHONPATH"] = os.pathsep.join([repo, os.path.join(HERE, "lib"), os.path.join(HERE, "checks")])
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    os.environ["VERIF_SCRATCH"] = scratch
    cwd = os.path.join(scratch, "cwd")
    os.makedirs(cwd)
    os.chdir(cwd)
    rc = 2
    try:
        from checklib import Check
        mod = importlib.import_module(pid.lower())
        chk = Check(pid, getattr(mod, "LEVEL", "model_checking"))
        mod.main(chk)
        rc = chk.finish()
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
