"""Run replay jobs in forked workers.  The parent never imports lumos or jax."""
import multiprocessing as mp
import os
import sys
import tempfile
import traceback

_FN = None


def _init(fn):
    global _FN
    _FN = fn
    d = tempfile.mkdtemp(prefix="wk_", dir=os.environ["VERIF_SCRATCH"])
    os.chdir(d)


def _call(job):
    try:
        return ("ok", _FN(job))
    except BaseException:
        return ("machinery", traceback.format_exc())


def pmap(fn, jobs, procs=8, chunksize=1):
    """Yield fn(job) for each job (unordered); machinery failures raise."""
    assert "jax" not in sys.modules and "lumos" not in sys.modules
    ctx = mp.get_context("fork")
    jobs = list(jobs)
    with ctx.Pool(min(procs, max(1, len(jobs))), initializer=_init, initargs=(fn,)) as pool:
        for kind, res in pool.imap_unordered(_call, jobs, chunksize):
            if kind != "ok":
                raise RuntimeError("worker failed:\n" + res)
            yield res
