"""Runs recorder jobs in forked, non-daemonic child processes with a deadline.

A job that raises, dies or hangs yields an outcome that the trace specification
refuses, so no behaviour of the code under test can end in a silent pass.
"""

import multiprocessing as mp
import os
import signal
import time
import traceback
from multiprocessing.connection import wait


def _child(conn, func, arg, quiet):
    try:
        os.setsid()
    except OSError:
        pass
    if quiet:
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        if not os.environ.get("VF_STDERR"):
            os.dup2(fd, 2)
    import warnings

    warnings.filterwarnings("ignore")
    try:
        res = ("ok", func(arg))
    except BaseException as e:  # noqa
        res = ("exc", f"{type(e).__name__}: {str(e)[:300]}", traceback.format_exc()[-3000:])
    try:
        conn.send(res)
        conn.close()
    finally:
        os._exit(0)


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        os.kill(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.join(5)


def run_jobs(func, args, nproc=8, timeout=150, quiet=True):
    """Returns a list of ("ok", value) | ("exc", short, tb) | ("hang", short, "")."""
    ctx = mp.get_context("fork")
    out = [None] * len(args)
    todo = list(range(len(args)))[::-1]
    active = {}
    while todo or active:
        while todo and len(active) < nproc:
            i = todo.pop()
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(w, func, args[i], quiet))
            p.daemon = False
            p.start()
            p.t0 = time.time()
            w.close()
            active[r] = (i, p, time.time() + timeout)
        ready = wait(list(active), timeout=0.5)
        for r in ready:
            i, p, _ = active.pop(r)
            try:
                out[i] = r.recv()
            except EOFError:
                p.join(5)
                out[i] = ("exc", f"recorder process died, exit code {p.exitcode}", "")
            r.close()
            _kill(p)
            if os.environ.get("VF_DEBUG") and time.time() - p.t0 > float(os.environ["VF_DEBUG"]):
                print(f"  job {repr(args[i])[:150]}: {out[i][0]} {time.time() - p.t0:.1f} s", flush=True)
        now = time.time()
        for r in list(active):
            i, p, dl = active[r]
            if now > dl:
                _kill(p)
                active.pop(r)
                r.close()
                if os.environ.get("VF_DEBUG"):
                    print(f"  job {repr(args[i])[:150]}: hang", flush=True)
                out[i] = ("hang", f"no result within {timeout} s", "")
    return out
