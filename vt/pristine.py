"""Readings of reports in processes which have never made another report."""
import json
import multiprocessing
import os
import signal
import subprocess
import sys

from . import sut
from .engine import REPO, VERIF


def outcome(case, truncate=False):
    """Everything that can be read of a report, or the exception that its construction raises."""
    try:
        rep = sut.make(case, truncate)
    except Exception as e:
        return {"raised": type(e).__name__, "message": str(e)}
    try:
        return sut.everything(rep, case["cls"])
    except Exception as e:
        return {"raised in reading": type(e).__name__, "message": str(e)}


class Server:
    """A process that has imported the code and never used it; it forks one process per case."""

    def __init__(self):
        self.conn, theirs = multiprocessing.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                self.conn.close()
                self.serve(theirs)
                code = 0
            finally:
                os._exit(code)
        theirs.close()

    def serve(self, conn):
        while True:
            try:
                case, truncate = conn.recv()
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(100)
                    conn.send(("ok", outcome(case, truncate)))
                except BaseException as e:
                    conn.send(("error", f"{type(e).__name__}: {e}"))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def get(self, case, truncate=False):
        self.conn.send(({k: case[k] for k in ("cls", "text", "year", "month")}, truncate))
        kind, out = self.conn.recv()
        if kind == "error":
            from .engine import fail
            fail(f"reading {case['text']!r} alone: {out}")
        return out


def fresh(cases, hash_seed, env=None):
    """The outcomes of the cases in a new interpreter, and what it printed."""
    e = dict(os.environ, AEROMET_REPO=REPO, PYTHONHASHSEED=str(hash_seed), PYTHONPATH=REPO, **(env or {}))
    p = subprocess.run([sys.executable, "-m", "vt.pristine"], input=json.dumps(cases), cwd=VERIF, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="surrogateescape")
    if p.returncode:
        raise RuntimeError("fresh interpreter: " + p.stderr[-2000:])
    printed, _, out = p.stdout.rpartition("\x1e")
    return json.loads(out), printed


def normal(x):
    return json.loads(json.dumps(x))


if __name__ == "__main__":
    print("\x1e" + json.dumps([outcome(c) for c in json.load(sys.stdin)]))
