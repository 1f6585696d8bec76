"""Outcomes of reports in a new interpreter with given surroundings, and what changed around it.

    python3 -m vt.around JOB.json OUT.json

This module and what it imports must work under every surrounding that it is given.
"""
import json
import os
import subprocess
import sys
import tempfile

from .engine import REPO, VERIF, fail

PLAIN = {"flags": [], "env": {}, "cwd": "", "state": [], "copy": False}


def run(job, seconds=300):
    """job: {"around": surroundings, "cases": [...], "watch": bool} -> {"outcomes", "changes", "printed"}"""
    a = job["around"]
    with tempfile.TemporaryDirectory(prefix="vt-around-") as folder:
        repo = REPO
        if a["copy"]:
            import shutil

            repo = os.path.join(folder, "plac\u00e9 with blanks")
            shutil.copytree(os.path.join(REPO, "aeromet_py"), os.path.join(repo, "aeromet_py"), ignore=shutil.ignore_patterns("__pycache__"))
        cwd = {"": VERIF, "root": "/"}.get(a["cwd"]) or os.path.join(folder, "cwd")
        if not os.path.isdir(cwd):
            os.mkdir(cwd)
        if a["cwd"] == "decoys":
            for name in ("stations.json", "stations.csv", "stations.txt", "config.json", "aeromet.ini", ".env", "setup.cfg", "aeromet_py.json"):
                with open(os.path.join(cwd, name), "w") as f:
                    f.write("{}\n")
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
        env.update(AEROMET_REPO=repo, PYTHONPATH=repo + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        for k, v in a["env"].items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        ins, outs = os.path.join(folder, "in.json"), os.path.join(folder, "out.json")
        with open(ins, "w") as f:
            json.dump(job, f)
        p = subprocess.run([sys.executable, *a["flags"], "-m", "vt.around", ins, outs], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=seconds)
        if p.returncode and os.path.join(repo, "aeromet_py") in p.stderr.decode("utf-8", "replace"):
            fail(f"the package does not work in an interpreter with {a}: " + p.stderr.decode("utf-8", "replace")[-500:])
        if p.returncode:
            raise RuntimeError(f"interpreter with {a}: " + p.stderr.decode("utf-8", "replace")[-2000:])
        with open(outs) as f:
            out = json.load(f)
        out["printed"] = (p.stdout + p.stderr).decode("utf-8", "replace")
        out["left"] = sorted(os.listdir(cwd)) if a["cwd"] == "empty" else []
        return out


# --------------------------------------------------------------------------- in the interpreter

MODULES = ("builtins", "re", "json", "json.encoder", "json.decoder", "datetime", "math", "collections", "decimal", "random", "locale",
           "copy", "string", "itertools", "functools", "typing", "os", "os.path", "time", "calendar", "io", "operator", "abc", "types", "enum")
SYS = ("stdout", "stderr", "stdin", "excepthook", "displayhook", "path", "argv", "path_hooks", "meta_path", "unraisablehook", "ps1", "tracebacklimit",
       "dont_write_bytecode", "breakpointhook", "modules", "builtin_module_names", "platform", "version", "exit")


MORE = {
    "socket": {"default time limit": lambda m: m.getdefaulttimeout()},
    "resource": {"limits": lambda m: [m.getrlimit(getattr(m, n)) for n in sorted(vars(m)) if n.startswith("RLIMIT_")]},
    "gc": {"frozen": lambda m: m.get_freeze_count(), "callbacks": lambda m: len(m.callbacks)},
    "os": {"priority": lambda m: m.getpriority(m.PRIO_PROCESS, 0), "user": lambda m: (m.getuid(), m.geteuid(), m.getgid())},
    "signal": {"timers": lambda m: [m.getitimer(t) for t in (m.ITIMER_REAL, m.ITIMER_VIRTUAL, m.ITIMER_PROF)]},
    "copyreg": {"functions": lambda m: sorted(map(repr, m.dispatch_table))},
    "faulthandler": {"enabled": lambda m: m.is_enabled()},
    "tracemalloc": {"tracing": lambda m: m.is_tracing()},
    "sys": {"encodings": lambda m: [(getattr(f, "encoding", None), getattr(f, "errors", None), getattr(f, "line_buffering", None)) for f in (m.stdin, m.stdout, m.stderr)]},
    "multiprocessing": {"start": lambda m: m.get_start_method(True)},
    "re": {"size of the store": lambda m: getattr(m, "_MAXCACHE", None)},
    "json": {"default encoder": lambda m: (id(m._default_encoder), repr(sorted(vars(m._default_encoder)))) if hasattr(m, "_default_encoder") else None},
}
# Loaded before the package, so that what loading them does is not taken for the package's doing.
BEFORE = ("logging", "dataclasses", "functools", "itertools", "enum", "json", "re", "datetime", "calendar", "copy", "copyreg", "decimal", "fractions", "math", "random",
          "locale", "typing", "typing_extensions", "collections", "abc", "string", "time", "zoneinfo", "contextlib", "bisect", "operator", "socket", "resource", "signal",
          "gc", "faulthandler", "tracemalloc", "threading", "weakref", "warnings", "atexit", "csv", "io", "pathlib", "importlib.resources", "inspect", "textwrap", "numbers",
          "statistics", "types", "unittest.mock", "multiprocessing")


def before():
    import importlib

    for m in BEFORE:
        try:
            importlib.import_module(m)
        except ImportError:
            pass


def set_state(what):
    import decimal
    import random

    if "random" in what:
        random.seed(99)
    if "decimal" in what:
        decimal.getcontext().prec = 2
        decimal.getcontext().rounding = decimal.ROUND_UP
    if "gc" in what:
        import gc

        gc.disable()
    if "warnings" in what:
        import warnings

        warnings.simplefilter("always")
        warnings.showwarning = lambda *a, **k: None
    if "locale" in what:
        import locale

        for name in ("", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8"):
            try:
                locale.setlocale(locale.LC_ALL, name)
            except locale.Error:
                pass
    if "stdout" in what:
        import io

        sys.stdout = io.StringIO()
    if "no stdout" in what:
        sys.stdout = None
    if "weeks" in what:
        import calendar

        calendar.setfirstweekday(6)
    if "argv" in what:
        sys.argv[:] = ["aeromet", "--help", "--truncate", "-v"]
    if "logging" in what:
        import logging

        logging.disable(logging.CRITICAL)


def snapshot():
    """The state of the process that reports have no business with, as {name: comparable}."""
    import atexit
    import decimal
    import gc
    import locale
    import random
    import signal
    import threading
    import time
    import warnings

    s = {
        "environment": dict(os.environ), "working directory": os.getcwd(), "random generator": random.getstate(),
        "locale": locale.setlocale(locale.LC_ALL, None), "decimal context": repr(decimal.getcontext()), "recursion limit": sys.getrecursionlimit(),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "threads": sorted(t.name for t in threading.enumerate()),
        "warning filters": [repr(f) for f in warnings.filters], "switch interval": sys.getswitchinterval(), "time zone": (time.tzname, time.timezone),
        "trace": (sys.gettrace(), sys.getprofile()), "exit handlers": atexit._ncallbacks() if hasattr(atexit, "_ncallbacks") else 0,
        "integer digits": sys.get_int_max_str_digits() if hasattr(sys, "get_int_max_str_digits") else 0,
        "signals": [(n, repr(signal.getsignal(n))) for n in range(1, 32)], "path": list(sys.path), "argv": list(sys.argv),
        "open files": sorted(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else None,
        "first weekday": __import__("calendar").firstweekday(),
    }
    old = os.umask(0)
    os.umask(old)
    s["file mode mask"] = old
    for name in SYS:
        s["sys." + name] = id(getattr(sys, name, None))
    for m in MODULES:
        mod = sys.modules.get(m)
        if mod is not None:
            # Private names: caches and the like, theirs to change.
            s["module " + m] = {k: id(v) if callable(v) else repr(v)[:200] for k, v in vars(mod).items() 
                                if (not k.startswith("_") or k == "__import__") and (callable(v) or isinstance(v, (int, float, str, tuple)))}
            for name, cls in sorted(vars(mod).items()):
                if isinstance(cls, type) and cls.__module__ == m and cls.__flags__ & 512:  # made by a class statement
                    s[f"class {m}.{name}"] = {k: id(v) for k, v in vars(cls).items() if callable(v) and not k.startswith(("_abc", "__abstract"))}
    for m, states in MORE.items():
        mod = sys.modules.get(m)
        if mod is not None:
            for name, state in states.items():
                s[f"{m}: {name}"] = state(mod)
    if "logging" in sys.modules:
        log = sys.modules["logging"]
        s["logging"] = (log.root.level, len(log.root.handlers), log.root.manager.disable)
    return s


READING = ("import", "compile", "exec", "marshal.", "code.", "object.", "sys._getframe", "os.listdir", "os.scandir", "open", "function.", "builtins.id", "array.",
           "cpython.", "mmap.", "gc.", "sys.settrace", "sys.setprofile", "sys.unraisablehook", "glob.", "os.walk", "os.fwalk", "pickle.", "ctypes.addressof", "time.sleep")
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Watch:
    """Notes the actions on the world outside the interpreter."""

    def __init__(self):
        self.on = False
        self.seen = []
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = args
            if not (isinstance(flags, int) and flags & WRITE) and not (isinstance(mode, str) and set(mode) & set("wax+")):
                return
        elif event.startswith(READING):
            return
        self.seen.append(f"{event} {args!r}"[:200])


def compare(a, b):
    out = []
    for k, x in a.items():
        y = b.get(k)
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                names = sorted(str(n) for n in set(x) | set(y) if n not in x or n not in y or x[n] != y[n])
                out.append(f"{k}: {', '.join(names[:5])}")
            else:
                out.append(f"{k}: {str(x)[:80]} to {str(y)[:80]}" if k[:4] != "sys." else k)
    return out


def released(job):
    """Makes, reads and drops reports; what remains of them."""
    import gc
    import weakref

    from . import pristine, sut

    def use(c, keep):
        try:
            r = sut.make(c)
        except Exception:
            return
        sut.everything(r, c["cls"])
        try:
            sut.make(c, True)
        except Exception:
            pass
        if keep is not None:
            for x in (r, r.clouds, r.wind):
                try:
                    keep.append((c, weakref.ref(x)))
                except TypeError:
                    pass

    alive, blocks = [], []
    for part in job["rounds"]:
        keep = []
        for c in part:
            use(c, keep)
        gc.collect()
        alive += [c["text"] for c, w in keep if w() is not None]
        del keep
        gc.collect()
        blocks.append(sys.getallocatedblocks())
    return {"alive": alive[:3], "blocks": blocks}


def main(ins, outs):
    with open(ins) as f:
        job = json.load(f)
    set_state(job["around"]["state"])
    result = {"outcomes": [], "changes": []}
    if "rounds" in job:
        result.update(released(job))
    else:
        watch = Watch() if job.get("watch") else None
        if watch:
            before()
            first = snapshot()
            watch.on = True
            import aeromet_py  # noqa: F401

            watch.on = False
            result["loading"] = compare(first, snapshot()) + watch.seen
            watch.seen.clear()
        from . import pristine

        if not watch:
            result["outcomes"] = [[pristine.outcome(c), pristine.outcome(c, True)] for c in job["cases"]]
        else:
            last = snapshot()
            for c in job["cases"]:
                watch.on = True
                pristine.outcome(c)
                pristine.outcome(c, True)
                watch.on = False
                after = snapshot()
                result["changes"].append(compare(last, after) + watch.seen)
                last = after
                watch.seen.clear()
    with open(outs, "w") as f:
        json.dump(result, f)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
