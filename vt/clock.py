"""Readings of reports in a process whose clock and time zone are set.

The clock is libfaketime's, which needs no knowledge of how the code asks for the time. Where that
library is missing, the clocks of the standard library are replaced in the child.
"""
import calendar
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from .engine import REPO, VERIF

LIBS = ("/usr/lib/x86_64-linux-gnu/faketime/libfaketime.so.1", "/usr/lib/faketime/libfaketime.so.1",
        "/usr/lib64/faketime/libfaketime.so.1", "/usr/local/lib/faketime/libfaketime.so.1")


class Clock:
    def __init__(self):
        self.folder = tempfile.TemporaryDirectory(prefix="vt-clock-")
        self.file = os.path.join(self.folder.name, "now")
        self.child = None
        for lib in LIBS:
            if os.path.exists(lib) and self.start(lib):
                self.mode = "libfaketime"
                return
        self.mode = "replaced clocks"
        if not self.start(None):
            raise RuntimeError("no way to set the clock")

    def start(self, lib):
        self.put(86400 * 365.25 * 40)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("FAKETIME", "LD_PRELOAD"))}
        env.update(AEROMET_REPO=REPO, PYTHONPATH=REPO, VT_CLOCK_FILE=self.file, TZ="UTC")
        if lib:
            env.update(LD_PRELOAD=lib, FAKETIME_TIMESTAMP_FILE=self.file, FAKETIME_NO_CACHE="1", FAKETIME_FMT="%s",
                       NO_FAKE_STAT="1", FAKETIME_DONT_FAKE_MONOTONIC="1", FAKETIME_DONT_RESET="1")
        else:
            env["VT_REPLACE_CLOCKS"] = "1"
        self.child = subprocess.Popen([sys.executable, "-m", "vt.clock"], cwd=VERIF, env=env, text=True,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        probe = 1709164799  # 2024-02-28 23:59:59
        try:
            ok = abs(self.ask(probe, "UTC", [])[0] - probe) < 2
        except Exception:
            ok = False
        if not ok:
            self.close()
        return ok

    def put(self, now):
        with open(self.file + ".tmp", "w") as f:
            f.write(f"{int(now)}\n")
        os.replace(self.file + ".tmp", self.file)

    def ask(self, now, tz, cases):
        self.put(now)
        self.child.stdin.write(json.dumps({"now": now, "tz": tz, "cases": cases}) + "\n")
        self.child.stdin.flush()
        line = self.child.stdout.readline()
        if not line:
            raise RuntimeError("the process with the set clock ended")
        return json.loads(line)

    def readings(self, now, tz, cases):
        seen, out = self.ask(now, tz, cases)
        if abs(seen - now) > 2:
            raise RuntimeError(f"the clock shows {seen}, was set to {now}")
        return out

    def close(self):
        if self.child:
            self.child.kill()
            self.child.wait()


def epoch(y, mo, d, h=0, mi=0, s=0):
    return calendar.timegm((y, mo, d, h, mi, s))


def replace_clocks(file):
    """Without libfaketime: the standard library's clocks read the file."""
    import datetime as d
    import time as t

    def now():
        with open(file) as f:
            return float(f.read())

    real = d.datetime

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

    class Fake(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(now(), tz)

        @classmethod
        def today(cls):
            return real.fromtimestamp(now())

        @classmethod
        def utcnow(cls):
            return real.fromtimestamp(now(), d.timezone.utc).replace(tzinfo=None)

    class Date(d.date):
        @classmethod
        def today(cls):
            return real.fromtimestamp(now()).date()

    g, l = t.gmtime, t.localtime
    t.time = now
    t.gmtime = lambda s=None: g(now() if s is None else s)
    t.localtime = lambda s=None: l(now() if s is None else s)
    d.datetime, d.date = Fake, Date


def serve():
    if os.environ.get("VT_REPLACE_CLOCKS"):
        replace_clocks(os.environ["VT_CLOCK_FILE"])
    out = os.dup(1)
    os.dup2(2, 1)
    from . import sut

    with os.fdopen(out, "w") as channel:
        for line in sys.stdin:
            q = json.loads(line)
            os.environ["TZ"] = q["tz"]
            time.tzset()
            results = []
            for c in q["cases"]:
                try:
                    results.append(["ok", sut.reading(c)])
                except Exception as e:
                    results.append(["raised", f"{type(e).__name__}: {e}"])
            channel.write(json.dumps([time.time(), results]) + "\n")
            channel.flush()
    shutil.rmtree(os.path.dirname(os.environ["VT_CLOCK_FILE"]), ignore_errors=True)


if __name__ == "__main__":
    serve()
