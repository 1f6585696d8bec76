"""Writes the planted bugs of tools/bugs.py to seeded/, after confirming each one in a
scratch copy of /repo: the patch builds, the stable tests pass, the demonstration passes
without it and fails with it, and it changes at least one line of the original repository.

usage: plant.py [ID ...]
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
from bugs import BUGS  # noqa: E402

DEMO_SH = """#!/bin/bash
# Run with cwd /repo: exit 0 if the behaviour is right, 1 otherwise.
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3-vt
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec "$PY" "$(dirname "$0")/demo.py"
"""
PRE = """import warnings

warnings.simplefilter("ignore")
from datetime import datetime

from aeromet_py import Metar, Taf


"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(work):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC",
               FAKETIME="@2022-10-06 12:00:00", NO_FAKE_STAT="1", FAKETIME_DONT_FAKE_MONOTONIC="1",
               LD_PRELOAD="/usr/lib/x86_64-linux-gnu/faketime/libfaketime.so.1")
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:warnings", "--timeout=30", "-x",
            "tests"], cwd=work, env=env)
    return r.returncode == 0, r.stdout[-600:]


def main():
    want = sys.argv[1:]
    good, bad = [], []
    base = sh(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        out = os.path.join(ROOT, "seeded", b["id"])
        work = tempfile.mkdtemp(prefix="plant-")
        try:
            w = os.path.join(work, "repo")
            shutil.copytree(REPO, w, ignore=shutil.ignore_patterns("__pycache__"))
            lines_ok = False
            err = None
            for path, old, new in b["edits"]:
                f = os.path.join(w, path)
                text = open(f, encoding="utf-8").read()
                if text.count(old) != 1:
                    err = f"{path}: {text.count(old)} matches of {old!r}"
                    break
                open(f, "w", encoding="utf-8").write(text.replace(old, new))
            if err:
                bad.append((b["id"], err)); print("BAD", b["id"], err, flush=True); continue
            diff = sh(["git", "-C", w, "diff"]).stdout
            # every removed line must stem from the original repository, at least once
            for path, _, _ in b["edits"]:
                blame = sh(["git", "-C", w, "blame", "-l", "-s", "HEAD", "--", path]).stdout.splitlines()
                d = sh(["git", "-C", w, "diff", "-U0", "--", path]).stdout
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                    a, n = int(m[1]), int(m[2] or 1)
                    for i in range(a, a + n):
                        if blame[i - 1].startswith("^" + base[:39]) or blame[i - 1].startswith(base):
                            lines_ok = True
            if not lines_ok:
                bad.append((b["id"], "changes no original line")); print("BAD", b["id"], "no original line", flush=True); continue
            demo = tempfile.mkdtemp(prefix="demo-", dir=work)
            open(demo + "/demo.py", "w").write(PRE + b["demo"].strip() + "\n")
            open(demo + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(demo + "/demo.sh", 0o755)
            ok, tail = tests(w)
            r0 = sh(["bash", demo + "/demo.sh"], cwd=REPO)
            r1 = sh(["bash", demo + "/demo.sh"], cwd=w)
            why = []
            if not ok:
                why.append("tests fail: " + " ".join(re.findall(r"FAILED (\S+)", tail)))
            if r0.returncode != 0:
                why.append("demo fails on unchanged: " + r0.stderr[-300:])
            if r1.returncode == 0:
                why.append("demo passes with patch")
            if why:
                bad.append((b["id"], why)); print("BAD", b["id"], why, flush=True); continue
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(out + "/patch.diff", "w", encoding="utf-8").write(diff)
            shutil.copy(demo + "/demo.py", out); shutil.copy(demo + "/demo.sh", out)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            good.append(b["id"]); print("ok ", b["id"], "|", r1.stderr.strip().splitlines()[-1][:150] if r1.stderr else "", flush=True)
        finally:
            shutil.rmtree(work)
    print(len(good), "good", len(bad), "bad")


main()
