"""What pickled reports read in another interpreter.

    python3 -m vt.copies IN OUT      (pickled list of (class, pickle of the report) -> JSON list)
"""
import json
import os
import pickle
import subprocess
import sys
import tempfile

from .engine import REPO, VERIF, fail


def elsewhere(reports, hash_seed, seconds=300):
    """The readings of [(cls, pickle)] in a new interpreter."""
    with tempfile.TemporaryDirectory(prefix="vt-copies-") as folder:
        ins, outs = os.path.join(folder, "in"), os.path.join(folder, "out.json")
        with open(ins, "wb") as f:
            pickle.dump(reports, f)
        env = dict(os.environ, AEROMET_REPO=REPO, PYTHONHASHSEED=str(hash_seed), PYTHONPATH=REPO + os.pathsep + VERIF)
        p = subprocess.run([sys.executable, "-m", "vt.copies", ins, outs], cwd=VERIF, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=seconds)
        if p.returncode:
            raise RuntimeError("interpreter for copies: " + p.stderr.decode("utf-8", "replace")[-2000:])
        with open(outs) as f:
            return json.load(f)


def main(ins, outs):
    with open(ins, "rb") as f:
        reports = pickle.load(f)
    out = []
    for cls, data in reports:
        try:
            rep = pickle.loads(data)
            from . import sut

            out.append(sut.everything(rep, cls))
        except Exception as e:
            out.append({"raised": type(e).__name__, "message": str(e)})
    with open(outs, "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main(*sys.argv[1:])
