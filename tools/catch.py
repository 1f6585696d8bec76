"""Runs checks against the planted bugs in scratch copies of /repo.

usage: catch.py [--all] [ID ...]    (--all: every check for every bug, not only its property's)
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [f"C{i:02d}" for i in range(1, 100) if os.path.exists(f"{ROOT}/vt/checks/c{i:02d}.py")]


def run(bug, checks):
    work = tempfile.mkdtemp(prefix="catch-")
    try:
        shutil.copytree("/repo", work + "/repo", ignore=shutil.ignore_patterns("__pycache__", ".git"))
        subprocess.run(["git", "init", "-q", work + "/repo"], check=True)
        subprocess.run(["git", "apply", f"{ROOT}/seeded/{bug}/patch.diff"], cwd=work + "/repo", check=True)
        out = {}
        for c in checks:
            t = time.time()
            env = dict(os.environ, AEROMET_REPO=work + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
                       VERIF_TIER="quick", VERIF_OUT=work + "/out")
            r = subprocess.run(["bash", ROOT + "/run.sh", c], capture_output=True, text=True, env=env, cwd=ROOT)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out[c] = (r.returncode, v[:1], round(time.time() - t, 1), r.stderr[-300:] if r.returncode not in (0, 1) else "")
        return bug, out
    finally:
        shutil.rmtree(work)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    bugs = args or sorted(os.listdir(ROOT + "/seeded"))
    jobs = []
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for b in bugs:
            prop = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))["property"]
            jobs.append(ex.submit(run, b, CHECKS if "--all" in sys.argv else [prop]))
        for j in cf.as_completed(jobs):
            b, out = j.result()
            own = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))["property"]
            caught = [c for c, o in out.items() if o[0] == 1]
            odd = {c: o for c, o in out.items() if o[0] not in (0, 1)}
            print("CAUGHT" if own in caught else "MISSED", b, "by", " ".join(caught), odd or "",
                  f"{sum(o[2] for o in out.values()):.0f}s", flush=True)
            if "--all" in sys.argv:  # for DESIGN.md
                path = ROOT + "/tools/caught.json"
                known = json.load(open(path)) if os.path.exists(path) else {}
                known[b] = caught
                json.dump(known, open(path, "w"), indent=0, sort_keys=True)


main()
