"""Mutation sweep in three steps: the existing tests; the readings on a corpus (corpus.py); the
checks of the properties whose readings differ. Shows blind spots; no check uses it.

usage: sweep.py OUT.jsonl CORPUS.pickle [--only SUBSTRING] [--jobs N] [--sample N]
"""
import argparse, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile, threading
sys.argv, argv = sys.argv[:1], sys.argv
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M

FAKE = {k: M.ENV[k] for k in ("FAKETIME", "NO_FAKE_STAT", "FAKETIME_DONT_FAKE_MONOTONIC", "LD_PRELOAD")}
local = threading.local()
RULES = [  # substring of a path -> checks, the first that matches
    ("trend_indicator", ["C18"]), ("change_indicator", ["C20"]), ("raised", ["C01"]), ("strict", ["C02"]), ("printed", ["C22"]), ("twice", ["C22"]), (".it_", ["C23"]),
    (".forms", None),
    (".unparsed_groups", ["C25", "C26", "C24", "C06", "C03"]),
    (".sections", ["C04"]), (".body", ["C04"]), (".remark", ["C04"]), (".trend", ["C04"]), (".raw_code", ["C05", "C04"]),
    ("should_be_cavok", ["C17"]), ("flight_rules", ["C16"]), (".ceiling", ["C11"]),
    ("trend_indicator", ["C18"]), ("change_indicator", ["C20"]),
    ("wind_variation", ["C08"]), (".windshears", ["C13"]), (".wind", ["C08"]), ("visibility", ["C09"]), ("recent_weather", ["C10"]), (".weathers", ["C10"]),
    (".clouds", ["C11"]), (".temperatures", ["C12"]), (".pressure", ["C12"]), (".runway_ranges", ["C13"]), (".sea_state", ["C14"]),
    (".runway_state", ["C14"]), ("max_temp", ["C19"]), ("min_temp", ["C19"]), (".valid", ["C19"]), (".missing", ["C19"]), (".cancelled", ["C19"]),
    ("type_", ["C07"]), ("station", ["C07"]), (".time", ["C07"]), ("modifier", ["C07"]),
    ("weather_trends", ["C04", "C18"]), ("changes_forecasted", ["C04", "C20"]),
]


def checks_of(diffs):
    out = {}
    if any("raised" in p for p in diffs):
        diffs = {p: v for p, v in diffs.items() if "raised" in p}
    for p, (n, *ex) in diffs.items():
        if ".forms" in p:
            cs = ["C29"] if ".str" in p else ["C21"]
        else:
            cs = next((c for k, c in RULES if k in p), ["?"])
        for c in cs:
            out.setdefault(c, []).append((p, n, ex[0]))
    # The forms follow the attributes: a changed attribute changes them rightly.
    if any(".reading" in p for p in diffs):
        out.pop("C21", None); out.pop("C29", None)
    return out


def run_check(c, d, scale, jobs="1"):
    env = dict(os.environ, AEROMET_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_OUT=d + "/out", VERIF_JOBS=jobs, VERIF_SCALE=scale)
    try:
        r = subprocess.run(["bash", M.ROOT + "/run.sh", c], capture_output=True, text=True, env=env, cwd=M.ROOT, timeout=1500)
        return r.returncode, (r.stdout + r.stderr)[-500:]
    except subprocess.TimeoutExpired:
        return "timeout", ""


def one(m, args):
    d = M.copy()
    f = os.path.join(d, "repo", m["file"])
    orig = open(os.path.join(M.REPO, m["file"]), encoding="utf-8").read()
    try:
        open(f, "w", encoding="utf-8").write(orig[:m["a"]] + m["new"] + orig[m["b"]:])
        try:
            r = subprocess.run([M.PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:warnings", "-p", "no:hypothesispytest", "--timeout=20", "-x", "tests"],
                               cwd=d + "/repo", env=M.ENV, capture_output=True, timeout=100)
            if r.returncode != 0:
                return dict(m, status="killed by tests")
        except subprocess.TimeoutExpired:
            return dict(m, status="killed by tests")
        r = subprocess.run(["python3-vt", M.ROOT + "/tools/corpus.py", "diff", args.corpus], env=dict(os.environ, AEROMET_REPO=d + "/repo", PYTHONDONTWRITEBYTECODE="1", **FAKE),
                           capture_output=True, text=True)
        try:
            diffs = json.loads(r.stdout.splitlines()[-1])
        except Exception:
            return dict(m, status="caught", by=["import"], note=r.stderr[-300:])
        if not diffs:
            return dict(m, status="NO DIFFERENCE")
        wanted = checks_of(diffs)
        got = {c: run_check(c, d, "1") for c in sorted(wanted) if c != "?"}
        caught = [c for c, g in got.items() if g[0] == 1]
        missed = [c for c, g in got.items() if g[0] == 0]
        odd = {c: g for c, g in got.items() if g[0] not in (0, 1)}
        status = "caught" if caught and not missed else "MISSED SOME" if caught else "MISSED"
        return dict(m, status=status, by=caught, missed={c: wanted[c][:4] for c in missed}, odd=odd, unmapped=wanted.get("?", [])[:3])
    finally:
        open(f, "w", encoding="utf-8").write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("corpus"); ap.add_argument("--only", default=""); ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--what", default=""); ap.add_argument("--shuffle", type=int, default=1)
    args = ap.parse_args(argv[1:])
    ms = [m for f in M.FILES if args.only in f for m in M.mutants(f) if args.what in m["what"]]
    done = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            j = json.loads(l); done.add((j["file"], j["a"], j["b"], j["new"]))
    ms = [m for m in ms if (m["file"], m["a"], m["b"], m["new"]) not in done]
    random.Random(args.shuffle).shuffle(ms)
    ms = ms[:args.sample] if args.sample else ms
    print(len(ms), "mutants", flush=True)
    n = {}
    with cf.ThreadPoolExecutor(args.jobs) as ex, open(args.out, "a") as o:
        for j in cf.as_completed([ex.submit(one, m, args) for m in ms]):
            r = j.result()
            n[r["status"]] = n.get(r["status"], 0) + 1
            o.write(json.dumps(r) + "\n"); o.flush()
            if r["status"] not in ("killed by tests", "caught") or r.get("odd") or r.get("unmapped"):
                print(r["status"], r["file"], r["line"], r["what"], "|", r["old"][:60].replace("\n", "~"), "=>", r["new"][:60].replace("\n", "~"), r.get("by", ""), r.get("missed", ""), r.get("odd") or "", r.get("unmapped") or "", flush=True)
    print(n)
    for d in M.copies:
        shutil.rmtree(d)


main()
