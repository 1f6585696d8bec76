"""Differences between the readings of a scratch copy and those of /repo on a corpus of cases.

corpus.py make OUT.pickle            collects cases from the checks' stages and reads them (/repo)
corpus.py diff OUT.pickle            reads them with AEROMET_REPO; prints {path: [count, example]}
"""
import collections, importlib, json, os, pickle, random, re, signal, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AEROMET_REPO", "/repo")
sys.path[:0] = [ROOT, REPO]
os.environ.setdefault("VERIF_SEED", "1")
from vt import read, sut  # noqa: E402


def look(case):
    import io, contextlib
    out = io.StringIO()
    signal.alarm(20)
    try:
        with contextlib.redirect_stdout(out):
            r = sut.full(case)
            rep = sut.make(case)
            try:
                s = sut.make(case, True)
                r["strict"] = sut.everything(s, case["cls"]) == r
            except Exception as e:
                r["strict"] = [type(e).__name__, str(e)]
            # iteration: nested and again
            for name in ("clouds", "weathers", "weather_trends", "changes_forecasted", "runway_ranges", "windshears"):
                l = getattr(rep, name, None)
                if l is not None:
                    r["it_" + name] = [[a.code for a in l] for _ in l] + [[a.code for a in l], len(l)]
            if len(case["text"]) % 4 == 0:
                r["twice"] = sut.everything(rep, case["cls"]) == sut.everything(rep, case["cls"])
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return {"raised": f"{type(e).__name__}: {e}"}
    finally:
        signal.alarm(0)
    r["printed"] = out.getvalue()
    return r


def make(path):
    from hypothesis import given, settings, seed, HealthCheck, Phase
    from vt import engine
    from vt.checks.common import place_token
    cases = []
    def add(c):
        if isinstance(c, dict) and "token" in c and c.get("context") in __import__("vt.checks.common", fromlist=["x"]).CONTEXTS:
            c = place_token(c["context"], c["token"])
        if isinstance(c, dict) and set(c) >= {"cls", "text"} and isinstance(c["text"], str):
            cases.append({k: c.get(k) for k in ("cls", "text", "year", "month")})
    for i in range(1, 100):
        if not os.path.exists(f"{ROOT}/vt/checks/c{i:02d}.py"):
            continue
        mod = importlib.import_module(f"vt.checks.c{i:02d}")
        for s in mod.STAGES:
            if isinstance(s, engine.Prop):
                got = []
                @seed(7)
                @settings(max_examples=90, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate,))
                @given(s.strategy())
                def f(c):
                    got.append(c)
                f()
                for c in got:
                    add(c)
            elif isinstance(s, engine.Enum):
                got = [c for c in s.cases("quick")]
                random.Random(3).shuffle(got)
                for c in got[:180]:
                    add(c)
    # one report with each value of the tables
    seen = {}
    for c in cases:
        if c["text"]:
            seen[json.dumps(c)] = c
    cases = list(seen.values())
    random.Random(5).shuffle(cases)
    data = [(c, look(c)) for c in cases]
    pickle.dump(data, open(path, "wb"))
    print(len(data), "cases", collections.Counter(c["cls"] for c in cases))


def paths(a, b, at=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                yield f"{at}.{k}"
            elif a[k] != b[k]:
                yield from paths(a[k], b[k], f"{at}.{k}")
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                yield from paths(x, y, at + "[]")
    else:
        yield at


def main():
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError("hang")))
    if sys.argv[1] == "make":
        return make(sys.argv[2])
    out = {}
    n = 0
    for c, want in pickle.load(open(sys.argv[2], "rb")):
        got = look(c)
        if got != want:
            n += 1
            for p in set(paths(want, got)):
                e = out.setdefault(p, [0, c["text"], repr(c["year"]), repr(c["month"])])
                e[0] += 1
                if len(c["text"]) < len(e[1]):
                    e[1:] = [c["text"], repr(c["year"]), repr(c["month"])]
            if n > 60:
                break
    print(json.dumps(out))


main()
