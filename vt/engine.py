"""Runs the stages of one property's check.

    python3-vt -m vt.engine C08 [--replay FILE]

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check
itself failed.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AEROMET_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT") or VERIF  # where evidence/ and replays/ are written
PACKAGE = os.path.join(os.path.realpath(REPO), "aeromet_py") + os.sep
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
JOBS = int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
SCALE = float(os.environ.get("VERIF_SCALE", "1"))
CASE_SECONDS = 120  # a case takes milliseconds: only an endless loop reaches this


# Raised by a test where the code returns values of another form than the documented ones. Errors of
# the harness's own processes and files are of other types.
UNREADABLE = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)


class Violation(Exception):
    """The property does not hold on a case."""


class Hang(BaseException):
    """A case did not end."""


def fail(message):
    raise Violation(message)


def check_diff(want, got, what=""):
    from .read import diff

    d = diff(want, got)
    if d:
        raise Violation(f"{what + ': ' if what else ''}{d[0]} should be {repr(d[1])[:700]} but is {repr(d[2])[:700]}")


class Ctx:
    """Counters of one worker."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []

    def count(self, case, nontrivial, every=1):
        self.evaluations += every
        if nontrivial:
            key = json.dumps(case, sort_keys=True, default=str)
            h = hashlib.blake2b(key.encode("utf-8", "replace"), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 3:
                    self.samples.append(case)

    def label(self, name, n=1):
        self.labels[name] += n


class Stage:
    """A part of a check: a source of cases and a test of one case.

    test(ctx, case) raises Violation, or returns whether the case was non-trivial.
    """

    def __init__(self, name, test, rule):
        self.name, self.test, self.rule = name, test, rule

    def run_one(self, ctx, case):
        signal.alarm(CASE_SECONDS)
        try:
            nontrivial = self.test(ctx, case)
        except Violation:
            raise
        except Exception as exc:
            if blames_code(exc) or isinstance(exc, UNREADABLE):
                raise Violation(f"raised {type(exc).__name__}: {exc}") from exc
            raise
        finally:
            signal.alarm(0)
        return nontrivial


class Prop(Stage):
    """Random search with hypothesis; failures are shrunk."""

    def __init__(self, name, strategy, test, rule, quick, thorough=None, shards=None):
        super().__init__(name, test, rule)
        self.strategy, self.quick = strategy, quick
        self.thorough = thorough or quick * 25
        self.shards = shards

    def tasks(self, tier):
        n = int((self.quick if tier == "quick" else self.thorough) * SCALE)
        k = self.shards or JOBS
        k = max(1, min(k, n // 40 or 1))
        return [(i, k, max(1, n // k)) for i in range(k)]

    def run(self, ctx, shard, shards, n):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        found = {}

        def body(case):
            try:
                nontrivial = self.run_one(ctx, case)
            except Violation as v:
                found["case"], found["why"] = case, str(v)
                raise
            except Hang:
                found["case"], found["why"] = case, f"no end within {CASE_SECONDS} s"
                raise
            ctx.count(case, nontrivial)

        test = given(self.strategy())(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            print_blob=False,
            report_multiple_bugs=False,
        )(test)
        test = hypothesis.seed(derive(self.name, shard))(test)
        try:
            test()
        except BaseException:
            if not found:
                raise
        return found or None


class Enum(Stage):
    """Enumeration of an explicit list of cases. `cases(tier)` must be deterministic."""

    def __init__(self, name, cases, test, rule, exhaustive=False):
        super().__init__(name, test, rule)
        self.cases, self.exhaustive = cases, exhaustive

    def tasks(self, tier):
        return [(i, JOBS, tier) for i in range(JOBS)]

    def run(self, ctx, shard, shards, tier):
        for i, case in enumerate(self.cases(tier)):
            if i % shards != shard:
                continue
            try:
                nontrivial = self.run_one(ctx, case)
            except Violation as v:
                return {"case": case, "why": str(v)}
            except Hang:
                return {"case": case, "why": f"no end within {CASE_SECONDS} s"}
            ctx.count(case, nontrivial)
        return None


class Custom(Stage):
    """func(ctx, shard, shards, tier) returns None or {"case", "why"}; test replays a case."""

    def __init__(self, name, func, test, rule, shards=None):
        super().__init__(name, test, rule)
        self.func, self.shards = func, shards

    def tasks(self, tier):
        k = self.shards or JOBS
        return [(i, k, tier) for i in range(k)]

    def run(self, ctx, shard, shards, tier):
        return self.func(self, ctx, shard, shards, tier)


def derive(name, shard):
    h = hashlib.blake2b(f"{SEED}/{name}/{shard}".encode(), digest_size=6).digest()
    return int.from_bytes(h, "big")


def blames_code(exc):
    """True if the exception comes out of the code under test or of a reading of it."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        name = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if name.startswith(PACKAGE):
            return True
        last = name
        tb = tb.tb_next
    return last is not None and os.path.basename(last) in ("read.py", "forms.py")


def on_alarm(signum, frame):
    raise Hang()


def worker(stage, task, conn):
    signal.signal(signal.SIGALRM, on_alarm)
    ctx = Ctx()
    try:
        out = stage.run(ctx, *task)
        conn.send(("done", out, ctx.evaluations, ctx.distinct, ctx.labels, ctx.samples))
    except BaseException:
        conn.send(("error", traceback.format_exc(), 0, set(), {}, []))
    finally:
        conn.close()


def run_all(stages, tier):
    mp = multiprocessing.get_context("fork")
    queue = collections.deque((s, t) for s in stages for t in s.tasks(tier))
    running = []
    per = {s.name: Ctx() for s in stages}
    failure = error = None
    while (queue or running) and failure is None and error is None:
        while queue and len(running) < JOBS:
            stage, task = queue.popleft()
            a, b = mp.Pipe(duplex=False)
            p = mp.Process(target=worker, args=(stage, task, b), daemon=False)
            p.start()
            b.close()
            running.append((stage, task, p, a))
        ready = multiprocessing.connection.wait([r[3] for r in running], timeout=5)
        for r in list(running):
            stage, task, p, conn = r
            if conn not in ready:
                continue
            running.remove(r)
            try:
                kind, out, ev, distinct, labels, samples = conn.recv()
            except EOFError:
                error = error or f"worker of stage {stage.name} died"
                continue
            p.join()
            c = per[stage.name]
            c.evaluations += ev
            c.distinct |= distinct
            c.labels.update(labels)
            c.samples += samples
            if kind == "error":
                error = error or f"stage {stage.name}: {out}"
            elif out is not None and failure is None:
                failure = (stage, out)
    for _, _, p, conn in running:
        p.terminate()
    for _, _, p, conn in running:
        p.join()
    return failure, error, per


def load(prop):
    sys.path.insert(0, REPO)
    mod = importlib.import_module("vt.checks." + prop.lower())
    return mod.STAGES


def main(argv):
    prop = argv[0]
    start = time.time()
    try:
        stages = load(prop)
    except Exception:
        traceback.print_exc()
        print(f"{prop}: the check could not be loaded")
        return 2
    if len(argv) > 2 and argv[1] == "--replay":
        with open(argv[2], encoding="utf-8") as f:
            saved = json.load(f)
        stage = {s.name: s for s in stages}[saved["stage"]]
        signal.signal(signal.SIGALRM, on_alarm)
        try:
            stage.run_one(Ctx(), saved["case"])
        except Violation as v:
            print(f"{prop}: {v}")
            print(f"VIOLATION property={prop} replay={argv[2]}")
            return 1
        print(f"{prop}: the case passes")
        return 0
    only = os.environ.get("VERIF_STAGE")
    if only:
        stages = [s for s in stages if only in s.name]
    failure, error, per = run_all(stages, TIER)
    violations = 0
    if failure is not None:
        stage, out = failure
        violations = 1
        data = {"property": prop, "stage": stage.name, "why": out["why"], "case": out["case"]}
        text = json.dumps(data, indent=1, sort_keys=True, default=str)
        folder = os.path.join(OUT, "replays")
        os.makedirs(folder, exist_ok=True)
        digest = hashlib.blake2b(text.encode("utf-8", "replace"), digest_size=5).hexdigest()
        path = os.path.join(folder, f"{prop}-{digest}.json")
        with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
            f.write(text + "\n")
    write_evidence(prop, stages, per, violations, time.time() - start)
    if failure is not None:
        print(f"{prop}: [{failure[0].name}] {failure[1]['why']}")
        print("case: " + json.dumps(failure[1]["case"], default=str, ensure_ascii=True)[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if error is not None:
        print(error)
        return 2
    total = sum(c.evaluations for c in per.values())
    distinct = sum(len(c.distinct) for c in per.values())
    print(f"{prop}: held on {total} cases ({distinct} distinct non-trivial), "
          f"{time.time() - start:.1f} s, seed {SEED}, {TIER}")
    return 0


def write_evidence(prop, stages, per, violations, wall):
    folder = os.path.join(OUT, "evidence")
    os.makedirs(folder, exist_ok=True)
    samples = []
    for s in stages:
        samples += per[s.name].samples[:2]
    coverage = {
        "evaluations": sum(c.evaluations for c in per.values()),
        "distinct_nontrivial": sum(len(c.distinct) for c in per.values()),
        "rule": " || ".join(f"{s.name}: {s.rule}" for s in stages),
        "samples": samples[:12] or ["none: stopped before the first case"],
        "stages": {
            s.name: {
                "evaluations": per[s.name].evaluations,
                "distinct_nontrivial": len(per[s.name].distinct),
                "exhaustive": bool(getattr(s, "exhaustive", False)),
                "labels": dict(sorted(per[s.name].labels.items())),
            }
            for s in stages
        },
    }
    if stages and all(getattr(s, "exhaustive", False) for s in stages):
        coverage["exhaustive"] = True
    data = {
        "property": prop,
        "tier": TIER if TIER in ("quick", "thorough") else "quick",
        "seed": SEED,
        "level": "exploration",
        "coverage": coverage,
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    path = os.path.join(folder, prop + ".json")
    with open(path + ".tmp", "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(data, f, indent=1, default=str)
        f.write("\n")
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    # Run through the importable module, so that the classes are the ones the checks use.
    from vt import engine

    code = engine.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
