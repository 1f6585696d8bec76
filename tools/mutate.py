"""Mutation sweep: small changes of the code under test that the existing tests let pass, and
which checks notice them. Only a tool for finding blind spots; no check uses it.

usage: mutate.py OUT.jsonl [--only SUBSTRING] [--sample N] [--seed N] [--all]
"""
import argparse, ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
FILES = sorted(
    os.path.relpath(os.path.join(d, f), REPO)
    for d, _, fs in os.walk(REPO + "/aeromet_py") for f in fs
    if f.endswith(".py") and "database" not in d and f != "__main__.py" and not f.startswith("__version")
)
CHECKS = [f"C{i:02d}" for i in range(1, 100) if os.path.exists(f"{ROOT}/vt/checks/c{i:02d}.py")]
ORDER = ["C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C18", "C19", "C20", "C15", "C16", "C17", "C07", "C21", "C29", "C25",
         "C26", "C03", "C02", "C04", "C05", "C23", "C28", "C27", "C24", "C01", "C22"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}


class Source:
    def __init__(self, path):
        self.path = path
        self.text = open(os.path.join(REPO, path), encoding="utf-8").read()
        self.tree = ast.parse(self.text)
        self.starts = [0]
        for l in self.text.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(l))
        self.lines = self.text.splitlines(keepends=True)
        self.out = []

    def pos(self, line, col):
        # col is in UTF-8 bytes
        return self.starts[line - 1] + len(self.lines[line - 1].encode()[:col].decode())

    def span(self, node):
        return self.pos(node.lineno, node.col_offset), self.pos(node.end_lineno, node.end_col_offset)

    def src(self, node):
        a, b = self.span(node)
        return self.text[a:b]

    def put(self, node, new, what):
        a, b = self.span(node)
        if self.text[a:b] != new:
            self.out.append((self.path, a, b, new, what, node.lineno))

    def put_raw(self, a, b, new, what, line):
        if self.text[a:b] != new:
            self.out.append((self.path, a, b, new, what, line))


def regex_variants(lit):
    """Variants of the source text of a string literal that is a regular expression."""
    out = []
    body = lit
    for m in re.finditer(r"\$", body):
        out.append((body[:m.start()] + body[m.end():], "drop $"))
    for m in re.finditer(r"(?<![(\\])\?(?![:P=!<])", body):
        out.append((body[:m.start()] + body[m.end():], "drop ?"))
    for m in re.finditer(r"\)(?![?*+|])(?=[^)]|$)", body):
        pass
    for m in re.finditer(r"\{(\d)(?:,(\d))?\}", body):
        a = int(m[1]); b = m[2]
        out.append((body[:m.start()] + "{%d,%d}" % (a, (int(b) if b else a) + 1) + body[m.end():], "widen {}"))
        if b:
            out.append((body[:m.start()] + "{%s}" % b + body[m.end():], "narrow {}"))
            out.append((body[:m.start()] + "{%s}" % a + body[m.end():], "narrow {}"))
    # alternatives of plain words
    for m in re.finditer(r"(?<=[(|>])([A-Z0-9/]+)\|", body):
        out.append((body[:m.start()] + body[m.end():], "drop alternative " + m[1]))
    for m in re.finditer(r"\|([A-Z0-9/]+)(?=\))", body):
        out.append((body[:m.start()] + body[m.end():], "drop alternative " + m[1]))
    for m in re.finditer(r"\[([^\]\\]+)\]", body):
        inner = m[1]
        r = re.search(r"(\w)-(\w)", inner)
        if r:
            lo, hi = r[1], r[2]
            if lo < hi:
                for n in (inner.replace(r[0], f"{chr(ord(lo)+1)}-{hi}"), inner.replace(r[0], f"{lo}-{chr(ord(hi)-1)}"),
                          inner.replace(r[0], f"{lo}-{chr(ord(hi)+1)}") if hi != "Z" and hi != "9" else inner):
                    out.append((body[:m.start(1)] + n + body[m.end(1):], "class " + n))
        else:
            for i in range(len(inner)):
                if len(inner) > 1:
                    n = inner[:i] + inner[i + 1:]
                    out.append((body[:m.start(1)] + n + body[m.end(1):], "class " + n))
    for m in re.finditer(r"\\d", body):
        out.append((body[:m.start()] + r"\w" + body[m.end():], "\\d to \\w"))
    return out


def mutants(path):
    s = Source(path)
    regexfile = path.endswith("_regexp.py") or path.endswith("parser.py") or path.endswith("split.py")
    doc = set()
    annot = set()
    for n in ast.walk(s.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                annot.update(ast.walk(a))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            annot.update(ast.walk(n))
    parents = {c: n for n in ast.walk(s.tree) for c in ast.iter_child_nodes(n)}
    attrs = {}
    for cls in [n for n in ast.walk(s.tree) if isinstance(n, ast.ClassDef)]:
        names = sorted({n.attr for n in ast.walk(cls) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"
                        and isinstance(n.ctx, ast.Load) and not isinstance(parents.get(n), ast.Call)})
        for n in ast.walk(cls):
            attrs[n] = names
    locs = {}
    for fn in [n for n in ast.walk(s.tree) if isinstance(n, ast.FunctionDef)]:
        names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args})
        for n in ast.walk(fn):
            locs[n] = [x for x in names if x not in ("self", "cls")]
    rnd = random.Random(path)
    for n in ast.walk(s.tree):
        if n in doc or n in annot:
            continue
        p = parents.get(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = n.ops[0]
            a = s.span(n.left)[1]; b = s.span(n.comparators[0])[0]
            mid = s.text[a:b]
            opsrc = {"<=": "<=", "<": "<", ">": ">", ">=": ">=", "==": "==", "!=": "!="}
            new = CMP[type(op)]
            pad = (" " + new + " ") if "(" not in mid and ")" not in mid else None
            if pad:
                s.put_raw(a, b, pad, f"compare {mid.strip()} -> {new}", n.lineno)
        elif isinstance(n, ast.BoolOp):
            old, new = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
            for i in range(len(n.values) - 1):
                a = s.span(n.values[i])[1]; b = s.span(n.values[i + 1])[0]
                mid = s.text[a:b]
                w = old.strip()
                m = re.search(r"\b%s\b" % w, mid)
                if m:
                    s.put_raw(a + m.start(), a + m.end(), new.strip(), f"{w} -> {new.strip()}", n.lineno)
            for v in n.values:
                s.put(v, "True" if isinstance(n.op, ast.And) else "False", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            s.put(n, s.src(n.operand), "drop not")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            a = s.span(n.left)[1]; b = s.span(n.right)[0]
            mid = s.text[a:b]
            sw = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}[type(n.op)]
            if sw[0] in mid:
                s.put_raw(a, b, mid.replace(*sw), f"{sw[0]} -> {sw[1]}", n.lineno)
            s.put(n, s.src(n.left), "left operand only")
            s.put(n, s.src(n.right), "right operand only")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(p, (ast.JoinedStr, ast.FormattedValue)):
                continue
            if isinstance(v, bool):
                s.put(n, str(not v), "flip bool")
            elif isinstance(v, int):
                s.put(n, str(v + 1), "int + 1"); s.put(n, str(v - 1), "int - 1")
            elif isinstance(v, float):
                s.put(n, repr(v * 1.0001), "float * 1.0001"); s.put(n, repr(v * 1.05), "float * 1.05"); s.put(n, repr(v * 0.95), "float * 0.95")
            elif isinstance(v, str):
                lit = s.src(n)
                if regexfile:
                    for new, what in regex_variants(lit):
                        s.put(n, new, "regex " + what)
                else:
                    if isinstance(p, ast.Dict) and n in p.values:
                        s.put(n, repr(v + "x"), "table value")
                        others = [x for x in p.values if isinstance(x, ast.Constant) and x.value != v]
                        if others:
                            s.put(n, repr(rnd.choice(others).value), "table value of another")
                    elif isinstance(p, ast.Dict) and n in p.keys:
                        s.put(n, repr(v + "x"), "table key")
                    elif v:
                        s.put(n, repr(v + "x"), "string + x")
                        s.put(n, '""', "empty string")
                    if ":." in v:
                        s.put(n, lit.replace(":.1f", ":.0f"), "format .0f")
        elif isinstance(n, ast.FormattedValue) and n.format_spec is not None:
            pass
        elif isinstance(n, ast.If):
            s.put(n.test, "True", "if True"); s.put(n.test, "False", "if False")
        elif isinstance(n, ast.IfExp):
            s.put(n, s.src(n.body), "then only"); s.put(n, s.src(n.orelse), "else only")
        elif isinstance(n, ast.While):
            pass
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and not (
                isinstance(p, ast.Call) and p.func is n):
            others = [x for x in attrs.get(n, []) if x != n.attr and x.startswith("_handle") == n.attr.startswith("_handle")]
            for o in rnd.sample(others, min(2, len(others))):
                s.put(n, "self." + o, f"self.{n.attr} -> self.{o}")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in locs.get(n, []) and not (isinstance(p, ast.Call) and p.func is n):
            others = [x for x in locs[n] if x != n.id]
            for o in rnd.sample(others, min(2, len(others))):
                s.put(n, o, f"{n.id} -> {o}")
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "Conversions":
            names = ["FT_TO_M", "SMI_TO_KM", "KM_TO_M", "M_TO_FT", "M_TO_SMI", "M_TO_KM", "INHG_TO_HPA", "HPA_TO_INHG", "MPS_TO_KNOT", "KNOT_TO_MPS"]
            o = rnd.choice([x for x in names if x != n.attr])
            if n.attr.isupper():
                s.put(n, "Conversions." + o, f"{n.attr} -> {o}")
        if isinstance(n, ast.stmt) and isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Break, ast.Continue, ast.Return, ast.Raise)):
            a = n.col_offset
            if isinstance(n, ast.AnnAssign) and n.value is None:
                continue
            s.put(n, "pass", "delete statement")
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                s.put(n, "return None", "return None")
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
                s.put(n, s.src(n).replace("+=", "=", 1), "+= -> =")
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(getattr(n, "ctx", None), ast.Load) and len(n.elts) > 1 and p is not None and not isinstance(p, ast.Subscript):
            for i, e in enumerate(n.elts):
                b = s.span(e)[1]
                m = re.match(r"\s*,", s.text[b:])
                if m:
                    s.put_raw(s.span(e)[0], b + m.end(), "", "drop element", e.lineno)
                if i + 1 < len(n.elts):
                    f = n.elts[i + 1]
                    a1, b1 = s.span(e); a2, b2 = s.span(f)
                    s.put_raw(a1, b2, s.text[a2:b2] + s.text[b1:a2] + s.text[a1:b1], "swap elements", e.lineno)
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == "handlers":
            pass
    seen, out = set(), []
    for m in s.out:
        new = s.text[:m[1]] + m[3] + s.text[m[2]:]
        if new in seen or new == s.text:
            continue
        seen.add(new)
        try:
            t = ast.parse(new)
        except SyntaxError:
            continue
        if ast.dump(t) == ast.dump(s.tree):
            continue
        out.append({"file": path, "line": m[5], "what": m[4], "old": s.text[m[1]:m[2]], "new": m[3], "a": m[1], "b": m[2]})
    return out


local = threading.local()
copies = []


def copy():
    if not hasattr(local, "dir"):
        local.dir = tempfile.mkdtemp(prefix="mut-")
        copies.append(local.dir)
        shutil.copytree(REPO, local.dir + "/repo", ignore=shutil.ignore_patterns("__pycache__", ".git"))
    return local.dir


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", FAKETIME="@2022-10-06 12:00:00", NO_FAKE_STAT="1",
           FAKETIME_DONT_FAKE_MONOTONIC="1", LD_PRELOAD="/usr/lib/x86_64-linux-gnu/faketime/libfaketime.so.1")


def one(m, args):
    d = copy()
    f = os.path.join(d, "repo", m["file"])
    orig = open(os.path.join(REPO, m["file"]), encoding="utf-8").read()
    try:
        open(f, "w", encoding="utf-8").write(orig[:m["a"]] + m["new"] + orig[m["b"]:])
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:warnings", "-p", "no:hypothesispytest", "--timeout=20", "-x", "tests"],
                               cwd=d + "/repo", env=ENV, capture_output=True, timeout=100)
            if r.returncode != 0:
                return dict(m, status="killed by tests")
        except subprocess.TimeoutExpired:
            return dict(m, status="killed by tests")
        caught, odd = [], []
        for c in ORDER + [x for x in CHECKS if x not in ORDER]:
            env = dict(os.environ, AEROMET_REPO=d + "/repo", VERIF_SEED=str(args.seed), VERIF_TIER="quick", VERIF_OUT=d + "/out",
                       VERIF_JOBS="1", VERIF_SCALE=str(args.scale))
            try:
                r = subprocess.run(["bash", ROOT + "/run.sh", c], capture_output=True, text=True, env=env, cwd=ROOT, timeout=800)
            except subprocess.TimeoutExpired:
                odd.append((c, "timeout")); continue
            if r.returncode == 1:
                caught.append(c)
                if not args.all:
                    break
            elif r.returncode != 0:
                odd.append((c, r.returncode, (r.stdout + r.stderr)[-400:]))
        return dict(m, status="caught" if caught else "SURVIVED", by=caught, odd=odd)
    finally:
        open(f, "w", encoding="utf-8").write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--only", default=""); ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--all", action="store_true"); ap.add_argument("--scale", default="0.25")
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--list", action="store_true")
    ap.add_argument("--what", default="")
    args = ap.parse_args()
    ms = [m for f in FILES if args.only in f for m in mutants(f) if args.what in m["what"]]
    done = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            j = json.loads(l); done.add((j["file"], j["a"], j["b"], j["new"]))
    ms = [m for m in ms if (m["file"], m["a"], m["b"], m["new"]) not in done]
    random.Random(args.seed).shuffle(ms)
    if args.sample:
        ms = ms[:args.sample]
    print(len(ms), "mutants", flush=True)
    if args.list:
        import collections
        print(collections.Counter(m["what"].split()[0] for m in ms)); return
    n = {}
    with cf.ThreadPoolExecutor(args.jobs) as ex, open(args.out, "a") as o:
        for j in cf.as_completed([ex.submit(one, m, args) for m in ms]):
            r = j.result()
            n[r["status"]] = n.get(r["status"], 0) + 1
            o.write(json.dumps(r) + "\n"); o.flush()
            if r["status"] == "SURVIVED" or r.get("odd"):
                print(r["status"], r["file"], r["line"], r["what"], "|", r["old"][:60].replace("\n", "~"), "=>", r["new"][:60].replace("\n", "~"), r.get("odd") or "", flush=True)
    print(n)
    for d in copies:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
