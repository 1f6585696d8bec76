"""Writes DESIGN.md from tools/design.md, the checks' stages and the planted bugs (with the
checks that tools/catch.py found to catch them, in tools/caught.json)."""
import glob, importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("AEROMET_REPO", "/repo")]
text = open(f"{ROOT}/tools/design.md", encoding="utf-8").read()
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl", encoding="utf-8")]
for p in props:
    mod = importlib.import_module("vt.checks." + p["id"].lower())
    rows = []
    for s in mod.STAGES:
        kind = {"Prop": "random search, shrunk", "Enum": "enumeration", "Custom": "own driver"}[type(s).__name__]
        size = f"{s.quick} quick / {s.thorough} thorough cases" if hasattr(s, "quick") else ""
        if getattr(s, "exhaustive", False):
            size = "exhaustive"
        rows.append(f"  - *{s.name}* ({kind}{', ' + size if size else ''}): {s.rule}.")
    text = text.replace(f"@STAGES {p['id']}@", "- Stages:\n" + "\n".join(rows))
    text = text.replace(f"@TITLE {p['id']}@", f"### {p['id']} {p['title']}")
table = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
try:
    caught = json.load(open(f"{ROOT}/tools/caught.json"))
except OSError:
    caught = {}
for f in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    name = f.split("/")[-2]
    m = json.load(open(f))
    cell = lambda s: s.replace("|", "\\|")
    table.append(f"| {name} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} | {' '.join(caught.get(name, [])) or '–'} |")
text = text.replace("@BUGS@", "\n".join(table))
left = [l for l in text.splitlines() if l.startswith(("@STAGES", "@TITLE", "@BUGS"))]
assert not left, left
missing = [p["id"] for p in props if f"### {p['id']} " not in text]
assert not missing, missing
open(f"{ROOT}/DESIGN.md", "w", encoding="utf-8").write(text)
