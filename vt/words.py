"""Words in capitals and numbers that the code under test mentions.

As the dictionary of a fuzzer: inputs that the code singles out are tried more often. They decide
nothing, all oracles are independent of them.
"""
import ast
import os
import re

from .engine import PACKAGE

WORD = re.compile(r"[A-Z0-9+\-][A-Z0-9/+\-]+")


def harvest():
    words, numbers = set(), set()
    for folder, _, names in sorted(os.walk(PACKAGE)):
        for name in sorted(names):
            path = os.path.join(folder, name)
            if not name.endswith(".py") or os.path.getsize(path) > 200000:  # the database of stations
                continue
            try:
                tree = ast.parse(open(path, encoding="utf-8").read())
            except (OSError, SyntaxError, ValueError):
                continue
            # Long tables, e.g. of countries, are left out.
            long = {id(x) for n in ast.walk(tree) if isinstance(n, ast.Dict) and len(n.keys) > 100 for x in ast.walk(n)}
            for node in ast.walk(tree):
                if id(node) in long:
                    continue
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, str) and len(v) < 400:
                        words.update(w for w in WORD.findall(v) if len(w) <= 12)
                    elif type(v) is int and 0 <= v < 100000:
                        numbers.add(v)
                    elif type(v) is float and v == int(v) and 0 <= v < 100000:
                        numbers.add(int(v))
    return sorted(words), sorted(numbers)


WORDS, NUMBERS = harvest()
WORDS = WORDS or ["XX"]
