"""Functions of the package no check executes symbolically, according to the evidence."""
import ast
import glob
import json
import os
import pathlib
import sys

ROOT = pathlib.Path(os.environ.get("SX_REPO", "/repo"))


def strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield k
            yield from strings(v)
    elif isinstance(x, list):
        for v in x:
            yield from strings(v)


seen = set()
for f in glob.glob(os.path.join(os.path.dirname(__file__), "..", "evidence", "[A-F]0?.json")):
    seen |= set(strings(json.load(open(f, encoding="utf-8"))))
every = set()


def walk(n, mod, scope):
    for c in ast.iter_child_nodes(n):
        named = isinstance(c, (ast.FunctionDef, ast.ClassDef))
        if isinstance(c, ast.FunctionDef):
            every.add(f"{mod}:{'.'.join([*scope, c.name])}")
        walk(c, mod, [*scope, c.name] if named else scope)


for p in (ROOT / "castep_outputs").rglob("*.py"):
    walk(ast.parse(p.read_text()), ".".join(p.relative_to(ROOT).with_suffix("").parts), [])
sys.stdout.write(f"{len(every)} functions\n" + "".join(x + "\n" for x in sorted(every - seen)))
