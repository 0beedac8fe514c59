"""Writes properties.jsonl and MANIFEST.json from the table below (committed output)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "castep_outputs/"
PROPS = []
NOT_APPLICABLE = []
CLAIMED = {}


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), claimed=True, na=None,
         note="", state=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[P + f for f in files],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=P + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
    if na:
        NOT_APPLICABLE.append(dict(property=id, reason=na))
    else:
        CLAIMED[id] = note


exec(open(os.path.join(HERE, "tools", "table.py"), encoding="utf-8").read())

BASE = ("Solver verdict over every value within the stated bounds for every path of the real (instrumented) code; "
        "nothing is claimed outside the bounds. Trusts z3, CPython, and the engine's models of str/re/int/float/"
        "dict builtins (validated by replaying path witnesses on the real code on every run). ")


def main():
    have = {f.split("_")[0].upper() for f in os.listdir(os.path.join(HERE, "props"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], list(NOT_APPLICABLE)
    for p in PROPS:
        i = p["id"]
        if i not in CLAIMED:
            continue
        if i not in have:
            na.append(dict(property=i, reason="check not built yet"))
            continue
        checks.append(dict(
            property=i, quick_cmd=f"python3-vt run.py --property {i} --tier quick",
            thorough_cmd=f"python3-vt run.py --property {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="path-exploring symbolic execution of the real source (AST-instrumented) with z3 deciding every "
                      "branch and assertion; counterexamples replayed on the real code",
            level="model_checking", level_note=BASE + CLAIMED[i]))
    man = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
               notes="Engine in sx/, harnesses in props/, entry run.py. No hooks in /repo are needed: the code under "
                     "test is instrumented in memory, from /repo's current source, on every run.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties", len(checks), "checks", len(na), "not applicable")


main()
