"""Run recorded inputs on the real (un-instrumented) code.

usage: replay.py --batch IN.json OUT.json     (used by run.py)
       replay.py FILE.json                    (one saved counterexample; exit 1 if it violates)
"""
import importlib
import json
import logging
import os
import shutil
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import warnings  # noqa: E402

from sx import concrete  # noqa: E402

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout


def run_one(module, case, tier, values, limit=20):
    mod = importlib.import_module(f"props.{module}")
    fn = dict((c[0], c) for c in mod.cases(tier))[case]
    S = concrete.Conc(values, tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn[1](S, **(fn[2] if len(fn) > 2 else {}))
        res = ("pass", "")
        if S.checks == 0:
            res = ("vacuous", "no assertion reached")
    except concrete.PropertyViolation as e:
        res = ("violation", str(e))
    except concrete.AssumptionFailed:
        res = ("assume", "")
    except concrete.Mismatch as e:
        res = ("mismatch", str(e))
    except Timeout:
        res = ("violation", "did not terminate within the replay limit")
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.name}" for f in tb[::-1])[:300]
        res = ("violation", f"unexpected {type(e).__name__}: {str(e)[:200]} at {where}")
    finally:
        signal.alarm(0)
        S.finish()
    return res, S.log


def main():
    try:
        if sys.argv[1] == "--batch":
            jobs = json.load(open(sys.argv[2], encoding="utf-8"))
            out = []
            for j in jobs:
                (kind, msg), log = run_one(j["module"], j["case"], j["tier"], j["values"])
                out.append([kind, msg, log if kind != "pass" or j.get("log") else []])
            with open(sys.argv[3], "w", encoding="utf-8") as f:
                json.dump(out, f)
            return 0
        j = json.load(open(sys.argv[1], encoding="utf-8"))
        (kind, msg), log = run_one(j["module"], j["case"], j["tier"], j["values"])
        for name, text in log:
            print(f"--- {name}\n{text}")
        print(kind.upper(), msg)
        return 1 if kind == "violation" else 0
    finally:
        if concrete._scratch:
            shutil.rmtree(concrete._scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
