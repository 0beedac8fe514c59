"""Run the check of one property.

  python3-vt run.py --property C01 [--tier quick|thorough] [--case NAME] [-v]

Symbolically executes the harnesses of the property over /repo's current source, asks z3 about
every assertion on every path, replays each counterexample (and one witness per path, up to a
cap) on the real code, and writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
"""
from __future__ import annotations

import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
REPLAY_PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, *sys.argv])

sys.path.insert(0, HERE)
import warnings  # noqa: E402

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
from sx import api, core, instrument  # noqa: E402


def find_module(pid):
    for f in sorted(os.listdir(os.path.join(HERE, "props"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return f[:-3]
    raise SystemExit(f"no harness module for {pid}")


def run_case(args):
    module, idx, tier, seed, budget, cap = args
    mod = importlib.import_module(f"props.{module}")
    case = mod.cases(tier)[idx]
    name, fn = case[0], case[1]
    kw = case[2] if len(case) > 2 else {}
    opts = case[3] if len(case) > 3 else {}
    t0 = time.time()
    ex = core.Explorer(seed=seed * 7919 + idx, deadline=t0 + budget,
                       max_paths=opts.get("max_paths", 200000), op_limit=opts.get("op_limit", 1_500_000))
    S = api.Sym(ex, tier)
    out = dict(case=name, idx=idx, viol=[], wit=[], notes=[], err=None, bound=opts.get("bound", ""))
    seen = {}
    nwit = 0

    def harness():
        S.unstub()
        fn(S, **kw)

    def on_path(kind, info):
        nonlocal nwit
        if kind == "deadline":
            return True
        if kind == "ok":
            nwit += 1
            # reservoir sample of path witnesses
            if len(out["wit"]) < cap:
                slot = len(out["wit"])
                out["wit"].append(None)
            else:
                slot = ex.rng.randrange(nwit)
                if slot >= cap:
                    return False
            v = ex.concrete_inputs()
            if v is not None:
                out["wit"][slot] = v
            return False
        key = (kind, re.sub(r"\d+", "#", str(info))[:160])
        n = seen.get(key, 0)
        seen[key] = n + 1
        if n >= 3:
            return sum(seen.values()) > 200
        v = ex.concrete_inputs(use_model=ex.model if kind == "violated" and ex._violating else None,
                               randomise=kind != "violated")
        out["viol"].append((kind, str(info), v))
        return len(seen) > 12
    try:
        ex.explore(harness, on_path)
    except BaseException as e:  # noqa: BLE001
        out["err"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
    S.unstub()
    if core.PROFILE is not None:
        for k, n in sorted(core.PROFILE.items(), key=lambda x: -x[1])[:15]:
            print(f"  fork {name} {n} {k}", file=sys.stderr)
    out["wit"] = [w for w in out["wit"] if w is not None]
    out["stats"] = ex.stats
    out["functions"] = sorted(ex.functions)
    out["wall"] = time.time() - t0
    out["kinds"] = {f"{k[0]}: {k[1]}": n for k, n in seen.items()}
    return out


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line and line.startswith("{"):
                out.append(json.loads(line))
    return out


def replay_all(jobs, scratch, procs):
    """Run jobs on the real code; returns the list of [kind, msg, log]."""
    if not jobs:
        return []
    chunks = [jobs[i::procs] for i in range(procs)]
    ps = []
    env = dict(os.environ, SX_REPO=REPO)
    for i, c in enumerate(chunks):
        if not c:
            continue
        a, b = os.path.join(scratch, f"in{i}.json"), os.path.join(scratch, f"out{i}.json")
        with open(a, "w", encoding="utf-8") as f:
            json.dump(c, f)
        p = subprocess.Popen([REPLAY_PY, os.path.join(HERE, "replay.py"), "--batch", a, b], env=env,
                             cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        ps.append((i, p, b))
    res = [None] * len(jobs)
    for i, p, b in ps:
        _, err = p.communicate()
        if os.path.exists(b):
            for k, r in enumerate(json.load(open(b, encoding="utf-8"))):
                res[i + k * procs] = r
        else:
            for k in range(len(chunks[i])):
                res[i + k * procs] = ["error", err.decode(errors="replace")[-400:], []]
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--procs", type=int, default=int(os.environ.get("SX_PROCS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    total = 420 if tier == "quick" else 3000
    module = find_module(pid)
    instrument.install(REPO, HERE)
    import sx.models  # noqa: F401
    try:
        mod = importlib.import_module(f"props.{module}")
        cases = mod.cases(tier)
    except Exception as e:  # noqa: BLE001 - the package does not even import
        traceback.print_exc()
        print(f"ERROR property={pid}: cannot load the code under test: {e}")
        return 2
    idxs = [i for i, c in enumerate(cases) if not a.case or re.search(a.case, c[0])]
    cap = 12 if tier == "quick" else 40
    if len(idxs) < 8:
        cap *= 3
    default_budget = 150 if tier == "quick" else 1500
    jobs = [(module, i, tier, seed, (cases[i][3] if len(cases[i]) > 3 else {}).get("budget", default_budget), cap)
            for i in idxs]
    # longest first when a weight is given
    jobs.sort(key=lambda j: -(cases[j[1]][3] if len(cases[j[1]]) > 3 else {}).get("weight", 1))
    results = []
    if a.procs == 1 or len(jobs) == 1:
        for j in jobs:
            results.append(run_case(j))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(a.procs, len(jobs)), maxtasksperchild=8) as pool:
            for r in pool.imap_unordered(run_case, jobs, chunksize=1):
                results.append(r)
                if time.time() - t0 > total:
                    pool.terminate()
                    break
    scratch = tempfile.mkdtemp(prefix="sxrun")
    code = 0
    try:
        rj = []
        for r in results:
            for kind, info, v in r["viol"]:
                if v is not None:
                    rj.append(dict(module=module, case=r["case"], tier=tier, values=v, why=(kind, info), log=1))
            for v in r["wit"]:
                rj.append(dict(module=module, case=r["case"], tier=tier, values=v, why=("witness", "")))
        for k, j in enumerate(rj):
            if j["why"][0] == "witness" and k % 17 == 0:
                j["log"] = 1
        rr = replay_all(rj, scratch, a.procs)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = [k for k in load_known() if k["property"] == pid and k.get("status", "open") == "open"]
    validated = vacuous = 0
    violations, inconclusive, hits = [], [], {}
    for j, r in zip(rj, rr):
        kind, msg, log = r
        if kind == "pass":
            if j["why"][0] == "witness":
                validated += 1
            else:
                inconclusive.append(f"{j['case']}: {j['why'][0]} {j['why'][1]} (the concrete run of this path passes)")
            continue
        if kind == "violation":
            k = next((k for k in known if k["case"] == j["case"] and re.search(k["match"], msg)), None)
            if k is not None:
                hits[k["id"]] = k
                continue
            violations.append((j, msg, log))
            continue
        inconclusive.append(f"{j['case']}: replay {kind} {msg} [{j['why'][0]} {j['why'][1]}]")
    for r in results:
        if r["err"]:
            inconclusive.append(f"{r['case']}: engine error {r['err']}")
        for kind, info, v in r["viol"]:
            if v is None:
                inconclusive.append(f"{r['case']}: {kind} {info} (no model)")
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    for k in hits.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    evdir = os.environ.get("SX_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    seen = set()
    for n, (j, msg, log) in enumerate(violations):
        key = (j["case"], re.sub(r"[\d.]+", "#", msg)[:80])
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 5:
            break
        rp = os.path.join(evdir, f"replay_{pid}_{len(seen)}.json")
        with open(rp, "w", encoding="utf-8") as f:
            json.dump(dict(j, message=msg, input=log), f, indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  case {j['case']}: {msg}")
        code = 1
    fns = sorted({f for r in results for f in r["functions"]})
    for s in inconclusive[:20]:
        print("INCONCLUSIVE:", s[:600])
    samples = []
    for j, r in zip(rj, rr):
        if r[0] == "pass" and r[2]:
            samples.append(dict(case=j["case"], choices_and_values=str(j["values"])[:300],
                                input=[x[1][:1200] for x in r[2]][:1]))
        if len(samples) >= 4:
            break
    if not samples:
        samples = [dict(case=j["case"], choices_and_values=str(j["values"])[:300]) for j in rj[:3]]
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=st.get("paths", 0), transitions=st.get("decisions", 0),
            traces_validated_against_impl=validated, samples=samples,
            infeasible_paths_pruned=st.get("infeasible", 0),
            assertions_reached=st.get("obligations", 0), assertions_proved=st.get("proved", 0),
            proof_queries=st.get("proofs", 0), solver_queries=st.get("queries", 0),
            solver_seconds=round(st.get("solver_s", 0), 3), solver_unknown=st.get("unknown", 0),
            index_concretisations=st.get("concretised", 0),
            inconclusive=len(inconclusive), inconclusive_samples=[s[:300] for s in inconclusive[:5]],
            truncated_cases=st.get("truncated", 0),
            cases=[dict(name=r["case"], paths=r["stats"]["paths"], proofs=r["stats"]["proofs"],
                        queries=r["stats"]["queries"], wall_s=round(r["wall"], 2), bound=r["bound"],
                        complete=r["stats"]["truncated"] == 0 and r["stats"]["unsupported"] == 0
                        and r["stats"]["limit"] == 0 and not r["err"]) for r in sorted(results, key=lambda r: r["idx"])],
            cases_not_run=len(jobs) - len(results),
            functions_encoded=fns,
            bounds=getattr(mod, "BOUNDS", ""),
            outside=getattr(mod, "OUTSIDE", ""),
            exhaustive=False,
            known_findings_seen=sorted(hits),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "z3 and the engine's models of Python builtins are trusted for 'holds'; every reported violation is "
            "replayed on the real code, and one witness per sampled path is run on the real code"],
        wall_s=round(time.time() - t0, 2), violations=len(seen))
    with open(os.path.join(evdir, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: cases={len(results)} paths={st.get('paths', 0)} decisions={st.get('decisions', 0)} "
          f"queries={st.get('queries', 0)} proved={st.get('proved', 0)} solver={st.get('solver_s', 0):.1f}s "
          f"validated={validated} inconclusive={len(inconclusive)} violations={len(seen)} "
          f"known={len(hits)} wall={time.time() - t0:.1f}s")
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"]):
            print(f"   {r['wall']:7.2f}s {r['case']:40s} {r['stats']['paths']} paths {r['stats']['queries']} q "
                  f"trunc={r['stats']['truncated']} {r['kinds'] or ''}")
    if code == 0 and st.get("paths", 0) == 0:
        print("ERROR: no path was explored")
        return 2
    return code


if __name__ == "__main__":
    sys.exit(main())
