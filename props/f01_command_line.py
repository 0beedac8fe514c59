"""F01: the command line parses exactly the files asked for."""
import io
import json
import sys

from castep_outputs.cli.args import ALL_NAMES, extract_parsables, parse_args
from castep_outputs.cli.castep_outputs_main import main

BOUNDS = ("seeds in the working directory, below it and above, with dots and wildcard characters in their names; for every seed the files of all 23 "
          "types, the presence of any six of them symbolic at a time and the others all there or all missing; one or two seeds, given once or "
          "twice, twelve seeds or error files (thorough forty), a call after another; up to two include options in every pair of types, include-all, types asked for by the caller; explicit files of up to two types; "
          "files named in full, alone or beside a seed, with include options; up to three numbered error files with symbolic presence, and files of seeds that begin or end like this one; "
          "whole runs of the program with every option, output to the screen and to a file")
OUTSIDE = "options after the seeds, which count as seeds; links and unreadable files; seeds that extend another seed by a dot"
ASSUMPTIONS = ["the file system is a stand-in that holds the files named, each with a symbolic presence; argparse runs as it is"]

SEEDS = ["run", "sub/run", "a/b/run", "Si_1.5", "sub.d/run", "./run", "x[1]", "sub/a*b", "up/../run"]


def call(argv, to_parse=()):
    old = sys.argv
    sys.argv = ["castep_outputs", *argv]
    try:
        return extract_parsables(parse_args(to_parse))
    finally:
        sys.argv = old


def norm(p):
    parts = []
    for x in str(p).split("/"):
        if x == "..":
            parts.pop()
        elif x not in ("", "."):
            parts.append(x)
    return "/".join(parts)


def judge(S, got, want, msg, times=1):
    """Each file wanted once (or as often as it was asked for), and no other."""
    S.eq(sorted(got), sorted(ALL_NAMES), f"{msg}: types")
    for typ in ALL_NAMES:
        g = sorted([norm(x) for x in got[typ]])
        w = sorted([norm(x) for x in want.get(typ, [])])
        if times == 1:
            S.check(g == w, f"{msg}: {typ} files {g}, expected {w}")
        else:
            S.check(sorted(set(g)) == sorted(set(w)) and len(g) <= times * len(w), f"{msg}: {typ} files {g}, expected {w}")


def some(S, k):
    """Six types (those from the k-th on) with symbolic presence; the others all there or all missing."""
    sym = [ALL_NAMES[(k + i) % len(ALL_NAMES)] for i in range(6)]
    rest = S.choice(False, True)
    return {t: S.bool() if t in sym else rest for t in ALL_NAMES}


def decoys(seed):
    d, _, n = norm(seed).rpartition("/")
    d = d + "/" if d else ""
    return {d + n + "2.castep": "", d + "x" + n + ".castep": "", d + n + "-out.cell": "", d + n + ".check": "", d + n: "",
            d + n + "2.0001.err": "", "elsewhere/" + n + ".castep": "", "elsewhere/" + n + ".0001.err": ""}


def types(S, k):
    seed = S.choice(*SEEDS)
    there = some(S, k)
    S.fs({"up/x": "", **decoys(seed), **{norm(seed) + "." + t: ("", e) for t, e in there.items()}})
    got = call([seed])
    judge(S, got, {t: [seed + "." + t] for t in ALL_NAMES if there[t]}, "every type of a seed")


def include(S, k):
    """One or two types asked for."""
    a = ALL_NAMES[k]
    b = S.choice(*ALL_NAMES)
    how = S.choice("options", "caller", "both", "all")
    there = {a: S.bool(), b: S.bool()}
    S.fs({"run." + t: ("", there.get(t, True)) for t in ALL_NAMES} | {"run.0001.err": ""})
    argv, tp = {"options": (["--inc-" + a, "--inc-" + b], ()), "caller": ([], (a, b)), "both": (["--inc-" + a], (b,)),
                "all": (["-A", "--inc-" + a], ())}[how]
    got = call([*argv, "run"], tp)
    names = ALL_NAMES if how == "all" else (a, b)
    want = {t: ["run." + t] for t in names if there.get(t, True)}
    if "err" in names:
        want["err"] = [*want.get("err", []), "run.0001.err"]
    judge(S, got, want, f"{a} and {b} included by {how}")


def errors(S):
    seed = S.choice(*SEEDS)
    n = norm(seed)
    there = {x: S.bool() for x in ("err", "0001.err", "0002.err", "10017.err")}
    argv, any_ = S.choice(([], True), (["--inc-err"], True), (["--inc-castep"], False), (["--inc-castep", "--inc-err"], True))
    S.fs({"up/x": "", **decoys(seed), **{n + "." + x: ("", e) for x, e in there.items()}})
    got = call([*argv, seed])
    judge(S, got, {"err": [seed + "." + x for x, e in there.items() if e] if any_ else []}, "error files")


def several(S):
    a, b = S.choice(("run", "sub/run"), ("run", "other"), ("sub/a", "sub/b"), ("run", "run"))
    names = ("castep", "phonon_dos", "err")
    there = {(s, t): S.bool() for s in dict.fromkeys((a, b)) for t in names}
    S.fs({f"{s}.{t}": ("", e) for (s, t), e in there.items()})
    got = call([a, b])
    want = {t: [f"{s}.{t}" for s in dict.fromkeys((a, b)) if there[s, t]] for t in names}
    judge(S, got, want, "two seeds", 2 if a == b else 1)


def many(S):
    """Twelve seeds, or twelve error files of one (thorough: forty)."""
    n = 40 if S.thorough else 12
    there = [S.bool() if k in (0, 5, n - 1) else True for k in range(n)]
    if S.flag():
        S.fs({f"run{k}.castep": ("", e) for k, e in enumerate(there)})
        got = call([f"run{k}" for k in range(n)])
        judge(S, got, {"castep": [f"run{k}.castep" for k, e in enumerate(there) if e]}, "many seeds")
    else:
        S.fs({f"run.{k + 1:04}.err": ("", e) for k, e in enumerate(there)})
        got = call(["run"])
        judge(S, got, {"err": [f"run.{k + 1:04}.err" for k, e in enumerate(there) if e]}, "many error files")


def again(S):
    """What one call is asked for does not carry over to the next."""
    here, there, err = S.bool(), S.bool(), S.bool()
    S.fs({"one.castep": ("", here), "two.castep": ("", there), "two.bands": "", "two.0001.err": ("", err), "x.y": ""})
    first = S.choice(["one"], ["--inc-castep", "one"], ["-A", "one", "two"], ["--cell", "x.y", "--", "one"], ["two.bands"])
    call(first)
    inc = S.choice((), ("castep",), ("err",))
    got = call([*[f"--inc-{i}" for i in inc], "two"])
    want = {"castep": ["two.castep"] if there else [], "bands": ["two.bands"], "err": ["two.0001.err"] if err else []}
    judge(S, got, {k: v for k, v in want.items() if not inc or k in inc}, "a second call")


def named(S):
    """A file named in full is that file and no other; with no such file the name is a seed."""
    t, u = S.choice(*ALL_NAMES), S.choice("castep", "cell")
    d = S.choice("", "sub/")
    here, other, longer = S.bool(), S.bool(), S.bool()
    S.fs({f"{d}run.{t}": ("", here), **({f"{d}run.{u}": ("", other)} if u != t else {}), f"{d}run.{t}.bands": ("", longer)})
    inc = S.choice((), ("castep",), ("bands",), ("err", "md"), ("*",))
    got = call([*(["-A"] if inc == ("*",) else [f"--inc-{i}" for i in inc]), f"{d}run.{t}"])
    bands = inc in ((), ("*",)) or "bands" in inc
    judge(S, got, {t: [f"{d}run.{t}"]} if here else {"bands": [f"{d}run.{t}.bands"] if longer and bands else []}, "a file named in full")


def mixed(S):
    """A file named in full beside a seed, with options: the file whatever the options, the seed's files by the options."""
    t = S.choice(*ALL_NAMES)
    inc = S.choice((), ("castep",), ("bands", "err"))
    here, a, b = S.bool(), S.bool(), S.bool()
    S.fs({f"one.{t}": ("", here), "two.castep": ("", a), "two.bands": ("", b)})
    got = call([*[f"--inc-{i}" for i in inc], *S.choice((f"one.{t}", "two"), ("two", f"one.{t}"))])
    want = {"castep": ["two.castep"] if a and (not inc or "castep" in inc) else [], "bands": ["two.bands"] if b and (not inc or "bands" in inc) else []}
    if here:
        want[t] = [*want.get(t, []), f"one.{t}"]
    judge(S, got, want, "a file and a seed")


def explicit(S):
    """Files given by type are parsed as that type whatever they are called, there or not."""
    a, b = S.choice(*ALL_NAMES), S.choice("castep", "cell", "err", "epme_bin")
    files = S.choice(["odd"], ["sub/odd.param", "odd.castep"], ["x.y.z", "third.md", "other"])
    there, sd = S.bool(), S.bool()
    S.fs({**{f: ("", there) for f in files}, "run.castep": ("", sd), "sub/x": ""})
    first = S.choice(True, False)
    inc = S.choice(True, False)
    opts = [f"--{a}", *files] if first else [f"--{b}", "second", f"--{a}", *files]
    got = call([*opts, *(["--inc-castep"] if inc else ["-L", "INFO"]), "run"])
    want = {a: list(files)}
    if not first:
        want[b] = [*want.get(b, []), "second"] if a != b else want[a]
    if sd:
        want["castep"] = [*want.get("castep", []), "run.castep"]
    judge(S, got, want, "explicit files")
    S.eq([x for x in got[a] if x in files], files, "explicit files in the order given")


HUG = "# Compression Temperature(K) Pressure(GPa) Energy(eV)\n  0.1000000000E+001  0.2990000000E+003  -0.150E+001  0.25E+002\n"
ERR = "Error in routine\nCurrent trace stack:\n one\n two\n"


def program(S):
    """A whole run of the program: the results of the files there are, each under its name, in the form asked for."""
    hug, err, two = S.bool(), S.bool(), S.bool()
    S.fs({"run.hug": (HUG, hug), "run.0001.err": (ERR, err), (second := S.choice("two", "d/run")) + ".hug": (HUG, two), "d/x": ""})
    form = S.choice("json", "print", "pprint")
    where = S.choice(None, "out.txt", "d/out.txt")
    log = S.choice(None, "ERROR", "DEBUG")
    argv = [*(["-f", form] if form != "json" or S.choice(True, False) else []), *([] if where is None else [S.choice("-o", "--output"), where]),
            *([] if log is None else ["-L", log]), "run", second]
    old, sys.argv, out, sys.stdout = sys.argv, ["castep_outputs", *argv], sys.stdout, io.StringIO()
    try:
        main()
    finally:
        text = sys.stdout.getvalue()
        sys.argv, sys.stdout = old, out
    if where is not None:
        S.check(text == "", "nothing on the screen")
        text = S.written(where)
    h = {"compression": [1.0], "temperature": [299.0], "pressure": [-1.5], "energy": [25.0]}
    e = {"message": "Error in routine", "stack": ["one", "two"]}
    want = {n: v for n, v, there in (("run.hug", h, hug), (second + ".hug", h, two), ("run.0001.err", e, err)) if there}
    if form == "json":
        got = json.loads(text)
    else:
        got = eval(text.replace("<class 'list'>", "list"), {"defaultdict": lambda *a: dict(a[-1]) if len(a) > 1 else {}, "list": list, "__builtins__": {}})  # noqa: S307
    if len(want) == 1:
        S.check(plain(got) == plain(next(iter(want.values()))), f"the result of the only file: {text}")
    else:
        S.check(plain(got) == plain(want), f"the results by file: {text}")


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return [plain(v) for v in x] if isinstance(x, (list, tuple)) else x


def refused(S):
    """An unknown option or format, and an explicit file that is missing, are errors."""
    case = S.choice("format", "option", "missing", "log")
    there = S.bool()
    S.fs({"run.hug": (HUG, there)})
    argv, exc = {"format": (["-f", "toml", "run"], SystemExit), "option": (["--no-such-thing", "x"], SystemExit),
                 "missing": (["--hug", "none.hug"], FileNotFoundError), "log": (["-L", "LOUD", "run"], SystemExit)}[case]
    old, sys.argv, out, sys.stdout, err, sys.stderr = sys.argv, ["castep_outputs", *argv], sys.stdout, io.StringIO(), sys.stderr, io.StringIO()
    try:
        S.raises(exc, main, case)
    finally:
        sys.argv, sys.stdout, sys.stderr = old, out, err


def cases(tier):
    n = len(ALL_NAMES)
    step = 2 if tier == "thorough" else 6
    return [*[(f"types{k}", types, dict(k=k)) for k in range(0, n, step)], *[(f"include_{ALL_NAMES[k]}", include, dict(k=k)) for k in range(n)],
            ("errors", errors), ("several", several), ("many", many), ("again", again), ("named", named), ("mixed", mixed), ("explicit", explicit), ("program", program), ("refused", refused)]
